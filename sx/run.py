"""Run the solver-based check of one property."""
from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sx import loader  # noqa: E402

PY = "/opt/venv/bin/python"
STRICT = bool(os.environ.get("VERIF_STRICT"))
NJOBS = int(os.environ.get("VERIF_JOBS", "8"))


# a worker that needs more memory gets a MemoryError, which is then replayed natively
WORKER_MEMORY = 6 << 30
PATH_ALARM_S = 60


def limit_memory(n):
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (n if hard < 0 else min(n, hard), hard))


def preload(mod):
    loader.install(extra=getattr(mod, "EXTRA_PACKAGES", ()))


def _load_check(name):
    return importlib.import_module("checks." + name)


def _install_tracer(seen):
    mon = sys.monitoring
    tid = 4
    try:
        mon.use_tool_id(tid, "sx")
    except ValueError:
        return

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(loader.SRC):
            seen.add(os.path.relpath(fn, loader.SRC) + ":" + code.co_qualname)
        return mon.DISABLE

    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)


def job(conn, modname, hname, params, budget, nsamples):
    """Executed in a forked child."""
    from sx import core
    from sx.harness import SymH, norm_obs, to_concrete

    res = {"harness": hname, "params": params, "status": "ok", "msg": "", "samples": []}
    t0 = time.time()
    seen: set[str] = set()
    stats = core.Stats()
    limit_memory(WORKER_MEMORY)
    try:
        mod = _load_check(modname)
        hn = {x.name: x for x in mod.HARNESSES}[hname]
        _install_tracer(seen)
        g = core.Engine(deadline=t0 + budget, stats=stats)
        g.incomplete = None
        trace = [None]

        conc = [None]
        gaps = res["gaps"] = []

        def replay(inputs, msg):
            if conc[0] is None:
                conc[0] = Concrete()
            return conc[0].run({"module": modname, "harness": hname, "params": params,
                                "inputs": inputs, "message": msg})

        def gap(kind, msg, inputs, tr=None):
            """A path the encoding cannot decide: not a verdict; note it, go on."""
            gaps.append({"kind": kind, "msg": str(msg)[:300], "inputs": inputs,
                         "trace": tr})
            if len(gaps) >= 24 or kind == "budget":
                raise core.Inconclusive(f"{len(gaps)} undecided paths: {msg}")
            raise core.PathAbort(kind)

        def stuck(*_):
            """The path takes unusually long: does the real code finish for it?"""
            import z3

            if g.inputs:
                sv = z3.Solver()
                sv.set("timeout", 20000)
                sv.add(*g.solver.assertions())
                if sv.check() == z3.sat:
                    inputs = g.extract_inputs(sv.model())
                    c = replay(inputs, "does not end")
                    if c["status"] in ("fail", "timeout"):
                        v = core.Violation("does not end: " + c["msg"], inputs)
                        v.concrete = c
                        raise v
            signal.alarm(4 * PATH_ALARM_S)

        signal.signal(signal.SIGALRM, stuck)

        def run():
            c0 = g.stats.checks
            h = SymH(params)
            trace[0] = None
            signal.alarm(PATH_ALARM_S)
            try:
                body(h)
            finally:
                signal.alarm(0)
            g.path_data["nchecks"] = g.stats.checks - c0

        def body(h):
            try:
                try:
                    hn.fn(h)
                except Exception as e:
                    trace[0] = traceback.format_exc()[-3000:]
                    raise core.Violation(
                        f"unexpected {type(e).__name__}: {str(e)[:200]}",
                        g.extract_inputs(g._get_model()),
                    )
            except core.Violation as v:
                if getattr(v, "concrete", None):
                    raise
                c = replay(v.inputs, v.msg)
                if c["status"] in ("fail", "timeout"):
                    v.concrete = c
                    raise
                gap("spurious", v.msg, v.inputs, trace[0])
            except core.Inconclusive as e:
                tr = traceback.format_exc()[-2500:]
                if "time budget" in str(e):
                    raise
                try:
                    inputs = g.extract_inputs(g._get_model())
                except core.EngineSignal:
                    raise e
                c = replay(inputs, str(e))
                if c["status"] in ("fail", "timeout"):
                    v = core.Violation(c["msg"], inputs)
                    v.concrete = c
                    raise v
                gap("undecided", e, inputs, tr)

        reached = [0]

        def on_path(e):
            if e.path_data.get("nchecks"):
                reached[0] += 1
            # reachability witness: a model of some completed paths, replayed later
            n = e.stats.paths
            if len(res["samples"]) < nsamples and (n <= nsamples or n % 37 == 0):
                m = e._get_model()
                res["samples"].append(
                    {
                        "inputs": e.extract_inputs(m),
                        "obs": {
                            k: norm_obs(to_concrete(m, v))
                            for k, v in e.path_data.get("obs", {}).items()
                        },
                    }
                )

        g.explore(run, max_paths=hn.max_paths, on_path=on_path)
        if gaps:
            res["status"], res["msg"] = "inconclusive", f"{len(gaps)} undecided paths: {gaps[0]['msg']}"
            res["trace"] = gaps[0]["trace"]
        elif g.incomplete:
            res["status"], res["msg"] = "inconclusive", g.incomplete
        elif hn.needs_checks and not reached[0]:
            res["status"], res["msg"] = "inconclusive", "vacuous: no path reaches a check"
        res["reached"] = reached[0]
    except core.Violation as v:
        res["status"], res["msg"], res["inputs"] = "violation", v.msg, v.inputs
        res["concrete"] = getattr(v, "concrete", None)
        res["trace"] = trace[0]
    except core.Inconclusive as e:
        res["status"], res["msg"] = "inconclusive", str(e)
        res["trace"] = traceback.format_exc()[-2500:]
    except core.PathAbort as e:
        res["status"], res["msg"] = "inconclusive", f"stray abort {e}"
    except BaseException as e:
        res["status"], res["msg"] = "error", f"{type(e).__name__}: {e}"
        res["trace"] = traceback.format_exc()[-3000:]
    res["stats"] = dict(vars(stats))
    res["wall"] = time.time() - t0
    res["funcs"] = sorted(seen)
    try:
        from sx.summaries import SUM

        res["summaries"] = len(SUM.proved)
    except Exception:
        pass
    conn.send(res)
    conn.close()


class Concrete:
    """A long-lived interpreter with the unmodified code."""

    def __init__(self):
        env = dict(os.environ, PYTHONPATH="", PYTHONDONTWRITEBYTECODE="1")
        self.p = subprocess.Popen(
            [PY, os.path.join(HERE, "sx", "replay.py"), "--batch"],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
            text=True, env=env, preexec_fn=lambda: limit_memory(3 << 30),
        )

    def run(self, case):
        self.p.stdin.write(json.dumps(case) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            self.__init__()
            return {"status": "error", "msg": "concrete interpreter died", "obs": {}}
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()


def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                out.append(line[len("known: "):])
    return out


def main(argv):
    modname = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    only = [a[2:] for a in argv[1:] if a.startswith("-h")]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    verbose = "-v" in argv
    t0 = time.time()
    # the harness module decides what else is instrumented: read it plainly first
    sys.dont_write_bytecode = True
    import ast

    src = open(os.path.join(HERE, "checks", modname + ".py")).read()
    extra, prop, preimports = (), None, ()
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            if n.targets[0].id == "EXTRA_PACKAGES":
                extra = ast.literal_eval(n.value)
            if n.targets[0].id == "PROPERTY":
                prop = ast.literal_eval(n.value)
            if n.targets[0].id == "PREIMPORT":
                preimports = ast.literal_eval(n.value)
    loader.install(extra)
    try:
        import importlib as il

        for m in ("vfbLib.parsers.base", "vfbLib.compilers.base") + tuple(preimports):
            il.import_module(m)
        from sx import summaries

        mod = _load_check(modname)
        summaries.install()
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={prop}: cannot load the code under test")
        return 2
    total = float(os.environ.get("VERIF_BUDGET", "780" if tier == "quick" else "5400"))
    jobs = []
    for hn in mod.HARNESSES:
        if only and hn.name not in only:
            continue
        for p in hn.grid(tier):
            jobs.append((hn.name, p))
    ctx = mp.get_context("fork")
    pending = list(jobs)
    running = []
    results = []
    conc = Concrete()
    confirmed = []
    spurious = []
    repdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(repdir, exist_ok=True)

    def handle(r):
        results.append(r)
        if verbose or r["status"] not in ("ok",):
            s = r.get("stats", {})
            print(
                f"[{r['harness']} {r['params']}] {r['status']} {r['msg'][:300]} "
                f"paths={s.get('paths')} q={s.get('queries')} "
                f"solver={s.get('solver_s', 0):.1f}s wall={r.get('wall', 0):.1f}s",
                flush=True,
            )
            if r.get("trace") and (verbose or r["status"] == "error"):
                print(r["trace"])
        if r["status"] == "violation":
            case = {
                "property": prop, "module": modname, "harness": r["harness"],
                "params": r["params"], "inputs": r["inputs"], "message": r["msg"],
            }
            c = r.get("concrete") or conc.run(case)
            if c["status"] in ("fail", "timeout"):
                path = os.path.join(repdir, f"{prop}-{r['harness'].replace(' ', '_')}-{len(confirmed)}.json")
                case["observed"] = c
                with open(path, "w") as f:
                    json.dump(case, f, indent=1)
                confirmed.append((r, c, path))
            else:
                spurious.append((r, c))
                print(f"counterexample did not reproduce: {r['harness']} {r['params']} "
                      f"{r['msg']} inputs={json.dumps(r['inputs'])[:600]} -> {c}")
                if r.get("trace"):
                    print(r["trace"])

    while pending or running:
        left = total - (time.time() - t0)
        while pending and len(running) < NJOBS and left > 0:
            hname, p = pending.pop(0)
            a, b = ctx.Pipe(False)
            pr = ctx.Process(target=job, args=(b, modname, hname, p, left, 3))
            pr.start()
            b.close()
            running.append((pr, a, hname, p))
        if left <= 0:
            for hname, p in pending:
                results.append({"harness": hname, "params": p, "status": "inconclusive",
                                "msg": "not started: time budget", "stats": {}, "samples": [], "funcs": []})
            pending = []
        mp.connection.wait([x[1] for x in running], timeout=1)
        for x in list(running):
            pr, a, hname, p = x
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = {"harness": hname, "params": p, "status": "error",
                         "msg": "worker died", "stats": {}, "samples": [], "funcs": []}
            elif left < -30:
                pr.kill()
                r = {"harness": hname, "params": p, "status": "inconclusive",
                     "msg": "killed: time budget", "stats": {}, "samples": [], "funcs": []}
            if r is not None:
                pr.join(5)
                running.remove(x)
                handle(r)
        if confirmed:
            for pr, *_ in running:
                pr.kill()
            break

    # translator validation: replay models of completed paths on the real code
    validated = 0
    mismatches = []
    if not confirmed:
        for r in results:
            for s in r["samples"]:
                case = {"module": modname, "harness": r["harness"], "params": r["params"],
                        "inputs": s["inputs"]}
                c = conc.run(case)
                if c["status"] == "pass" and c["obs"] == s["obs"]:
                    validated += 1
                elif c["status"] in ("fail", "timeout"):
                    path = os.path.join(repdir, f"{prop}-{r['harness'].replace(' ', '_')}-s.json")
                    case.update(property=prop, message=c["msg"], observed=c)
                    with open(path, "w") as f:
                        json.dump(case, f, indent=1)
                    confirmed.append((dict(r, msg=c["msg"], inputs=s["inputs"]), c, path))
                    break
                else:
                    mismatches.append((r["harness"], r["params"], s, c))
            if confirmed:
                break
    conc.close()
    bad = [r for r in results if r["status"] in ("inconclusive", "error")]
    agg = {k: sum(r.get("stats", {}).get(k, 0) for r in results)
           for k in ("queries", "solver_s", "paths", "aborted", "checks", "branches", "forks", "trivial")}
    funcs = sorted({f for r in results for f in r["funcs"]})
    samples = []
    for r in results:
        for s in r["samples"][:1]:
            samples.append({"harness": r["harness"], "params": r["params"], "inputs": s["inputs"],
                            "outcome": s["obs"]})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": {
            "states": agg["paths"] + agg["aborted"],
            "transitions": agg["branches"],
            "traces_validated_against_impl": validated,
            "samples": samples[:12],
            "harnesses": [
                {"name": h.name, "bounds": h.bounds,
                 "runs": [{"params": r["params"], "status": r["status"],
                           "paths": r.get("stats", {}).get("paths"),
                           "checks": r.get("stats", {}).get("checks"),
                           "queries": r.get("stats", {}).get("queries"),
                           "solver_s": round(r.get("stats", {}).get("solver_s", 0), 3),
                           "paths_reaching_a_check": r.get("reached"),
                           "wall_s": round(r.get("wall", 0), 2)}
                          for r in results if r["harness"] == h.name]}
                for h in mod.HARNESSES
            ],
            "functions_encoded": funcs,
            "solver_queries": agg["queries"],
            "solver_seconds": round(agg["solver_s"], 3),
            "assertions_discharged": agg["checks"],
            "explanation": "states = complete symbolic paths; transitions = symbolic "
            "branch decisions settled by z3; every assertion is discharged by z3 for all "
            "values on its path within the stated bounds.",
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
        "undecided": [
            {"harness": r["harness"], "params": r["params"], "why": r["msg"][:300]} for r in bad
        ] + [{"harness": m[0], "params": m[1], "why": "encoding mismatch"} for m in mismatches],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(confirmed),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k in known_findings():
        if k.startswith(f"property={prop} "):
            print(f"KNOWN-FINDING: {k}")
    print(
        f"{prop} {tier}: harness runs={len(results)} paths={agg['paths']} "
        f"queries={agg['queries']} solver={agg['solver_s']:.1f}s validated={validated} "
        f"wall={time.time() - t0:.1f}s"
    )
    if confirmed:
        for r, c, path in confirmed:
            print(f"  {r['harness']} {r['params']}: {r['msg'][:300]}")
            print(f"  replay on the real code: {c['status']}: {c['msg'][:300]}")
            print(f"VIOLATION property={prop} replay={os.path.relpath(path, HERE)}")
        return 1
    if spurious or mismatches or bad:
        for m in mismatches[:5]:
            print("encoding mismatch:", json.dumps(m, default=str)[:1500])
        for r in bad:
            print(f"undecided: {r['harness']} {r['params']}: {r['msg'][:300]}")
        decided = [r for r in results if r["status"] == "ok"]
        if STRICT or not decided:
            print(f"ERROR property={prop}: no verdict")
            return 2
        print(f"INCOMPLETE property={prop}: {len(decided)} of {len(results)} harness runs "
              "decided; the rest is listed above and in the evidence as undecided")
    print(f"OK property={prop}")
    return 0


COMMON_ASSUMPTIONS = [
    "CPython 3.12 semantics of the builtin types as modelled in sx/ (checked on this run "
    "by replaying models of explored paths on the unmodified code and comparing outcomes)",
    "logging calls have no effect on behaviour",
]

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
