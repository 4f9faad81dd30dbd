"""Concrete runs of harnesses against the unmodified code.

  replay.py FILE          replay one recorded counterexample; exit 1 if it fails
  replay.py --batch       cases as JSON lines on stdin, results as JSON lines
"""
import importlib
import json
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VFB_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(REPO, "src"))

from sx.harness import CheckFailed, ConH, Skip, norm_obs  # noqa: E402


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def run_case(case, limit=20):
    import logging

    logging.disable(logging.CRITICAL)
    mod = importlib.import_module("checks." + case["module"])
    hs = {x.name: x for x in mod.HARNESSES}
    hn = hs[case["harness"]]
    h = ConH(case["inputs"], case["params"])
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    out = sys.stdout
    sys.stdout = open(os.devnull, "w")
    try:
        hn.fn(h)
        st, msg = "pass", ""
    except CheckFailed as e:
        st, msg = "fail", str(e)
    except Skip as e:
        st, msg = "skip", str(e)
    except Timeout:
        st, msg = "timeout", f"no result within {limit} s"
    except Exception as e:
        st, msg = "fail", f"unexpected {type(e).__name__}: {e}"
        h.observed["traceback"] = traceback.format_exc()[-1500:]
    finally:
        signal.alarm(0)
        sys.stdout = out
    return {"status": st, "msg": msg, "obs": {k: norm_obs(v) for k, v in h.observed.items()}}


def main():
    if sys.argv[1] == "--batch":
        for line in sys.stdin:
            r = run_case(json.loads(line))
            print(json.dumps(r), flush=True)
        return 0
    with open(sys.argv[1]) as f:
        case = json.load(f)
    r = run_case(case)
    print(json.dumps(r, indent=1))
    return 1 if r["status"] in ("fail", "timeout") else 0


if __name__ == "__main__":
    sys.exit(main())
