"""Solver-proved summaries of the encoded-integer writer and reader.

The real writer is executed symbolically on one integer over its whole domain; the
outcome is kept as a token (case condition -> bytes).  The real reader is executed
symbolically over that token; when the solver shows it returns the integer and
consumes exactly the token, later reads of a token return the integer directly.
Both are recomputed from the current source in every process.  If the summary
cannot be established, the functions simply run unsummarised.
"""
from __future__ import annotations

import inspect
import sys

import z3

from sx import seqs as S
from sx.core import (
    Engine,
    Inconclusive,
    PathAbort,
    SymBool,
    SymInt,
    Violation,
    _current,
    eng,
    fresh_int,
    ite,
    mkint,
    width_for,
)

DOMAINS = [(-(1 << 31), (1 << 31) - 1), (-1131, (1 << 32) - 1)]


class Summaries:
    def __init__(self):
        self.write_t = {}
        self.read_t = {}
        self.same_t = {}
        self.enabled = True
        self.proved = []

    # -- writer ----------------------------------------------------------
    def writer_template(self, fn, key, call):
        """[(cond, cells)] over a fresh variable, or None."""
        if key in self.write_t:
            return self.write_t[key]
        dom = DOMAINS[1] if _unsigned(key) else DOMAINS[0]
        w = width_for(*dom)
        v = z3.BitVec("ev!v", w)
        alts = []
        g = Engine(timeout_ms=20000, base=[v >= dom[0], v <= dom[1]])
        val = SymInt(v, *dom)

        def run():
            st = S.SymBytesIO()
            call(fn, val, st)
            g.path_data["cells"] = list(st.cells)

        def done(e):
            conds = [
                t.expr if t.value else z3.Not(t.expr)
                for t in e.trace
                if t.kind == "branch"
            ]
            alts.append((z3.simplify(z3.And(*conds)) if conds else z3.BoolVal(True),
                         e.path_data["cells"]))

        res = None
        try:
            g.explore(run, max_paths=64, on_path=done)
            if all(not isinstance(c, S.Segment) for _, cs in alts for c in cs):
                res = (v, dom, alts)
        except (Exception, Inconclusive, Violation):
            res = None
        self.write_t[key] = res
        return res

    def same_encoder(self, k1, k2):
        """Proved once per pair: equal integers (in both domains) give equal bytes."""
        k = (k1, k2)
        if k in self.same_t:
            return self.same_t[k]
        a, b = self.write_t.get(k1), self.write_t.get(k2)
        ok = False
        if a and b:
            (va, da, aa), (vb, db, ab) = a, b
            lo, hi = max(da[0], db[0]), min(da[1], db[1])
            w = max(va.size(), vb.size())
            x = z3.BitVec("same!v", w)

            def sub(e, v):
                return z3.substitute(e, (v, z3.Extract(v.size() - 1, 0, x)))

            bad = []
            for ca, xs in aa:
                for cb, ys in ab:
                    c = z3.And(sub(ca, va), sub(cb, vb))
                    if len(xs) != len(ys):
                        bad.append(c)
                        continue
                    eqs = []
                    for p, q in zip(xs, ys):
                        p = S.bv8(p) if isinstance(p, int) else sub(p, va)
                        q = S.bv8(q) if isinstance(q, int) else sub(q, vb)
                        eqs.append(p == q)
                    bad.append(z3.And(c, z3.Not(z3.And(*eqs))))
            s = z3.Solver()
            s.set("timeout", 20000)
            s.add(x >= lo, x <= hi, z3.Or(*bad))
            ok = s.check() == z3.unsat
        self.same_t[k] = self.same_t[(k2, k1)] = ok
        return ok

    def write(self, fn, key, value, stream, call):
        t = self.writer_template(fn, key, call)
        if t is None:
            return False
        v, dom, alts = t
        if not (dom[0] <= value.lo and value.hi <= dom[1]):
            if not (value >= dom[0]) or not (value <= dom[1]):
                return False
        e = S_fit(value, v.size())
        inst = []
        for cond, cells in alts:
            inst.append(
                (
                    z3.simplify(z3.substitute(cond, (v, e))),
                    [
                        c if isinstance(c, int)
                        else S.norm_cell(z3.simplify(z3.substitute(c, (v, e))))
                        for c in cells
                    ],
                )
            )
        inst = [(c, b) for c, b in inst if not z3.is_false(c)]
        if len(inst) == 1:
            stream.write(S.mkbytes(inst[0][1]))
            return True
        stream.write(S.SymBytes([S.Token(value, inst, key)]))
        return True

    # -- reader ------------------------------------------------------------
    def reader_template(self, fn, wkey, rkey, call):
        k = (wkey, rkey)
        if k in self.read_t:
            return self.read_t[k]
        wt = self.write_t.get(wkey)
        res = None
        if wt is not None:
            v, dom, alts = wt
            merged = None
            ok = True
            for cond, cells in reversed(alts):
                g = Engine(timeout_ms=20000, base=[v >= dom[0], v <= dom[1], cond])
                outs = []

                def run():
                    st = S.SymBytesIO(S.SymBytes(list(cells)))
                    r = call(fn, st)
                    if st.pos != len(st.cells):
                        raise ValueError("not fully consumed")
                    outs.append(
                        (
                            [
                                t.expr if t.value else z3.Not(t.expr)
                                for t in g.trace
                                if t.kind == "branch"
                            ],
                            r,
                        )
                    )

                try:
                    g.explore(run, max_paths=64)
                except (Exception, Inconclusive, Violation):
                    ok = False
                    break
                for pc, r in outs:
                    if merged is None:
                        merged = r
                    else:
                        c = z3.And(cond, *pc)
                        merged = ite(SymBool(c), r, merged)
            if ok and merged is not None:
                s = z3.Solver()
                s.set("timeout", 20000)
                s.add(v >= dom[0], v <= dom[1])
                diff = SymInt(v, *dom) == merged
                if diff is True:
                    res = ("id", None)
                elif diff is not False:
                    s.add(z3.Not(diff.e))
                    if s.check() == z3.unsat:
                        res = ("id", None)
                if res == ("id", None):
                    self.proved.append(k)
                if res is None and type(merged) is SymInt:
                    res = ("expr", (v, merged))
        self.read_t[k] = res
        return res

    def read(self, fn, rkey, stream, call):
        """(True, value) when served from a token."""
        if stream.pos >= len(stream.cells):
            return False, None
        c = stream.cells[stream.pos]
        if type(c) is not S.Token:
            return False, None
        t = self.reader_template(fn, c.key, rkey, call)
        if t is None:
            return False, None
        kind, d = t
        stream.pos += 1
        if kind == "id":
            return True, c.value
        v, merged = d
        e = S_fit(c.value, v.size())
        return True, mkint(z3.substitute(merged.e, (v, e)), merged.lo, merged.hi)


def _unsigned(key):
    return any(k == "signed" and v is False for k, v in key)


def S_fit(value, w):
    from sx.core import _fit

    return _fit(value.e, w)


SUM = Summaries()


def _bind(fn, args, kw, names):
    """Split a call into named main args and an options key."""
    sig = inspect.signature(fn)
    b = sig.bind(*args, **kw)
    b.apply_defaults()
    opts = tuple(
        sorted((k, v) for k, v in b.arguments.items() if k not in names)
    )
    return b.arguments, opts


def install():
    """Wrap every encoded-integer function visible in the loaded modules."""
    mods = {n: m for n, m in sys.modules.items() if n == "vfbLib" or n.startswith("vfbLib.")}
    wrapped = {}

    def wrap_writer(fn):
        def w(*args, **kw):
            try:
                a, opts = _bind(fn, args, kw, ("value", "stream"))
                value, stream = a["value"], a["stream"]
            except (TypeError, KeyError):
                return fn(*args, **kw)
            if type(value) is SymInt and type(stream) is S.SymBytesIO and SUM.enabled:
                kwo = dict(opts)
                key = (("fn", fn.__name__),) + opts

                def call(f, v, st):
                    return f(value=v, stream=st, **kwo)

                if SUM.write(fn, key, value, stream, call):
                    return None
            return fn(*args, **kw)

        w.__wrapped__ = fn
        w.__name__ = fn.__name__
        return w

    def wrap_reader(fn):
        def r(*args, **kw):
            try:
                a, opts = _bind(fn, args, kw, ("stream",))
                stream = a["stream"]
            except (TypeError, KeyError):
                return fn(*args, **kw)
            if type(stream) is S.SymBytesIO and SUM.enabled:
                kwo = dict(opts)

                def call(f, st):
                    return f(stream=st, **kwo)

                ok, v = SUM.read(fn, opts, stream, call)
                if ok:
                    return v
            return fn(*args, **kw)

        r.__wrapped__ = fn
        r.__name__ = fn.__name__
        return r

    for n, m in mods.items():
        for name, mk in (("write_value", wrap_writer), ("write_value_long", wrap_writer),
                         ("read_value", wrap_reader)):
            f = m.__dict__.get(name)
            if callable(f) and hasattr(f, "__code__"):
                if f not in wrapped:
                    if hasattr(f, "__wrapped__"):
                        continue
                    wrapped[f] = mk(f)
                m.__dict__[name] = wrapped[f]
    # the stream classes' own methods, in case the functions moved
    try:
        SR = sys.modules["vfbLib.parsers.base"].StreamReader
        SW = sys.modules["vfbLib.compilers.base"].StreamWriter
    except (KeyError, AttributeError):
        return
    ow = SW.__dict__.get("write_value")
    orr = SR.__dict__.get("read_value")
    if ow is not None and not hasattr(ow, "_sxw"):

        def write_value(self, *args, **kw):
            try:
                a, opts = _bind(ow, (self,) + args, kw, ("self", "value"))
                value = a["value"]
            except (TypeError, KeyError):
                return ow(self, *args, **kw)
            st = getattr(self, "stream", None)
            if type(value) is SymInt and type(st) is S.SymBytesIO and SUM.enabled:
                kwo = dict(opts)
                key = (("fn", "method"),) + opts

                def call(f, v, s):
                    o = SW()
                    o.stream = s
                    en, SUM.enabled = SUM.enabled, False
                    try:
                        return f(o, v, **kwo)
                    finally:
                        SUM.enabled = en

                if SUM.write(ow, key, value, st, call):
                    return None
            return ow(self, *args, **kw)

        write_value._sxw = True
        write_value.__wrapped__ = ow
        SW.write_value = write_value
    if orr is not None and not hasattr(orr, "_sxw"):

        def read_value(self, *args, **kw):
            try:
                a, opts = _bind(orr, (self,) + args, kw, ("self",))
            except TypeError:
                return orr(self, *args, **kw)
            st = getattr(self, "stream", None)
            if type(st) is S.SymBytesIO and SUM.enabled:
                kwo = dict(opts)

                def call(f, s):
                    o = SR()
                    o.stream = s
                    return f(o, **kwo)

                ok, v = SUM.read(orr, (("m", 1),) + opts, st, call)
                if ok:
                    return v
            return orr(self, *args, **kw)

        read_value._sxw = True
        read_value.__wrapped__ = orr
        SR.read_value = read_value


class disabled:
    """Context manager: run the codec unsummarised."""

    def __enter__(self):
        self.old = SUM.enabled
        SUM.enabled = False

    def __exit__(self, *a):
        SUM.enabled = self.old
