"""The harness API, in two interpretations: symbolic (SymH) and concrete (ConH).
A harness is written once; a counterexample found symbolically is replayed by
running the same harness concretely against the unmodified code."""
from __future__ import annotations

import importlib
import struct


class Skip(Exception):
    """Concrete replay: inputs do not satisfy an assumption."""


class CheckFailed(Exception):
    pass


def bits(x):
    return struct.pack("<d", x)


def concrete_eq(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return bits(a) == bits(b) or a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(concrete_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b and concrete_eq(v, b[k]) for k, v in a.items())
    return a == b


class Base:
    def module(self, name):
        return importlib.import_module(name)


    def bounded(self, limit, fn, *a, **k):
        """Runs fn; (whether it took at most `limit` loop iterations in the code
        under test, its result, the exception it raised)"""
        from sx.work import bounded

        return bounded(limit, fn, *a, **k)

    def len(self, x):
        """Length without forcing a symbolic one to a value."""
        return x._len() if hasattr(x, "_len") else len(x)


class ConH(Base):
    symbolic = False

    def __init__(self, inputs, params):
        self.inputs = inputs
        self.p = params
        self.observed = {}
        self.nchecks = 0

    def _get(self, name, default):
        d = self.inputs.get(name)
        return default if d is None else d["value"]

    def int(self, name, lo, hi):
        v = self._get(name, lo)
        if not lo <= v <= hi:
            raise Skip(name)
        return v

    def bool(self, name):
        return bool(self._get(name, False))

    def pick(self, name, lo, hi):
        return self.int(name, lo, hi)

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def bytes(self, name, n):
        return bytes(self._get(name, [0] * n))

    def text(self, name, n, lo=0x21, hi=0x7E, ranges=None):
        return "".join(map(chr, self._get(name, [lo] * n)))

    def double(self, name):
        return struct.unpack("<d", bytes(self._get(name, [0] * 8)))[0]

    def blob(self, name, lo, hi):
        n = self.int(name, lo, hi)
        return bytes((i * 7 + 3) & 0xFF for i in range(n))

    def assume(self, c):
        if not c:
            raise Skip("assumption")

    def check(self, c, msg):
        self.nchecks += 1
        if not c:
            raise CheckFailed(msg)

    def same(self, a, b):
        return concrete_eq(a, b)

    def check_eq(self, a, b, msg):
        self.nchecks += 1
        if not concrete_eq(a, b):
            raise CheckFailed(f"{msg}: {_short(a)} != {_short(b)}")

    def all(self, conds):
        return all(conds)

    def any(self, conds):
        return any(conds)

    def ite(self, c, a, b):
        return a if c else b

    def not_(self, c):
        return not c

    def observe(self, name, v):
        self.observed[name] = v

    def stream(self, data=b""):
        import io

        return io.BytesIO(data)

    def call(self, fn, *a, allow=(), **k):
        """Run fn; returns (True, result) or (False, exception) for allowed kinds."""
        try:
            return True, fn(*a, **k)
        except allow as e:
            return False, e

    def unsummarised(self):
        import contextlib

        return contextlib.nullcontext()


def _short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


class SymH(Base):
    symbolic = True

    def __init__(self, params):
        self.p = params
        self.observed = {}

    def _g(self):
        from sx.core import eng

        return eng()

    def _reg(self, name, kind, obj):
        g = self._g()
        if name in g.inputs:
            raise RuntimeError(f"input {name} declared twice")
        g.inputs[name] = (kind, obj)

    def int(self, name, lo, hi):
        from sx.core import fresh_int

        if lo == hi:
            return lo
        v = fresh_int("in!" + name, lo, hi)
        self._reg(name, "int", v)
        return v

    def bool(self, name):
        import z3
        from sx.core import SymBool

        b = SymBool(z3.Bool("in!" + name))
        self._reg(name, "bool", b)
        return b

    def pick(self, name, lo, hi):
        v = self.int(name, lo, hi)
        if not hasattr(v, "concretize"):
            return v
        for x in range(lo, hi):
            if v == x:
                return x
        return hi

    def choice(self, name, options):
        return options[self.pick(name, 0, len(options) - 1)]

    def bytes(self, name, n):
        import z3
        from sx.seqs import SymBytes

        if n == 0:
            return b""
        cells = [z3.BitVec(f"in!{name}!{i}", 8) for i in range(n)]
        self._reg(name, "bytes", cells)
        return SymBytes(list(cells))

    def text(self, name, n, lo=0x21, hi=0x7E, ranges=None):
        from sx.core import fresh_int, or_, and_
        from sx.seqs import mkstr

        chars = []
        for i in range(n):
            if ranges:
                l, u = min(a for a, b in ranges), max(b for a, b in ranges)
                c = fresh_int(f"in!{name}!{i}", l, u)
                self._g().assume(or_(*[and_(c >= a, c <= b) for a, b in ranges]))
            else:
                c = fresh_int(f"in!{name}!{i}", lo, hi)
            chars.append(c)
        self._reg(name, "text", chars)
        return mkstr(chars)

    def double(self, name):
        import z3
        from sx.floats import Bits

        cells = [z3.BitVec(f"in!{name}!{i}", 8) for i in range(8)]
        self._reg(name, "double", cells)
        return Bits(cells)

    def blob(self, name, lo, hi):
        from sx.seqs import Blob, SymBytes

        n = self.int(name, lo, hi)
        return SymBytes([Blob(name, n)])

    def assume(self, c):
        self._g().assume(c)

    def check(self, c, msg):
        self._g().check(c, msg)

    def same(self, a, b):
        return deep_eq(a, b)

    def check_eq(self, a, b, msg):
        self._g().check(deep_eq(a, b), msg)

    def all(self, conds):
        from sx.core import and_

        return and_(*conds)

    def any(self, conds):
        from sx.core import or_

        return or_(*conds)

    def ite(self, c, a, b):
        from sx.core import ite

        return ite(c, a, b)

    def not_(self, c):
        from sx.core import not_

        return not_(c)

    def observe(self, name, v):
        self._g().path_data.setdefault("obs", {})[name] = v

    def stream(self, data=b""):
        from sx.seqs import SymBytesIO

        return SymBytesIO(data)

    def call(self, fn, *a, allow=(), **k):
        try:
            return True, fn(*a, **k)
        except allow as e:
            return False, e

    def unsummarised(self):
        from sx.summaries import disabled

        return disabled()


def deep_eq(a, b):
    from sx.core import and_
    from sx.containers import SxDict

    if a is b:
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return and_(*[deep_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        conds = []
        for k, v in a.items():
            if k in b:
                conds.append(deep_eq(v, b[k]))
            else:
                return False
        return and_(*conds)
    r = a == b
    return r if r is not NotImplemented else False


def _key(k):
    return tuple(_key(x) for x in k) if isinstance(k, list) else k


def to_concrete(model, v):
    """Evaluate an observed value under a model (for translator validation)."""
    import z3
    from sx import seqs as S, floats as F
    from sx.core import SymBool, SymInt

    def ev(e):
        return model.eval(e, model_completion=True)

    if type(v) is SymInt:
        return ev(v.e).as_signed_long()
    if type(v) is SymBool:
        return z3.is_true(ev(v.e))
    if isinstance(v, S.SymStr):
        return "".join(chr(c if type(c) is not SymInt else ev(c.e).as_signed_long()) for c in v.chars)
    if isinstance(v, S.SymBytes):
        out = []
        for c in v.cells:
            if isinstance(c, S.Token):
                for cond, cells in c.alts:
                    if z3.is_true(ev(cond)):
                        out += [x if isinstance(x, int) else ev(x).as_long() for x in cells]
                        break
            elif isinstance(c, S.Blob):
                n = to_concrete(model, c.length)
                o = to_concrete(model, c.off)
                out += [(i * 7 + 3) & 0xFF for i in range(o, o + n)]
            elif isinstance(c, int):
                out.append(c)
            else:
                out.append(ev(c).as_long())
        return bytes(out)
    if isinstance(v, F.Bits):
        return struct.unpack("<d", bytes(c if isinstance(c, int) else ev(c).as_long() for c in v.cells))[0]
    if isinstance(v, F.SymFloat):
        return v.fn(ev(v.num.e).as_signed_long())
    if isinstance(v, F.Ang):
        return v.fn(ev(v.num.e).as_signed_long())
    if type(v) in (list, tuple):
        return [to_concrete(model, x) for x in v]
    if isinstance(v, dict):
        return {_key(to_concrete(model, k)): to_concrete(model, x) for k, x in v.items()}
    if type(v).__name__ == "SxSet" or isinstance(v, (set, frozenset)):
        return sorted((to_concrete(model, x) for x in v), key=repr)
    return v


def norm_obs(v):
    """Canonical, comparable form of an observation."""
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v if not isinstance(v, str) else "s:" + v
    if isinstance(v, int):
        return int(v)
    if isinstance(v, float):
        return "f:" + bits(v).hex()
    if isinstance(v, (bytes, bytearray)):
        return "b:" + bytes(v).hex()
    if isinstance(v, (list, tuple)):
        return [norm_obs(x) for x in v]
    if isinstance(v, dict):
        return {repr(norm_obs(k)): norm_obs(x) for k, x in v.items()}
    if isinstance(v, (set, frozenset)):
        return [norm_obs(x) for x in sorted(v, key=repr)]
    return "o:" + type(v).__name__
