"""Dynamic symbolic execution core: engine, SymBool, SymInt.

Paths are explored by re-executing the harness with a decision prefix.  Every
branch on a symbolic condition is decided by z3; both feasible sides are explored.
"""
from __future__ import annotations

import time

import z3


class EngineSignal(BaseException):
    """Base of all control-flow signals (never caught by `except Exception`)."""


class PathAbort(EngineSignal):
    """The path condition is infeasible (failed assumption)."""


class Violation(EngineSignal):
    def __init__(self, msg, inputs, exc=None):
        super().__init__(msg)
        self.msg = msg
        self.inputs = inputs
        self.exc = exc


class Inconclusive(EngineSignal):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.aborted = 0
        self.checks = 0
        self.branches = 0
        self.forks = 0
        self.trivial = 0


class _T:
    """Trace entry."""

    __slots__ = ("kind", "expr", "value", "alt", "pushed")

    def __init__(self, kind, expr, value=None, alt=False, pushed=False):
        self.kind = kind
        self.expr = expr
        self.value = value
        self.alt = alt
        self.pushed = pushed


_current: list["Engine"] = []


def eng() -> "Engine":
    if not _current:
        raise RuntimeError("symbolic value used outside of symbolic execution")
    return _current[-1]


def active() -> bool:
    return bool(_current)


def _equivalent(a, b):
    """(simplify orders operands by age, so the same term can come out in another order)"""
    if a.sort() != b.sort():
        return False
    s = z3.Solver()
    s.set("timeout", 20000)
    s.add(a != b)
    return s.check() == z3.unsat


class Engine:
    def __init__(self, timeout_ms=60000, deadline=None, base=None, stats=None):
        self.solver = z3.SolverFor("QF_AUFBV") if False else z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.trace: list[_T] = []
        self.pos = 0
        self.model = None
        self.stats = stats or Stats()
        self.deadline = deadline
        self.inputs: dict[str, tuple] = {}
        self.fresh_n = 0
        self.path_data = {}
        if base:
            for b in base:
                self.solver.add(b)

    # -- solver -----------------------------------------------------------
    def _check(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise Inconclusive("time budget exceeded")
        t = time.time()
        self.stats.queries += 1
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            raise Inconclusive(f"solver unknown: {self.solver.reason_unknown()}")
        return r == z3.sat

    def _get_model(self):
        if self.model is None:
            if not self._check():
                raise PathAbort("infeasible")
            self.model = self.solver.model()
        return self.model

    def feasible(self, cond) -> bool:
        return self._check(cond)

    def valid(self, cond) -> bool:
        """Is cond implied by the path condition?  Result is traced."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.trace):
            t = self._replay("valid", cond)
            return t.value
        m = self._get_model()
        if z3.is_false(m.eval(cond, model_completion=True)):
            r = False
        else:
            r = not self._check(z3.Not(cond))
        self.trace.append(_T("valid", cond, r))
        self.pos += 1
        return r

    def _replay(self, kind, expr):
        t = self.trace[self.pos]
        if t.kind != kind or (expr is not None and not t.expr.eq(expr) and not _equivalent(t.expr, expr)):
            raise Inconclusive(
                f"non-deterministic re-execution: {t.kind} vs {kind}: "
                f"{str(t.expr)[:200]} vs {str(expr)[:200]}"
            )
        self.pos += 1
        return t

    def branch(self, cond) -> bool:
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.trace):
            return self._replay("branch", cond).value
        self.stats.branches += 1
        if self.stats.branches % 64 == 0 and self.deadline and time.time() > self.deadline:
            raise Inconclusive("time budget exceeded")
        m = self._get_model()
        v = z3.is_true(m.eval(cond, model_completion=True))
        other = z3.Not(cond) if v else cond
        if self._check(other):
            self.stats.forks += 1
            self.solver.push()
            self.solver.add(cond if v else z3.Not(cond))
            self.trace.append(_T("branch", cond, v, alt=True, pushed=True))
        else:
            self.trace.append(_T("branch", cond, v))
        self.pos += 1
        return v

    def assume(self, cond) -> None:
        if isinstance(cond, SymBool):
            cond = cond.e
        if isinstance(cond, bool):
            if not cond:
                raise PathAbort("assume False")
            return
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathAbort("assume False")
        if self.pos < len(self.trace):
            t = self._replay("assume", cond)
            if not t.value:
                raise PathAbort("infeasible assumption")
            return
        if self.model is not None and z3.is_true(
            self.model.eval(cond, model_completion=True)
        ):
            self.solver.add(cond)
            ok = True
        else:
            self.solver.add(cond)
            self.model = None
            ok = self._check()
            if ok:
                self.model = self.solver.model()
        self.trace.append(_T("assume", cond, ok))
        self.pos += 1
        if not ok:
            raise PathAbort("infeasible assumption")

    def pick_value(self, e):
        """A feasible value of expression e (traced so re-execution is
        deterministic)."""
        e = z3.simplify(e)
        if self.pos < len(self.trace):
            return self._replay("pick", e).value
        m = self._get_model()
        v = m.eval(e, model_completion=True)
        self.trace.append(_T("pick", e, v))
        self.pos += 1
        return v

    def few(self, e, n):
        """Has the expression at most n feasible values?  Traced."""
        e = z3.simplify(e)
        if self.pos < len(self.trace):
            return self._replay("few", e).value
        vals = [self._get_model().eval(e, model_completion=True)]
        while len(vals) <= n and self._check(*[e != v for v in vals]):
            vals.append(self.solver.model().eval(e, model_completion=True))
        r = len(vals) <= n
        self.trace.append(_T("few", e, r))
        self.pos += 1
        return r

    def check(self, cond, msg) -> None:
        """Assert cond on this path: the solver must refute its negation."""
        if isinstance(cond, SymBool):
            cond = cond.e
        self.stats.checks += 1
        if isinstance(cond, bool):
            if cond:
                self.stats.trivial += 1
                return
            self._get_model()
            raise Violation(msg, self.extract_inputs(self._get_model()))
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            self.stats.trivial += 1
            return
        if self.pos < len(self.trace):
            self._replay("check", cond)
            return
        neg = z3.Not(cond)
        if self._check(neg):
            raise Violation(msg, self.extract_inputs(self.solver.model()))
        self.trace.append(_T("check", cond, True))
        self.pos += 1

    # -- inputs -------------------------------------------------------------
    def extract_inputs(self, model):
        out = {}
        for name, (kind, obj) in self.inputs.items():
            out[name] = {"kind": kind, "value": _model_value(model, obj)}
        return out

    # -- exploration ----------------------------------------------------------
    def _backtrack(self) -> bool:
        tr = self.trace
        while tr:
            t = tr.pop()
            if t.pushed:
                self.solver.pop()
                if t.alt:
                    self.model = None
                    self.solver.push()
                    v = not t.value
                    self.solver.add(t.expr if v else z3.Not(t.expr))
                    tr.append(_T("branch", t.expr, v, alt=False, pushed=True))
                    return True
        return False

    def explore(self, fn, max_paths=None, on_path=None):
        """Run fn over all feasible paths."""
        while True:
            self.pos = 0
            self.fresh_n = 0
            self.inputs = {}
            self.path_data = {}
            _current.append(self)
            try:
                fn()
                if self.pos < len(self.trace):
                    raise Inconclusive("re-execution shorter than recorded trace")
                self.stats.paths += 1
                if on_path is not None:
                    on_path(self)
            except PathAbort:
                self.stats.aborted += 1
            finally:
                _current.pop()
            if max_paths and self.stats.paths + self.stats.aborted >= max_paths:
                raise Inconclusive(f"path budget exceeded ({max_paths})")
            if not self._backtrack():
                return


def _model_value(model, obj):
    if isinstance(obj, (list, tuple)):
        return [_model_value(model, o) for o in obj]
    if isinstance(obj, SymInt):
        v = model.eval(obj.e, model_completion=True)
        return v.as_signed_long()
    if isinstance(obj, SymBool):
        return z3.is_true(model.eval(obj.e, model_completion=True))
    if z3.is_expr(obj):
        v = model.eval(obj, model_completion=True)
        if z3.is_bv_value(v):
            return v.as_long()
        if z3.is_bool(v):
            return z3.is_true(v)
        return str(v)
    return obj


# --------------------------------------------------------------------------
# SymBool
# --------------------------------------------------------------------------


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return eng().branch(self.e)

    def __and__(self, o):
        ob = as_z3bool(o)
        if ob is None:
            return self._int() & o
        return mkbool(z3.And(self.e, ob))

    __rand__ = __and__

    def __or__(self, o):
        ob = as_z3bool(o)
        if ob is None:
            return self._int() | o
        return mkbool(z3.Or(self.e, ob))

    __ror__ = __or__

    def __xor__(self, o):
        ob = as_z3bool(o)
        if ob is None:
            return self._int() ^ o
        return mkbool(z3.Xor(self.e, ob))

    __rxor__ = __xor__

    def __invert__(self):
        return ~self._int()

    def __eq__(self, o):
        ob = as_z3bool(o)
        if ob is not None:
            return mkbool(self.e == ob)
        return self._int() == o

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def _int(self):
        return SymInt(z3.If(self.e, z3.BitVecVal(1, 9), z3.BitVecVal(0, 9)), 0, 1)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __repr__(self):
        return "<symbool>"

    def __str__(self):
        return str(bool(self))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __format__(self, spec):
        return format(bool(self), spec)


for _n in (
    "add radd sub rsub mul rmul lshift rlshift rshift rrshift lt le gt ge "
    "floordiv rfloordiv mod rmod neg abs truediv rtruediv pow rpow"
).split():

    def _mk(n):
        def f(self, *a):
            return getattr(self._int(), n)(*a)

        return f

    setattr(SymBool, f"__{_n}__", _mk(f"__{_n}__"))


def as_z3bool(o):
    if isinstance(o, SymBool):
        return o.e
    if o is True or o is False:
        return z3.BoolVal(o)
    return None


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def not_(b):
    if type(b) is SymBool:
        return mkbool(z3.Not(b.e))
    if b is NotImplemented:
        return b
    return not b


def and_(*bs):
    es = []
    for b in bs:
        if type(b) is SymBool:
            es.append(b.e)
        elif not b:
            return False
    if not es:
        return True
    return mkbool(z3.And(*es))


def or_(*bs):
    es = []
    for b in bs:
        if type(b) is SymBool:
            es.append(b.e)
        elif b:
            return True
    if not es:
        return False
    return mkbool(z3.Or(*es))


def implies_(a, b):
    return or_(not_(a), b)


# --------------------------------------------------------------------------
# SymInt: python int semantics over bit-vectors with interval tracking
# --------------------------------------------------------------------------

_WIDTHS = (9, 17, 33, 41, 65, 97, 129, 193, 257)


def width_for(lo, hi):
    n = max(lo.bit_length(), hi.bit_length(), (-lo - 1).bit_length() if lo < 0 else 0) + 1
    for w in _WIDTHS:
        if n <= w:
            return w
    raise Inconclusive(f"integer interval too wide: {n} bits")


def _fit(e, w):
    s = e.size()
    if s < w:
        return z3.SignExt(w - s, e)
    if s > w:
        return z3.Extract(w - 1, 0, e)
    return e


def mkint(e, lo, hi):
    """Normalise; return python int when constant."""
    if lo == hi:
        return lo
    e = z3.simplify(_fit(e, width_for(lo, hi)))
    if z3.is_bv_value(e):
        return e.as_signed_long()
    return SymInt(e, lo, hi)


def is_intlike(o):
    t = type(o)
    return t is SymInt or t is SymBool or isinstance(o, int)


def _parts(o):
    """(expr, lo, hi) or None."""
    t = type(o)
    if t is SymInt:
        return o
    if t is SymBool:
        return o._int()
    if isinstance(o, int):
        o = int(o)
        return SymInt(z3.BitVecVal(o, width_for(o, o)), o, o)
    return None


def _lin_of(a):
    """(atoms {key: (coefficient, SymInt)}, constant) of a SymInt."""
    if a.lin is not None:
        return a.lin
    if a.lo == a.hi:
        return {}, a.lo
    return {a.e.get_id(): (1, a)}, 0


def _lin_comb(a, b, sign):
    (ta, ca), (tb, cb) = _lin_of(a), _lin_of(b)
    t = dict(ta)
    for k, (c, at) in tb.items():
        c0 = t[k][0] if k in t else 0
        c = c0 + sign * c
        if c:
            t[k] = (c, at)
        else:
            del t[k]
    return t, ca + sign * cb


def _lin_bounds(lin):
    t, c = lin
    lo = hi = c
    for k, at in t.values():
        lo += k * (at.lo if k > 0 else at.hi)
        hi += k * (at.hi if k > 0 else at.lo)
    return lo, hi


def _lin_result(lin, expr, lo, hi):
    """A SymInt for a linear combination; cancelled terms disappear."""
    t, c = lin
    if not t:
        return c
    if len(t) == 1 and c == 0:
        ((k, at),) = t.values()
        if k == 1:
            return at
    l2, h2 = _lin_bounds(lin)
    r = mkint(expr(), max(lo, l2), min(hi, h2))
    if type(r) is SymInt and len(t) <= 200:
        r.lin = lin
    return r


class SymInt:
    __slots__ = ("e", "lo", "hi", "lin")

    def __init__(self, e, lo, hi):
        self.e = e
        self.lo = lo
        self.hi = hi
        self.lin = None

    @property
    def __class__(self):
        return int

    # -- helpers
    def at(self, w):
        return _fit(self.e, w)

    @property
    def real(self):
        return self

    numerator = real

    @property
    def imag(self):
        return 0

    @property
    def denominator(self):
        return 1

    def is_integer(self):
        return True

    def conjugate(self):
        return self

    def __repr__(self):
        return "<symint>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def concretize(self, limit=600):
        g = eng()
        for _ in range(limit):
            m = g.pick_value(self.e)
            if g.branch(self.e == m):
                return m.as_signed_long()
        raise Inconclusive("concretisation of a wide symbolic integer")

    def __index__(self):
        return self.concretize()

    def __int__(self):
        return self.concretize()

    def __hash__(self):
        return hash(self.concretize())

    def __float__(self):
        raise Inconclusive("float() of symbolic int")

    def __str__(self):
        return str(self.concretize())

    def __format__(self, spec):
        return format(self.concretize(), spec)

    def __bool__(self):
        if self.lo > 0 or self.hi < 0:
            return True
        return eng().branch(self.e != 0)

    # -- comparison
    def _cmp(self, o, op):
        if isinstance(o, float):
            if o != o:
                return op == "ne"
            import math

            if o in (math.inf, -math.inf):
                return {"eq": False, "ne": True, "lt": o > 0, "le": o > 0,
                        "gt": o < 0, "ge": o < 0}[op]
            if o == int(o):
                o = int(o)
            else:
                fl = math.floor(o)
                if op == "eq":
                    return False
                if op == "ne":
                    return True
                if op in ("lt", "le"):
                    return self._cmp(fl, "le")
                return self._cmp(fl, "gt")
        p = _parts(o)
        if p is None:
            return NotImplemented
        a, b = self, p
        if op == "eq":
            if a.hi < b.lo or b.hi < a.lo:
                return False
        elif op == "ne":
            if a.hi < b.lo or b.hi < a.lo:
                return True
        elif op == "lt":
            if a.hi < b.lo:
                return True
            if a.lo >= b.hi:
                return False
        elif op == "le":
            if a.hi <= b.lo:
                return True
            if a.lo > b.hi:
                return False
        elif op == "gt":
            if a.lo > b.hi:
                return True
            if a.hi <= b.lo:
                return False
        elif op == "ge":
            if a.lo >= b.hi:
                return True
            if a.hi < b.lo:
                return False
        if a.lin is not None or b.lin is not None:
            dlo, dhi = _lin_bounds(_lin_comb(a, b, -1))
            if op in ("eq", "ne"):
                if dlo == dhi == 0:
                    return op == "eq"
                if dlo > 0 or dhi < 0:
                    return op == "ne"
            elif op == "lt" and (dhi < 0 or dlo >= 0):
                return dhi < 0
            elif op == "le" and (dhi <= 0 or dlo > 0):
                return dhi <= 0
            elif op == "gt" and (dlo > 0 or dhi <= 0):
                return dlo > 0
            elif op == "ge" and (dlo >= 0 or dhi < 0):
                return dlo >= 0
        w = max(a.e.size(), b.e.size())
        x, y = a.at(w), b.at(w)
        if op == "eq":
            return mkbool(x == y)
        if op == "ne":
            return mkbool(x != y)
        if op == "lt":
            return mkbool(x < y)
        if op == "le":
            return mkbool(x <= y)
        if op == "gt":
            return mkbool(x > y)
        return mkbool(x >= y)

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "ne")

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    # -- arithmetic
    def _arith(self, o, fn, lohi, lin=None, mul=False):
        p = _parts(o)
        if p is None:
            return NotImplemented
        lo, hi = lohi(self, p)
        w = max(width_for(lo, hi), self.e.size(), p.e.size())

        def expr():
            return fn(self.at(w), p.at(w))

        if lin is not None:
            return _lin_result(_lin_comb(self, p, lin), expr, lo, hi)
        r = mkint(expr(), lo, hi)
        if mul and type(r) is SymInt:
            for x, k in ((self, p), (p, self)):
                if k.lo == k.hi and k.lo:
                    t, c = _lin_of(x)
                    r.lin = ({i: (n * k.lo, at) for i, (n, at) in t.items()}, c * k.lo)
                    break
        return r

    def __add__(self, o):
        if isinstance(o, float):
            return _flt(self) + o
        return self._arith(
            o, lambda a, b: a + b, lambda a, b: (a.lo + b.lo, a.hi + b.hi), 1
        )

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, float):
            return _flt(self) - o
        return self._arith(
            o, lambda a, b: a - b, lambda a, b: (a.lo - b.hi, a.hi - b.lo), -1
        )

    def __rsub__(self, o):
        if isinstance(o, float):
            return o - _flt(self)
        p = _parts(o)
        if p is None:
            return NotImplemented
        return p.__sub__(self)

    def __mul__(self, o):
        if isinstance(o, float):
            return _flt(self) * o
        if isinstance(o, (list, tuple, str, bytes)) and not hasattr(o, "cells"):
            return o * self.concretize()

        def lh(a, b):
            c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
            return min(c), max(c)

        return self._arith(o, lambda a, b: a * b, lh, mul=True)

    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return -self
        n = -self
        return ite(self < 0, n, self)

    def __invert__(self):
        return mkint(~self.e, -self.hi - 1, -self.lo - 1)

    def __floordiv__(self, o):
        return _floordiv(self, o)

    def __rfloordiv__(self, o):
        return _floordiv(o, self)

    def __mod__(self, o):
        return _mod(self, o)

    def __rmod__(self, o):
        if not is_intlike(o):
            return NotImplemented
        return _mod(o, self)

    def __divmod__(self, o):
        return _floordiv(self, o), _mod(self, o)

    def __rdivmod__(self, o):
        return _floordiv(o, self), _mod(o, self)

    def __truediv__(self, o):
        return _flt(self) / o

    def __rtruediv__(self, o):
        return o / _flt(self)

    def __pow__(self, o, mod=None):
        if mod is None and isinstance(o, int) and type(o) is not SymInt:
            if 0 <= o <= 4:
                r = 1
                for _ in range(o):
                    r = r * self
                return r
        return pow(self.concretize(), o if type(o) is not SymInt else o.concretize(), mod)

    def __rpow__(self, o):
        # base ** sym
        if o == 2 and self.lo >= 0 and self.hi <= 120:
            return 1 << self
        return o ** self.concretize()

    def __lshift__(self, o):
        if isinstance(o, int) and type(o) is not SymInt:
            if o < 0:
                raise ValueError("negative shift count")
            return self * (1 << o)
        return _shl(self, o)

    def __rlshift__(self, o):
        return _shl(_parts(o), self)

    def __rshift__(self, o):
        if type(o) is SymInt:
            o = o.concretize()
        if o < 0:
            raise ValueError("negative shift count")
        w = self.e.size()
        return mkint(self.e >> min(o, w - 1), self.lo >> o, self.hi >> o)

    def __rrshift__(self, o):
        return o >> self.concretize()

    def __and__(self, o):
        def lh(a, b):
            if a.lo >= 0 and b.lo >= 0:
                return 0, min(a.hi, b.hi)
            if a.lo >= 0:
                return 0, a.hi
            if b.lo >= 0:
                return 0, b.hi
            n = max(x.bit_length() for x in (a.lo, a.hi, b.lo, b.hi)) + 1
            return -(1 << n), (1 << n) - 1

        return self._arith(o, lambda a, b: a & b, lh)

    __rand__ = __and__

    def __or__(self, o):
        return self._arith(o, lambda a, b: a | b, _lh_or)

    __ror__ = __or__

    def __xor__(self, o):
        return self._arith(o, lambda a, b: a ^ b, _lh_or)

    __rxor__ = __xor__

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def bit_length(self):
        a = abs(self)
        if isinstance(a, int) and type(a) is not SymInt:
            return a.bit_length()
        r = 0
        for i in range(a.hi.bit_length()):
            r = ite(a >= (1 << i), i + 1, r)
        # (used as an index or in shifts: much simpler if it is known)
        if isinstance(r, SymInt) and eng().few(r.e, 6):
            return r.concretize()
        return r

    def bit_count(self):
        a = abs(self)
        r = 0
        for i in range(a.hi.bit_length()):
            r = r + ((a >> i) & 1)
        return r

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        from sx.seqs import int_to_bytes

        return int_to_bytes(self, length, byteorder, signed)


def _flt(x):
    from sx.floats import from_int

    return from_int(x)


def _lh_or(a, b):
    n = max(x.bit_length() for x in (a.lo, a.hi, b.lo, b.hi))
    if a.lo >= 0 and b.lo >= 0:
        return 0, (1 << n) - 1
    n += 1
    return -(1 << n), (1 << n) - 1


def _shl(a, s):
    s = _parts(s)
    if s.lo < 0:
        if SymBool(s.e < 0) if s.hi >= 0 else True:
            raise ValueError("negative shift count")
    if s.hi > 200:
        return a * (1 << s.concretize()) if type(a) is SymInt else a << s.concretize()
    lo = min(a.lo << max(s.lo, 0), a.lo << s.hi)
    hi = max(a.hi << max(s.lo, 0), a.hi << s.hi)
    w = max(width_for(lo, hi), s.e.size())
    return mkint(_fit(a.e, w) << _fit(s.e, w), lo, hi)


def _divcheck(b):
    if isinstance(b, int) and type(b) is not SymInt and type(b) is not SymBool:
        if b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
    elif (b == 0):
        raise ZeroDivisionError("integer division or modulo by zero")


def _floordiv(a, b):
    if isinstance(b, float) or isinstance(a, float):
        raise Inconclusive("float floordiv on symbolic int")
    pa, pb = _parts(a), _parts(b)
    if pa is None or pb is None:
        return NotImplemented
    _divcheck(b)
    m = max(abs(pa.lo), abs(pa.hi)) + 1
    if pb.lo == pb.hi and pb.lo > 0:
        d = pb.lo
        lo, hi = pa.lo // d, pa.hi // d
        if d & (d - 1) == 0:
            return mkint(pa.e >> (d.bit_length() - 1), lo, hi)
        w = width_for(-m, max(m, d))
        x, y = _fit(pa.e, w), z3.BitVecVal(d, w)
        if pa.lo >= 0:
            return mkint(z3.UDiv(x, y), lo, hi)
        q = x / y
        q = z3.If(z3.And(x < 0, q * y != x), q - 1, q)
        return mkint(q, lo, hi)
    lo, hi = -m, m
    w = max(width_for(lo, hi), pb.e.size(), pa.e.size()) + 1
    x, y = _fit(pa.e, w), _fit(pb.e, w)
    q = x / y
    q = z3.If(z3.And((x < 0) != (y < 0), q * y != x), q - 1, q)
    return mkint(q, lo, hi)


def _mod(a, b):
    if isinstance(b, float) or isinstance(a, float):
        raise Inconclusive("float mod on symbolic int")
    pa, pb = _parts(a), _parts(b)
    if pa is None or pb is None:
        return NotImplemented
    _divcheck(b)
    if pb.lo == pb.hi and pb.lo > 0:
        d = pb.lo
        if 0 <= pa.lo and pa.hi < d:
            return a
        w = max(pa.e.size(), width_for(-d, d))
        x = _fit(pa.e, w)
        if d & (d - 1) == 0:
            return mkint(x & (d - 1), 0, d - 1)
        y = z3.BitVecVal(d, w)
        if pa.lo >= 0:
            return mkint(z3.URem(x, y), 0, d - 1)
        return mkint(x % y, 0, d - 1)  # z3 % on BitVec is smod: sign of divisor
    m = max(abs(pb.lo), abs(pb.hi))
    w = max(width_for(-m, m), pa.e.size(), pb.e.size())
    return mkint(_fit(pa.e, w) % _fit(pb.e, w), -m, m)


def ite(c, a, b):
    """Merge two values without forking where the kinds allow it."""
    if type(c) is not SymBool:
        return a if c else b
    if a is b:
        return a
    if type(a) in (SymBool, bool) and type(b) in (SymBool, bool):
        return mkbool(z3.If(c.e, as_z3bool(a), as_z3bool(b)))
    if is_intlike(a) and is_intlike(b):
        pa, pb = _parts(a), _parts(b)
        lo, hi = min(pa.lo, pb.lo), max(pa.hi, pb.hi)
        w = max(pa.e.size(), pb.e.size())
        return mkint(z3.If(c.e, pa.at(w), pb.at(w)), lo, hi)
    return a if c else b


def fresh_int(name, lo, hi):
    """A symbolic int in [lo, hi] (assumption is traced)."""
    w = width_for(lo, hi)
    v = z3.BitVec(name, w)
    g = eng()
    if lo != -(1 << (w - 1)) or hi != (1 << (w - 1)) - 1:
        g.assume(z3.And(v >= lo, v <= hi))
    return SymInt(v, lo, hi)


def fresh_byte(name):
    """A symbolic byte: BitVec(8) expr."""
    return z3.BitVec(name, 8)


def byte_to_int(b):
    """cell -> int or SymInt"""
    if isinstance(b, int):
        return b
    e = z3.simplify(b)
    if z3.is_bv_value(e):
        return e.as_long()
    return SymInt(z3.ZeroExt(1, e), 0, 255)


def int_to_byte(v):
    """int/SymInt known in 0..255 -> cell"""
    if type(v) is SymInt:
        e = z3.simplify(z3.Extract(7, 0, v.e))
        if z3.is_bv_value(e):
            return e.as_long()
        return e
    return int(v)


def is_sym(o):
    return getattr(type(o), "_sx_sym", False)


SymInt._sx_sym = True
SymBool._sx_sym = True
