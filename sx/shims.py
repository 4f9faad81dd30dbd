"""Replacements for builtins and stdlib modules seen by instrumented code."""
from __future__ import annotations

import builtins as _b
import collections as _collections
import io as _io
import math as _math
import struct as _struct
import sys as _sys
import types as _types

import z3

from sx import floats as F
from sx import seqs as S
from sx.containers import SxCounter, SxDefaultDict, SxDict, SxFrozenSet, SxSet, symdeep
from sx.core import (
    Inconclusive,
    SymBool,
    SymInt,
    and_,
    or_,
    byte_to_int,
    eng,
    fresh_int,
    int_to_byte,
    is_intlike,
    ite,
    mkint,
    not_,
)


def is_sym(o):
    return getattr(type(o), "_sx_sym", False)


def any_sym(args):
    for a in args:
        if getattr(type(a), "_sx_sym", False):
            return True
        if type(a) in (tuple, list) and any_sym(a):
            return True
    return False


# -- lazily formatted text ------------------------------------------------------
class LazyStr(S.SymStr):
    """Text whose symbolic parts are only concretised when looked at (messages)."""

    def __init__(self, thunk):
        self._thunk = thunk
        self._chars = None

    @property
    def chars(self):
        if self._chars is None:
            self._chars = S.str_chars(self._thunk())
        return self._chars


def decimal(v):
    """The decimal digits of a symbolic int, as a string of known length. Digits are
    fresh variables that the number determines (unique positional representation)."""
    g = eng()
    cache = g.path_data.setdefault("decimal", {})
    key = v.e.get_id()
    if key in cache:
        return cache[key][1]
    sign = []
    a = v
    if v.lo < 0 and (v.hi < 0 or v < 0):
        sign = [45]
        a = -v
    n = 1
    top = max(abs(v.lo), abs(v.hi))
    while 10**n <= top and a >= 10**n:
        n += 1
    digits = []
    total = 0
    for i in range(n):
        d = fresh_int(f"dec!{len(cache)}!{i}", 0, 9)
        digits.append(d)
        total = total * 10 + d
    g.assume(total == a)
    s = S.mkstr(sign + [d + 48 for d in digits])
    cache[key] = (v, s)
    return s


def fmt_value(v, conv, spec):
    """One f-string field; symbolic where it can be."""
    if conv == "r":
        if not is_sym(v):
            v = repr(v)
        else:
            v = repr(v)
    elif conv in ("s", "a"):
        v = sx_str(v)
    spec = spec if isinstance(spec, str) else str(spec)
    if isinstance(v, S.SymStr):
        if spec in ("", "s"):
            return v
        return format(v._concrete(), str(spec))
    if type(v) is SymInt:
        s = str(spec)
        if s and s[-1] in "xX" and s[:-1] in ("02", "04", "08", "06"):
            n = int(s[:-1])
            if and_(v >= 0, v < 16**n):
                v = mkint(v.e, max(v.lo, 0), min(v.hi, 16**n - 1))
                if type(v) is not SymInt:
                    return format(v, s)
                out = []
                for i in range(n - 1, -1, -1):
                    d = (v >> (4 * i)) & 15
                    base = 87 if s[-1] == "x" else 55
                    out.append(ite(d < 10, d + 48, d + base))
                return S.mkstr(out)
        if s and s[-1] == "b" and s[:-1].startswith("0") and s[1:-1].isdigit():
            n = int(s[1:-1])
            if and_(v >= 0, v < 2**n):
                v = mkint(v.e, max(v.lo, 0), min(v.hi, 2**n - 1))
                if type(v) is not SymInt:
                    return format(v, s)
                return S.mkstr([((v >> i) & 1) + 48 for i in range(n - 1, -1, -1)])
        if v.lo >= 0 and v.hi <= 9 and s in ("", "d"):
            return S.mkstr([v + 48])
        if s in ("", "d"):
            return decimal(v)
        return format(v.concretize(), s)
    if type(v) is F.SymFloat and v.num.hi - v.num.lo < 1024 and spec:
        t = [(i, format(v.fn(i), spec)) for i in range(v.num.lo, v.num.hi + 1)]
        if len({len(x) for _, x in t}) == 1:
            out = []
            for k in range(len(t[0][1])):
                r = ord(t[0][1][k])
                for i, x in t[1:]:
                    r = ite(v.num == i, ord(x[k]), r)
                out.append(r)
            return S.mkstr(out)
    return format(v, spec)


def sx_fstr(parts):
    if not any(type(p) is tuple and is_sym(p[0]) for p in parts):
        out = []
        for p in parts:
            if type(p) is tuple:
                v, conv, spec = p
                if conv == "r":
                    v = repr(v)
                elif conv == "s":
                    v = str(v)
                elif conv == "a":
                    v = ascii(v)
                out.append(format(v, spec))
            else:
                out.append(p)
        return "".join(out)

    def thunk():
        chars = []
        for p in parts:
            if type(p) is tuple:
                chars += S.str_chars(fmt_value(*p))
            else:
                chars += S.str_chars(p)
        return S.mkstr(chars)

    return LazyStr(thunk)


def sx_mod(a, b):
    if isinstance(a, str) and not is_sym(a):
        args = b if type(b) is tuple else (b,)
        if any_sym(args):
            simple = a.replace("%s", "").replace("%d", "").replace("%i", "")
            if "%" not in simple and len(args) == a.count("%s") + a.count("%d") + a.count("%i"):
                import re

                lits = re.split(r"%[sdi]", a)
                parts = [lits[0]]
                for v, l in zip(args, lits[1:]):
                    parts.append((v, "s" if isinstance(v, str) else None, ""))
                    parts.append(l)
                return sx_fstr(parts)
            m = None
            if len(args) == 1:
                import re

                m = re.fullmatch(r"(.*)%(\d+[xXd])(.*)", a, re.S)
            if m:
                return sx_fstr([m.group(1), (args[0], None, m.group(2)), m.group(3)])
            return LazyStr(lambda: a % tuple(conc(x) for x in args))
        return a % b
    return a % b


def conc(x):
    if type(x) is SymInt:
        return x.concretize()
    if isinstance(x, S.SymStr) or isinstance(x, S.SymBytes):
        return x._concrete()
    if isinstance(x, F.SymFloat):
        return x.concrete()
    if type(x) is SymBool:
        return bool(x)
    return x


# -- containers -----------------------------------------------------------------
def sx_in(a, b):
    if isinstance(b, (SxDict, SxSet)) or type(b) in (SxDict, SxSet):
        return a in b
    tb = type(b)
    if is_sym(a) or symdeep(a):
        if tb in (list, tuple):
            from sx.core import or_

            if type(a) in (SymInt, SymBool):
                cs = [x == a for x in b]
                return or_(*[c for c in cs if c is not NotImplemented])
            for x in b:
                if x is a or x == a:
                    return True
            return False
        if tb is _b.str:
            return S.SymStr(S.str_chars(b)).__contains__(a)
        if tb in (bytes, bytearray):
            if is_intlike(a):
                return S.SymBytes(list(b)).__contains__(a)
            return S.SymBytes(list(b)).__contains__(a)
        if tb is range:
            if type(a) is SymInt:
                return and_(a >= b.start, a < b.stop, ((a - b.start) % b.step) == 0) if b.step > 0 else a in list(b)
        if isinstance(b, _SymRange):
            return b.__contains__(a)
        if isinstance(b, (dict, set, frozenset)) or tb.__name__ in ("dict_keys", "mappingproxy"):
            for x in list(b):
                if x == a:
                    return True
            return False
    return a in b


def sx_getitem(o, k):
    to = type(o)
    if to is dict and symdeep(k):
        for x in o:
            if x == k:
                return o[x]
        raise KeyError(k)
    if type(k) is SymInt and to in (list, tuple):
        n = len(o)
        if not and_(k < n, k >= -n):
            raise IndexError(f"{to.__name__} index out of range")
        if n and all(is_intlike(x) for x in o) and n <= 300:
            r = 0
            for i, x in enumerate(o):
                r = ite(S.or_(k == i, k == i - n), x, r)
            return r
        for i in range(n):
            if S.or_(k == i, k == i - n):
                return o[i]
        raise IndexError
    if type(k) is SymInt and to is _b.str:
        return S.SymStr(S.str_chars(o))[k]
    if type(k) is SymInt and to is bytes:
        return S.SymBytes(list(o))[k]
    if type(k) is slice and to in (list, tuple, _b.str, bytes, bytearray) and any_sym(
        (k.start, k.stop, k.step)
    ):
        f = lambda x: conc(x)
        return o[slice(f(k.start), f(k.stop), f(k.step))]
    return o[k]


_STR_SPECIAL = {
    "join", "startswith", "endswith", "replace", "split", "rsplit", "partition",
    "find", "index", "count", "strip", "lstrip", "rstrip", "removeprefix",
    "removesuffix", "rfind", "rpartition",
}


def sx_call(o, name, /, *args, **kw):
    to = type(o)
    if to is _b.str:
        if name == "join" and args:
            parts = list(args[0])
            if any(is_sym(p) for p in parts):
                return S.str_join(o, parts)
            return o.join(parts)
        if name == "format" and any_sym(args + tuple(kw.values())):
            return LazyStr(
                lambda: o.format(*[conc(x) for x in args], **{k: conc(v) for k, v in kw.items()})
            )
        if args and name in _STR_SPECIAL and any_sym(args):
            return getattr(S.SymStr(S.str_chars(o)), name)(*args, **kw)
    elif to is bytes:
        if name == "join" and args:
            parts = list(args[0])
            if any(is_sym(p) for p in parts):
                return S.SymBytes(list(o)).join(parts)
            return o.join(parts)
        if args and any_sym(args) and hasattr(S.SymBytes, name):
            return getattr(S.SymBytes(list(o)), name)(*args, **kw)
    elif to is bytearray:
        if any_sym(args):
            raise Inconclusive("native bytearray with symbolic data")
    elif to is dict:
        if args and symdeep(args[0]) and name in ("get", "pop", "setdefault", "__getitem__", "__contains__"):
            for x in o:
                if x == args[0]:
                    return getattr(o, name)(x, *args[1:], **kw)
            if name in ("get", "pop"):
                if len(args) > 1:
                    return args[1]
                if name == "get":
                    return None
                raise KeyError(args[0])
            raise Inconclusive("native dict with symbolic key")
    return getattr(o, name)(*args, **kw)


def sx_setitem(o, k, v):
    if type(o) is dict and symdeep(k):
        for x in o:
            if x == k:
                o[x] = v
                return
        raise Inconclusive("symbolic key stored in a native dict")
    o[k] = v


def sx_not(x):
    if type(x) is SymBool:
        return not_(x)
    return not x


def sx_dict(pairs):
    d = SxDict()
    for k, v in pairs:
        if k is DICT_STAR:
            d.update(v)
        else:
            d[k] = v
    return d


class DICT_STAR:
    pass


def sx_set(items):
    return SxSet(items)


# -- builtin types -----------------------------------------------------------
class _Meta(type):
    """Metaclass for builtin-type stand-ins."""

    def __call__(cls, *a, **k):
        if cls.__dict__.get("_shim"):
            return cls._new(*a, **k)
        return type.__call__(cls, *a, **k)

    def __instancecheck__(cls, o):
        if cls.__dict__.get("_shim"):
            return isinstance(o, cls._real)
        return type.__instancecheck__(cls, o)

    def __subclasscheck__(cls, c):
        if cls.__dict__.get("_shim"):
            if isinstance(c, _Meta) and c.__dict__.get("_shim"):
                c = c._real
            return issubclass(c, cls._real)
        return type.__subclasscheck__(cls, c)

    def __eq__(cls, o):
        return cls is o or (cls.__dict__.get("_shim") and o is cls._real)

    def __hash__(cls):
        if cls.__dict__.get("_shim"):
            return hash(cls._real)
        return type.__hash__(cls)

    def __repr__(cls):
        if cls.__dict__.get("_shim"):
            return repr(cls._real)
        return type.__repr__(cls)


def _mkshim(name, real, new, extra=None):
    ns = {"_shim": True, "_real": real, "_new": staticmethod(new), "__slots__": ()}
    for n in dir(real):
        if n.startswith("__"):
            continue
        ns[n] = _dispatch(real, n)
    ns.update(extra or {})
    if hasattr(real, "__class_getitem__"):
        ns["__class_getitem__"] = classmethod(lambda cls, k: real[k])
    c = _Meta(name, (), ns)
    c.__module__ = "builtins"
    c.__qualname__ = name
    return c


def _dispatch(real, n):
    f = getattr(real, n)

    def g(self, *a, **k):
        if is_sym(self):
            return getattr(self, n)(*a, **k)
        return sx_call(self, n, *a, **k)

    if isinstance(real.__dict__.get(n), (classmethod, staticmethod)):
        return staticmethod(f)
    if not callable(f):
        return f
    return g


def _int_new(*a, **k):
    if not a:
        return 0
    x = a[0]
    if len(a) == 1 and not k:
        if type(x) is SymInt:
            return x
        if type(x) is SymBool:
            return x._int()
        if isinstance(x, F.SymFloat):
            return x.to_int()
        if isinstance(x, F.SymFloatBase):
            return x.__trunc__()
    if isinstance(x, S.SymStr):
        base = a[1] if len(a) > 1 else k.get("base", 10)
        return _parse_int(x, base)
    if isinstance(x, S.SymBytes):
        x = x._concrete()
    return int(x, *a[1:], **k)


def any_of(it):
    return bool(or_(*it))


def _parse_int(s, base):
    if isinstance(s, LazyStr) and s._chars is None:
        pass
    s = s.strip()
    chars = S.str_chars(s)
    if base not in (2, 10, 16) or not chars:
        return int(conc(s), base)
    sign = 1
    if chars[0] == 45:
        sign, chars = -1, chars[1:]
    elif chars[0] == 43:
        chars = chars[1:]
    if not chars:
        raise ValueError("invalid literal for int()")
    def digit_ok(c):
        cs = [and_(c >= 48, c <= min(57, 47 + base))]
        if base == 16:
            cs += [and_(c >= 97, c <= 102), and_(c >= 65, c <= 70)]
        return or_(*cs)

    if not and_(*[digit_ok(c) for c in chars]):
        if any(type(c) is SymInt and c.hi > 127 for c in chars) or any_of(c == 95 for c in chars):
            return int(conc(s), base)
        raise ValueError("invalid literal for int()")
    r = 0
    for c in chars:
        d = c - 48
        if base == 16:
            d = ite(c >= 97, c - 87, ite(c >= 65, c - 55, d))
        d = mkint(d.e, 0, base - 1) if type(d) is SymInt else d
        r = r * base + d
    return r * sign


def _float_new(*a):
    if a:
        x = a[0]
        if type(x) in (SymInt, SymBool):
            return F.from_int(x)
        if isinstance(x, F.SymFloatBase):
            return x
        if isinstance(x, S.SymStr):
            return float(x._concrete())
    return float(*a)


def _bool_new(*a):
    if a and type(a[0]) is SymInt:
        return a[0] != 0
    if a and type(a[0]) is SymBool:
        return a[0]
    return bool(*a)


def sx_str(*a, **k):
    if not a:
        return ""
    x = a[0]
    if isinstance(x, S.SymStr):
        return x
    if len(a) > 1 or k:
        return x.decode(*(a[1:] or ("utf-8",)), **k) if is_sym(x) else str(*a, **k)
    if is_sym(x):
        if type(x) is SymInt and 0 <= x.lo and x.hi <= 9:
            return S.mkstr([x + 48])
        if type(x) is SymInt:
            return LazyStr(lambda: decimal(x))
        return LazyStr(lambda: str(conc(x)))
    return str(x)


int_ = _mkshim(
    "int", int, _int_new, {"from_bytes": staticmethod(S.int_from_bytes),
                           "to_bytes": lambda v, *a, **k: v.to_bytes(*a, **k)}
)
float_ = _mkshim("float", float, _float_new)
bool_ = _mkshim("bool", bool, _bool_new)
str_ = _mkshim("str", str, sx_str)
bytes_ = _mkshim(
    "bytes", bytes, S.make_bytes, {"fromhex": staticmethod(S.fromhex),
                                   "hex": lambda b, *a: b.hex(*a)}
)
bytearray_ = _mkshim(
    "bytearray", bytearray, S.make_bytearray,
    {"fromhex": staticmethod(lambda s: S.make_bytearray(S.fromhex(s)))},
)

_TYPEMAP = {int: int_, float: float_, bool: bool_, str: str_, bytes: bytes_,
            bytearray: bytearray_, SymInt: int_, SymBool: bool_, S.SymStr: str_,
            LazyStr: str_, S.SymBytes: bytes_, S.SymByteArray: bytearray_,
            F.SymFloat: float_, F.Bits: float_, F.Ang: float_, dict: SxDict,
            set: SxSet, frozenset: SxFrozenSet}


def _type_new(*a, **k):
    if len(a) == 1:
        t = type(a[0])
        return _TYPEMAP.get(t, t)
    return type(*a, **k)


class _TypeMeta(type):
    def __call__(cls, *a, **k):
        return _type_new(*a, **k)

    def __instancecheck__(cls, o):
        return isinstance(o, type)


class type_(metaclass=_TypeMeta):
    def __class_getitem__(cls, k):
        return type[k]


# -- builtin functions ----------------------------------------------------------
def sx_len(o):
    if isinstance(o, S.SymBytes):
        return o._len()
    return len(o)


class _SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        i = self.start
        if self.step > 0:
            while i < self.stop:
                yield i
                i = i + self.step
        else:
            while i > self.stop:
                yield i
                i = i + self.step

    def __len__(self):
        return sum(1 for _ in self)

    def __contains__(self, a):
        return any(bool(x == a) for x in self)

    def __reversed__(self):
        return reversed(list(self))

    def __getitem__(self, k):
        return list(self)[k]

    def __bool__(self):
        return len(self) > 0


def sx_range(*a):
    if any_sym(a):
        start, stop, step = 0, None, 1
        if len(a) == 1:
            stop = a[0]
        else:
            start, stop = a[0], a[1]
            if len(a) > 2:
                step = a[2]
        if type(step) is SymInt:
            step = step.concretize()
        if step == 0:
            raise ValueError("range() arg 3 must not be zero")
        for x in (start, stop):
            if isinstance(x, float):
                raise TypeError("'float' object cannot be interpreted as an integer")
        return _SymRange(start, stop, step)
    return range(*a)


def _minmax(name):
    real = getattr(_b, name)

    def f(*a, key=None, **kw):
        items = list(a[0]) if len(a) == 1 else list(a)
        if key is None and any(type(x) in (SymInt, SymBool) for x in items) and all(
            is_intlike(x) for x in items
        ):
            r = items[0]
            for x in items[1:]:
                c = (x < r) if name == "min" else (x > r)
                r = ite(c, x, r)
            return r
        if not items and "default" in kw:
            return kw["default"]
        return real(items, key=key) if key is not None else real(items)

    return f


def sx_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def sx_any(it):
    for x in it:
        if x:
            return True
    return False


def sx_all(it):
    for x in it:
        if not x:
            return False
    return True


def sx_chr(x):
    if type(x) is SymInt:
        if not and_(x >= 0, x <= 0x10FFFF):
            raise ValueError("chr() arg not in range(0x110000)")
        return S.mkstr([mkint(x.e, max(x.lo, 0), min(x.hi, 0x10FFFF))])
    return chr(x)


def sx_ord(x):
    if isinstance(x, S.SymStr):
        if len(x.chars) != 1:
            raise TypeError("ord() expected a character")
        return x.chars[0]
    if isinstance(x, S.SymBytes):
        return x[0]
    return ord(x)


def sx_hex(x):
    return hex(conc(x)) if not is_sym(x) else LazyStr(lambda: hex(conc(x)))


def sx_bin(x):
    if type(x) is SymInt:
        return LazyStr(lambda: bin(conc(x)))
    return bin(x)


def sx_round(x, n=None):
    if isinstance(x, F.SymFloatBase) or type(x) in (SymInt, SymBool):
        if type(x) is SymBool:
            x = x._int()
        return x.__round__() if n is None else x.__round__(n)
    return round(x) if n is None else round(x, n)


def sx_divmod(a, b):
    if any_sym((a, b)):
        return a // b, a % b
    return divmod(a, b)


def sx_pow(a, b, m=None):
    return a**b if m is None else pow(conc(a), conc(b), m)


def sx_print(*a, **k):
    return None


def sx_repr(x):
    if is_sym(x):
        return LazyStr(lambda: repr(conc(x)))
    return repr(x)


def sx_format(x, spec=""):
    return fmt_value(x, None, spec)


def sx_isinstance(o, t):
    return isinstance(o, t)


def sx_memoryview(x):
    if is_sym(x):
        return x
    return memoryview(x)


def sx_hash(x):
    return hash(x)


def sx_sorted(it, key=None, reverse=False):
    return sorted(it, key=key, reverse=reverse)


# -- stdlib modules -----------------------------------------------------------
def _module(name, real, **over):
    m = _types.ModuleType(name)
    if real is not None:
        m.__dict__.update({k: v for k, v in real.__dict__.items() if not k.startswith("__")})
    m.__dict__.update(over)
    return m


# struct
_SIZES = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8,
          "Q": 8, "f": 4, "d": 8, "?": 1, "c": 1}


def _parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    fmt = str(fmt)
    order = "@"
    if fmt and fmt[0] in "@=<>!":
        order, fmt = fmt[0], fmt[1:]
    items = []
    num = ""
    for ch in fmt:
        if ch.isspace():
            continue
        if ch.isdigit():
            num += ch
            continue
        n = int(num) if num else 1
        num = ""
        if ch in "sp":
            items.append((ch, n))
        elif ch == "x":
            items += [("x", 1)] * n
        else:
            items += [(ch, 1)] * n
    kinds = {c for c, _ in items}
    native = order == "@"
    if native and len({(_nsize(c, True)) for c in kinds}) > 1:
        # alignment: only sound when the real layout has no padding
        if _struct.calcsize("@" + "".join(f"{n}{c}" for c, n in items)) != _struct.calcsize(
            "=" + "".join(f"{n}{c}" for c, n in items)
        ):
            raise Inconclusive("native struct padding")
    little = order in "@=<" and (order == "<" or _sys.byteorder == "little")
    return items, little, native


def _nsize(c, native):
    if native and c in "lL":
        return 8
    return _SIZES.get(c, 1)


def st_pack(fmt, *vals):
    if not any_sym(vals) and not is_sym(fmt):
        return _struct.pack(fmt, *vals)
    items, little, native = _parse_fmt(fmt)
    need = sum(1 for c, n in items if c != "x")
    if need != len(vals):
        raise _struct.error(f"pack expected {need} items for packing (got {len(vals)})")
    out = []
    vi = 0
    for c, n in items:
        if c == "x":
            out.append(0)
            continue
        v = vals[vi]
        vi += 1
        size = _nsize(c, native)
        if c in "sp":
            cells = S.as_cells(v)[:n]
            if c == "p":
                raise Inconclusive("struct p")
            out += cells + [0] * (n - len(cells))
        elif c in "fd":
            if isinstance(v, F.Bits) and c == "d":
                out += v.cells if little else v.cells[::-1]
            elif type(v) is SymInt or isinstance(v, F.SymFloat):
                # opaque deterministic image of the float
                raise Inconclusive("pack of a computed symbolic float")
            else:
                out += list(_struct.pack(("<" if little else ">") + c, v))
        elif c == "c":
            out += S.as_cells(v)
        elif c == "?":
            out.append(1 if v else 0)
        else:
            if not is_intlike(v):
                raise _struct.error("required argument is not an integer")
            try:
                b = S.int_to_bytes(v + 0, size, "little" if little else "big", c in "bhilq")
            except OverflowError:
                raise _struct.error("argument out of range") from None
            out += S.as_cells(b)
    return S.mkbytes(out)


def st_calcsize(fmt):
    if is_sym(fmt):
        fmt = conc(fmt)
    return _struct.calcsize(fmt)


def st_unpack(fmt, data):
    if not is_sym(data):
        return _struct.unpack(conc(fmt), data)
    items, little, native = _parse_fmt(conc(fmt))
    cells = data._exp()
    total = sum(_nsize(c, native) if c not in "sp" else n for c, n in items)
    if len(cells) != total:
        raise _struct.error(f"unpack requires a buffer of {total} bytes")
    out = []
    i = 0
    for c, n in items:
        size = n if c in "sp" else _nsize(c, native)
        part = cells[i : i + size]
        i += size
        if c == "x":
            continue
        if c in "sp":
            out.append(S.mkbytes(part))
        elif c == "c":
            out.append(S.mkbytes(part))
        elif c in "fd":
            if all(type(x) is int for x in part):
                out.append(_struct.unpack(("<" if little else ">") + c, bytes(part))[0])
            elif c == "d":
                out.append(F.Bits(list(part) if little else list(part)[::-1]))
            else:
                raise Inconclusive("float32 from symbolic bytes")
        elif c == "?":
            out.append(byte_to_int(part[0]) != 0)
        else:
            out.append(
                S.int_from_bytes(S.SymBytes(list(part)), "little" if little else "big", signed=c in "bhilq")
            )
    return tuple(out)


def st_unpack_from(fmt, data, offset=0):
    n = st_calcsize(fmt)
    return st_unpack(fmt, data[offset : offset + n])


def st_iter_unpack(fmt, data):
    n = st_calcsize(fmt)
    L = sx_len(data)
    for i in range(0, L, n):
        yield st_unpack(fmt, data[i : i + n])


class St_Struct:
    def __init__(self, fmt):
        self.format = fmt
        self.size = st_calcsize(fmt)

    def pack(self, *v):
        return st_pack(self.format, *v)

    def unpack(self, d):
        return st_unpack(self.format, d)

    def unpack_from(self, d, offset=0):
        return st_unpack_from(self.format, d, offset)

    def iter_unpack(self, d):
        return st_iter_unpack(self.format, d)


struct_mod = _module(
    "struct", _struct, pack=st_pack, unpack=st_unpack, calcsize=st_calcsize,
    Struct=St_Struct, unpack_from=st_unpack_from, iter_unpack=st_iter_unpack,
)


# io
class _BytesIOMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _io.BytesIO)

    def __call__(cls, *a, **k):
        return S.SymBytesIO(*a, **k)


class BytesIO_(metaclass=_BytesIOMeta):
    pass


io_mod = _module("io", _io, BytesIO=BytesIO_)


# math
def _m(name):
    real = getattr(_math, name)

    def f(*a):
        if any_sym(a):
            return real(*[conc(x) if not isinstance(x, F.Ang) else x._c() for x in a])
        return real(*a)

    return f


def m_floor(x):
    return x.__floor__() if is_sym(x) else _math.floor(x)


def m_ceil(x):
    return x.__ceil__() if is_sym(x) else _math.ceil(x)


def m_trunc(x):
    return x.__trunc__() if is_sym(x) else _math.trunc(x)


def m_fabs(x):
    return F.from_int(abs(x)) if is_sym(x) else _math.fabs(x)


math_mod = _module(
    "math", _math, floor=m_floor, ceil=m_ceil, trunc=m_trunc, fabs=m_fabs,
    atan2=F.m_atan2, degrees=F.m_degrees, radians=F.m_radians, tan=F.m_tan,
    **{n: _m(n) for n in ("sqrt", "sin", "cos", "atan", "hypot", "isclose", "isnan",
                          "isinf", "log", "log2", "exp", "pow", "copysign", "gcd", "fmod")},
)


# logging
class _NullLogger:
    level = 30
    name = "null"

    def isEnabledFor(self, *a):
        return False

    def getEffectiveLevel(self):
        return 30

    def getChild(self, *a):
        return self

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: None


_null = _NullLogger()


def _logging():
    import logging as L

    return _module(
        "logging", L, getLogger=lambda *a: _null, basicConfig=lambda *a, **k: None,
        **{n: (lambda *a, **k: None) for n in
           ("debug", "info", "warning", "error", "critical", "exception", "log", "warn")},
    )


logging_mod = _logging()

collections_mod = _module(
    "collections", _collections, defaultdict=SxDefaultDict, OrderedDict=SxDict,
    Counter=SxCounter,
)
collections_mod.abc = _collections.abc

import binascii as _binascii

binascii_mod = _module(
    "binascii", _binascii,
    hexlify=lambda b, *a: (b.hex(*a).encode("ascii")),
    unhexlify=lambda s: S.fromhex(s if isinstance(s, str) else s.decode("ascii")),
)

import codecs as _codecs

codecs_mod = _module(
    "codecs", _codecs,
    encode=lambda o, enc="utf-8", errors="strict": o.encode(enc, errors) if is_sym(o) else _codecs.encode(o, enc, errors),
    decode=lambda o, enc="utf-8", errors="strict": o.decode(enc, errors) if is_sym(o) else _codecs.decode(o, enc, errors),
)

import warnings as _warnings

warnings_mod = _module("warnings", _warnings, warn=lambda *a, **k: None)

# datetime: points in time as seconds since 1970-01-01 UTC, dates up to 2099
import datetime as _dt


def _split(v, sizes, names):
    """v as digits of the given sizes, most significant first (fresh variables that v determines)"""
    g = eng()
    key = ("split", v.e.get_id(), tuple(sizes))
    cache = g.path_data.setdefault("split", {})
    if key not in cache:
        out, total = [], 0
        for s, n in zip(sizes, names):
            d = fresh_int(f"split!{len(cache)}!{n}", 0, s - 1)
            out.append(d)
            total = total * s + d
        g.assume(total == v)
        cache[key] = (v, out)
    return cache[key][1]


def _two(v, n=2):
    if type(v) is not SymInt:
        return [ord(c) for c in str(v).rjust(n, "0")]
    return [d + 48 for d in _split(v, [10] * n, list("abcd"[:n]))]


class SymTimedelta:
    _sx_sym = True

    def __init__(self, seconds):
        self.seconds_ = seconds

    def total_seconds(self):
        return F.from_int(self.seconds_)

    def __radd__(self, o):
        return SymDatetime(_stamp(o) + self.seconds_, o.tzinfo)

    __add__ = __radd__

    def __neg__(self):
        return SymTimedelta(-self.seconds_)


def _stamp(d):
    if isinstance(d, SymDatetime):
        return d.ts
    if d.tzinfo is None:
        d = d.replace(tzinfo=_dt.timezone.utc)
    t = d.timestamp()
    if t != int(t):
        raise Inconclusive("fraction of a second")
    return int(t)


class SymDatetime:
    _sx_sym = True

    def __init__(self, ts, tz):
        if not and_(ts >= 0, ts < 4102444800):
            raise Inconclusive("date before 1970 or after 2099")
        self.ts = ts
        self.tzinfo = tz
        self._f = None

    def _fields(self):
        if self._f is None:
            if type(self.ts) is not SymInt:
                d = _dt.datetime.fromtimestamp(self.ts, _dt.timezone.utc)
                self._f = {n: getattr(d, n) for n in ("year", "month", "day", "hour", "minute", "second")}
                return self._f
            days, hour, minute, second = _split(self.ts, [47483, 24, 60, 60], ["day", "hour", "minute", "second"])
            # 731 days since 1968-01-01, a leap year
            c, r = _split(days + 731, [33, 1461], ["cycle", "rest"])
            leap = r < 366
            yi = ite(leap, 0, ite(r < 731, 1, ite(r < 1096, 2, 3)))
            doy = r - ite(leap, 0, ite(r < 731, 366, ite(r < 1096, 731, 1096)))
            year = 1968 + 4 * c + yi
            cum = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
            start = [x + (ite(leap, 1, 0) if i > 1 else 0) for i, x in enumerate(cum)]
            month, first = 1, 0
            for i in range(1, 12):
                later = doy >= start[i]
                month = ite(later, i + 1, month)
                first = ite(later, start[i], first)
            self._f = dict(year=year, month=month, day=doy - first + 1, hour=hour, minute=minute, second=second)
        return self._f

    def __getattr__(self, n):
        if n in ("year", "month", "day", "hour", "minute", "second"):
            return self._fields()[n]
        raise AttributeError(n)

    microsecond = 0

    def timestamp(self):
        return F.from_int(self.ts)

    def replace(self, **k):
        if set(k) == {"tzinfo"}:
            return SymDatetime(self.ts, k["tzinfo"])
        raise Inconclusive("datetime.replace")

    def astimezone(self, tz=None):
        return SymDatetime(self.ts, tz)

    def __add__(self, o):
        return SymDatetime(self.ts + (o.seconds_ if isinstance(o, SymTimedelta) else int(o.total_seconds())), self.tzinfo)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (SymDatetime, _dt.datetime)):
            return SymTimedelta(self.ts - _stamp(o))
        return self + (-o)

    def __rsub__(self, o):
        return SymTimedelta(_stamp(o) - self.ts)

    def _cmp(op):
        def f(self, o):
            return getattr(self.ts, op)(_stamp(o)) if isinstance(o, (SymDatetime, _dt.datetime)) else NotImplemented
        return f

    for _op in ("__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__"):
        locals()[_op] = _cmp(_op)
    __hash__ = None

    def strftime(self, fmt):
        f = self._fields()
        out, i = [], 0
        names = {"Y": ("year", 4), "m": ("month", 2), "d": ("day", 2), "H": ("hour", 2), "M": ("minute", 2), "S": ("second", 2)}
        while i < len(fmt):
            if fmt[i] != "%":
                out.append(ord(fmt[i]))
            else:
                i += 1
                if fmt[i] == "%":
                    out.append(37)
                elif fmt[i] == "f":
                    out += [48] * 6
                elif fmt[i] in names:
                    out += _two(f[names[fmt[i]][0]], names[fmt[i]][1])
                else:
                    raise Inconclusive("strftime %" + fmt[i])
            i += 1
        return S.mkstr(out)

    def __format__(self, spec):
        return self.strftime(spec)

    def isoformat(self, sep="T", timespec="auto"):
        return self.strftime("%Y-%m-%d" + sep + "%H:%M:%S") + ("" if self.tzinfo is None else "+00:00")


def _utc_only(tz):
    if tz is not None and tz is not _dt.timezone.utc:
        raise Inconclusive("time zone")


def _fromtimestamp(t, tz=None):
    if not is_sym(t):
        return _dt.datetime.fromtimestamp(t, tz)
    if tz is None:
        raise Inconclusive("local time")
    _utc_only(tz)
    if isinstance(t, F.SymFloat):
        t = t.to_int()
    return SymDatetime(t, tz)


def _utcfromtimestamp(t):
    if not is_sym(t):
        return _dt.datetime.fromtimestamp(t, _dt.timezone.utc).replace(tzinfo=None)
    return SymDatetime(t, None)


class _DtMeta(type):
    def __call__(cls, *a, **k):
        if any_sym(a) or any_sym(tuple(k.values())):
            raise Inconclusive("datetime of symbolic parts")
        return _dt.datetime(*a, **k)

    def __instancecheck__(cls, o):
        return isinstance(o, (SymDatetime, _dt.datetime))

    def __getattr__(cls, n):
        return getattr(_dt.datetime, n)


class datetime_(metaclass=_DtMeta):
    fromtimestamp = staticmethod(_fromtimestamp)
    utcfromtimestamp = staticmethod(_utcfromtimestamp)
    timestamp = staticmethod(lambda d: d.timestamp())
    strftime = staticmethod(lambda d, f: d.strftime(f))


class _TdMeta(type):
    def __call__(cls, *a, **k):
        if any_sym(a) or any_sym(tuple(k.values())):
            names = ("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks")
            k = {**dict(zip(names, a)), **k}
            unit = {"days": 86400, "seconds": 1, "minutes": 60, "hours": 3600, "weeks": 604800}
            if set(k) - set(unit):
                raise Inconclusive("timedelta with fractions of a second")
            return SymTimedelta(sx_sum(unit[n] * v for n, v in k.items()))
        return _dt.timedelta(*a, **k)

    def __instancecheck__(cls, o):
        return isinstance(o, (SymTimedelta, _dt.timedelta))


class timedelta_(metaclass=_TdMeta):
    pass


datetime_mod = _module("datetime", _dt, datetime=datetime_, timedelta=timedelta_)

MODULES = {
    "datetime": datetime_mod,
    "struct": struct_mod,
    "io": io_mod,
    "math": math_mod,
    "logging": logging_mod,
    "collections": collections_mod,
    "binascii": binascii_mod,
    "codecs": codecs_mod,
    "warnings": warnings_mod,
}


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in MODULES:
        return MODULES[name]
    return _b.__import__(name, globals, locals, fromlist, level)


BUILTINS = dict(_b.__dict__)
BUILTINS.update(
    __import__=sx_import,
    int=int_, float=float_, bool=bool_, str=str_, bytes=bytes_, bytearray=bytearray_,
    type=type_, dict=SxDict, set=SxSet, frozenset=SxFrozenSet,
    len=sx_len, range=sx_range, min=_minmax("min"), max=_minmax("max"), sum=sx_sum,
    any=sx_any, all=sx_all, chr=sx_chr, ord=sx_ord, hex=sx_hex, bin=sx_bin,
    round=sx_round, divmod=sx_divmod, pow=sx_pow, print=sx_print, repr=sx_repr,
    format=sx_format, memoryview=sx_memoryview,
    __sx_fstr__=sx_fstr, __sx_mod__=sx_mod, __sx_in__=sx_in, __sx_getitem__=sx_getitem,
    __sx_setitem__=sx_setitem, __sx_call__=sx_call, __sx_dict__=sx_dict,
    __sx_set__=sx_set, __sx_star__=DICT_STAR, __sx_not__=sx_not,
)
