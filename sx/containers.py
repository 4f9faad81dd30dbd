"""dict/set that accept symbolic keys (looked up by forking on equality)."""
from __future__ import annotations

from sx.core import SymBool, SymInt, and_, not_

_MISSING = object()


def symdeep(k):
    if getattr(type(k), "_sx_sym", False):
        return True
    if type(k) is tuple or type(k) is frozenset:
        return any(symdeep(x) for x in k)
    return False


class _SK:
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k


def _un(k):
    return k.k if type(k) is _SK else k


class _DictMeta(type):
    def __instancecheck__(cls, o):
        if cls is SxDict:
            return issubclass(type(o), dict)
        return type.__instancecheck__(cls, o)

    def __subclasscheck__(cls, c):
        if cls is SxDict:
            return issubclass(c, dict)
        return type.__subclasscheck__(cls, c)


class SxDict(dict, metaclass=_DictMeta):
    _nsym = 0

    def __init__(self, *a, **k):
        dict.__init__(self)
        if a or k:
            self.update(*a, **k)

    def _find(self, k):
        if not symdeep(k):
            if not self._nsym:
                return k if dict.__contains__(self, k) else _MISSING
        elif self._nsym:
            for sk in dict.keys(self):
                if _un(sk) is k:
                    return sk
        for sk in list(dict.keys(self)):
            if _un(sk) == k:
                return sk
        return _MISSING

    def __contains__(self, k):
        return self._find(k) is not _MISSING

    def __getitem__(self, k):
        f = self._find(k)
        if f is _MISSING:
            m = getattr(type(self), "__missing__", None)
            if m is not None:
                return m(self, k)
            raise KeyError(k)
        return dict.__getitem__(self, f)

    def __setitem__(self, k, v):
        f = self._find(k)
        if f is _MISSING:
            if symdeep(k):
                f = _SK(k)
                self._nsym += 1
            else:
                f = k
        dict.__setitem__(self, f, v)

    def __delitem__(self, k):
        f = self._find(k)
        if f is _MISSING:
            raise KeyError(k)
        if type(f) is _SK:
            self._nsym -= 1
        dict.__delitem__(self, f)

    def get(self, k, default=None):
        f = self._find(k)
        return default if f is _MISSING else dict.__getitem__(self, f)

    def setdefault(self, k, default=None):
        f = self._find(k)
        if f is _MISSING:
            self[k] = default
            return default
        return dict.__getitem__(self, f)

    def pop(self, k, *d):
        f = self._find(k)
        if f is _MISSING:
            if d:
                return d[0]
            raise KeyError(k)
        v = dict.__getitem__(self, f)
        if type(f) is _SK:
            self._nsym -= 1
        dict.__delitem__(self, f)
        return v

    def popitem(self):
        k, v = dict.popitem(self)
        if type(k) is _SK:
            self._nsym -= 1
        return _un(k), v

    def clear(self):
        dict.clear(self)
        self._nsym = 0

    def update(self, *a, **k):
        if a:
            o = a[0]
            if hasattr(o, "keys"):
                for kk in o.keys():
                    self[kk] = o[kk]
            else:
                for kk, v in o:
                    self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    def __ior__(self, o):
        self.update(o)
        return self

    def __or__(self, o):
        r = SxDict(self)
        r.update(o)
        return r

    def __ror__(self, o):
        r = SxDict(o)
        r.update(self)
        return r

    def copy(self):
        return SxDict(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy

        r = type(self).__new__(type(self))
        dict.__init__(r)
        r.__dict__.update(self.__dict__)
        r._nsym = 0
        memo[id(self)] = r
        for k, v in self.items():
            r[copy.deepcopy(k, memo)] = copy.deepcopy(v, memo)
        return r

    def __iter__(self):
        if not self._nsym:
            return dict.__iter__(self)
        return (_un(k) for k in dict.__iter__(self))

    def keys(self):
        if not self._nsym:
            return dict.keys(self)
        return _Keys(self)

    def items(self):
        if not self._nsym:
            return dict.items(self)
        return _Items((_un(k), v) for k, v in dict.items(self))

    def __reversed__(self):
        return reversed([_un(k) for k in dict.keys(self)])

    def __eq__(self, o):
        if not isinstance(o, dict):
            return False
        if not self._nsym and not getattr(o, "_nsym", 0):
            if dict.keys(self) != dict.keys(o):
                return False
            return and_(*[_eq(dict.__getitem__(self, k), dict.__getitem__(o, k)) for k in dict.keys(self)])
        if len(self) != len(o):
            return False
        for k, v in self.items():
            if k not in o:
                return False
            if not _eq(v, o[k]):
                return False
        return True

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = None

    @classmethod
    def fromkeys(cls, it, v=None):
        r = cls()
        for k in it:
            r[k] = v
        return r


def _eq(a, b):
    return a == b


class _Keys:
    def __init__(self, d):
        self.d = d

    def __iter__(self):
        return (_un(k) for k in dict.__iter__(self.d))

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return k in self.d

    def _set(self):
        return SxSet(self)

    def __and__(self, o):
        return self._set() & o

    def __or__(self, o):
        return self._set() | o

    def __sub__(self, o):
        return self._set() - o


class _Items(list):
    pass


class SxDefaultDict(SxDict):
    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        SxDict.__init__(self, *a, **k)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v


class SxCounter(SxDict):
    def __init__(self, it=None, **k):
        SxDict.__init__(self)
        if it is not None:
            if isinstance(it, dict):
                self.update(it)
            else:
                for x in it:
                    self[x] = self.get(x, 0) + 1

    def __missing__(self, k):
        return 0

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda kv: -kv[1])
        return r if n is None else r[:n]


class _SetMeta(type):
    def __instancecheck__(cls, o):
        return issubclass(type(o), (set,)) or type(o) is cls

    def __subclasscheck__(cls, c):
        return c is cls or type.__subclasscheck__(set, c)


class SxSet(metaclass=_SetMeta):
    _frozen = False

    def __init__(self, it=()):
        self.d = SxDict()
        for x in it:
            self.d[x] = None

    def __class_getitem__(cls, k):
        return set[k]

    @property
    def __class__(self):
        return frozenset if self._frozen else set

    def add(self, x):
        if x not in self.d:
            self.d[x] = None

    def discard(self, x):
        self.d.pop(x, None)

    def remove(self, x):
        self.d.pop(x)

    def pop(self):
        if not self.d:
            raise KeyError("pop from an empty set")
        k = next(iter(self.d))
        del self.d[k]
        return k

    def clear(self):
        self.d.clear()

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def copy(self):
        return SxSet(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return SxSet(self)

    def __contains__(self, x):
        return x in self.d

    def __iter__(self):
        return iter(list(self.d))

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return len(self.d) > 0

    def __or__(self, o):
        r = SxSet(self)
        r.update(o)
        return r

    __ror__ = __or__

    def union(self, *os):
        r = SxSet(self)
        r.update(*os)
        return r

    def __and__(self, o):
        o = o if isinstance(o, (set, frozenset, SxDict)) else SxSet(o)
        return SxSet(x for x in self if x in o)

    __rand__ = __and__

    def intersection(self, *os):
        r = self
        for o in os:
            r = r & (o if isinstance(o, set) else SxSet(o))
        return r

    def __sub__(self, o):
        o = o if type(o) is SxSet else SxSet(o)
        return SxSet(x for x in self if x not in o)

    def __rsub__(self, o):
        return SxSet(x for x in o if x not in self)

    def difference(self, *os):
        r = self
        for o in os:
            r = r - o
        return SxSet(r)

    def __xor__(self, o):
        return (self - o) | (SxSet(o) - self)

    symmetric_difference = __xor__

    def __ior__(self, o):
        self.update(o)
        return self

    def __iand__(self, o):
        r = self & o
        self.d = r.d
        return self

    def __isub__(self, o):
        r = self - o
        self.d = r.d
        return self

    def difference_update(self, *os):
        for o in os:
            self -= o

    def intersection_update(self, o):
        self &= o

    def issubset(self, o):
        o = o if isinstance(o, (set, dict)) else SxSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, o):
        if not (isinstance(o, (set, frozenset)) or type(o) is SxSet):
            return False
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None


class SxFrozenSet(SxSet):
    _frozen = True

    def __hash__(self):
        return hash(frozenset(self.d))
