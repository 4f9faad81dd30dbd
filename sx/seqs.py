"""Symbolic byte strings, byte streams and text."""
from __future__ import annotations

import io as _io

import z3

from sx.core import (
    Inconclusive,
    SymBool,
    SymInt,
    and_,
    byte_to_int,
    eng,
    int_to_byte,
    is_intlike,
    ite,
    mkbool,
    mkint,
    not_,
    or_,
)


# --------------------------------------------------------------------------
# byte cells
# --------------------------------------------------------------------------
class Segment:
    """A run of bytes whose length is symbolic."""


class Token(Segment):
    """An encoded integer as written by the real writer: alternatives by case."""

    __slots__ = ("value", "alts", "length", "key", "eq_value")

    def __init__(self, value, alts, key):
        self.value = value  # SymInt
        self.alts = alts  # [(z3 cond, [cells])]
        self.key = key
        n = len(alts[-1][1])
        for cond, cells in reversed(alts[:-1]):
            n = ite(SymBool(cond), len(cells), n)
        self.length = n

    def expand(self):
        g = eng()
        for cond, cells in self.alts:
            if g.branch(cond):
                return list(cells)
        raise Inconclusive("token alternatives not exhaustive")

    def eq(self, o):
        return self.key == o.key and self.value == o.value


def same_encoder(x, y):
    """Do the two tokens' writers produce the same bytes for the same integer?"""
    if x.key == y.key:
        return True
    from sx.summaries import SUM

    return SUM.same_encoder(x.key, y.key)


class Blob(Segment):
    """An opaque run of bytes of symbolic length."""

    __slots__ = ("name", "off", "length")

    def __init__(self, name, length, off=0):
        self.name = name
        self.length = length
        self.off = off

    def expand(self):
        raise Inconclusive(f"content of opaque blob {self.name} needed")


def cell_len(c):
    return c.length if isinstance(c, Segment) else 1


def as_cells(b):
    if isinstance(b, SymBytes):
        return b.cells
    if type(b) in (bytes, bytearray):
        return list(b)
    if isinstance(b, memoryview):
        return list(b)
    raise TypeError(f"a bytes-like object is required, not {type(b).__name__!r}")


def expand_cells(cells):
    out = []
    for c in cells:
        if isinstance(c, Segment):
            out.extend(c.expand())
        else:
            out.append(c)
    return out


def norm_cell(c):
    if isinstance(c, (int, Segment)):
        return c
    if z3.is_bv_value(c):
        return c.as_long()
    return c


def mkbytes(cells):
    cells = [norm_cell(c) for c in cells]
    if all(type(c) is int for c in cells):
        return bytes(cells)
    return SymBytes(cells)


def cells_len(cells):
    n = 0
    s = 0
    for c in cells:
        if isinstance(c, Segment):
            s = s + c.length
        else:
            n += 1
    return s + n


def bv8(c):
    return z3.BitVecVal(c, 8) if isinstance(c, int) else c


def cells_eq(a, b):
    """Condition (bool/SymBool) that two cell lists denote the same bytes."""
    la = any(isinstance(c, Segment) for c in a)
    lb = any(isinstance(c, Segment) for c in b)
    if not la and not lb:
        if len(a) != len(b):
            return False
        es = []
        for x, y in zip(a, b):
            if isinstance(x, int) and isinstance(y, int):
                if x != y:
                    return False
            else:
                es.append(bv8(x) == bv8(y))
        return mkbool(z3.And(*es)) if es else True
    # segments: try an aligned comparison first
    if len(a) == len(b):
        conds = []
        ok = True
        for x, y in zip(a, b):
            if isinstance(x, Segment) or isinstance(y, Segment):
                if type(x) is Token and type(y) is Token and same_encoder(x, y):
                    conds.append(x.value == y.value)
                elif type(x) is Blob and type(y) is Blob and x.name == y.name:
                    conds.append(and_(x.off == y.off, x.length == y.length))
                else:
                    ok = False
                    break
            elif isinstance(x, int) and isinstance(y, int):
                if x != y:
                    ok = False
                    break
            else:
                conds.append(mkbool(bv8(x) == bv8(y)))
        if ok:
            c = and_(*conds)
            if c is True or (type(c) is SymBool and eng().valid(c.e)):
                return True
    # align token by token from the front, expanding where needed
    a, b = list(a), list(b)
    conds = []
    while a and b:
        x, y = a[0], b[0]
        sx, sy = isinstance(x, Segment), isinstance(y, Segment)
        if not sx and not sy:
            conds.append(mkbool(bv8(x) == bv8(y)))
            a.pop(0), b.pop(0)
            continue
        if type(x) is Token and type(y) is Token and same_encoder(x, y):
            c = x.value == y.value
            if c is True or (type(c) is SymBool and eng().valid(c.e)):
                a.pop(0), b.pop(0)
                continue
        if type(x) is Blob and type(y) is Blob and x.name == y.name:
            conds.append(and_(x.off == y.off, x.length == y.length))
            a.pop(0), b.pop(0)
            continue
        if sx:
            a[:1] = x.expand()
        if sy:
            b[:1] = y.expand()
    rest = a or b
    if rest:
        return and_(*conds, cells_len(rest) == 0)
    return and_(*conds)


class SymBytes:
    _sx_sym = True
    mutable = False

    def __init__(self, cells):
        self.cells = cells

    @property
    def __class__(self):
        return bytearray if self.mutable else bytes

    def _len(self):
        return cells_len(self.cells)

    def __len__(self):
        n = self._len()
        return n if type(n) is int else n.concretize()

    def __bool__(self):
        return bool(self._len() != 0)

    def _exp(self):
        if any(isinstance(c, Segment) for c in self.cells):
            new = expand_cells(self.cells)
            if self.mutable:
                self.cells[:] = new
                return self.cells
            return new
        return self.cells

    def __iter__(self):
        for c in self._exp():
            yield byte_to_int(c)

    def __getitem__(self, k):
        if isinstance(k, slice):
            start, stop, step = k.start, k.stop, k.step
            if step in (None, 1) and any(isinstance(c, Segment) for c in self.cells):
                if (start is None or (isinstance(start, int) and type(start) is not SymInt and start >= 0)) and (
                    stop is None or not isinstance(stop, int) or True
                ):
                    st = SymBytesIO(self)
                    st.seek(start or 0)
                    if stop is None:
                        return st.read()
                    n = stop - (start or 0)
                    if type(n) is SymInt or n >= 0:
                        return st.read(n)
            cells = self._exp()
            conv = lambda x: x.__index__() if x is not None else None
            r = cells[conv(start) : conv(stop) : conv(step)]
            return SymByteArray(list(r)) if self.mutable else mkbytes(r)
        cells = self._exp()
        if type(k) is SymInt:
            n = len(cells)
            if not (k < n) or not (k >= -n):
                raise IndexError("index out of range")
            r = 0
            for i in range(n):
                c = or_(k == i, k == i - n)
                r = ite(c, byte_to_int(cells[i]), r)
            return r
        return byte_to_int(cells[k])

    def __add__(self, o):
        try:
            c = as_cells(o)
        except TypeError:
            return NotImplemented
        if self.mutable:
            return SymByteArray(self.cells + c)
        return mkbytes(self.cells + c)

    def __radd__(self, o):
        try:
            c = as_cells(o)
        except TypeError:
            return NotImplemented
        return mkbytes(c + self.cells)

    def __mul__(self, n):
        if type(n) is SymInt:
            n = n.concretize()
        return mkbytes(list(self.cells) * n)

    __rmul__ = __mul__

    def __eq__(self, o):
        try:
            c = as_cells(o)
        except TypeError:
            return False
        return cells_eq(self.cells, c)

    def __ne__(self, o):
        return not_(self == o)

    def _cmp(self, o):
        a, b = self._exp(), expand_cells(as_cells(o))
        for x, y in zip(a, b):
            x, y = byte_to_int(x), byte_to_int(y)
            if x != y:
                return -1 if x < y else 1
        return (len(a) > len(b)) - (len(a) < len(b))

    def __lt__(self, o):
        return self._cmp(o) < 0

    def __gt__(self, o):
        return self._cmp(o) > 0

    def __le__(self, o):
        return self._cmp(o) <= 0

    def __ge__(self, o):
        return self._cmp(o) >= 0

    def __hash__(self):
        if self.mutable:
            raise TypeError("unhashable type: 'bytearray'")
        return hash(self._concrete())

    def _concrete(self):
        return bytes(
            byte_to_int(c) if isinstance(c, int) else byte_to_int(c).concretize()
            for c in self._exp()
        )

    def __bytes__(self):
        return self._concrete()

    def __contains__(self, o):
        if is_intlike(o):
            return bool(or_(*[byte_to_int(c) == o for c in self._exp()]))
        a, b = self._exp(), expand_cells(as_cells(o))
        return any(
            bool(cells_eq(a[i : i + len(b)], b)) for i in range(len(a) - len(b) + 1)
        )

    def __repr__(self):
        return "<symbytes>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symbytes>"

    def __deepcopy__(self, memo):
        return SymByteArray(list(self.cells)) if self.mutable else self

    __copy__ = lambda self: self.__deepcopy__(None)

    def decode(self, encoding="utf-8", errors="strict"):
        return decode_cells(self._exp(), encoding, errors)

    def hex(self, *a):
        s = []
        for c in self._exp():
            v = byte_to_int(c)
            s.append(_nib(v >> 4))
            s.append(_nib(v & 15))
        r = mkstr(s)
        if a and a[0]:
            parts = [r[i : i + 2] for i in range(0, len(r), 2)]
            return str_join(a[0], parts)
        return r

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.startswith(x) for x in p)
        p = as_cells(p)
        c = self._exp()[: len(p)]
        return bool(cells_eq(c, p))

    def endswith(self, p, *a):
        p = as_cells(p)
        if not p:
            return True
        c = self._exp()[-len(p) :]
        return bool(cells_eq(c, p))

    def _in(self, v, chars):
        return bool(or_(*[v == x for x in chars]))

    def rstrip(self, chars=None):
        chars = list(chars) if chars is not None else list(b" \t\n\r\x0b\f")
        c = list(self._exp())
        while c and self._in(byte_to_int(c[-1]), chars):
            c.pop()
        return mkbytes(c)

    def lstrip(self, chars=None):
        chars = list(chars) if chars is not None else list(b" \t\n\r\x0b\f")
        c = list(self._exp())
        while c and self._in(byte_to_int(c[0]), chars):
            c.pop(0)
        return mkbytes(c)

    def strip(self, chars=None):
        r = self.rstrip(chars)
        return r.lstrip(chars)

    def find(self, sub, start=0, end=None):
        a = self._exp()
        b = [sub] if is_intlike(sub) else expand_cells(as_cells(sub))
        b = [int_to_byte(x) if is_intlike(x) else x for x in b]
        for i in range(start, (len(a) if end is None else end) - len(b) + 1):
            if cells_eq(a[i : i + len(b)], b):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def count(self, sub):
        a = self._exp()
        if is_intlike(sub):
            return sum((byte_to_int(c) == sub) + 0 for c in a)
        return sum(1 for c in a if cells_eq([c], as_cells(sub)))

    def ljust(self, n, fill=b" "):
        c = list(self._exp())
        return mkbytes(c + list(fill) * max(0, n - len(c)))

    def rjust(self, n, fill=b" "):
        c = list(self._exp())
        return mkbytes(list(fill) * max(0, n - len(c)) + c)

    def join(self, parts):
        out = []
        for i, p in enumerate(parts):
            if i:
                out += self.cells
            out += as_cells(p)
        return mkbytes(out)

    def tobytes(self):
        return mkbytes(self.cells)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Inconclusive("bytes.split()")
        out, cur = [], []
        a, b = self._exp(), as_cells(sep)
        i = 0
        while i < len(a):
            if maxsplit != 0 and i + len(b) <= len(a) and cells_eq(a[i : i + len(b)], b):
                out.append(mkbytes(cur))
                cur = []
                i += len(b)
                maxsplit -= 1
            else:
                cur.append(a[i])
                i += 1
        out.append(mkbytes(cur))
        return out


class SymByteArray(SymBytes):
    mutable = True

    def append(self, v):
        self.cells.append(check_byte(v))

    def extend(self, it):
        if isinstance(it, (bytes, bytearray)):
            self.cells.extend(as_cells(it))
        else:
            for v in it:
                self.append(v)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __setitem__(self, k, v):
        self._exp()
        if isinstance(k, slice):
            self.cells[k] = as_cells(v) if isinstance(v, (bytes, bytearray)) else [check_byte(x) for x in v]
        else:
            self.cells[k] = check_byte(v)

    def __delitem__(self, k):
        self._exp()
        del self.cells[k]

    def insert(self, i, v):
        self._exp()
        self.cells.insert(i, check_byte(v))

    def pop(self, i=-1):
        self._exp()
        return byte_to_int(self.cells.pop(i))

    def clear(self):
        self.cells.clear()

    def reverse(self):
        self._exp().reverse()


def check_byte(v):
    """Python's 'bytes must be in range(0, 256)' rule; returns a cell."""
    if not is_intlike(v):
        raise TypeError("an integer is required")
    if type(v) is SymInt and v.lo >= 0 and v.hi <= 255:
        return int_to_byte(v)
    if not (0 <= v) or not (v <= 255):
        raise ValueError("bytes must be in range(0, 256)")
    return int_to_byte(v)


def make_bytes(*args, **kw):
    """bytes(...) constructor."""
    if not args and not kw:
        return b""
    x = args[0]
    if isinstance(x, SymBytes):
        return mkbytes(list(x.cells))
    if isinstance(x, (SymStr, str)):
        return x.encode(*(args[1:] or (kw.get("encoding", "utf-8"),)))
    if type(x) is SymInt:
        return bytes(x.concretize())
    if isinstance(x, (int, bytes, bytearray, memoryview)):
        return bytes(*args, **kw)
    if hasattr(x, "__bytes__"):
        return x.__bytes__()
    return mkbytes([check_byte(v) for v in x])


def make_bytearray(*args, **kw):
    if not args:
        return SymByteArray([])
    return SymByteArray(list(as_cells(make_bytes(*args, **kw))))


def _nib(v):
    """nibble -> code point of lowercase hex digit"""
    if not isinstance(v, int) or type(v) is SymInt:
        return ite(v < 10, v + 48, v + 87)
    return ord("0123456789abcdef"[v])


def fromhex(s):
    if isinstance(s, str) and type(s) is str:
        return bytes.fromhex(s)
    chars = s.chars
    out = []
    i = 0
    ws = [9, 10, 11, 12, 13, 32]

    def isws(c):
        return bool(or_(*[c == w for w in ws]))

    def val(c):
        d = and_(c >= 48, c <= 57)
        lo = and_(c >= 97, c <= 102)
        up = and_(c >= 65, c <= 70)
        if not or_(d, lo, up):
            raise ValueError("non-hexadecimal number found in fromhex() arg")
        return ite(d, c - 48, ite(lo, c - 87, c - 55))

    while i < len(chars):
        if isws(chars[i]):
            i += 1
            continue
        if i + 1 >= len(chars):
            raise ValueError("non-hexadecimal number found in fromhex() arg")
        h, l = val(chars[i]), val(chars[i + 1])
        v = (h & 15) * 16 + (l & 15)
        out.append(int_to_byte(v))
        i += 2
    return mkbytes(out)


# -- integers <-> bytes ------------------------------------------------------
def int_from_bytes(b, byteorder="big", *, signed=False):
    if not isinstance(b, SymBytes):
        if isinstance(b, (bytes, bytearray, memoryview)):
            return int.from_bytes(b, byteorder, signed=signed)
        b = make_bytes(b)
        if not isinstance(b, SymBytes):
            return int.from_bytes(b, byteorder, signed=signed)
    cells = b._exp()
    if byteorder == "little":
        cells = cells[::-1]
    elif byteorder != "big":
        raise ValueError("byteorder must be either 'little' or 'big'")
    n = 8 * len(cells)
    if not n:
        return 0
    e = bv8(cells[0]) if len(cells) == 1 else z3.Concat(*[bv8(c) for c in cells])
    if signed:
        return mkint(e, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    return mkint(z3.ZeroExt(1, e), 0, (1 << n) - 1)


def int_to_bytes(v, length=1, byteorder="big", signed=False):
    if type(length) is SymInt:
        length = length.concretize()
    if signed:
        lo, hi = -(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1
    else:
        lo, hi = 0, (1 << (8 * length)) - 1
    if type(v) is SymInt:
        if v.lo < 0 and not signed and not (v >= 0):
            raise OverflowError("can't convert negative int to unsigned")
        if not (v >= lo) or not (v <= hi):
            raise OverflowError("int too big to convert")
        e = v.at(max(8 * length, v.e.size()))
        cells = []
        for i in range(length):
            cells.append(norm_cell(z3.simplify(z3.Extract(8 * i + 7, 8 * i, e))))
        if byteorder == "big":
            cells.reverse()
        return mkbytes(cells)
    return int(v).to_bytes(length, byteorder, signed=signed)


# --------------------------------------------------------------------------
# BytesIO
# --------------------------------------------------------------------------
class BufferView:
    """What BytesIO.getbuffer() gives (reading only)."""

    def __init__(self, st):
        self.st = st

    @property
    def nbytes(self):
        return cells_len(self.st.cells)

    def _len(self):
        return cells_len(self.st.cells)

    def __len__(self):
        n = self._len()
        return n if type(n) is int else n.concretize()

    def __getitem__(self, k):
        return self.st.getvalue()[k]

    def __iter__(self):
        return iter(self.st.getvalue())

    def __eq__(self, o):
        return self.st.getvalue() == o

    def tobytes(self):
        return self.st.getvalue()

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class SymBytesIO:
    _sx_sym = True

    def __init__(self, initial=b""):
        self.cells = list(as_cells(initial)) if initial is not None else []
        self.pos = 0
        self.closed = False

    @property
    def __class__(self):
        return _io.BytesIO

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def readable(self):
        return True

    writable = seekable = readable

    def fileno(self):
        raise _io.UnsupportedOperation("fileno")

    def getvalue(self):
        return mkbytes(list(self.cells))

    def getbuffer(self):
        return BufferView(self)

    def _take(self, end):
        r = self.cells[self.pos : end]
        self.pos = end
        return mkbytes(r)

    def read(self, n=-1):
        if n is None:
            n = -1
        if type(n) is SymInt or type(n) is SymBool:
            return self._read_sym(n + 0)
        n = n.__index__()
        if n < 0:
            return self._take(max(self.pos, len(self.cells)))
        end = self.pos
        need = n
        while need > 0 and end < len(self.cells):
            c = self.cells[end]
            if isinstance(c, Segment):
                if type(c.length) is int and c.length <= need:
                    need -= c.length
                    end += 1
                    continue
                if type(c) is Blob:
                    if c.length <= need:
                        # forked: the blob fits entirely
                        need = need - c.length
                        end += 1
                        if type(need) is SymInt:
                            if need == 0:
                                break
                            if end >= len(self.cells):
                                break
                            raise Inconclusive("read past symbolic blob")
                        continue
                    self._split_blob(end, need)
                    end += 1
                    need = 0
                    break
                self.cells[end : end + 1] = c.expand()
                continue
            need -= 1
            end += 1
        return self._take(end)

    def _split_blob(self, i, n):
        b = self.cells[i]
        self.cells[i : i + 1] = [
            Blob(b.name, n, b.off),
            Blob(b.name, b.length - n, b.off + n),
        ]

    def _read_sym(self, n):
        g = eng()
        # exact boundary?
        i = self._boundary(self.pos, n)
        if i is not None:
            return self._take(i)
        if n < 0:
            return self._take(max(self.pos, len(self.cells)))
        # longer than what remains?
        rest = self.cells[self.pos :]
        if n >= cells_len(rest):
            return self._take(max(self.pos, len(self.cells)))
        if any(type(c) is Token for c in rest):
            self.cells[self.pos :] = [
                x
                for c in rest
                for x in (c.expand() if type(c) is Token else [c])
            ]
        i = self.pos
        got = 0
        while i < len(self.cells):
            c = self.cells[i]
            if n <= got:
                break
            L = cell_len(c)
            if type(c) is Blob:
                if n >= got + L:
                    got = got + L
                    i += 1
                    continue
                self._split_blob(i, n - got)
                i += 1
                break
            got = got + 1
            i += 1
        return self._take(i)

    def _boundary(self, start, n):
        """Cell index i such that cells[start:i] provably has length n."""
        g = eng()
        acc = 0
        cands = []
        for i in range(start, len(self.cells) + 1):
            c = acc == n
            if c is True:
                return i
            if c is not False:
                cands.append((i, c))
            if i < len(self.cells):
                acc = acc + cell_len(self.cells[i])
        # most likely: the end, or a segment boundary
        segs = [
            (i, c)
            for i, c in cands
            if i == len(self.cells)
            or (i > start and isinstance(self.cells[i - 1], Segment))
            or (i < len(self.cells) and isinstance(self.cells[i], Segment))
        ]
        if len(cands) <= 8:
            segs = cands
        for i, c in reversed(segs):
            if g.valid(c.e):
                return i
        return None

    def read1(self, n=-1):
        return self.read(n)

    def readinto(self, b):
        raise Inconclusive("readinto")

    def peek(self, n=0):
        p = self.pos
        r = self.read(n or 1)
        self.pos = p
        return r

    def readline(self, *a):
        raise Inconclusive("readline on symbolic stream")

    def write(self, b):
        new = list(as_cells(b))
        if self.pos > len(self.cells):
            self.cells += [0] * (self.pos - len(self.cells))
        if self.pos == len(self.cells):
            self.cells += new
            self.pos = len(self.cells)
            return cells_len(new)
        tail = self.cells[self.pos : self.pos + len(new)]
        if any(isinstance(c, Segment) for c in tail) or any(
            isinstance(c, Segment) for c in new
        ):
            if cells_len(new) == 0:
                return 0
            new = expand_cells(new)
            self.cells[self.pos :] = expand_cells(self.cells[self.pos :])
        self.cells[self.pos : self.pos + len(new)] = new
        self.pos += len(new)
        return len(new)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def tell(self):
        if self.pos > len(self.cells):
            return cells_len(self.cells) + (self.pos - len(self.cells))
        return cells_len(self.cells[: self.pos])

    def seek(self, off, whence=0):
        if whence == 2 and type(off) is int and off == 0:
            self.pos = len(self.cells)
            return self.tell()
        if whence == 1:
            off = self.tell() + off
        elif whence == 2:
            off = cells_len(self.cells) + off
        if off == self.tell():
            pass
        elif type(off) is int:
            if off < 0:
                raise ValueError(f"negative seek value {off}")
            if any(isinstance(c, Segment) for c in self.cells):
                i = self._boundary(0, off)
                if i is None:
                    self.cells = expand_cells(self.cells)
                    i = off
                self.pos = i
            else:
                self.pos = off
        else:
            i = self._boundary(0, off)
            if i is None:
                if off < 0:
                    raise ValueError("negative seek value")
                self.cells = expand_cells(self.cells)
                # beyond the end every position behaves like the end for reading
                if off >= len(self.cells):
                    i = len(self.cells)
                else:
                    i = off.concretize() if type(off) is SymInt else off
            self.pos = i
        return off

    def truncate(self, size=None):
        if size is None:
            del self.cells[self.pos :]
        else:
            self.cells = expand_cells(self.cells)
            del self.cells[size.__index__() :]
        return size

    def __iter__(self):
        raise Inconclusive("iterating a symbolic stream by lines")


# --------------------------------------------------------------------------
# text
# --------------------------------------------------------------------------
_WS = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160, 5760] + list(
    range(8192, 8203)
) + [8232, 8233, 8239, 8287, 12288]
_NL = [10, 11, 12, 13, 28, 29, 30, 133, 8232, 8233]


def ch_in(c, codes):
    if type(c) is SymInt:
        return or_(*[c == x for x in codes if c.lo <= x <= c.hi])
    return c in codes


def str_chars(s):
    if isinstance(s, SymStr):
        return s.chars
    if type(s) is str or isinstance(s, str):
        return [ord(c) for c in s]
    raise TypeError(f"expected str, got {type(s).__name__}")


def mkstr(chars):
    if all(type(c) is not SymInt for c in chars):
        return "".join(map(chr, chars))
    return SymStr(list(chars))


def chars_eq(a, b):
    if len(a) != len(b):
        return False
    return and_(*[x == y for x, y in zip(a, b)])


class SymStr:
    _sx_sym = True

    def __init__(self, chars):
        self.chars = chars

    @property
    def __class__(self):
        return str

    def _alts(self):
        return self.chars

    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return bool(self.chars)

    def __iter__(self):
        for c in self.chars:
            yield mkstr([c])

    def __getitem__(self, k):
        if isinstance(k, slice):
            conv = lambda x: x.__index__() if x is not None else None
            return mkstr(self.chars[conv(k.start) : conv(k.stop) : conv(k.step)])
        if type(k) is SymInt:
            k = k.concretize()
        return mkstr([self.chars[k]])

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(self.chars + str_chars(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(str_chars(o) + self.chars)

    def __mul__(self, n):
        if type(n) is SymInt:
            n = n.concretize()
        return mkstr(self.chars * n)

    __rmul__ = __mul__

    def __mod__(self, o):
        raise Inconclusive("% on symbolic format string")

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        return chars_eq(self.chars, str_chars(o))

    def __ne__(self, o):
        return not_(self == o)

    def _cmp(self, o):
        b = str_chars(o)
        for x, y in zip(self.chars, b):
            if x != y:
                return -1 if x < y else 1
        return (len(self.chars) > len(b)) - (len(self.chars) < len(b))

    def __lt__(self, o):
        return self._cmp(o) < 0

    def __gt__(self, o):
        return self._cmp(o) > 0

    def __le__(self, o):
        return self._cmp(o) <= 0

    def __ge__(self, o):
        return self._cmp(o) >= 0

    def _concrete(self):
        return "".join(
            chr(c if type(c) is not SymInt else c.concretize()) for c in self.chars
        )

    def __hash__(self):
        return hash(self._concrete())

    def __repr__(self):
        return "<symstr>"

    def __str__(self):
        return self._concrete()

    def __format__(self, spec):
        return format(self._concrete(), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __contains__(self, o):
        b = str_chars(o)
        a = self.chars
        return bool(
            or_(*[chars_eq(a[i : i + len(b)], b) for i in range(len(a) - len(b) + 1)])
        )

    def encode(self, encoding="utf-8", errors="strict"):
        return encode_chars(self.chars, encoding, errors)

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(x, start, end) for x in p)
        p = str_chars(p)
        return bool(chars_eq(self.chars[start:end][: len(p)], p))

    def endswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.endswith(x, start, end) for x in p)
        p = str_chars(p)
        if not p:
            return True
        return bool(chars_eq(self.chars[start:end][-len(p) :], p))

    def removeprefix(self, p):
        return self[len(p) :] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[: -len(p)] if p and self.endswith(p) else self

    def _strip(self, chars, left, right):
        codes = _WS if chars is None else str_chars(chars)
        c = list(self.chars)
        if right:
            while c and ch_in(c[-1], codes):
                c.pop()
        if left:
            while c and ch_in(c[0], codes):
                c.pop(0)
        return mkstr(c)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def splitlines(self, keepends=False):
        out, cur = [], []
        a = self.chars
        i = 0
        while i < len(a):
            c = a[i]
            if ch_in(c, _NL):
                end = [c]
                if c == 13 and i + 1 < len(a) and a[i + 1] == 10:
                    end.append(a[i + 1])
                    i += 1
                out.append(mkstr(cur + end if keepends else cur))
                cur = []
            else:
                cur.append(c)
            i += 1
        if cur:
            out.append(mkstr(cur))
        return out

    def split(self, sep=None, maxsplit=-1):
        a = self.chars
        out = []
        if sep is None:
            i = 0
            while True:
                while i < len(a) and ch_in(a[i], _WS):
                    i += 1
                if i >= len(a):
                    return out
                if maxsplit == 0:
                    rest = mkstr(a[i:])
                    out.append(rest.rstrip())
                    return out
                cur = []
                while i < len(a) and not ch_in(a[i], _WS):
                    cur.append(a[i])
                    i += 1
                out.append(mkstr(cur))
                maxsplit -= 1
        b = str_chars(sep)
        if not b:
            raise ValueError("empty separator")
        cur = []
        i = 0
        while i < len(a):
            if maxsplit != 0 and i + len(b) <= len(a) and chars_eq(a[i : i + len(b)], b):
                out.append(mkstr(cur))
                cur = []
                i += len(b)
                maxsplit -= 1
            else:
                cur.append(a[i])
                i += 1
        out.append(mkstr(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Inconclusive("rsplit(None, n)")
        parts = self.split(sep)
        if len(parts) <= maxsplit + 1:
            return parts
        k = len(parts) - maxsplit
        return [str_join(sep, parts[:k])] + parts[k:]

    def partition(self, sep):
        p = self.split(sep, 1)
        return (p[0], sep, p[1]) if len(p) == 2 else (self, "", "")

    def rpartition(self, sep):
        p = self.rsplit(sep, 1)
        return (p[0], sep, p[1]) if len(p) == 2 else ("", "", self)

    def replace(self, old, new, count=-1):
        o = str_chars(old)
        if not o:
            raise Inconclusive("replace of empty string")
        if len(o) == 1 and count == -1 and type(o[0]) is int:
            return alt_str([_alt_replace(c, o[0], str_chars(new)) for c in self._alts()])
        return str_join(new, self.split(old, count))

    def find(self, sub, start=0, end=None):
        b = str_chars(sub)
        a = self.chars
        n = len(a) if end is None else min(end, len(a))
        for i in range(start, n - len(b) + 1):
            if chars_eq(a[i : i + len(b)], b):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rfind(self, sub):
        b = str_chars(sub)
        a = self.chars
        for i in range(len(a) - len(b), -1, -1):
            if chars_eq(a[i : i + len(b)], b):
                return i
        return -1

    def count(self, sub):
        return len(self.split(sub)) - 1

    def join(self, parts):
        return str_join(self, parts)

    def _map(self, f):
        return mkstr([f(c) for c in self.chars])

    def lower(self):
        return self._map(lambda c: _case(c, 65, 90, 32, str.lower))

    def upper(self):
        return self._map(lambda c: _case(c, 97, 122, -32, str.upper))

    def casefold(self):
        return self.lower()

    def title(self):
        return self._concrete().title()

    def capitalize(self):
        return mkstr(str_chars(self[:1].upper()) + str_chars(self[1:].lower()))

    def isspace(self):
        return bool(self.chars) and all(bool(ch_in(c, _WS)) for c in self.chars)

    def _ascii_class(self, ranges, pyname):
        if not self.chars:
            return False
        for c in self.chars:
            if type(c) is SymInt:
                if c.hi > 127 and not (c < 128):
                    if not getattr(chr(c.concretize()), pyname)():
                        return False
                    continue
                if not or_(*[and_(c >= a, c <= b) for a, b in ranges]):
                    return False
            elif not getattr(chr(c), pyname)():
                return False
        return True

    def isdigit(self):
        return self._ascii_class([(48, 57)], "isdigit")

    def isdecimal(self):
        return self._ascii_class([(48, 57)], "isdecimal")

    def isnumeric(self):
        return self._ascii_class([(48, 57)], "isnumeric")

    def isalpha(self):
        return self._ascii_class([(65, 90), (97, 122)], "isalpha")

    def isalnum(self):
        return self._ascii_class([(48, 57), (65, 90), (97, 122)], "isalnum")

    def isascii(self):
        return bool(and_(*[c < 128 for c in self.chars]))

    def ljust(self, n, fill=" "):
        return mkstr(self.chars + [ord(fill)] * max(0, n - len(self.chars)))

    def rjust(self, n, fill=" "):
        return mkstr([ord(fill)] * max(0, n - len(self.chars)) + self.chars)

    def zfill(self, n):
        return self.rjust(n, "0")

    def translate(self, table):
        return mkstr(str_chars(self._concrete().translate(table)))

    def format(self, *a, **k):
        return self._concrete().format(*a, **k)


class Alt:
    """a piece of a string that is one of two character lists"""

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def flat(self):
        if len(self.a) == len(self.b):
            return [ite(self.cond, x, y) for x, y in zip(self.a, self.b)]
        return self.a if self.cond else self.b


def _alt_chars(chars, o, new):
    """replace in a character list; None if it cannot be decided"""
    out = []
    for c in chars:
        if type(c) is SymInt:
            if c.lo <= o <= c.hi:
                return None
            out.append(c)
        elif c == o:
            out += new
        else:
            out.append(c)
    return out


def _alt_replace(c, o, new):
    if isinstance(c, Alt):
        a, b = _alt_chars(c.a, o, new), _alt_chars(c.b, o, new)
        if a is None or b is None:
            return _flatten([_alt_replace(x, o, new) for x in c.flat()])
        return Alt(c.cond, a, b)
    if type(c) is SymInt:
        if not c.lo <= o <= c.hi:
            return c
        rest = [c]
        if c.hi - c.lo == 1:
            rest = [c.hi if o == c.lo else c.lo]
        return Alt(c == o, list(new), rest)
    return list(new) if c == o else c


def _flatten(pieces):
    out = []
    for p in pieces:
        if type(p) is list:
            out += p
        else:
            out.append(p)
    return out


def alt_str(pieces):
    pieces = _flatten(pieces)
    if any(isinstance(p, Alt) for p in pieces):
        return AltStr(pieces)
    return mkstr(pieces)


class AltStr(SymStr):
    """The result of a replacement: pieces whose length may depend on symbolic
    values, decided only where the characters are needed."""

    def __init__(self, pieces):
        self._pieces = pieces

    @property
    def chars(self):
        if any(isinstance(p, Alt) for p in self._pieces):
            out = []
            for p in self._pieces:
                out += p.flat() if isinstance(p, Alt) else [p]
            self._pieces = out
        return self._pieces

    def _alts(self):
        return self._pieces


def _case(c, lo, hi, d, f):
    if type(c) is SymInt:
        if c.hi > 127:
            if c > 127:
                r = f(chr(c.concretize()))
                if len(r) != 1:
                    raise Inconclusive("multi-char case mapping")
                return ord(r)
        return ite(and_(c >= lo, c <= hi), c + d, c)
    r = f(chr(c))
    return ord(r) if len(r) == 1 else c


def str_join(sep, parts):
    out = []
    s = str_chars(sep)
    for i, p in enumerate(parts):
        if i:
            out += s
        out += str_chars(p)
    return mkstr(out)


# -- codecs --------------------------------------------------------------------
def _canon(enc):
    import codecs as _c

    return _c.lookup(enc).name


_TABLES: dict[str, list] = {}


def _table(enc):
    if enc not in _TABLES:
        t = []
        for b in range(256):
            try:
                t.append(ord(bytes([b]).decode(enc)))
            except UnicodeDecodeError:
                t.append(None)
        _TABLES[enc] = t
    return _TABLES[enc]


_SINGLE = {"cp1252", "mac-roman", "iso8859-1", "ascii", "latin-1", "cp1250", "cp1251"}


def decode_cells(cells, encoding="utf-8", errors="strict"):
    enc = _canon(encoding)
    if all(type(c) is int for c in cells):
        return bytes(cells).decode(encoding, errors)
    if enc == "utf-8":
        return _decode_utf8(cells, errors)
    if enc not in _SINGLE:
        raise Inconclusive(f"codec {enc}")
    t = _table(enc)
    out = []
    for c in cells:
        if type(c) is int:
            if t[c] is None:
                if errors == "strict":
                    raise UnicodeDecodeError(enc, bytes([c]), 0, 1, "undefined")
                if errors == "replace":
                    out.append(0xFFFD)
                    continue
                if errors == "ignore":
                    continue
                raise Inconclusive("decode errors mode")
            out.append(t[c])
            continue
        v = byte_to_int(c)
        bad = [b for b in range(256) if t[b] is None]
        if bad:
            if len(bad) > 64:
                isbad = v >= 128
            else:
                isbad = or_(*[v == b for b in bad])
            if isbad:
                if errors == "strict":
                    raise UnicodeDecodeError(enc, b"?", 0, 1, "undefined")
                if errors == "replace":
                    out.append(0xFFFD)
                    continue
                if errors == "ignore":
                    continue
                raise Inconclusive("decode errors mode")
        r = v
        for b in range(256):
            if t[b] is not None and t[b] != b:
                r = ite(v == b, t[b], r)
        out.append(r)
    return mkstr(out)


def _decode_utf8(cells, errors):
    out = []
    i = 0
    n = len(cells)

    def bad(reason):
        if errors == "strict":
            raise UnicodeDecodeError("utf-8", b"?", 0, 1, reason)
        raise Inconclusive("utf-8 decode errors mode")

    def cont(j):
        if j >= n:
            bad("unexpected end of data")
        v = byte_to_int(cells[j])
        if not and_(v >= 0x80, v <= 0xBF):
            bad("invalid continuation byte")
        return v & 0x3F

    while i < n:
        v = byte_to_int(cells[i])
        if v < 0x80:
            out.append(v)
            i += 1
        elif v < 0xC2:
            bad("invalid start byte")
        elif v < 0xE0:
            out.append((v & 0x1F) * 64 + cont(i + 1))
            i += 2
        elif v < 0xF0:
            b1 = cont(i + 1)
            cp = (v & 0x0F) * 4096 + b1 * 64
            if cp < 0x800 or and_(cp >= 0xD800, cp <= 0xDFFF):
                bad("invalid continuation byte")
            out.append(cp + cont(i + 2))
            i += 3
        elif v < 0xF5:
            b1 = cont(i + 1)
            cp = (v & 0x07) * 262144 + b1 * 4096
            if cp < 0x10000 or cp > 0x10FFFF:
                bad("invalid continuation byte")
            out.append(cp + cont(i + 2) * 64 + cont(i + 3))
            i += 4
        else:
            bad("invalid start byte")
    return mkstr(out)


def encode_chars(chars, encoding="utf-8", errors="strict"):
    enc = _canon(encoding)
    if all(type(c) is not SymInt for c in chars):
        return "".join(map(chr, chars)).encode(encoding, errors)
    out = []
    if enc == "utf-8":
        for c in chars:
            if type(c) is not SymInt:
                out += list(chr(c).encode("utf-8"))
            elif c < 0x80:
                out.append(int_to_byte(c))
            elif c < 0x800:
                out.append(int_to_byte((c >> 6) | 0xC0))
                out.append(int_to_byte((c & 0x3F) | 0x80))
            elif c < 0x10000:
                if and_(c >= 0xD800, c <= 0xDFFF):
                    raise UnicodeEncodeError("utf-8", "?", 0, 1, "surrogates not allowed")
                out.append(int_to_byte((c >> 12) | 0xE0))
                out.append(int_to_byte(((c >> 6) & 0x3F) | 0x80))
                out.append(int_to_byte((c & 0x3F) | 0x80))
            else:
                out.append(int_to_byte((c >> 18) | 0xF0))
                out.append(int_to_byte(((c >> 12) & 0x3F) | 0x80))
                out.append(int_to_byte(((c >> 6) & 0x3F) | 0x80))
                out.append(int_to_byte((c & 0x3F) | 0x80))
        return mkbytes(out)
    if enc not in _SINGLE:
        raise Inconclusive(f"codec {enc}")
    t = _table(enc)
    inv = {cp: b for b, cp in enumerate(t) if cp is not None}
    special = {cp: b for cp, b in inv.items() if cp != b}
    ident = [cp for cp, b in inv.items() if cp == b]
    # contiguous identity ranges
    ranges = []
    for cp in ident:
        if ranges and ranges[-1][1] == cp - 1:
            ranges[-1][1] = cp
        else:
            ranges.append([cp, cp])
    for c in chars:
        if type(c) is not SymInt:
            out += list(chr(c).encode(encoding, errors))
            continue
        ok = or_(
            *[and_(c >= a, c <= b) for a, b in ranges],
            *[c == cp for cp in special],
        )
        if not ok:
            if errors == "strict":
                raise UnicodeEncodeError(enc, "?", 0, 1, "character maps to <undefined>")
            if errors == "replace":
                out.append(ord("?"))
                continue
            if errors == "ignore":
                continue
            raise Inconclusive("encode errors mode")
        r = c
        for cp, b in special.items():
            r = ite(c == cp, b, r)
        out.append(int_to_byte(r))
    return mkbytes(out)
