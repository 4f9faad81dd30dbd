"""Shared pieces of the harnesses: an independent encoder for expected bytes, and
the entry round trip."""

# characters of the Windows-1252 repertoire (what names in the file format can hold)
CP1252 = [
    (0x20, 0x7E), (0xA0, 0xFF), (0x20AC, 0x20AC), (0x201A, 0x201A), (0x0192, 0x0192),
    (0x201E, 0x201E), (0x2026, 0x2026), (0x2020, 0x2021), (0x02C6, 0x02C6),
    (0x2030, 0x2030), (0x0160, 0x0160), (0x2039, 0x2039), (0x0152, 0x0152),
    (0x017D, 0x017D), (0x2018, 0x2019), (0x201C, 0x201D), (0x2022, 0x2022),
    (0x2013, 0x2014), (0x02DC, 0x02DC), (0x2122, 0x2122), (0x0161, 0x0161),
    (0x203A, 0x203A), (0x0153, 0x0153), (0x017E, 0x017E), (0x0178, 0x0178),
]
I32 = (-(1 << 31), (1 << 31) - 1)
U32 = (0, (1 << 32) - 1)
I16 = (-(1 << 15), (1 << 15) - 1)
U16 = (0, (1 << 16) - 1)
I8 = (-128, 127)
U8 = (0, 255)
# coordinates: differences of two of them always fit the 32 bit encoding
COORD = (-(1 << 30), (1 << 30) - 1)


class Enc:
    """Builds expected bytes, independently of the compilers (the number format
    itself is the subject of C01)."""

    def __init__(self, h):
        self.h = h
        self.s = h.stream()
        self.wv = h.module("vfbLib.compilers.value").write_value
        self.wl = h.module("vfbLib.compilers.value").write_value_long

    def v(self, *xs):
        for x in xs:
            self.wv(x, self.s)
        return self

    def vu(self, *xs):
        for x in xs:
            self.wv(x, self.s, False)
        return self

    def vlong(self, x):
        self.wl(x, self.s, False)
        return self

    def raw(self, b):
        self.s.write(b)
        return self

    def _int(self, x, n, signed):
        if self.h.symbolic:
            from sx.seqs import int_to_bytes

            self.s.write(int_to_bytes(x, n, "little", signed=signed))
        else:
            self.s.write(x.to_bytes(n, "little", signed=signed))
        return self

    def u8(self, *xs):
        for x in xs:
            self._int(x, 1, False)
        return self

    def i8(self, *xs):
        for x in xs:
            self._int(x, 1, True)
        return self

    def u16(self, *xs):
        for x in xs:
            self._int(x, 2, False)
        return self

    def i16(self, *xs):
        for x in xs:
            self._int(x, 2, True)
        return self

    def u32(self, *xs):
        for x in xs:
            self._int(x, 4, False)
        return self

    def i32(self, *xs):
        for x in xs:
            self._int(x, 4, True)
        return self

    def d(self, *xs):
        for x in xs:
            if self.h.symbolic and not isinstance(x, float):
                from sx.seqs import SymBytes

                self.s.write(SymBytes(list(x.cells)))
            else:
                import struct

                self.s.write(struct.pack("<d", x))
        return self

    def s_(self, t, encoding="cp1252"):
        self.s.write(t.encode(encoding))
        return self

    def sl(self, t, encoding="cp1252"):
        b = t.encode(encoding)
        self.v(self.h.len(b))
        self.s.write(b)
        return self

    def get(self):
        return self.s.getvalue()


def vfb(h, masters=1, **kw):
    v = h.module("vfbLib.vfb.vfb").Vfb(timing=False)
    v.num_masters = masters
    for k, x in kw.items():
        setattr(v, k, x)
    return v


def entry(h, v, eid):
    return h.module("vfbLib.vfb.entry").VfbEntry(v, eid=eid)


def ids(h):
    return h.module("vfbLib.enum")


def copy(x):
    if isinstance(x, dict):
        return {k: copy(y) for k, y in x.items()}
    if isinstance(x, list):
        return [copy(y) for y in x]
    if isinstance(x, tuple):
        return tuple(copy(y) for y in x)
    return x


def roundtrip(h, eid, data, spec, v=None, expect=None, what="", norm=None, write=True):
    """data compiles to exactly spec, and spec is read as data (or `expect`)."""
    v = v if v is not None else vfb(h)
    if write:
        e1 = entry(h, v, eid)
        e1.data = copy(data)
        e1.compile()
        h.check(isinstance(e1.data, bytes), "compiled" + what)
        h.observe("compiled" + what, e1.data)
        h.check_eq(e1.data, spec, "written bytes" + what)
        h.check_eq(e1.size, h.len(spec), "entry size" + what)
    e2 = entry(h, v, eid)
    e2.data = spec
    e2.decompile()
    got = norm(e2.data) if norm else e2.data
    h.observe("decompiled" + what, got)
    h.check_eq(got, expect if expect is not None else data, "read back" + what)
    # what was read is written again as it was
    e2.compile()
    h.check_eq(e2.data, spec, "rewritten bytes" + what)


def text(h, name, n, long=False):
    t = h.text(name, n, ranges=CP1252)
    return ("A" * 108 + t) if long else t
