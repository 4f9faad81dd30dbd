"""C01: the encoded-integer codec."""
from sx.spec import Harness

PROPERTY = "C01"


def spec_len(h, v):
    return h.ite(h.all([v >= -107, v <= 107]), 1,
                 h.ite(h.all([v >= -1131, v <= 1131]), 2, 5))


def h_roundtrip(h):
    """write then read, any value, followed by any byte."""
    W = h.module("vfbLib.compilers.base").StreamWriter
    R = h.module("vfbLib.parsers.base").StreamReader
    with h.unsummarised():
        signed = h.p["signed"]
        lo, hi = (-(1 << 31), (1 << 31) - 1) if signed else (0, (1 << 32) - 1)
        v = h.int("v", lo, hi)
        tail = h.bytes("tail", h.p["tail"])
        w = W()
        w.stream = h.stream()
        if h.p["shortest"]:
            w.write_value(v, signed=signed)
        else:
            w.write_value(v, shortest=False, signed=signed)
        data = w.stream.getvalue()
        n = len(data)
        if h.p["shortest"]:
            h.check(n == spec_len(h, v), "shortest form")
        else:
            h.check(n == 5, "long form is five bytes")
        r = R()
        r.stream = h.stream(data + tail)
        got = r.read_value(signed=signed)
        h.check_eq(got, v, "value read back")
        h.check_eq(r.stream.read(), tail, "consumes exactly its own bytes")
        h.observe("data", data)
        h.observe("got", got)


def h_reencode(h):
    """any byte string the reader accepts denotes a value that re-encodes to the
    same bytes when they were in shortest form"""
    W = h.module("vfbLib.compilers.base").StreamWriter
    R = h.module("vfbLib.parsers.base").StreamReader
    with h.unsummarised():
        b = h.bytes("b", 5)
        r = R()
        r.stream = h.stream(b)
        ok, v = h.call(r.read_value, allow=(EOFError, ValueError))
        first = b[0]
        if not ok:
            h.check(first < 0x20, "only codes below 0x20 are rejected")
            if first == 0:
                h.check(isinstance(v, EOFError), "0 marks the end")
            return
        h.check(first >= 0x20, "codes below 0x20 are not values")
        used = 5 - len(r.stream.read())
        h.check(used == h.ite(first < 0xF7, 1, h.ite(first < 0xFF, 2, 5)), "length by first byte")
        # independent statement of the Type 1 charstring number format
        v1 = first - 139
        v2 = (first - 247) * 256 + b[1] + 108
        v3 = -(first - 251) * 256 - b[1] - 108
        u = ((b[1] * 256 + b[2]) * 256 + b[3]) * 256 + b[4]
        v5 = h.ite(u >= (1 << 31), u - (1 << 32), u)
        want = h.ite(first < 0xF7, v1, h.ite(first < 0xFB, v2, h.ite(first < 0xFF, v3, v5)))
        h.check_eq(v, want, "decoded value")
        w = W()
        w.stream = h.stream()
        w.write_value(v)
        data = w.stream.getvalue()
        if first != 0xFF:
            h.check_eq(data, b[:used], "re-encodes to the same bytes")
        h.observe("v", v)


def h_range(h):
    """values out of range are refused, or read back as they are; never truncated"""
    W = h.module("vfbLib.compilers.base").StreamWriter
    R = h.module("vfbLib.parsers.base").StreamReader
    with h.unsummarised():
        signed = h.p["signed"]
        v = h.int("v", -(1 << 40), 1 << 40)
        w = W()
        w.stream = h.stream()
        kw = {} if h.p["shortest"] else {"shortest": False}
        ok, e = h.call(w.write_value, v, signed=signed, allow=(h.module("struct").error, OverflowError, ValueError), **kw)
        lo, hi = (-(1 << 31), (1 << 31) - 1) if signed else (0, (1 << 32) - 1)
        data = w.stream.getvalue()
        h.observe("data", data)
        if not ok:
            h.check(h.any([v < lo, v > hi]), "a value in range is accepted")
            h.check_eq(data, b"", "nothing is written for a refused value")
            return
        r = R()
        r.stream = h.stream(data)
        h.check_eq(r.read_value(signed=signed), v, "value read back")


def h_cut(h):
    """a number that is not complete is not a number"""
    R = h.module("vfbLib.parsers.base").StreamReader
    with h.unsummarised():
        n = h.p["n"]
        b = h.bytes("b", n)
        r = R()
        r.stream = h.stream(b)
        ok, v = h.call(r.read_value, signed=h.p["signed"], allow=(EOFError, ValueError))
        h.observe("ok", ok)
        if n == 0:
            h.check(not ok, "no number without data")
            return
        need = h.ite(b[0] < 0xF7, 1, h.ite(b[0] < 0xFF, 2, 5))
        h.check(h.same(ok, h.all([b[0] >= 0x20, need <= n])), "a number is complete")
        if ok and n == 5 and not h.p["signed"]:
            u = ((b[1] * 256 + b[2]) * 256 + b[3]) * 256 + b[4]
            h.check(h.any([b[0] != 0xFF, v == u]), "unsigned number")


HARNESSES = [
    Harness(
        "roundtrip", h_roundtrip,
        [{"signed": s, "shortest": sh, "tail": 2} for s in (True, False) for sh in (True, False)],
        bounds="every signed 32-bit and every unsigned 32-bit value, 2 arbitrary trailing bytes",
    ),
    Harness("range", h_range, [{"signed": s, "shortest": sh} for s in (True, False) for sh in (True, False)], bounds="every integer in [-2^40, 2^40]"),
    Harness("cut", h_cut, [{"n": n, "signed": s} for n in range(6) for s in (True, False)], bounds="every buffer of up to 5 bytes"),
    Harness("reencode", h_reencode, bounds="every 5-byte buffer"),
]
