"""C02: fixed-size fields."""
from sx.spec import Harness
from checks.common import *

PROPERTY = "C02"
WIDE = (-(1 << 40), 1 << 40)
INTS = {
    "int8": (1, True), "int16": (2, True), "int32": (4, True),
    "uint8": (1, False), "uint16": (2, False), "uint32": (4, False),
}


def mk(h):
    W = h.module("vfbLib.compilers.base").StreamWriter
    R = h.module("vfbLib.parsers.base").StreamReader
    w, r = W(), R()
    w.stream = h.stream()
    return w, r


def h_int(h):
    size, signed = INTS[h.p["kind"]]
    lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
    v = h.int("v", *WIDE)
    tail = h.bytes("tail", 1)
    w, r = mk(h)
    ok, e = h.call(getattr(w, "write_" + h.p["kind"]), v, allow=(OverflowError, ValueError, h.module("struct").error))
    if not ok:
        h.check(h.any([v < lo, v > hi]), "a value in range is accepted")
        h.check_eq(w.stream.getvalue(), b"", "nothing is written for a rejected value")
        return
    h.check(h.all([v >= lo, v <= hi]), "a value out of range is rejected")
    data = w.stream.getvalue()
    h.check(len(data) == size, "field size")
    u = 0
    for i in range(size):
        u = u + data[i] * (1 << (8 * i))
    h.check_eq(u, h.ite(v < 0, v + (1 << (8 * size)), v), "little endian")
    r.stream = h.stream(data + tail)
    h.check_eq(getattr(r, "read_" + h.p["kind"])(), v, "read back")
    h.check_eq(r.stream.read(), tail, "consumes its own bytes")
    h.observe("data", data)


def h_read(h):
    """every byte pattern is a value, and is written back as it was"""
    size, signed = INTS[h.p["kind"]]
    b = h.bytes("b", size)
    w, r = mk(h)
    r.stream = h.stream(b)
    v = getattr(r, "read_" + h.p["kind"])()
    getattr(w, "write_" + h.p["kind"])(v)
    h.check_eq(w.stream.getvalue(), b, "bytes survive")
    h.observe("v", v)


def h_cut(h):
    """a field that is not complete is not read"""
    size, signed = INTS[h.p["kind"]]
    for n in range(size):
        w, r = mk(h)
        r.stream = h.stream(h.bytes(f"b{n}", n))
        ok, e = h.call(getattr(r, "read_" + h.p["kind"]), allow=(EOFError, ValueError))
        h.check(not ok, "end of data")
    w, r = mk(h)
    r.stream = h.stream(h.bytes("d", h.p["double"]))
    ok, e = h.call(r.read_doubles, 2, allow=(EOFError, ValueError, h.module("struct").error))
    h.check(not ok, "end of data (doubles)")


def h_double(h):
    xs = [h.double(f"d{i}") for i in range(h.p["n"])]
    w, r = mk(h)
    w.write_doubles(xs)
    data = w.stream.getvalue()
    h.check_eq(data, Enc(h).d(*xs).get(), "IEEE little endian")
    r.stream = h.stream(data)
    got = r.read_doubles(h.p["n"])
    h.check_eq(list(got), xs, "doubles bit for bit")
    if h.p["n"] == 1:
        w2, _ = mk(h)
        w2.write_double(xs[0])
        h.check_eq(w2.stream.getvalue(), data, "single double")
        r.stream = h.stream(data)
        h.check_eq(r.read_double(), xs[0], "single double read")
    h.observe("data", data)


def h_str(h):
    n, pad = h.p["n"], h.p["pad"]
    t = h.text("t", n, ranges=CP1252)
    tail = h.bytes("tail", 1)
    w, r = mk(h)
    w.write_str(t, pad)
    data = w.stream.getvalue()
    want = Enc(h).s_(t).raw(b"\0" * max(0, pad - n)).get()
    h.check_eq(data, want, "encoded, padded with zero bytes")
    r.stream = h.stream(data + tail)
    h.check_eq(r.read_str(len(data)), t + "\0" * max(0, pad - n), "read back")
    h.check_eq(r.stream.read(), tail, "consumes its own bytes")
    w, r = mk(h)
    w.write_str_with_len(t)
    data = w.stream.getvalue()
    h.check_eq(data, Enc(h).sl(t).get(), "length and text")
    r.stream = h.stream(data + tail)
    h.check_eq(r.read_str_with_len(), t, "read back (with length)")
    h.check_eq(r.stream.read(), tail, "consumes its own bytes (with length)")
    h.observe("data", data)


def h_utf8(h):
    """texts in UTF-8: lengths and padding count bytes, not characters"""
    n, pad = h.p["n"], h.p["pad"]
    t = h.text("t", n, ranges=[(0x20, 0x7E), (0xA0, 0x7FF), (0x20A0, 0xD7FF), (0xE000, 0xFFFD), (0x10000, 0x1F000)])
    w, r = mk(h)
    w.encoding = r.encoding = "utf-8"
    w.write_str(t, pad)
    data = w.stream.getvalue()
    size = len(t.encode("utf-8"))
    h.check_eq(data, Enc(h).s_(t, "utf-8").raw(b"\0" * max(0, pad - size)).get(), "encoded, padded with zero bytes")
    r.stream = h.stream(data)
    h.check_eq(r.read_str(len(data)), t + "\0" * max(0, pad - size), "read back")
    w.stream = h.stream()
    w.write_str_with_len(t)
    data = w.stream.getvalue()
    h.check_eq(data, Enc(h).sl(t, "utf-8").get(), "length and text")
    r.stream = h.stream(data + b"x")
    h.check_eq(r.read_str_with_len(), t, "read back (with length)")
    h.check_eq(r.stream.read(), b"x", "consumes its own bytes (with length)")
    h.observe("data", data)


def h_strlong(h):
    """lengths around the switch points of the length encoding"""
    n = h.choice("n", [106, 107, 108, 255, 256, 1131, 1132])
    c = h.text("c", 1, ranges=CP1252)
    t = "A" * (n - 1) + c
    w, r = mk(h)
    w.write_str_with_len(t)
    data = w.stream.getvalue()
    h.check_eq(data, Enc(h).sl(t).get(), "length and text")
    r.stream = h.stream(data)
    h.check_eq(r.read_str_with_len(), t, "read back")


def h_strbad(h):
    """characters that the encoding cannot hold are refused, not replaced"""
    t = h.text("t", 1, ranges=[(0, 0xD7FF), (0xE000, 0x10FFFF)])
    w, r = mk(h)
    ok, e = h.call(w.write_str, t, allow=(UnicodeError,))
    if not ok:
        h.check_eq(w.stream.getvalue(), b"", "nothing is written for a rejected text")
        return
    data = w.stream.getvalue()
    h.check(len(data) == 1, "one byte per character")
    r.stream = h.stream(data)
    h.check_eq(r.read_str_all(), t, "an accepted text reads back")
    h.observe("data", data)


def h_bytes(h):
    b = h.bytes("b", h.p["n"])
    w, r = mk(h)
    w.write_bytes(b)
    h.check_eq(w.stream.getvalue(), b, "raw bytes")
    H = h.module("vfbLib.helpers")
    x = H.hexStr(b)
    h.check(len(x) == 2 * len(b), "two digits per byte")
    h.check_eq(H.deHexStr(x), b, "hex text keeps the bytes")
    h.observe("x", x)


HARNESSES = [
    Harness("int", h_int, [{"kind": k} for k in INTS], bounds="every integer in [-2^40, 2^40]"),
    Harness("read", h_read, [{"kind": k} for k in INTS], bounds="every byte pattern"),
    Harness("cut", h_cut, [{"kind": k, "double": d} for k, d in zip(INTS, (0, 1, 7, 8, 12, 15))], bounds="every content that is too short"),
    Harness("double", h_double, [{"n": n} for n in (1, 2, 6)], bounds="every 64 bit pattern, 1/2/6 doubles"),
    Harness("str", h_str, [{"n": n, "pad": p} for n in (0, 1, 2) for p in (0, 4, 1)],
            thorough=[{"n": n, "pad": p} for n in (0, 1, 2, 3, 4) for p in (0, 1, 3, 4, 16)],
            bounds="texts of up to 2 (4) Windows-1252 characters, padding 0/1/4"),
    Harness("utf-8", h_utf8, [{"n": n, "pad": p} for n in (1, 2) for p in (0, 4)], thorough=[{"n": n, "pad": p} for n in (1, 2, 3) for p in (0, 4, 8)],
            bounds="texts of up to 2 (3) characters of all lengths in UTF-8, padding 0/4 (8)"),
    Harness("strlong", h_strlong, bounds="7 lengths around the encoding switch points, last character symbolic"),
    Harness("strbad", h_strbad, bounds="every Unicode character"),
    Harness("bytes", h_bytes, [{"n": n} for n in (0, 1, 3)], bounds="every byte string of 0, 1, 3 bytes"),
]
