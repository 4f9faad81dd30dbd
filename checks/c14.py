"""C14: reading a damaged or truncated file ends, and keeps every entry that is complete."""
from sx.spec import Harness
from checks.common import *

PROPERTY = "C14"
EXTRA_PACKAGES = ("fontTools",)
HDR = bytes.fromhex("1a574c46313003032c000000") + bytes(32)
END = 5  # id of the end marker
# ids whose entries are decoded while the file is read
EAGER = ("FLVersion", "MasterCount", "TrueTypeStems")


def plain_id(h, name):
    eid = h.int(name, 0, 0x7FFF)
    E = ids(h)
    for x in (E.F.FLVersion, E.F.MasterCount, E.T.TrueTypeStems, E.F.MMKernPair, E.F.BlockFileDataEnd):
        h.assume(eid != int(x))
    return eid


def read(h, data):
    v = h.module("vfbLib.vfb.vfb").Vfb(timing=False)
    v.num_masters = 1
    ok, r, x = h.bounded(200 + 20 * h.len(data), v.read_bytes, h.stream(data))
    h.check(ok, "reading ends")
    return v, x


def h_cut(h):
    """a file is cut off at any point"""
    sizes = h.p["sizes"]
    s = Enc(h).raw(HDR)
    want = []
    ends = []
    pos = len(HDR)
    for i, n in enumerate(sizes):
        eid = plain_id(h, f"id{i}") if len(sizes) == 1 else h.choice(f"id{i}", [1255, 2001, 0x7FFE])
        b = h.bytes(f"b{i}", n)
        long = h.p["long"]
        if long:
            s.u16(eid + 0x8000).u32(n)
        else:
            s.u16(eid).u16(n)
        s.raw(b)
        pos += (6 if long else 4) + n
        want.append((eid, b))
        ends.append(pos)
    E = ids(h)
    s.u16(int(E.F.BlockFileDataEnd)).u16(0)
    data = s.get()
    k = h.pick("cut", len(HDR), len(data))
    v, x = read(h, data[:k])
    h.check(x is None, "the rest can be read")
    full = sum(1 for e in ends if e <= k)
    h.check(len(v.entries) >= full, "all complete entries are there")
    for (eid, b), e in zip(want[:full], v.entries):
        h.check_eq(e.id, eid, "id")
        h.check_eq(e.data, b, "data")
    rest = v.entries[full:]
    h.check(len(rest) <= 1, "at most one entry for the rest")
    if rest and full < len(want):
        # the entry that was cut
        d = rest[0].data
        h.check_eq(d, want[full][1][: len(d)], "what is left of the entry that was cut")
    h.observe("n", len(v.entries))


def h_any(h):
    """any bytes after the header"""
    p = bytes.fromhex(h.p.get("start", ""))
    n = h.p["n"] + len(p)
    b = p + h.bytes("b", h.p["n"])
    v, x = read(h, HDR + b)
    h.observe("error", x is not None)
    # every complete entry before the first one that is decoded while reading
    E = ids(h)
    pos, i = 0, 0
    while pos + 4 <= n:
        raw = b[pos] + b[pos + 1] * 256
        if raw >= 0x8000:
            if pos + 6 > n:
                break
            eid, hs = raw - 0x8000, 6
            size = b[pos + 2] + b[pos + 3] * 256 + b[pos + 4] * 65536 + b[pos + 5] * 16777216
        else:
            eid, hs = raw, 4
            size = b[pos + 2] + b[pos + 3] * 256
        if h.any([eid == int(y) for y in (E.F.FLVersion, E.F.MasterCount, E.T.TrueTypeStems, E.F.MMKernPair)]):
            # decoded while reading (C13), or with a size of its own (C03)
            return
        if pos + hs + size > n:
            break
        k = 0
        while size != k:
            k += 1
        pos += hs
        h.check(len(v.entries) > i, "the entry was read")
        h.check_eq(v.entries[i].id, eid, "id")
        h.check_eq(v.entries[i].data, b[pos:pos + k], "data")
        pos += k
        i += 1
        if eid == int(E.F.BlockFileDataEnd):
            h.check(x is None, "the file can be read")
            h.check(len(v.entries) == i, "nothing is read after the end marker")
            return
    if pos + 2 <= n and h.any([(b[pos] + b[pos + 1] * 256) & 0x7FFF == int(y) for y in (E.F.FLVersion, E.F.MasterCount, E.T.TrueTypeStems, E.F.MMKernPair)]):
        return
    h.check(x is None, "the file can be read")
    h.check(len(v.entries) <= i + 1, "no more entries than there are in the file")


def h_header(h):
    """a file that ends in the header, or has any other beginning"""
    n = h.p["n"]
    data = HDR[: h.p["keep"]] + h.bytes("b", n)
    v, x = read(h, data)
    good = h.all([len(data) >= 8, h.same(data[:7], HDR[:7])]) if len(data) >= 8 else False
    if x is None:
        h.check(good, "only files with a valid signature are accepted")
    else:
        h.check(len(v.entries) == 0, "no entries")
    h.observe("error", x is not None)


HARNESSES = [
    Harness("cut", h_cut, [{"sizes": s, "long": l} for s in ([], [0], [2], [1, 3], [0, 2, 1]) for l in (0, 1)],
            bounds="files of up to 3 entries of up to 3 bytes, in both header forms, cut off anywhere; every content, every id (with more than one entry: three ids)"),
    Harness("any", h_any, [{"n": n} for n in (0, 1, 2, 3, 4)] +
            [{"start": p, "n": n} for p, n in (("fe7f", 3), ("fefe", 4), ("fefe", 5), ("fe7f0000", 4), ("fe7f0100", 5), ("fe7f0000fe7f", 3), ("0200", 5), ("02000100", 5), ("02000000", 4), ("028001000000", 5), ("fe7f01007a0200", 6))],
            thorough=[{"n": n} for n in (5, 6)] + [{"start": p, "n": 6} for p in ("fe7f", "fefe")],
            bounds="every content of up to 4 (6) bytes after the file header; up to 5 free bytes after the beginning of an entry"),
    Harness("header", h_header, [{"keep": k, "n": n} for k, n in ((0, 0), (0, 4), (0, 8), (4, 4), (7, 1), (8, 0), (8, 2))],
            bounds="every beginning of up to 8 bytes, every end within the header"),
]
