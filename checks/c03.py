"""C03: the container: header, entry framing, order, raw data."""
from sx.spec import Harness
from checks.common import *

PROPERTY = "C03"
HDR = bytes.fromhex("1a574c46313003032c000000") + bytes(32)


def header_bytes(h, minor):
    return Enc(h).raw(bytes.fromhex("1a574c46313003")).u8(minor).u32(44).raw(bytes(32)).get()


def frame(h, eid, n):
    """Independent statement of the entry header."""
    small = Enc(h).u16(eid).u16(h.ite(n <= 0xFFFF, n, 0)).get()
    big = Enc(h).u16(eid + 0x8000).u32(n).get()
    return small, big


def h_entry_header(h):
    """header of an entry with any id and any amount of data; read back"""
    v = vfb(h)
    eid = h.int("eid", 0, 0x7FFF)
    h.assume(eid != 1410)  # the kerning pair entry has its own framing (below)
    data = h.blob("data", 0, 200000)
    e = entry(h, v, eid)
    e.data = data
    n = len(data)
    hd = e.header
    small, big = frame(h, eid, n)
    if n <= 0xFFFF:
        h.check_eq(hd, small, "short form header")
    else:
        h.check_eq(hd, big, "long form header")
    h.check_eq(e.size, n, "size")
    r = h.module("vfbLib.vfb.entry").VfbEntry(v)
    tail = h.bytes("tail", 2)
    st = h.stream(hd + data + tail)
    r.read(st)
    h.check_eq(r.id, eid, "id read back")
    h.check_eq(r.data, data, "data read back")
    h.check_eq(st.read(), tail, "consumes exactly the entry")
    h.observe("header", hd)


def h_long_form(h):
    """the long form is read for any size, also small ones"""
    v = vfb(h)
    eid = h.int("eid", 0, 0x7FFF)
    h.assume(eid != 1410)
    data = h.blob("data", 0, 100000)
    tail = h.bytes("tail", 1)
    st = h.stream(Enc(h).u16(eid + 0x8000).u32(len(data)).get() + data + tail)
    r = h.module("vfbLib.vfb.entry").VfbEntry(v)
    r.read(st)
    h.check_eq(r.id, eid, "id")
    h.check_eq(r.data, data, "data")
    h.check_eq(st.read(), tail, "rest")


def h_kernpair(h):
    """the kerning pair entry: size depends on the number of masters only"""
    m = h.p["m"]
    v = vfb(h, m)
    data = h.bytes("data", 8 + 2 * m)
    size = h.int("size", 0, 0xFFFF)
    tail = h.bytes("tail", 1)
    st = h.stream(Enc(h).u16(1410).u16(size).get() + data + tail)
    r = h.module("vfbLib.vfb.entry").VfbEntry(v)
    r.read(st)
    h.check_eq(r.data, data, "data")
    h.check_eq(st.read(), tail, "rest")


def h_file(h):
    """a file of up to four entries keeps ids, order, sizes and data, and is
    written as it was read"""
    k = h.p["k"]
    minor = h.int("minor", 0, 255)
    s = header_bytes(h, minor)
    want = []
    for i in range(k):
        # any id that is not interpreted while reading
        if i == h.p.get("any", 0):
            eid = h.int(f"id{i}", 0, 0x7FFF)
            h.assume(h.all([eid != x for x in special(h)]))
        else:
            eid = h.choice(f"id{i}", [1026, 2001, 0x7FFF][: h.p.get("ids", 2)])
        data = h.blob(f"data{i}", 0, 150000)
        small, big = frame(h, eid, len(data))
        s = s + (small if len(data) <= 0xFFFF else big) + data
        want.append((eid, data))
    end = ids(h).F.BlockFileDataEnd.value
    s = s + Enc(h).u16(end).u16(0).get()
    junk = h.bytes("junk", h.p["junk"])
    v = h.module("vfbLib.vfb.vfb").Vfb(timing=False)
    st = h.stream(s + junk)
    v.read_bytes(st)
    h.check_eq(len(v.entries), k + 1, "number of entries")
    for i, (eid, data) in enumerate(want):
        h.check_eq(v.entries[i].id, eid, f"id of entry {i}")
        h.check_eq(v.entries[i].data, data, f"data of entry {i}")
    h.check_eq(v.entries[k].id, end, "end entry")
    out = h.stream()
    v.write_bytes(out)
    h.check_eq(out.getvalue(), s, "file bytes")
    h.observe("n", len(s))


def special(h):
    E = ids(h)
    return [E.F.BlockFileDataEnd.value, E.F.MMKernPair.value, E.F.FLVersion.value,
            E.F.MasterCount.value, E.T.TrueTypeStems.value]


def h_drop(h):
    """dropped ids are left out, everything else stays"""
    a = h.int("a", 0, 0x7FFF)
    b = h.choice("b", [1026, 2001, 777])
    d = h.int("drop", 0, 0x7FFF)
    sp = special(h)
    for x in (a, d):
        h.assume(h.all([x != y for y in sp]))
    s = HDR
    s = s + Enc(h).u16(a).u16(1).raw(b"x").u16(b).u16(2).raw(b"yz").get()
    s = s + Enc(h).u16(sp[0]).u16(0).get()
    v = h.module("vfbLib.vfb.vfb").Vfb(timing=False, drop_keys={d})
    v.read_bytes(h.stream(s))
    got = [(e.id, e.data) for e in v.entries]
    want = []
    if a != d:
        want.append((a, b"x"))
    if b != d:
        want.append((b, b"yz"))
    want.append((sp[0], b""))
    h.check_eq(got, want, "entries kept")


def h_header(h):
    """the file header: accepted exactly for the supported format, written back"""
    E = Enc(h)
    sig = h.int("sig", *U32)
    app = h.int("app", *U8)
    fil = h.int("file", *U8)
    maj = h.int("major", *U8)
    mnr = h.int("minor", *U8)
    s = E.u32(sig).u8(app, fil, maj, mnr).u32(44).raw(bytes(32)).get()
    rest = h.bytes("rest", 1)
    H = h.module("vfbLib.vfb.header").VfbHeader
    hd = H()
    st = h.stream(s + rest)
    ok, e = h.call(hd.read, st, allow=(AssertionError, ValueError))
    good = h.all([sig == 0x464C571A, app == 0x31, fil == 0x30, maj == 3])
    if not ok:
        h.check(h.not_(good), "a supported file is accepted")
        return
    h.check(good, "only supported files are accepted")
    h.check_eq(st.read(), rest, "data starts after the header")
    h.check_eq(hd.data["version_minor"], mnr, "minor version")
    hd.compile()
    h.check_eq(hd.data, s, "header bytes")
    hd.decompile()
    h.check_eq(hd.data["version_minor"], mnr, "minor version again")
    h.check_eq(hd.data["signature"], 0x464C571A, "signature")


def h_interpreted(h):
    """the entries the reader interprets itself (version, master count, stems)
    are still written back as they were"""
    E = ids(h)
    plat = h.choice("plat", [0, 1])
    ver = [h.int(f"ver{i}", 0, 255) for i in range(4)]
    owner = h.int("owner", *I32)
    mc = h.int("masters", 0, 0xFFFF)
    flv = Enc(h).u8(1).v(plat).u8(2).u8(255).u8(*ver).u8(3).v(owner).u8(0).get()
    w = h.int("w", -100, 100)
    p6 = h.int("p6", -100, 100)
    stems = Enc(h).v(1, w).u8(1).raw(b"s").v(p6).v(0).get()
    s = HDR
    for eid, d in ((E.F.FLVersion.value, flv), (E.F.MasterCount.value, Enc(h).u16(mc).get()),
                   (E.T.TrueTypeStems.value, stems), (E.F.BlockFileDataEnd.value, b"")):
        s = s + Enc(h).u16(eid).u16(len(d)).get() + d
    v = h.module("vfbLib.vfb.vfb").Vfb(timing=False)
    v.read_bytes(h.stream(s))
    h.check_eq(v.num_masters, mc, "number of masters")
    h.check_eq(v.writer_platform, ["windows", "macos"][plat], "platform")
    h.check_eq((v.ttStemsV_count, v.ttStemsH_count), (1, 0), "stem counts")
    out = h.stream()
    v.write_bytes(out)
    h.check_eq(out.getvalue(), s, "file bytes")


HARNESSES = [
    Harness("entry_header", h_entry_header, bounds="every id, data of 0..200000 bytes"),
    Harness("long_form", h_long_form, bounds="every id, data of 0..100000 bytes"),
    Harness("kernpair", h_kernpair, [{"m": m} for m in (1, 2, 16)], bounds="1, 2, 16 masters"),
    Harness("file", h_file, [{"k": k, "junk": j} for k in (0, 1, 2) for j in (0, 1)],
            thorough=[{"k": k, "junk": j, "any": a, "ids": 3} for k in (0, 1, 2, 3) for j in (0, 2)
                      for a in range(max(k, 1))],
            bounds="up to 2 (3) entries, one with any id but the interpreted ones, 0..150000 bytes each"),
    Harness("drop", h_drop, bounds="two entries, every id, every dropped id"),
    Harness("header", h_header, bounds="every value of every header field"),
    Harness("interpreted", h_interpreted, bounds="every field value"),
]
