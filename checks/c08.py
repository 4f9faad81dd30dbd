"""C08: the TrueType entries."""
from sx.spec import Harness
from checks.common import *
from checks.c03 import HDR
from checks.c09 import bit, check_bits, field, rewrite, signed

PROPERTY = "C08"

# the order in which the keys are written
ORDER = [*range(0x33, 0x3D), 0x56, 0x57, *range(0x3D, 0x53), 0x5C, 0x53, 0x58, 0x54]
VALUES = [k for k in ORDER if k not in (0x39, 0x4C, 0x53, 0x58, 0x54)]
SETS = {
    "none": [], "all": ORDER, "values": VALUES,
    "special": [0x39, 0x4C, 0x53, 0x58, 0x54],
    **{hex(k): [k] for k in ORDER},
}


def h_ttinfo(h):
    names = h.module("vfbLib").ttinfo_names
    settings = h.module("vfbLib").tt_settings
    d, e = {}, Enc(h)
    for k in SETS[h.p["keys"]]:
        e.u8(k)
        n = names[k]
        if k == 0x39:
            alone = h.p["keys"] == "0x39"
            flags = [i for i in (range(0, 16, 5) if alone else (5,)) if h.bool(f"flag{i}")]
            options = [i for i in ((0, 1, 2, 3, 15) if alone else (1, 15)) if h.bool(f"option{i}")]
            # (the named ones are in the order of the file anyway)
            d[n] = {"flags": flags, "options": [settings.get(i, str(i)) for i in options]}
            v = sum(1 << i for i in flags) + sum(1 << 16 + i for i in options)
            e.v(v - (1 << 32) if v >= 1 << 31 else v)
        elif k == 0x4C:
            d[n] = [h.int(f"panose{i}", *U8) for i in range(10)]
            e.u8(*d[n])
        elif k in (0x53, 0x58):
            d[n] = [h.int(f"ppm{k}_{i}", *U8) for i in range(h.p["hdmx"])]
            e.v(len(d[n])).u8(*d[n])
        elif k == 0x54:
            d[n] = {f"os2_ul_code_page_range{i}": h.int(f"cp{i}", *U32) for i in (1, 2)}
            for x in d[n].values():
                e.vu(x)
        else:
            d[n] = h.int(f"v{k}", *I32)
            e.v(d[n])
    e.u8(0x32)
    roundtrip(h, ids(h).F.ttinfo.value, d, e.get())


def h_head_flags(h):
    settings = h.module("vfbLib").tt_settings
    v = field(h, 32)

    def look(d):
        d = d["head_flags"]
        check_bits(h, v, d["flags"], range(16), "flags")
        back = {s: i for i, s in settings.items()}
        check_bits(h, v >> 16, [back[o] if o in back else int(o) for o in d["options"]], range(16), "options")

    rewrite(h, ids(h).F.ttinfo.value, Enc(h).u8(0x39).v(signed(h, v)).u8(0x32).get(), look)


def h_ttinfo_any_order(h):
    """records are read in whatever order they come"""
    names = h.module("vfbLib").ttinfo_names
    ks = [k for k in h.p["keys"]]
    d, e = {}, Enc(h)
    for k in ks:
        d[names[k]] = h.int(f"v{k}", *I32)
        e.u8(k).v(d[names[k]])
    en = entry(h, vfb(h), ids(h).F.ttinfo.value)
    en.data = e.u8(0x32).get()
    en.decompile()
    h.check_eq(en.data, d, "read")


def h_ttinfo_duplicate(h):
    """a key that occurs twice is an error, not a value that silently wins"""
    x, y = h.int("x", *I32), h.int("y", *I32)
    k = h.p["key"]
    spec = Enc(h)
    for z in (x, y):
        spec.u8(k)
        if k == 0x4C:
            spec.u8(*[h.int(f"panose{len(spec.get())}_{i}", *U8) for i in range(10)])
        elif k in (0x53, 0x58):
            spec.v(1).u8(9)
        elif k == 0x54:
            spec.vu(7, 8)
        elif k == 0x39:
            spec.v(5)
        else:
            spec.v(z)
    spec = spec.u8(0x32).get()
    en = entry(h, vfb(h), ids(h).F.ttinfo.value)
    en.data = spec
    h.call(en.decompile, allow=(KeyError,))
    h.check_eq(en.data, spec, "undecoded data is kept")
    en.compile()
    h.check_eq(en.data, spec, "rewritten bytes")


def stems(h, v, w, rounds):
    d = {}
    for k, n in (("ttStemsV", v), ("ttStemsH", w)):
        d[k] = [{"stem": i, "round": {r: h.int(f"{k}{i}r{r}", *I32) for r in rounds}} for i in range(n)]
    return d


def h_stems(h):
    d, e = {}, Enc(h)
    for k in "VH":
        d["ttStems" + k] = side = []
        e.v(h.p[k])
        for i in range(h.p[k]):
            nm = h.text(f"{k}{i}n", h.p["name"], ranges=CP1252)
            if h.p.get("long"):
                nm = "A" * (255 - h.p["name"]) + nm
            s = {"value": h.int(f"{k}{i}v", *I32), "name": nm, "round": {6: h.int(f"{k}{i}r", *I32)}}
            b = nm.encode("cp1252")
            e.v(s["value"]).u8(h.len(b)).raw(b).v(s["round"][6])
            side.append(s)
    roundtrip(h, ids(h).T.TrueTypeStems.value, d, e.get())


def h_ppems(h):
    rounds = h.p["rounds"]
    d = stems(h, h.p["V"], h.p["H"], rounds)
    e = Enc(h)
    for k in ("ttStemsV", "ttStemsH"):
        if rounds != [1]:
            e.v(len(d[k]))
        for s in d[k]:
            e.v(*s["round"].values())
    T = ids(h).T
    eid = {1: T.TrueTypeStemPPEMs1, 2: T.TrueTypeStemPPEMs2And3, 4: T.TrueTypeStemPPEMs}[len(rounds)].value
    roundtrip(h, eid, d, e.get(), v=vfb(h, ttStemsV_count=h.p["V"], ttStemsH_count=h.p["H"]))


def h_stem_counts(h):
    """the stem counts of the file are those of its stems entry"""
    d, e = {}, Enc(h)
    for k in "VH":
        e.v(h.p[k])
        for i in range(h.p[k]):
            e.v(h.int(f"{k}{i}v", *I32)).u8(0).v(h.int(f"{k}{i}r", *I32))
    stem = e.get()
    d1 = stems(h, h.p["V"], h.p["H"], [1])
    e = Enc(h)
    for k in ("ttStemsV", "ttStemsH"):
        for s in d1[k]:
            e.v(*s["round"].values())
    one = e.get()
    v = vfb(h)
    T, F = ids(h).T, ids(h).F
    src = Enc(h)
    for i, b in ((T.TrueTypeStems.value, stem), (T.TrueTypeStemPPEMs1.value, one)):
        src.u16(i).u16(h.len(b)).raw(b)
    src.u16(F.BlockFileDataEnd.value).u16(4).raw(b"\0\0\0\0")
    f = h.stream()
    f.write(HDR)
    f.write(src.get())
    f.seek(0)
    v.read_stream(f)
    en = v.entries[1]
    en.decompile()
    h.check_eq(en.data, d1, "rounding values of the stems")


def h_zones(h):
    d, e = {}, Enc(h)
    for k in "TB":
        d["ttZones" + k] = side = []
        e.v(h.p[k])
        for i in range(h.p[k]):
            z = {"position": h.int(f"{k}{i}p", *I32), "value": h.int(f"{k}{i}v", *I32),
                 "name": text(h, f"{k}{i}n", h.p["name"], h.p.get("long"))}
            e.v(z["position"], z["value"]).sl(z["name"])
            side.append(z)
    roundtrip(h, ids(h).T.TrueTypeZones.value, d, e.get())


def h_zone_deltas(h):
    n = h.p["n"]
    rs = [[h.int(f"{k}{i}", *I32) for k in ("zone", "ppm", "shift")] for i in range(n)]
    e = Enc(h).v(n)
    d = {}
    for i, (z, p, s) in enumerate(rs):
        if i:
            a, b = rs[i - 1][:2]
            if h.bool(f"same{i}"):
                h.assume(z == a)
                h.assume(p > b)
            else:
                h.assume(z > a)
                d[z] = {}
        else:
            d[z] = {}
        d[list(d)[-1]][p] = s
        e.v(z, p, s)
    roundtrip(h, ids(h).T.TrueTypeZoneDeltas.value, d, e.get())


def h_zone_deltas_sorted(h):
    """written in ascending order, and read as the same deltas, whatever their order was"""
    z = [h.int(f"zone{i}", *I32) for i in range(2)]
    h.assume(z[0] != z[1])
    p = [h.int(f"ppm{i}", *I32) for i in range(2)]
    h.assume(p[0] != p[1])
    s = [h.int(f"s{i}", *I32) for i in range(3)]
    d = {z[0]: {p[0]: s[0], p[1]: s[1]}, z[1]: {p[0]: s[2]}}
    e1 = entry(h, vfb(h), ids(h).T.TrueTypeZoneDeltas.value)
    e1.data = copy(d)
    e1.compile()
    rv = h.module("vfbLib.parsers.value").read_value
    st = h.stream(e1.data)
    h.check_eq(rv(st), 3, "number of deltas")
    r = [(rv(st), rv(st), rv(st)) for _ in range(3)]
    for a, b in zip(r, r[1:]):
        h.check(h.any([a[0] < b[0], h.all([a[0] == b[0], a[1] < b[1]])]), "ascending order")
    e2 = entry(h, vfb(h), ids(h).T.TrueTypeZoneDeltas.value)
    e2.data = e1.data
    e2.decompile()
    h.check_eq(e2.data[z[0]][p[0]], s[0], "first")
    h.check_eq(e2.data[z[0]][p[1]], s[1], "second")
    h.check_eq(e2.data[z[1]][p[0]], s[2], "third")
    h.check_eq(h.len(e2.data), 2, "zones")


def h_gasp(h):
    n = h.p["n"]
    d = [{"maxPpem": h.int(f"p{i}", *U16), "flags": h.int(f"f{i}", *U16)} for i in range(n)]
    e = Enc(h)
    for r in d:
        e.u16(r["maxPpem"], r["flags"])
    roundtrip(h, ids(h).T.gasp.value, d, e.get())


def h_vdmx(h):
    n = h.p["n"]
    d = [{k: h.int(f"{k}{i}", *I32) for k in ("pelHeight", "max", "min")} for i in range(n)]
    e = Enc(h).v(n)
    for r in d:
        e.v(*r.values())
    roundtrip(h, ids(h).T.vdmx.value, d, e.get())


NM = [(0, 0, 0), (1, 0, 2), (0, 1, 0), (1, 1, 1), (2, 3, 0)]
HARNESSES = [
    Harness("ttinfo", h_ttinfo, [{"keys": k, "hdmx": n} for k, n in
                                 [(hex(k), 2) for k in ORDER] + [("none", 0), ("values", 0), ("all", 1), ("special", 3), ("0x53", 0), ("0x58", 40)]],
            bounds="each key alone, all keys, all plain values; every 32 bit value, every panose byte, up to 3 (40) ppm bytes"),
    Harness("ttinfo head flags", h_head_flags, [{"w": 8, "shift": s, "ones": o} for s in range(0, 32, 8) for o in (0, 1)],
            thorough=[{"w": 12, "shift": s, "ones": o} for s in range(0, 32, 4) for o in (0, 1)],
            bounds="windows of 8 free bits at each byte, all other bits zero or one"),
    Harness("ttinfo in any order", h_ttinfo_any_order, [{"keys": k} for k in ((0x52, 0x33, 0x57), (0x5C, 0x3A))],
            bounds="two orders"),
    Harness("ttinfo duplicate key", h_ttinfo_duplicate, [{"key": k} for k in (*range(0x33, 0x55), 0x56, 0x57, 0x58, 0x5C)], bounds="each key, every value"),
    Harness("stems", h_stems, [{"V": v, "H": w, "name": n} for v, w, n in NM] + [{"V": 1, "H": 0, "name": 1, "long": True}],
            bounds="up to 2+3 stems, every value, names up to 2 characters (255 once)"),
    Harness("stem ppems", h_ppems, [{"V": v, "H": w, "rounds": r} for v, w, _ in NM for r in ([1], [2, 3], [2, 3, 4, 5])],
            bounds="up to 2+3 stems, every value"),
    Harness("stem counts", h_stem_counts, [{"V": v, "H": w} for v, w, _ in NM], bounds="up to 2+3 stems"),
    Harness("zones", h_zones, [{"T": v, "B": w, "name": n} for v, w, n in NM] + [{"T": 1, "B": 0, "name": 1, "long": True}],
            bounds="up to 2+3 zones, every value, names up to 2 characters (109 once)"),
    Harness("zone deltas", h_zone_deltas, [{"n": n} for n in (0, 1, 2, 3)], bounds="up to 3 deltas in ascending order, every value"),
    Harness("zone deltas in any order", h_zone_deltas_sorted, bounds="3 deltas in 2 zones, every value, every order"),
    Harness("gasp", h_gasp, [{"n": n} for n in (0, 1, 4)], bounds="up to 4 ranges"),
    Harness("vdmx", h_vdmx, [{"n": n} for n in (0, 1, 3)], bounds="up to 3 records"),
]
