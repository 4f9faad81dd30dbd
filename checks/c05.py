"""C05: the glyph record."""
from math import atan2, degrees

from sx.spec import Harness
from checks.common import *

PROPERTY = "C05"
EXTRA_PACKAGES = ("fontTools",)
TYPES = [("move", 0), ("line", 1), ("curve", 3), ("qcurve", 4)]
KINDS = [("h", 1), ("v", 2), ("r", 255)]
CMDS = {
    "AlignTop": (1, ["pt", "zone"]), "AlignBottom": (2, ["pt", "zone"]),
    "SingleLinkH": (3, ["pt1", "pt2", "stem", "align"]),
    "SingleLinkV": (4, ["pt1", "pt2", "stem", "align"]),
    "DoubleLinkH": (5, ["pt1", "pt2", "stem"]), "DoubleLinkV": (6, ["pt1", "pt2", "stem"]),
    "AlignH": (7, ["pt", "align"]), "AlignV": (8, ["pt", "align"]),
    "InterpolateH": (13, ["pti", "pt1", "pt2", "align"]),
    "InterpolateV": (14, ["pti", "pt1", "pt2", "align"]),
    "MDeltaH": (20, ["pt", "shift", "ppm1", "ppm2"]), "MDeltaV": (21, ["pt", "shift", "ppm1", "ppm2"]),
    "FDeltaH": (22, ["pt", "shift", "ppm1", "ppm2"]), "FDeltaV": (23, ["pt", "shift", "ppm1", "ppm2"]),
}
SLOPE = (-(10**8), 10**8)


def point(h, n):
    return (h.int(n + "x", *COORD), h.int(n + "y", *COORD))


def node(h, n, m, types=TYPES, flags=None):
    t = h.choice(n + "type", types)
    f = h.int(n + "flags", 0, 15) if flags is None else flags
    k = 3 if t[0] == "curve" else 1
    pts = [[point(h, f"{n}m{i}p{j}") for j in range(k)] for i in range(m)]
    return {"type": t[0], "flags": f, "points": pts}, t[1]


def enc_outlines(e, nodes, codes, m):
    """node count, then type/flags byte and per point, per master, the difference
    to the previous point of that master"""
    if not nodes:
        return e.v(m, 0, 0)
    values = sum(1 + 2 * m * len(n["points"][0]) for n in nodes)
    e.v(m, 2 * values, len(nodes))
    ref = [(0, 0)] * m
    for n, c in zip(nodes, codes):
        e.u8(n["flags"] * 16 + c)
        for j in range(len(n["points"][0])):
            for i in range(m):
                x, y = n["points"][i][j]
                e.v(x - ref[i][0], y - ref[i][1])
                ref[i] = (x, y)
    return e


def start(h, m, name, nodes=(), codes=()):
    e = Enc(h).raw(b"\x01\x09\x07\x01")
    if name:
        e.u8(1).sl(name)
    e.u8(8)
    enc_outlines(e, list(nodes), list(codes), m)
    return e


def base(m, name, nodes=()):
    d = {"num_masters": m, "nodes": list(nodes)}
    if name:
        d["name"] = name
    return d


def rt(h, m, d, e):
    eid = ids(h).G.Glyph.value
    roundtrip(h, eid, d, e.u8(15).get(), v=vfb(h, m))


def h_outline(h):
    m, n = h.p["m"], h.p["n"]
    nn = [node(h, f"n{i}", m) for i in range(n)]
    nodes, codes = [x[0] for x in nn], [x[1] for x in nn]
    rt(h, m, base(m, "A", nodes), start(h, m, "A", nodes, codes))


def h_name(h):
    name = text(h, "name", h.p["n"], h.p["long"])
    rt(h, 1, base(1, name), start(h, 1, name))


def metrics(h, m, n="adv"):
    return [(h.int(f"{n}{i}w", *I32), h.int(f"{n}{i}h", *I32)) for i in range(m)]


def enc_metrics(e, ms):
    e.u8(2)
    for w, hh in ms:
        e.v(w, hh)


def h_metrics(h):
    m = h.p["m"]
    ms = metrics(h, m)
    e = start(h, m, "A")
    enc_metrics(e, ms)
    rt(h, m, dict(base(m, "A"), metrics=ms), e)


def hints(h, m, nh, nv, nm, pre="hint"):
    def hs(d, k):
        return [[{"pos": h.int(f"{pre}{d}{i}m{j}p", *I32), "width": h.int(f"{pre}{d}{i}m{j}w", *I32)}
                 for j in range(m)] for i in range(k)]

    out = {"h": hs("h", nh), "v": hs("v", nv)}
    if nm:
        out["hintmasks"] = []
        for i in range(nm):
            k = h.choice(f"{pre}mask{i}", KINDS)
            out["hintmasks"].append((k[0], h.int(f"{pre}mask{i}v", *I32)))
    return out


def enc_hints(e, hd):
    e.u8(3)
    for d in "hv":
        e.v(len(hd[d]))
        for x in hd[d]:
            for y in x:
                e.v(y["pos"], y["width"])
    masks = hd.get("hintmasks", [])
    e.v(len(masks))
    for k, v in masks:
        e.u8({"h": 1, "v": 2, "r": 255}[k]).v(v)


def h_hints(h):
    m = h.p["m"]
    hd = hints(h, m, h.p["h"], h.p["v"], h.p["masks"])
    e = start(h, m, "A")
    enc_hints(e, hd)
    rt(h, m, dict(base(m, "A"), hints=hd), e)


def guides(h, m, nh, nv, pre="g"):
    raw = {d: [[(h.int(f"{pre}{d}{i}m{j}p", *I32), h.int(f"{pre}{d}{i}m{j}a", *SLOPE)) for j in range(m)]
               for i in range(k)] for d, k in (("h", nh), ("v", nv))}
    data = {d: [[{"pos": p, "angle": degrees(atan2(a, 10000))} for p, a in g] for g in raw[d]] for d in "hv"}
    return raw, data


def enc_guides(e, raw):
    for d in "hv":
        e.v(len(raw[d]))
        for g in raw[d]:
            for p, a in g:
                e.v(p, a)


def h_guides(h):
    m = h.p["m"]
    raw, data = guides(h, m, h.p["h"], h.p["v"])
    e = start(h, m, "A").u8(4)
    enc_guides(e, raw)
    rt(h, m, dict(base(m, "A"), guides=data), e)


def component(h, m, n):
    return {
        "gid": h.int(n + "gid", 0, 65535),
        "offsetX": [h.int(f"{n}x{i}", *I32) for i in range(m)],
        "offsetY": [h.int(f"{n}y{i}", *I32) for i in range(m)],
        "scaleX": [h.double(f"{n}sx{i}") for i in range(m)],
        "scaleY": [h.double(f"{n}sy{i}") for i in range(m)],
    }


def enc_components(e, cs, m):
    e.u8(5).v(len(cs))
    for c in cs:
        e.v(c["gid"])
        for i in range(m):
            e.v(c["offsetX"][i], c["offsetY"][i]).d(c["scaleX"][i], c["scaleY"][i])


def h_components(h):
    m = h.p["m"]
    cs = [component(h, m, f"c{i}") for i in range(h.p["n"])]
    e = start(h, m, "A")
    enc_components(e, cs, m)
    rt(h, m, dict(base(m, "A"), components=cs), e)


def enc_kerning(e, k):
    e.u8(6).v(len(k))
    for g, vs in k:
        e.v(g, *vs)


def h_kerning(h):
    m = h.p["m"]
    gids = [h.int(f"gid{i}", 0, 65535) for i in range(h.p["n"])]
    for i in range(len(gids)):
        for j in range(i):
            h.assume(gids[i] != gids[j])
    k = [(g, [h.int(f"k{i}m{j}", *I32) for j in range(m)]) for i, g in enumerate(gids)]
    e = start(h, m, "A")
    enc_kerning(e, k)
    rt(h, m, dict(base(m, "A"), kerning=dict(k)), e)


def tt_command(h, n, names):
    name = h.choice(n + "cmd", names)
    code, params = CMDS[name]
    return {"cmd": name, "params": {p: h.int(f"{n}{p}", *I32) for p in params}}


def enc_tth(h, e, tth):
    b = Enc(h).v(len(tth))
    for c in tth:
        code, params = CMDS[c["cmd"]]
        b.u8(code)
        for p in params:
            b.v(c["params"][p])
    b.v(0, 0, 0)
    b = b.get()
    e.u8(10).v(h.len(b)).raw(b)


def h_tth(h):
    names = sorted(CMDS)
    tth = [tt_command(h, f"t{i}", names if i == 0 else ["AlignTop", "FDeltaV", "DoubleLinkH"])
           for i in range(h.p["n"])]
    e = start(h, 1, "A")
    enc_tth(h, e, tth)
    rt(h, 1, dict(base(1, "A"), tth=tth), e)


def imported(h, nc, nn, nhdmx, program=b"", asm=None, pre="i"):
    pts = [(point(h, f"{pre}n{i}"), h.int(f"{pre}n{i}f", 0, 255)) for i in range(nn)]
    d = {
        "width": h.int(pre + "width", *U32), "lsb": h.int(pre + "lsb", *I32),
        "unknown1": h.int(pre + "u1", *I32), "unknown2": h.int(pre + "u2", *I32),
        "unknown3": h.int(pre + "u3", *I32),
        "bbox": [h.int(f"{pre}bbox{i}", *I32) for i in range(4)],
        "num_contours": nc,
        "endpoints": [h.int(f"{pre}end{i}", *U32) for i in range(max(nc, 0))],
        "hdmx": [h.int(f"{pre}hdmx{i}", 0, 255) for i in range(nhdmx)],
        "instructions": asm or [],
    }
    if pts:
        d["nodes"] = [{"flags": f, "on": h.ite(f & 1 == 1, 1, 0), "point": p} for p, f in pts]
    return d


def enc_imported(e, d, program=b""):
    e.u8(9, 0x29).vu(d["width"]).v(d["lsb"], d["unknown1"], d["unknown2"], d["unknown3"]).v(*d["bbox"])
    e.u8(0x2A).v(d["num_contours"]).vu(*d["endpoints"])
    nodes = d.get("nodes", [])
    e.vu(len(nodes))
    x = y = 0
    for n in nodes:
        e.v(n["point"][0] - x, n["point"][1] - y).u8(n["flags"])
        x, y = n["point"]
    e.u8(0x2B).vu(len(program)).raw(program)
    e.u8(0x2C).v(len(d["hdmx"])).u8(*d["hdmx"]).u8(0x28)


def h_imported(h):
    d = imported(h, h.p["c"], h.p["n"], h.p["hdmx"])
    e = start(h, 1, "A")
    enc_imported(e, d)
    rt(h, 1, dict(base(1, "A"), imported=d), e)


def h_program(h):
    """imported instructions: the byte code is kept; only opcodes without
    immediate data are symbolic"""
    n = h.p["n"]
    b = h.bytes("code", n)
    for i in range(n):
        h.assume(h.any([b[i] < 0x40, h.all([b[i] >= 0x42, b[i] <= 0x8E]), b[i] >= 0xC0]))
        h.assume(h.any([b[i] < 0x28, h.all([b[i] > 0x28, b[i] < 0x7B]), b[i] > 0xB7]))
        h.assume(b[i] != 0x7B)
    pushes = h.p["push"]
    prog = bytes(pushes) + b
    d = imported(h, 0, 0, 0)
    e = start(h, 1, "A")
    enc_imported(e, d, prog)
    v = vfb(h)
    eid = ids(h).G.Glyph.value
    x = entry(h, v, eid)
    spec = e.u8(15).get()
    x.data = spec
    x.decompile()
    h.check_eq(x.data["imported"]["width"], d["width"], "width")
    x.compile()
    h.check_eq(x.data, spec, "glyph bytes")


def h_sections(h):
    """every combination of sections, in writing order"""
    m = h.p["m"]
    d = base(m, "A", [])
    nodes, codes = [], []
    if h.bool("has_nodes"):
        n, c = node(h, "n0", m, types=TYPES[:1], flags=0)
        nodes, codes = [n], [c]
        d["nodes"] = nodes
    e = start(h, m, "A", nodes, codes)
    R = (-100, 100)
    if h.bool("has_metrics"):
        d["metrics"] = [(h.int(f"w{i}", *R), h.int(f"h{i}", *R)) for i in range(m)]
        enc_metrics(e, d["metrics"])
    if h.bool("has_hints"):
        d["hints"] = {"h": [[{"pos": h.int(f"hp{i}", *R), "width": 20} for i in range(m)]], "v": []}
        enc_hints(e, d["hints"])
    if h.bool("has_guides"):
        raw = {"h": [[(h.int(f"gp{i}", *R), 0) for i in range(m)]], "v": []}
        d["guides"] = {"h": [[{"pos": p, "angle": 0.0} for p, a in g] for g in raw["h"]], "v": []}
        e.u8(4)
        enc_guides(e, raw)
    if h.bool("has_components"):
        d["components"] = [{"gid": h.int("gid", 0, 100), "offsetX": [5] * m, "offsetY": [-5] * m,
                            "scaleX": [1.0] * m, "scaleY": [0.5] * m}]
        enc_components(e, d["components"], m)
    if h.bool("has_kerning"):
        k = [(h.int("kg", 0, 100), [h.int(f"kv{i}", *R) for i in range(m)])]
        d["kerning"] = dict(k)
        enc_kerning(e, k)
    if h.bool("has_imported"):
        d["imported"] = {"width": h.int("iw", 0, 100), "lsb": 0, "unknown1": 0, "unknown2": 0, "unknown3": 0,
                         "bbox": [0, 0, 1, 1], "num_contours": -1, "endpoints": [], "hdmx": [],
                         "instructions": []}
        enc_imported(e, d["imported"])
    if h.bool("has_tth"):
        d["tth"] = [{"cmd": "AlignTop", "params": {"pt": h.int("pt", 0, 100), "zone": 1}}]
        enc_tth(h, e, d["tth"])
    rt(h, m, d, e)


def h_order(h):
    """sections are understood in any order after the outlines"""
    m = 1
    R = (-100, 100)
    nodes = [{"type": "move", "flags": 0, "points": [[(h.int("x", *R), 7)]]}]
    d = base(m, "A", nodes)
    d["metrics"] = [(h.int("w", *R), 0)]
    d["hints"] = {"h": [], "v": [[{"pos": h.int("hp", *R), "width": 20}]]}
    d["guides"] = {"h": [], "v": [[{"pos": h.int("gp", *R), "angle": 0.0}]]}
    d["kerning"] = {h.int("kg", 0, 100): [h.int("kv", *R)]}
    parts = []
    for f in (lambda e: enc_metrics(e, d["metrics"]), lambda e: enc_hints(e, d["hints"]),
              lambda e: enc_guides(e.u8(4), {"h": [], "v": [[(d["guides"]["v"][0][0]["pos"], 0)]]}),
              lambda e: enc_kerning(e, list(d["kerning"].items()))):
        e = Enc(h)
        f(e)
        parts.append(e.get())
    e = start(h, m, "A", nodes, [0])
    order = list(range(4))
    for i in range(4):
        j = h.pick(f"o{i}", 0, len(order) - 1)
        e.raw(parts[order.pop(j)])
    x = entry(h, vfb(h), ids(h).G.Glyph.value)
    x.data = e.u8(15).get()
    x.decompile()
    h.check_eq(x.data, d, "read back")


HARNESSES = [
    Harness("outline", h_outline, [{"m": 1, "n": n} for n in (0, 1, 2, 3)] + [{"m": 2, "n": 2}, {"m": 3, "n": 1}, {"m": 16, "n": 1}],
            thorough=[{"m": m, "n": n} for m in (1, 2, 3, 4) for n in (1, 2, 3, 4)] + [{"m": 16, "n": 2}],
            bounds="1-3 and 16 masters, up to 3 (4) nodes of every type and flag, coordinates in [-2^30, 2^30)"),
    Harness("name", h_name, [{"n": n, "long": l} for n in (0, 1, 2) for l in (False, True)],
            bounds="names of 0-2 and 108-110 Windows-1252 characters"),
    Harness("metrics", h_metrics, [{"m": m} for m in (1, 2, 4)], bounds="1, 2, 4 masters, every 32 bit value"),
    Harness("hints", h_hints, [{"m": m, "h": a, "v": b, "masks": c} for m, a, b, c in
                               ((1, 1, 0, 0), (1, 0, 1, 0), (1, 2, 2, 2), (2, 1, 2, 1), (1, 0, 0, 1), (4, 1, 1, 0), (1, 1, 1, 3))],
            bounds="up to 2+2 hints, 3 mask records, 4 masters, every 32 bit value"),
    Harness("guides", h_guides, [{"m": m, "h": a, "v": b} for m, a, b in ((1, 1, 0), (1, 0, 1), (1, 2, 1), (2, 1, 1), (3, 0, 1))],
            bounds="up to 3 guides, 3 masters, slopes within +-10^8/10^4"),
    Harness("components", h_components, [{"m": m, "n": n} for m, n in ((1, 1), (1, 2), (2, 1), (3, 2), (16, 1))],
            bounds="up to 2 components, 16 masters, every offset, every double"),
    Harness("kerning", h_kerning, [{"m": m, "n": n} for m, n in ((1, 1), (1, 3), (2, 2), (4, 1))],
            bounds="up to 3 pairs, 4 masters, every 32 bit value"),
    Harness("tth", h_tth, [{"n": 1}, {"n": 2}, {"n": 3}], bounds="up to 3 commands, every parameter value"),
    Harness("imported", h_imported, [{"c": c, "n": n, "hdmx": x} for c, n, x in ((-1, 0, 0), (0, 0, 2), (1, 2, 1), (2, 3, 0), (2, 1, 2))],
            bounds="up to 2 contours, 3 points, 2 device widths, every value"),
    Harness("program", h_program, [{"n": 1, "push": ()}, {"n": 1, "push": (0xB1, 3, 7)},
                                   {"n": 1, "push": (0xB8, 1, 44)}],
            thorough=[{"n": 1, "push": ()}, {"n": 2, "push": ()}, {"n": 1, "push": (0xB1, 3, 7)},
                      {"n": 1, "push": (0xB8, 1, 44)}],
            bounds="programs of 1 (2) opcodes without immediate data after a fixed push", max_paths=40000),
    Harness("sections", h_sections, [{"m": 1}, {"m": 2}], bounds="all 2^9 combinations of sections"),
    Harness("order", h_order, bounds="all orders of four sections"),
]
