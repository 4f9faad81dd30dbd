"""C06: the per-glyph entries besides the glyph record (anchors, properties,
GDEF data, links, sketches, guides, masks, metrics, code points, origin)."""
from math import atan2, degrees

from sx.spec import Harness
from checks.common import *
from checks.c05 import TYPES, enc_guides, enc_outlines, guides, node

PROPERTY = "C06"
EXTRA_PACKAGES = ("fontTools",)


def h_anchors(h):
    m, n = h.p["m"], h.p["n"]
    d = [{"x": [h.int(f"a{i}x{j}", *I32) for j in range(m)],
          "y": [h.int(f"a{i}y{j}", *I32) for j in range(m)]} for i in range(n)]
    e = Enc(h).v(n, m)
    for a in d:
        for j in range(m):
            e.v(a["x"][j], a["y"][j])
    roundtrip(h, ids(h).G.AnchorsMM.value, d, e.get(), v=vfb(h, m))


def h_anchor_props(h):
    d = [{"hue": h.int(f"h{i}", *I32), "data": h.int(f"d{i}", *I32)} for i in range(h.p["n"])]
    e = Enc(h).v(len(d))
    for a in d:
        e.v(a["hue"], a["data"])
    roundtrip(h, ids(h).G.AnchorsProperties.value, d, e.get())


def h_gdef(h):
    classes = ["unassigned", "base", "ligature", "mark", "component"]
    na, nc, no, nn = h.p["anchors"], h.p["carets"], h.p["classes"], h.p["name"]
    c = h.pick("class", 0, 4)
    d = {}
    if c:
        d["glyph_class"] = classes[c]
    e = Enc(h).v(c)
    anchors = []
    e.v(na)
    for i in range(na):
        nm = text(h, f"name{i}", nn if i == 0 else 0)
        a = {"x": h.int(f"ax{i}", *I32), "y": h.int(f"ay{i}", *I32)}
        if nn and i == 0:
            a["name"] = nm
        e.sl(nm).v(a["x"], -1, a["y"], -1)
        anchors.append(a)
    if anchors:
        d["anchors"] = anchors
    carets = [(h.int(f"cp{i}", *I32), h.int(f"ci{i}", *I32)) for i in range(nc)]
    e.v(nc)
    for p, i in carets:
        e.v(p, i)
    if carets:
        d["carets"] = carets
    otc = [h.int(f"o{i}", *I32) for i in range(no)]
    e.v(no, *otc)
    if otc:
        d["ot_classes"] = otc
    roundtrip(h, ids(h).G.GDEFData.value, d, e.get())


def h_links(h):
    def ls(k, n):
        return [(h.int(f"{k}{i}a", *I32), h.int(f"{k}{i}b", *I32)) for i in range(n)]

    d = {"x": ls("x", h.p["x"]), "y": ls("y", h.p["y"])}
    e = Enc(h)
    for k in "yx":
        e.v(len(d[k]))
        for a, b in d[k]:
            e.v(a, b)
    roundtrip(h, ids(h).G.Links.value, d, e.get())


def h_sketch(h):
    n = h.p["n"]
    d = [tuple(h.int(f"s{i}{k}", *I32) for k in "abc") for i in range(n)]
    e = Enc(h).v(n)
    for t in d:
        e.v(*t)
    roundtrip(h, ids(h).G.Sketch.value, d, e.get())


def h_guide_props(h):
    d = {"h": [], "v": []}
    e = Enc(h)
    for k in "hv":
        for i in range(h.p[k]):
            g = {"index": h.int(f"{k}{i}i", *I32)}
            h.assume(g["index"] != 0)
            e.v(g["index"])
            if h.bool(f"{k}{i}hascolor"):
                rgb = [h.int(f"{k}{i}{c}", 0, 255) for c in "rgb"]
                s = "#" + hex2(h, rgb)
                g["color"] = s
                e.vlong(rgb[2] * 65536 + rgb[1] * 256 + rgb[0])
            else:
                e.v(-1)
            nm = text(h, f"{k}{i}n", h.p["name"])
            if h.p["name"]:
                g["name"] = nm
            e.sl(nm)
            d[k].append(g)
        e.v(0)
    roundtrip(h, ids(h).G.GuideProperties.value, d, e.get())
    roundtrip(h, ids(h).F.GlobalGuideProperties.value, d, e.get(), what=" (global)")


def hex2(h, rgb):
    """two lower case hex digits per component"""
    if not h.symbolic:
        return "".join("%02x" % c for c in rgb)
    from sx.seqs import mkstr

    def dig(x):
        return h.ite(x < 10, x + 48, x + 87)

    out = []
    for c in rgb:
        out += [dig(c >> 4), dig(c & 15)]
    return mkstr(out)


def h_global_guides(h):
    m = h.p["m"]
    raw, data = guides(h, m, h.p["h"], h.p["v"])
    e = Enc(h)
    enc_guides(e, raw)
    roundtrip(h, ids(h).F.GlobalGuides.value, data, e.get(), v=vfb(h, m))


def h_mask(h):
    m, n, nw = h.p["m"], h.p["n"], h.p["wv"]
    raw = [h.int(f"w{i}", *I32) for i in range(nw)]
    nn = [node(h, f"n{i}", m) for i in range(n)]
    nodes, codes = [x[0] for x in nn], [x[1] for x in nn]
    d = {"weight_vector": [r / 100_000_000 for r in raw], "num_masters": m, "nodes": nodes}
    e = Enc(h).v(nw, *raw)
    enc_outlines(e, nodes, codes, m)
    roundtrip(h, ids(h).G.mask.value, d, e.get(), v=vfb(h, m))


def h_global_mask(h):
    m, n = h.p["m"], h.p["n"]
    nn = [node(h, f"n{i}", m) for i in range(n)]
    nodes, codes = [x[0] for x in nn], [x[1] for x in nn]
    d = {"num_masters": m, "nodes": nodes}
    e = Enc(h)
    enc_outlines(e, nodes, codes, m)
    roundtrip(h, ids(h).F.GlobalMask.value, d, e.get(), v=vfb(h, m))


def h_mask_metrics(h):
    x, y = h.int("x", *I16), h.int("y", *I16)
    roundtrip(h, ids(h).G.MaskMetrics.value, (x, y), Enc(h).i16(x, y).get())


def h_mask_metrics_mm(h):
    m = h.p["m"]
    d = [(h.int(f"x{i}", *I32), h.int(f"y{i}", *I32)) for i in range(m - 1)]
    e = Enc(h)
    for x, y in d:
        e.v(x, y)
    roundtrip(h, ids(h).G.MaskMetricsMM.value, d, e.get(), v=vfb(h, m))


def h_origin(h):
    x, y = h.int("x", *I16), h.int("y", *I16)
    roundtrip(h, ids(h).G.Origin.value, {"x": x, "y": y}, Enc(h).i16(x, y).get())


def h_unicodes(h):
    n = h.p["n"]
    d = [h.int(f"u{i}", *U16) for i in range(n)]
    roundtrip(h, ids(h).G.unicodes.value, d, Enc(h).u16(*d).get())
    d = [h.int(f"s{i}", *U32) for i in range(n)]
    roundtrip(h, ids(h).G.UnicodesNonBMP.value, d, Enc(h).u32(*d).get(), what=" (non-BMP)")


def h_vsb(h):
    d = [h.int(f"v{i}", *I32) for i in range(h.p["n"])]
    roundtrip(h, ids(h).G.VSB.value, d, Enc(h).v(*d).get())


def h_glyph_numbers(h):
    x = h.int("mark", *U16)
    roundtrip(h, ids(h).G.mark.value, x, Enc(h).u16(x).get())


HARNESSES = [
    Harness("anchors", h_anchors, [{"m": m, "n": n} for m, n in ((1, 0), (1, 1), (1, 3), (2, 2), (4, 1), (16, 1))],
            thorough=[{"m": m, "n": n} for m in (1, 2, 3, 4, 8, 16) for n in range(5)],
            bounds="up to 3 anchors, up to 16 masters, every 32 bit value"),
    Harness("anchor properties", h_anchor_props, [{"n": n} for n in (0, 1, 3)], bounds="up to 3, every 32 bit value"),
    Harness("gdef", h_gdef, [{"anchors": a, "carets": c, "classes": o, "name": n} for a, c, o, n in
                             ((0, 0, 0, 0), (1, 0, 0, 2), (2, 1, 0, 1), (0, 2, 2, 0), (2, 2, 2, 3))],
            bounds="all classes, up to 2 anchors, carets and class values, names up to 3 characters"),
    Harness("links", h_links, [{"x": x, "y": y} for x in (0, 1, 2) for y in (0, 1, 2)], bounds="up to 2+2 links"),
    Harness("sketch", h_sketch, [{"n": n} for n in (0, 1, 3)], bounds="up to 3 records"),
    Harness("guide properties", h_guide_props, [{"h": a, "v": b, "name": n} for a, b, n in
                                                ((0, 0, 0), (1, 0, 0), (0, 1, 2), (1, 1, 1), (2, 1, 0))],
            bounds="up to 2+1 guides, every colour, names up to 2 characters"),
    Harness("global guides", h_global_guides, [{"m": m, "h": a, "v": b} for m, a, b in ((1, 0, 0), (1, 2, 1), (2, 1, 1), (3, 0, 1))],
            bounds="up to 3 guides, 3 masters"),
    Harness("mask", h_mask, [{"m": m, "n": n, "wv": w} for m, n, w in ((1, 0, 1), (1, 1, 0), (1, 2, 1), (2, 1, 2), (2, 0, 16))],
            bounds="up to 2 nodes, 2 masters, every weight with 8 decimals"),
    Harness("global mask", h_global_mask, [{"m": m, "n": n} for m, n in ((1, 0), (1, 2), (2, 1))],
            bounds="up to 2 nodes, 2 masters"),
    Harness("mask metrics", h_mask_metrics, bounds="every value"),
    Harness("mask metrics mm", h_mask_metrics_mm, [{"m": m} for m in (1, 2, 4, 16)], bounds="up to 16 masters"),
    Harness("origin", h_origin, bounds="every value"),
    Harness("unicodes", h_unicodes, [{"n": n} for n in (0, 1, 3)], bounds="up to 3 code points each"),
    Harness("vsb", h_vsb, [{"n": n} for n in (0, 1, 4, 16)], bounds="up to 16 masters"),
    Harness("mark", h_glyph_numbers, bounds="every value"),
]
