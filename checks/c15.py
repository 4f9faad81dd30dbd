"""C15: the outlines of the UFO masters are those of the glyph."""
import itertools
import re

from sx.spec import Harness
from checks.common import *

PROPERTY = "C15"
EXTRA_PACKAGES = ("fontTools",)


class Pen:
    """A point pen that records, as plain data"""

    def __init__(self):
        self.contours = []
        self.components = []

    def beginPath(self, identifier=None, **kw):
        self.contours.append([])

    def addPoint(self, pt, segmentType=None, smooth=False, name=None, identifier=None, **kw):
        self.contours[-1].append((segmentType, smooth, name, pt))

    def endPath(self):
        pass

    def addComponent(self, base, tr, identifier=None, **kw):
        self.components.append((base, tr))


KIND = {"m": "move", "o": "move", "l": "line", "c": "curve", "q": "qcurve"}


def nodes_of(h, kinds, masters, prefix="n", symflags=False):
    """Nodes with arbitrary coordinates: m(ove), o(pen move), l(ine), c(urve), q(curve)"""
    out = []
    for i, k in enumerate(kinds):
        pts = [[(h.int(f"{prefix}{i}x{m}{j}", *COORD), h.int(f"{prefix}{i}y{m}{j}", *COORD))
                for j in range(3 if k == "c" else 1)] for m in range(masters)]
        f = h.int(f"{prefix}{i}f", 0, 7) if symflags else 0
        out.append({"type": KIND[k], "flags": f + (8 if k == "o" else 0), "points": pts})
    return out


def model(nodes, kinds, master):
    """Contours of the nodes: (open, start, segments, node index of the end of each
    segment, off-curve points per node). Every closed contour ends in a segment back
    to the start."""
    out = []
    cur = pend = None

    def close():
        if cur is None:
            return
        if not cur["open"]:
            end = cur["start"]
            s = ("q", *pend, end) if pend else ("l", end)
            cur["segs"].append(s)
            cur["idx"].append(cur["first"])
        out.append(cur)

    for i, (n, k) in enumerate(zip(nodes, kinds)):
        pts = n["points"][master]
        if k in "mo":
            close()
            cur = {"open": k == "o", "start": pts[0], "first": i, "segs": [], "idx": []}
            pend = []
        elif k == "l":
            cur["segs"].append(("q", *pend, pts[0]) if pend else ("l", pts[0]))
            cur["idx"].append(i)
            pend = []
        elif k == "c":
            # (quadratic off-curve points before a cubic segment: kept as they are)
            cur["segs"].append(("c", *pend, pts[1], pts[2], pts[0]))
            cur["idx"].append(i)
            pend = []
        else:
            pend.append(pts[0])
    close()
    return out


TYPES = {"line": "l", "curve": "c", "qcurve": "q"}


def drawn(contour):
    """The same form, of a drawn UFO contour"""
    t0, sm, nm, start = contour[0]
    segs, pend = [], []
    for t, _, _, pt in contour[1:] if t0 == "move" else contour[1:] + [contour[0]]:
        if t is None:
            pend.append(pt)
        else:
            segs.append((TYPES[t], *pend, pt))
            pend = []
    assert not pend, "off-curve points at the end"
    return {"open": t0 == "move", "start": start, "segs": segs}


def glyph(h, nodes, labels=(), masters=1, **kw):
    g = h.module("vfbLib.ufo.glyph").VfbToUfoGlyph()
    g.name = "a"
    g.mm_nodes = nodes
    g.mm_metrics = [(500, 0)] * masters
    g.point_labels = {i: f"p{i}" for i in labels}
    g.labels = {f"p{i}": i for i in labels}
    for k, v in kw.items():
        setattr(g, k, v)
    return g


def draw(h, g, master, minimal=True, order=("a", "b", "c"), ps=False):
    u = h.module("vfbLib.ufo.paths").UfoMasterGlyph(g, list(order), master)
    u.build(minimal, ps)
    p = Pen()
    u.drawPoints(p)
    return u, p


def compare(h, kinds, nodes, master, pen, labels=(), flags=True):
    want = model(nodes, kinds, master)
    h.check_eq(len(pen.contours), len(want), "number of contours")
    for w, c in zip(want, pen.contours):
        if not w["segs"] or len(c) == 1:
            h.check_eq(len(c), 1, "lone point")
            h.check_eq(c[0][3], w["start"], "lone point")
            continue
        d = drawn(c)
        h.check_eq(d["open"], w["open"], "open or closed")
        segs, idx = w["segs"], w["idx"]
        merged = False
        if len(d["segs"]) == len(segs) - 1 and not w["open"]:
            # the closing line was left out: it must have no length
            merged = True
            h.check_eq(segs[-1][0], "l", "closing segment")
            h.check_eq(segs[-1][1], segs[-2][-1], "closing line without length")
            segs, idx = segs[:-1], idx[:-1]
        h.check_eq(d["start"], w["start"], "start point")
        h.check_eq([s[0] for s in d["segs"]], [s[0] for s in segs], "segment types")
        h.check_eq([s[1:] for s in d["segs"]], [s[1:] for s in segs], "segment points")
        # labels and smooth flags stay with their points
        last = nodes[idx[-1]]
        on = [p for p in (c if d["open"] else c[1:] + [c[0]]) if p[0] is not None]
        which = ([w["first"]] if d["open"] else []) + idx
        for p, i in zip(on, which):
            if merged and i == idx[-1]:
                h.check(p[2] == (f"p{i}" if i in labels else f"p{w['first']}" if w["first"] in labels else None), "label of the closing point")
            else:
                h.check_eq(p[2], f"p{i}" if i in labels else None, "label")
            if flags:
                h.check_eq(p[1], nodes[i]["flags"] & 1 == 1, "smooth")
        off = [p for p in c if p[0] is None]
        offidx = []
        end = w["first"] + 1
        while end < len(nodes) and kinds[end] not in "mo":
            if kinds[end] == "q":
                offidx.append(end)
            elif kinds[end] == "c":
                offidx += [None, None]
            end += 1
        h.check_eq([p[2] for p in off], [f"p{i}" if i in labels else None for i in offidx], "labels of off-curve points")


def h_contours(h):
    kinds = h.p["nodes"]
    nodes = nodes_of(h, kinds, 2, symflags=h.p.get("flags", False))
    labels = [i for i in range(len(kinds)) if i in h.p.get("labels", ())]
    for m in range(2):
        u, pen = draw(h, glyph(h, nodes, labels, 2), m)
        compare(h, kinds, nodes, m, pen, labels)
        h.observe(f"contours{m}", pen.contours)


def h_compatible(h):
    """the masters of a glyph have the same points"""
    kinds = h.p["nodes"]
    nodes = nodes_of(h, kinds, 2)
    labels = range(len(kinds)) if h.p.get("labels") else ()
    shapes = []
    for m in range(2):
        u, pen = draw(h, glyph(h, nodes, labels, 2), m)
        shapes.append([[(p[0], p[2]) for p in c] for c in pen.contours])
    h.observe("types", shapes)
    h.check_eq(shapes[0], shapes[1], "points of the masters")


def h_mask(h):
    kinds = h.p["nodes"]
    nodes = nodes_of(h, kinds, 2)
    own = nodes_of(h, "mll", 2, prefix="o")
    metrics = [(h.int(f"w{m}", *I32), h.int(f"h{m}", *I32)) for m in range(2)] if h.p["metrics"] else []
    for m in range(2):
        g = glyph(h, own, [0], 2, mm_mask_nodes=nodes, mm_mask_metrics=metrics)
        u, pen = draw(h, g, m, minimal=False)
        compare(h, "mll", own, m, pen, [0])
        mp = Pen()
        u.drawPointsMask(mp)
        compare(h, kinds, nodes, m, mp)
        h.check_eq(mp.components, [], "no components in the mask")
        h.check_eq(tuple(u.mask_metrics), metrics[m] if metrics else (500, 0), "mask metrics")


SCALES = [(1.0, 1), (0.5, 0.5), (-1.0, -1), (0.1 + 0.2, 0.3), (1.2345678901234567, 1.234567890123457), (0.0, 0), (2.0, 2)]


def h_components(h):
    """components keep their glyphs, in order, with the scale and offset of the master"""
    comps, want = [], [[], []]
    order = ["a", "b", "c"]
    for i in range(h.p["n"]):
        gid = h.pick(f"gid{i}", 0, 2)
        sc = [SCALES[(h.p["scale"] + 3 * m + i) % len(SCALES)] for m in range(4)]
        off = [[h.int(f"{k}{i}{m}", *I32) for m in range(2)] for k in "xy"]
        comps.append({"gid": gid, "offsetX": list(off[0]), "offsetY": list(off[1]),
                      "scaleX": [sc[0][0], sc[1][0]], "scaleY": [sc[2][0], sc[3][0]]})
        for m in range(2):
            want[m].append((order[gid], (sc[m][1], 0, 0, sc[2 + m][1], off[0][m], off[1][m])))
    for m in range(2):
        u, pen = draw(h, glyph(h, [], (), 2, mm_components=comps), m, order=order)
        h.check_eq(pen.components, want[m], "components")
        for c, (_, w) in zip(pen.components, want[m]):
            for a, b in zip(c[1], w):
                h.check(not isinstance(a, float) or isinstance(b, float), "whole scales are integers")


def h_labels(h):
    """every point that a TrueType command or a hint set refers to is in the outline"""
    kinds = h.p["nodes"]
    n = len(kinds)
    nodes = nodes_of(h, kinds, 2)
    hints = {"h": [[{"pos": 10 * k, "width": 20} for m in range(2)] for k in range(n + 1)], "v": []}
    masks = []
    for i in h.p["ps"]:
        masks += [("h", i), ("r", i)]
    masks += [("h", n)]
    T = h.module("vfbLib.ufo.tth")
    for m in range(2):
        g = glyph(h, nodes, (), 2, mm_hints=hints, hintmasks=list(masks) if h.p["ps"] else [])
        tt = T.TTGlyphHints(g, [{"cmd": "AlignH", "params": {"pt": i}} for i in h.p["tt"]]
                            + [{"cmd": "InterpolateV", "params": {"pti": a, "pt1": b, "pt2": c}} for a, b, c in h.p.get("ip", ())]
                            + [{"cmd": "SingleLinkV", "params": {"pt1": a, "pt2": b}} for a, b in h.p.get("sl", ())], {}, {})
        g.tth_commands = tt.get_tt_glyph_hints()
        u, pen = draw(h, g, m, ps=bool(h.p["ps"]))
        names = [p[2] for c in pen.contours for p in c if p[2] is not None]
        h.check_eq(len(set(names)), len(names), "labels are unique")
        xml = u.lib.get("com.fontlab.ttprogram", "")
        refs = re.findall(r'point\d?="([^"]*)"', xml)
        count = len(h.p["tt"]) + 3 * len(h.p.get("ip", ())) + 2 * len(h.p.get("sl", ()))
        h.check_eq(len(refs), count, "points in commands")
        for r in refs:
            h.check(r in names, "point of a TrueType command exists")
        # and it is the point that was meant
        where = [i for i in h.p["tt"]] + [x for a, b, c in h.p.get("ip", ()) for x in (a, b, c)] + [x for s in h.p.get("sl", ()) for x in s]
        pts = {p[2]: p[3] for c in pen.contours for p in c if p[2] is not None}
        for r, i in zip(refs, where):
            h.check_eq(pts[r], nodes[i]["points"][m][0], "position of the point")
        for hs in u.lib.get("com.adobe.type.autohint.v2", {}).get("hintSetList", []):
            h.check(hs["pointTag"] in names, "point of a hint set exists")



def sequences(n, start="mo"):
    for s in start:
        for k in range(n):
            for t in itertools.product("lcq", repeat=k):
                t = s + "".join(t)
                if (s == "o" and t[-1] == "q"):
                    continue
                yield t


SEQ4 = list(sequences(4))
SEQ5 = list(sequences(6))
TWO = [a + b for a in sequences(3) for b in sequences(3) if "qc" not in a + b] + ["mqcoqcl", "mqcmlc"]

HARNESSES = [
    Harness("contours", h_contours, [{"nodes": s} for s in SEQ4 + TWO + ["mqcl", "mqcll", "mqclql", "oqccl"]],
            thorough=[{"nodes": s} for s in SEQ5 + TWO],
            bounds="every contour of up to 4 nodes and pairs of contours of up to 3, closed and open, every coordinate, 2 masters"),
    Harness("labels and smooth flags", h_contours,
            [{"nodes": s, "labels": l, "flags": True} for s in sequences(3) for l in ((0, 1, 2), (0,), (len(s) - 1,))]
            + [{"nodes": s, "labels": l} for s in ("mlc", "mcc", "mllc", "mlcq", "mqq", "mqlq", "mlclmlc", "mccmccmlc") for l in ((0,), tuple(range(9)), (2,), (0, 3))],
            bounds="contours of up to 3 nodes with any flags; some of more nodes and contours with labels"),
    Harness("masters are compatible", h_compatible,
            [{"nodes": s, "labels": l} for s in SEQ4 + ["mllcmcl", "mcmc", "mllcmllc"] for l in (0, 1)],
            bounds="every contour of up to 4 nodes, every coordinate, 2 masters"),
    Harness("mask", h_mask, [{"nodes": s, "metrics": k} for s in ("m", "ml", "mlc", "mqq", "mlcmcc", "ollmlc", "") for k in (0, 1)],
            bounds="7 kinds of masks of up to 2 contours, every coordinate, 2 masters"),
    Harness("components", h_components, [{"n": n, "scale": s} for n in range(3) for s in range(len(SCALES))],
            bounds="up to 2 components of 3 glyphs, every offset, 7 scales, 2 masters"),
    Harness("referenced points", h_labels,
            [{"nodes": s, "tt": tt, "ps": ps, "ip": ip, "sl": sl}
             for s in ("mlc", "mllc", "mcc", "mll", "mlcmcc", "mqql")
             for tt, ps, ip, sl in (((0, 2), (), (), ()), ((2, 0), (), ((1, 0, 2),), ((2, 0), (0, 1))), ((), (0, 2), (), ()), ((2,), (0, 1), (), ()), ((0,), (2, 1), ((0, 2, 1),), ()))],
            bounds="contours of up to 4 nodes (two of 3), commands and hint sets on several nodes, every coordinate, 2 masters"),
]
