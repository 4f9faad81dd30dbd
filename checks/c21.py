"""C21: access to glyphs, and drawing them with and into pens.

Glyphs are read from bytes, accessed by name, drawn with every kind of pen, and drawn into
(all masters); what was drawn into a glyph must be in the file that is written."""
from sx.spec import Harness
from checks.common import *
from checks.c15 import Pen, nodes_of, compare, model, SEQ4, TWO

PROPERTY = "C21"
EXTRA_PACKAGES = ("fontTools",)


class SegPen:
    """A segment pen that records contours in the form of the model"""

    def __init__(self):
        self.contours, self.components = [], []
        self.cur = None

    def moveTo(self, pt):
        assert self.cur is None, "moveTo in a contour"
        self.cur = {"open": True, "start": pt, "segs": []}

    def lineTo(self, pt):
        self.cur["segs"].append(("l", pt))

    def curveTo(self, *p):
        self.cur["segs"].append(("c", *p))

    def qCurveTo(self, *p):
        self.cur["segs"].append(("q", *p))

    def closePath(self):
        self.cur["open"] = False
        self.endPath()

    def endPath(self):
        self.contours.append(self.cur)
        self.cur = None

    def addComponent(self, base, tr, identifier=None, **kw):
        self.components.append((base, tr))


def glyph_entry(h, v, data):
    """A glyph as it is read from a file"""
    e = entry(h, v, ids(h).G.Glyph.value)
    e.data = data
    e.compile()
    h.check(isinstance(e.data, bytes), "compiled")
    return e


def add(h, v, data, raw=True):
    if raw:
        e = glyph_entry(h, v, copy(data))
    else:
        e = entry(h, v, ids(h).G.Glyph.value)
        e.data = copy(data)
    v.entries.append(e)
    return e


def gdata(name, nodes=(), masters=1, **kw):
    return {"name": name, "num_masters": masters, "nodes": list(nodes), "metrics": [(500, 0)] * masters, **kw}


def h_access(h):
    """each glyph is found under a name of its own, with its own data and links"""
    I = ids(h)
    n = h.p["n"]
    v = vfb(h, 1)
    given, widths, links = [], [], []
    for i in range(n):
        given.append(h.choice(f"name{i}", ["a", "b", "a#1"]))
        widths.append(h.int(f"w{i}", *I16))
        add(h, v, {"name": given[-1], "num_masters": 1, "nodes": [], "metrics": [(widths[-1], 0)]})
        e = entry(h, v, I.G.Links.value)
        e.data = {"x": [(i, i + 1)], "y": []}
        e.compile()
        if i != 1:
            v.entries.append(e)
    first = h.p.get("first", "keys")
    if first == "in":
        h.check("zz" not in v, "unknown glyph")
        h.check(given[0] in v, "known glyph")
    elif first == "get":
        v[given[0]]
    elif first == "items":
        h.check_eq([g.name for k, g in v.items()], given, "names of the glyphs at first")
    elif first == "masters":
        h.check_eq([g.name for k, g in v.get_masters()[0].items()], given, "names of the glyphs of a master at first")
    for when in ("", " after compile"):
        names = list(v.keys())
        h.observe("names" + when, names)
        h.check_eq(len(names), n, "number of glyphs" + when)
        h.check_eq(len(set(names)), n, "unique names" + when)
        h.check_eq(list(v.glyph_order), names, "glyph order" + when)
        h.check_eq([k for k, g in v.items()], names, "items" + when)
        for i, k in enumerate(names):
            g = v[k]
            h.check(k in v, "contains" + when)
            h.check_eq(g.entry.data["metrics"][0][0], widths[i], "metrics" + when)
            h.check_eq(g.name, given[i], "name of the glyph" + when)
            if given[i] not in given[:i] and given[i] not in names[:i]:
                h.check_eq(k, given[i], "key" + when)
            h.check(k.startswith(given[i]), "key is derived from the name" + when)
            if i != 1:
                g.links_entry.decompile()
                h.check_eq(g.links_entry.data["x"], [(i, i + 1)], "links" + when)
            else:
                h.check(g.links_entry is None, "no links" + when)
        try:
            v["zz"]
            h.check(False, "unknown glyph" + when)
        except KeyError:
            pass
        for e in v.entries:
            e.compile()


def h_masters(h):
    """the masters of a font give access to the same glyphs"""
    n = h.p["masters"]
    v = vfb(h, n)
    kinds = "mlq"
    nodes = {k: nodes_of(h, kinds, n, prefix=k) for k in "ab"}
    for k in "ab":
        add(h, v, gdata(k, nodes[k], n))
    ms = v.get_masters()
    h.check_eq(len(ms), n, "number of masters")
    for m, u in enumerate(ms):
        h.check_eq(list(u.keys()), ["a", "b"], "glyph names")
        h.check("a" in u and "c" not in u, "contains")
        h.check_eq([k for k, g in u.items()], ["a", "b"], "items")
        for way in ("get", "items"):
            for k in "ab":
                g = u[k] if way == "get" else dict(u.items())[k]
                p = Pen()
                g.drawPoints(p)
                h.observe(f"{k}{m}", p.contours)
                compare(h, kinds, nodes[k], m, p, flags=False)
                h.check_eq(g.name, k, "name")
                h.check_eq(len(g), 1, "number of contours")


def h_draw(h):
    """all pens get the same outline"""
    kinds = h.p["nodes"]
    v = vfb(h, 2)
    nodes = nodes_of(h, kinds, 2)
    comps = [{"gid": 1, "offsetX": [h.int(f"dx{m}", *COORD) for m in range(2)], "offsetY": [3, 4], "scaleX": [1.0, 0.5], "scaleY": [2.0, 1.0]}] if h.p.get("components") else []
    # (entries are given as data, to have them read is the subject of C05)
    e = add(h, v, gdata("a", nodes, 2, **({"components": comps} if comps else {})), raw=False)
    add(h, v, gdata("b", [], 2), raw=False)
    g = v["a"]
    for m in range(2):
        g.master_index = m
        v.master_index = m
        want = model(nodes, kinds, m)
        p = SegPen()
        g.draw(p)
        h.check(p.cur is None, "last contour was ended")
        h.observe(f"segments{m}", [(c["open"], c["start"], c["segs"]) for c in p.contours])
        h.check_eq(len(p.contours), len(want), "number of contours")
        for w, c in zip(want, p.contours):
            segs = list(c["segs"])
            if not w["open"] and not (w["segs"] and w["segs"][-1][0] == "q"):
                segs.append(("l", c["start"]))
            h.check_eq(c["open"], w["open"], "open or closed")
            h.check_eq(c["start"], w["start"], "start")
            h.check_eq([s[0] for s in segs], [s[0] for s in w["segs"]], "segment types")
            h.check_eq([s[1:] for s in segs], [s[1:] for s in w["segs"]], "segment points")
        q = Pen()
        g.drawPointsDirect(q)
        h.observe(f"direct{m}", q.contours)
        compare(h, kinds, nodes, m, q, flags=False)
        r = Pen()
        g.drawPoints(r)
        h.observe(f"points{m}", r.contours)
        compare(h, kinds, nodes, m, r, flags=False)
        for pen in (p, q, r):
            h.check_eq(len(pen.components), len(comps), "number of components")
            for (base, tr), c in zip(pen.components, comps):
                h.check_eq(base, "b", "base glyph")
                h.check_eq(tuple(tr), (c["scaleX"][m], 0, 0, c["scaleY"][m], c["offsetX"][m], c["offsetY"][m]), "transformation")
        h.check_eq(len(g), len(want), "number of contours of the glyph")
    h.check_eq(e.data["nodes"], nodes, "glyph was not changed")


# point types: m(ove), l(ine), q(uadratic on-curve), o(ff-curve)
PT = {"m": "move", "l": "line", "q": "qcurve", "o": None}


def contour(h, kinds, name, f=4):
    pts = [(h.int(f"{name}{i}x", -(1 << 20), 1 << 20) / f, h.int(f"{name}{i}y", -(1 << 20), 1 << 20) / f) for i in range(len(kinds))]
    return list(zip(kinds, pts))


def into(pen, cont):
    pen.beginPath()
    for k, pt in cont:
        pen.addPoint(pt, PT[k])
    pen.endPath()


def normal(h, cont):
    """the contour as it must be found in the glyph: starting with an on-curve point"""
    ks = [k for k, _ in cont]
    on = [i for i, k in enumerate(ks) if k != "o"]
    if not on:
        (_, (x0, y0)), (_, (x1, y1)) = cont[-1], cont[0]
        return [("q", ((x0 + x1) / 2, (y0 + y1) / 2))] + cont
    return cont[on[0]:] + cont[:on[0]]


def near(h, got, want, what):
    for a, b in zip(got, want):
        d = b - a
        h.check(h.all([d <= 0.5, d >= -0.5]), what)


def check_contours(h, pen, conts, what):
    h.check_eq(len(pen.contours), len(conts), "number of contours" + what)
    for c, w in zip(pen.contours, conts):
        w = normal(h, w)
        open_ = w[0][0] == "m"
        h.check_eq(len(c), len(w), "number of points" + what)
        types = [PT[k] for k, _ in w]
        if len(w) > 1:
            # an on-curve point after off-curve points ends a curve
            types[0] = "move" if open_ else "qcurve" if w[-1][0] == "o" else "line"
            types[1:] = [None if w[i][0] == "o" else "qcurve" if w[i - 1][0] == "o" else "line" for i in range(1, len(w))]
        else:
            types[0] = c[0][0]
        h.check_eq([p[0] for p in c], types, "point types" + what)
        for p, (_, q) in zip(c, w):
            near(h, p[3], q, "points" + what)


def written(h, v):
    """what a font has after it was written and read again"""
    for e in v.entries:
        e.compile()
    w = vfb(h, v.num_masters)
    for e in v.entries:
        x = entry(h, w, e.id)
        x.data = e.data
        w.entries.append(x)
    return w


def h_into(h):
    """contours that are drawn into a glyph are drawn from it, and written"""
    masters = h.p["masters"]
    v = vfb(h, masters)
    add(h, v, gdata("a", nodes_of(h, "mlll", masters, prefix="old") if h.p["old"] else [], masters, **({"hints": {"h": [], "v": [], "hintmasks": [("h", 0), ("r", 1)]}, "tth": [{"cmd": "AlignH", "params": {"pt": 1, "align": 0}}]} if h.p["old"] else {})))
    add(h, v, gdata("b", [], masters))
    g = v["a"]
    if h.p["old"]:
        g.drawPoints(Pen())
        g.clearContours()
        h.check_eq(len(g), 0, "contours were removed")
        h.check("tth" not in g.entry.data and "hints" not in g.entry.data, "hints of the old contours were removed")
    conts = [contour(h, k, f"c{i}", h.p.get("f", 4)) for i, k in enumerate(h.p["contours"])]
    # (closing points that repeat the first one are dropped)
    for c in conts:
        c = normal(h, c)
        if len(c) > 1 and c[0][0] != "m":
            h.assume(h.any([round(c[0][1][0]) != round(c[-1][1][0]), round(c[0][1][1]) != round(c[-1][1][1])]))
    pen = g.getPointPen()
    for c in conts:
        into(pen, c)
    d = (h.int("dx", -1000, 1000) / 4, h.int("dy", -1000, 1000) / 4)
    if h.p.get("components"):
        pen.addComponent("b", (1.0, 0, 0, 0.5, *d))
    for font, what in ((v, ""), (written(h, v), " after writing")):
        for m in range(masters):
            x = font.getGlyphMaster("a", m)
            p = Pen()
            x.drawPoints(p)
            h.observe(f"drawn{m}" + what, p.contours)
            check_contours(h, p, conts, what)
            h.check_eq(len(p.components), 1 if h.p.get("components") else 0, "components" + what)
            for base, tr in p.components:
                h.check_eq((base, *tr[:4]), ("b", 1, 0, 0, 0.5), "component" + what)
                near(h, tr[4:], d, "offset" + what)
            h.check_eq(len(x), len(conts), "number of contours of the glyph" + what)


def h_merge(h):
    """each master has the contours that were drawn into it"""
    n = h.p["masters"]
    v = vfb(h, n)
    add(h, v, gdata("a", nodes_of(h, "mlll", n, prefix="old") if h.p["old"] else [], n))
    add(h, v, gdata("b", [], n))
    kinds = h.p["contours"]
    for turn in range(h.p.get("turns", 1)):
        conts = [[contour(h, k[turn:] if len(k) > 3 else k, f"t{turn}m{m}c{i}", 1) for i, k in enumerate(kinds)] for m in range(n)]
        for cs in conts:
            for c in cs:
                if len(c) > 1 and c[0][0] != "m":
                    h.assume(h.any([c[0][1][0] != c[-1][1][0], c[0][1][1] != c[-1][1][1]]))
        off = [(h.int(f"t{turn}dx{m}", *I16), h.int(f"t{turn}dy{m}", *I16)) for m in range(n)]
        ms = v.get_masters()
        glyphs = {}
        for m in h.p.get("order") or range(n):
            glyphs[m] = ms[m]["a"]
            if h.p["old"] or turn:
                glyphs[m].clearContours()
            if turn and m == 0:
                glyphs[m].entry.data.pop("components", None)
            pen = glyphs[m].getPointPen()
            for c in conts[m]:
                into(pen, c)
            if h.p.get("components"):
                pen.addComponent("b", (1.0, 0, 0, 1.0, *off[m]))
        w = written(h, v)
        for m in range(n):
            p = Pen()
            w.getGlyphMaster("a", m).drawPoints(p)
            h.observe(f"drawn{turn}{m}", p.contours)
            check_contours(h, p, conts[m], "")
            h.check_eq(len(p.components), 1 if h.p.get("components") else 0, "components")
            for base, tr in p.components:
                h.check_eq((base, *tr), ("b", 1, 0, 0, 1, *off[m]), "component")


class Angles:
    """whether on-curve points between curves are smooth is no matter here"""

    def __init__(self, h):
        self.m = h.module("fontTools.pens.pointPen")
        self.smooth = h.p.get("smooth", 0)

    def __enter__(self):
        self.math, self.m.math = self.m.math, self
        self.n = 0

    def __exit__(self, *a):
        self.m.math = self.math

    def atan2(self, y, x):
        self.n += 1
        return 0.0 if self.smooth else float(self.n)


def segments(h, pen, cont):
    """draw a contour with a segment pen"""
    if all(k == "o" for k, _ in cont):
        pen.qCurveTo(*[pt for _, pt in cont], None)
        pen.closePath()
        return
    w = normal(h, cont)
    pen.moveTo(w[0][1])
    off = []
    for k, pt in w[1:]:
        if k == "o":
            off.append(pt)
        elif off:
            pen.qCurveTo(*off, pt)
            off = []
        else:
            pen.lineTo(pt)
    if off:
        pen.qCurveTo(*off, w[0][1])
    if w[0][0] == "m":
        pen.endPath()
    else:
        pen.closePath()


def h_segments(h):
    """contours that are drawn with a segment pen, into new glyphs as well, and copied"""
    masters = h.p["masters"]
    v = vfb(h, masters)
    m = h.module("vfbLib.vfb.glyph")
    es = []
    for k in "abcd":
        es.append(entry(h, v, ids(h).G.Glyph.value))
        if k == "b":
            es[-1].data = gdata(k, nodes_of(h, "mll", masters, prefix="old"), masters)
        else:
            g = m.VfbGlyph(es[-1], v)
            h.check_eq(len(g), 0, "new glyph")
            es[-1].data["name"] = k
        v.entries.append(es[-1])
    h.check_eq(list(v.keys()), list("abcd"), "glyphs")
    conts = [contour(h, k, f"c{i}", 1) for i, k in enumerate(h.p["contours"])]
    for c in conts:
        w = normal(h, c)
        if len(w) > 1:
            h.assume(h.any([w[0][1][0] != w[-1][1][0], w[0][1][1] != w[-1][1][1]]))
    with Angles(h):
        g = v["a"]
        pen = g.getPen()
        for c in conts:
            segments(h, pen, c)
        if h.p.get("components"):
            pen.addComponent("c", (1.0, 0, 0, 1.0, 3, 4))
        b = v["b"]
        b.clearContours()
        g.draw(b.getPen())
        g.drawPoints(v["c"].getPointPen())
        g.drawPointsDirect(v["d"].getPointPen())
    for font, what in ((v, ""), (written(h, v), " after writing")):
        for i in range(masters):
            for k in "abcd":
                x = font.getGlyphMaster(k, i)
                p = Pen()
                x.drawPoints(p)
                h.observe(f"{k}{i}" + what, p.contours)
                # (a qcurve without off-curve points is a line)
                check_contours(h, p, [[(t, (round(x), round(y))) for t, (x, y) in normal(h, c)] for c in conts], what)
                h.check_eq([c[0] for c in p.components], ["c"] if h.p.get("components") else [], "components" + what)
                h.check_eq(x.name, k, "name" + what)


def h_errors(h):
    """what a VFB cannot have is refused"""
    v = vfb(h, 1)
    add(h, v, gdata("a"))
    pen = v["a"].getPointPen()
    x = h.int("x", *I16)
    if h.p["what"] == "component":
        try:
            pen.addComponent("zz", (1, 0, 0, 1, x, 0))
            h.check(False, "unknown base glyph")
        except KeyError:
            pass
        h.check_eq(v["a"].entry.data.get("components", []), [], "no component")
    else:
        ks = h.p["what"]
        try:
            pen.beginPath()
            for k in ks:
                pen.addPoint((x, 0), {"c": "curve", "o": None, "l": "line"}[k])
            pen.endPath()
            h.check(False, "cubic curve")
        except ValueError:
            pass
        h.check_eq(v["a"].entry.data["nodes"], [], "no nodes")


INTO = ["m", "ml", "mll", "lll", "qoo", "oqo", "ooq", "ooo", "oo", "lo", "loq", "qlo", "oloq", "moq", "mloq", "llqo"]
HARNESSES = [
    Harness("access", h_access, [{"n": n, "first": f} for n in (1, 2, 3) for f in ("keys", "in", "get", "items", "masters")], bounds="up to 3 glyphs with every combination of 3 names that may collide, every width; before and after compiling"),
    Harness("masters", h_masters, [{"masters": n} for n in (1, 2, 4)], bounds="1, 2 and 4 masters, every coordinate"),
    Harness("draw", h_draw, [{"nodes": s} for s in SEQ4 + TWO[::3]] + [{"nodes": s, "components": 1} for s in ("", "mlq", "olc")],
            thorough=[{"nodes": s} for s in SEQ4 + TWO] + [{"nodes": s, "components": 1} for s in ("", "mlq", "olc")],
            bounds="every contour of up to 4 nodes, and a third of the pairs of contours of up to 3 (thorough: all), every coordinate, 2 masters"),
    Harness("draw into", h_into, [{"masters": 1 + (i % 2), "old": i % 3 == 0, "contours": [s], "components": i % 2} for i, s in enumerate(INTO)]
            + [{"masters": 2, "old": True, "contours": c, "f": 1} for c in (["lll", "ooq"], ["oqo", "mll"], ["mo"[:1] + "l", "qoo", "lll"])],
            bounds="19 contours or groups of contours of up to 4 points, coordinates in steps of a quarter (groups: integer), 1 and 2 masters"),
    Harness("masters drawn into", h_merge, [{"masters": 2, "old": o, "contours": c, "components": k} for o in (0, 1) for c, k in ((["lll"], 0), (["qoo", "ml"], 1), (["llqo"], 0))]
            + [{"masters": 4, "old": 0, "contours": ["mll"], "components": 1}, {"masters": 2, "old": 1, "contours": ["qoo"], "components": 0, "order": [1, 0]},
               {"masters": 2, "old": 1, "contours": ["llqo"], "components": 1, "turns": 2}],
            bounds="2 and 4 masters, up to 2 contours, every coordinate, drawn once or twice"),
    Harness("segments", h_segments, [{"masters": 1 + i % 2, "contours": [s], "components": i % 2, "smooth": i % 3 == 0} for i, s in enumerate(INTO) if "q" not in s.replace("oq", "") or s[0] == "q"]
            + [{"masters": 1, "contours": ["lll", "ooo"], "components": 1}, {"masters": 2, "contours": ["ml", "loq"], "components": 0}],
            bounds="16 contours or groups of contours of up to 4 points, every integer coordinate, drawn into a new glyph and copied to three others"),
    Harness("refused", h_errors, [{"what": w} for w in ("component", "loc", "ooc", "coo")], bounds="unknown base glyphs and cubic curves"),
]
