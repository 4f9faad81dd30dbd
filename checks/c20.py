"""C20: all glyphs, all masters and the designspace.

A font is built entry by entry and converted; each master must have every glyph with
the data that the entries have for that master, and the VFB must stay as it is."""
from sx.spec import Harness
from checks.common import *
from checks.ufo import Font

PROPERTY = "C20"
EXTRA_PACKAGES = ("fontTools",)


def node(h, name, masters, kind="line"):
    pts = [[(h.int(f"{name}x{m}", *COORD), h.int(f"{name}y{m}", *COORD))] for m in range(masters)]
    return {"type": kind, "flags": 0, "points": pts}, [p[0] for p in pts]


def fixed_node(kind, x, y, masters=1):
    return {"type": kind, "flags": 0, "points": [[(x + m, y)] for m in range(masters)]}


def h_glyphs(h):
    """every glyph is there once, in order, with its own data"""
    n = h.p["n"]
    names = ["a", "b", "a#0"]
    f = Font(h)
    given, widths, kern = [], [], []
    for i in range(n):
        given.append(h.choice(f"name{i}", names[:h.p.get("names", 3)]))
        widths.append(h.int(f"w{i}", *I16))
        kern.append(h.int(f"k{i}", 1, 1 << 14))
        f.glyph(given[-1], [fixed_node("move", i, 0), fixed_node("line", i, 9), fixed_node("line", 5, i)], [(widths[-1], 0)],
                kerning={(i + 1) % n: [kern[-1]]})
        f.add(f.G.unicodes, [i + 1])
    fonts, b = f.convert()
    u = fonts[0]
    order = u.lib["public.glyphOrder"]
    h.observe("order", list(order))
    h.check_eq(len(order), n, "glyph order has all glyphs")
    h.check_eq(len(set(order)), n, "glyph names are unique")
    h.check_eq(sorted(order), sorted(g.name for g in u), "all glyphs are there")
    for i in range(n):
        g = u[order[i]]
        h.observe(f"width{i}", g.width)
        h.check_eq(g.width, widths[i], "width")
        h.check_eq(list(g.unicodes), [i + 1], "code points")
        h.check_eq([p.x for c in g.contours for p in c.points], [i, i, 5], "outline")
        if given[i] not in given[:i] and given[i] not in order[:i]:
            h.check_eq(order[i], given[i], "name")
        h.check(order[i].startswith(given[i]), "name is derived from the given one")
    want = {(order[i], order[(i + 1) % n]): kern[i] for i in range(n)}
    h.check_eq(len(u.kerning), h.len(want), "number of pairs")
    for p, k in want.items():
        h.check_eq(u.kerning.get(p), k, "kerning")


def h_masters(h):
    """as many masters as axes require; each has its own data"""
    a, named = h.p["axes"], h.p["named"]
    n = 2 ** a
    f = Font(h, n)
    if h.p["count"] != "none":
        f.add(f.F.MasterCount, n)
    if a or h.p["count"] == "zero":
        f.add(f.F.AxisCount, a)
    for i in range(a):
        f.add(f.F.AxisName, ["Weight", "Width", "Serif", "Optical Size"][i])
    for m in range(named):
        f.add(f.M.MasterName, f"M{m}")
    for m in range(n):
        f.add(f.M.PostScriptInfo, {"ascender": 700 + m})
    metrics = [(h.int(f"w{m}", *I16), h.int(f"h{m}", *I16)) for m in range(n)]
    nodes, pts = [], []
    for i, k in enumerate(("move", "line", "line")):
        if i:
            x, p = fixed_node(k, 10 * i, 5 * i, n), [(10 * i + m, 5 * i) for m in range(n)]
        else:
            x, p = node(h, f"n{i}", n, k)
        nodes.append(x)
        pts.append(p)
    # (closing points that repeat the first one are dropped)
    for m in range(n):
        h.assume(h.any([pts[0][m][0] != pts[2][m][0], pts[0][m][1] != pts[2][m][1]]))
    f.glyph("a", nodes, metrics)
    fonts, b = f.convert(ps=False, axes=False)
    h.check_eq(len(fonts), n, "number of masters")
    h.check_eq(len(b.masters), n, "number of names")
    for m in range(named):
        h.check_eq(b.masters[m], f"M{m}", "name")
    h.check_eq(len(set(b.masters)), n, "names are different")
    for m, u in enumerate(fonts):
        g = u["a"]
        h.observe(f"metrics{m}", (g.width, g.height))
        h.check_eq((g.width, g.height), metrics[m], "metrics")
        h.check_eq([(p.x, p.y) for c in g.contours for p in c.points], [p[m] for p in pts], "outline")
        h.check_eq(u.info.ascender, 700 + m, "ascender")


PSKEYS = [("ascender", "ascender"), ("descender", "descender"), ("x_height", "xHeight"), ("cap_height", "capHeight"),
          ("blue_scale", "postscriptBlueScale"), ("blue_shift", "postscriptBlueShift"), ("blue_fuzz", "postscriptBlueFuzz")]
LISTS = [("blue_values", "postscriptBlueValues", 14), ("other_blues", "postscriptOtherBlues", 10), ("family_blues", "postscriptFamilyBlues", 14),
         ("family_other_blues", "postscriptFamilyOtherBlues", 10), ("stem_snap_h", "postscriptStemSnapH", 12), ("stem_snap_v", "postscriptStemSnapV", 12)]


def h_psinfo(h):
    """each master has its PostScript values; lists have the length given for the font"""
    n = 2
    f = Font(h, n)
    which = h.p["lists"]
    info, nums = [], {}
    for k, attr, size in LISTS:
        if k in which:
            nums[k] = h.pick("num_" + k, 0, size)
            f.add(getattr(f.F, k + "_num"), nums[k])
    for m in range(n if h.p["info"] else 0):
        d = {k: h.int(f"{k}{m}", *I32) for k, _ in PSKEYS if k not in ("blue_scale",)}
        d["blue_scale"] = h.double(f"blue_scale{m}")
        d["force_bold"] = h.int(f"bold{m}", 0, 1)
        for k, attr, size in LISTS:
            d[k] = [h.int(f"{k}{m}!{i}", *I32) for i in range(size)] if k in which else list(range(size))
        info.append(d)
        f.add(f.M.PostScriptInfo, copy(d))
    f.glyph("a")
    fonts, b = f.convert(ps=False, pshints=h.p.get("pshints", True))
    h.check_eq(len(fonts), n, "number of masters")
    default = h.module("vfbLib.ufo.info").VfbToUfoInfo()
    for m, u in enumerate(fonts):
        i = u.info
        d = info[m] if info else {}
        for k, attr in PSKEYS:
            use = k in d and (h.p.get("pshints", True) or k[:5] != "blue_")
            h.observe(attr, getattr(i, attr))
            h.check_eq(getattr(i, attr), d[k] if use else getattr(default, attr), attr)
        if d and h.p.get("pshints", True):
            h.check_eq(i.postscriptForceBold, d["force_bold"] == 1, "force bold")
        for k, attr, size in LISTS:
            got = getattr(i, attr)
            if nums.get(k) and d and h.p.get("pshints", True):
                h.observe(attr, list(got))
                h.check_eq(list(got), d[k][:nums[k]], attr)
            else:
                h.check_eq(got, getattr(default, attr), attr + " is not set")


def h_glyph_data(h):
    """code points, anchors and mask metrics"""
    n = h.p["masters"]
    f = Font(h, n)
    f.glyph("x")
    f.add(f.G.unicodes, [0x10])
    f.glyph("a", [], [(500 + m, 0) for m in range(n)])
    uni = [h.int(f"u{i}", *U16) for i in range(h.p["unicodes"])]
    non = [h.int(f"v{i}", 0x10000, 0x10FFFF) for i in range(h.p["nonbmp"])]
    if uni:
        f.add(f.G.unicodes, list(uni))
    if non:
        f.add(f.G.UnicodesNonBMP, list(non))
    an = [(h.int(f"ax{i}", *COORD), h.int(f"ay{i}", *COORD)) for i in range(h.p["anchors"])]
    names = ["top", None, "_bottom"]
    if an:
        f.add(f.G.GDEFData, {"anchors": [dict(([("name", names[i])] if names[i] else []) + [("x", x), ("x1", -1), ("y", y), ("y1", -1)]) for i, (x, y) in enumerate(an)]})
    mm = [[(h.int(f"mx{i}!{m}", *COORD), h.int(f"my{i}!{m}", *COORD)) for m in range(n)] for i in range(h.p["anchors"])] if h.p["mm"] else []
    if mm:
        f.add(f.G.AnchorsMM, [{"x": [p[0] for p in a], "y": [p[1] for p in a]} for a in mm])
    f.glyph("y")
    fonts, b = f.convert()
    for m, u in enumerate(fonts):
        g = u["a"]
        h.observe(f"a{m}", (list(g.unicodes), [(x.name, x.x, x.y) for x in g.anchors]))
        h.check_eq(list(g.unicodes), uni + non, "code points")
        h.check_eq([(x.x, x.y) for x in g.anchors], [mm[i][m] if mm else p for i, p in enumerate(an)], "anchors")
        h.check_eq([x.name for x in g.anchors], names[:len(an)], "names of the anchors")
        h.check_eq(list(u["x"].unicodes), [0x10], "code points of the other glyph")
        h.check_eq((len(u["x"].anchors), len(u["y"].anchors), list(u["y"].unicodes)), (0, 0, []), "data of other glyphs")


def h_components(h):
    """each master has the components with their base glyphs, positions and scales"""
    n = h.p["masters"]
    f = Font(h, n)
    names = [h.choice(f"name{i}", ["a", "b", "a#0"]) for i in range(3)] if h.p.get("names") else ["a", "b", "d"]
    names.insert(1, "c")
    comps, want = [], []
    for i in range(h.p["n"]):
        gid = h.pick(f"gid{i}", 0, 3)
        off = [[h.int(f"{k}{i}!{m}", *COORD) for m in range(n)] for k in "xy"]
        sc = [[h.int(f"s{k}{i}!{m}", -16, 16) / 8 if h.p.get("scales") == m else -0.5 * m for m in range(n)] for k in "xy"]
        comps.append({"gid": gid, "offsetX": off[0], "offsetY": off[1], "scaleX": sc[0], "scaleY": sc[1]})
        want.append((gid, off, sc))
    for i, k in enumerate(names):
        f.glyph(k, [fixed_node(t, 3 * i + 5 * j, 4 - j * j, n) for j, t in enumerate(("move", "line", "line"))] if i != 2 else [], [(500 + i, m) for m in range(n)], **({"components": comps} if i == 1 else {}))
    fonts, b = f.convert(minimal=h.p.get("minimal", False))
    for m, u in enumerate(fonts):
        glyphs = [g for g in u]
        h.check_eq([g.width for g in glyphs], [500, 501, 502, 503], "glyphs")
        h.check_eq(len({g.name for g in glyphs}), 4, "names")
        h.observe(f"components{m}", [[(c.baseGlyph, tuple(c.transformation)) for c in g.components] for g in glyphs])
        for i, g in enumerate(glyphs):
            h.check_eq(len(g.components), h.p["n"] if i == 1 else 0, "number of components")
            h.check_eq(len(g.contours), 0 if i == 2 else 1, "contours")
        for c, (gid, off, sc) in zip(glyphs[1].components, want):
            h.check_eq(c.baseGlyph, glyphs[gid].name, "base glyph")
            h.check_eq(tuple(c.transformation), (sc[0][m], 0, 0, sc[1][m], off[0][m], off[1][m]), "transformation")


def h_mask(h):
    """the mask is in the background layer of its master, with its own width"""
    n = h.p["masters"]
    f = Font(h, n)
    f.glyph("a", [], [(500, 0)] * n)
    nodes, pts = [], []
    for i, k in enumerate(("move", "line", "line")):
        if i:
            x, p = fixed_node(k, 10 * i, 5 * i, n), [(10 * i + m, 5 * i) for m in range(n)]
        else:
            x, p = node(h, f"n{i}", n, k)
        nodes.append(x)
        pts.append(p)
    for m in range(n):
        h.assume(h.any([pts[0][m][0] != pts[2][m][0], pts[0][m][1] != pts[2][m][1]]))
    w = [(h.int(f"w{m}", *I16), h.int(f"h{m}", *I16)) for m in range(n)]
    f.add(f.G.mask, {"num_masters": n, "nodes": nodes})
    if h.p["metrics"]:
        f.add(f.G.MaskMetrics, w[0])
        if n > 1:
            f.add(f.G.MaskMetricsMM, w[1:])
    f.glyph("b")
    fonts, b = f.convert()
    for m, u in enumerate(fonts):
        layers = [l.name for l in u.layers]
        h.check_eq(layers[1:], ["public.background"], "layers")
        l = u.layers["public.background"]
        h.check_eq([g.name for g in l], ["a"], "glyphs with a mask")
        g = l["a"]
        h.observe(f"mask{m}", (g.width, g.height))
        h.check_eq((g.width, g.height), w[m] if h.p["metrics"] else (500, 0), "mask metrics")
        h.check_eq([(p.x, p.y) for c in g.contours for p in c.points], [p[m] for p in pts], "mask outline")
        h.check_eq(len(u["a"].contours), 0, "outline stays empty")


TAGS = {"Weight": "wght", "Width": "wdth", "Optical Size": "opsz", "Serif": "SERF", "Contrast": "CONT"}


def h_designspace(h):
    """axes, master locations and instances"""
    from pathlib import Path

    axes = h.p["axes"]
    n = 2 ** len(axes)
    f = Font(h, n)
    f.add(f.F.pref_family_name, "Fam")
    f.add(f.F.AxisCount, len(axes))
    for a in axes:
        f.add(f.F.AxisName, a)
    f.add(f.F.MasterCount, n)
    counts = h.p["counts"]
    maps = [[(h.int(f"mu{a}!{i}", *I16) / 2, h.int(f"md{a}!{i}", 0, 1024) / 1024) if i < 2 else (50.0 * i, i / 16) for i in range(10)] for a in range(len(axes))]
    if counts is not None:
        f.add(f.F.AxisMappingsCount, counts + [0] * (4 - len(counts)))
        f.add(f.F.AxisMappings, [x for m in maps for x in m])
    loc = {}
    order = h.p.get("order") or list(range(n))
    for m in range(n):
        f.add(f.M.MasterName, f"M{m} ")
    for m in order:
        loc[m] = [h.int(f"l{m}!{i}", 0, 1024) / 1024 for i in range(4)]
        f.add(f.M.MasterLocation, (m + 1, tuple(loc[m])))
    inst = [{"name": f"I{i}", "values": tuple(h.int(f"i{i}!{j}", *I16) / 4 for j in range(4))} for i in range(h.p["instances"])]
    f.add(f.F.PrimaryInstances, copy(inst))
    f.glyph("a")
    fonts, b = f.convert(axes=False)
    h.check_eq(len(fonts), n, "number of masters")
    ds = b.get_designspace(Path("/dir/font.ufo"))
    h.check_eq([(a.name, a.tag) for a in ds.axes], [(a, TAGS[a]) for a in axes], "axes")
    for i, a in enumerate(ds.axes):
        c = counts[i] if counts else 0
        h.observe(f"axis{i}", (a.minimum, a.default, a.maximum, [tuple(x) for x in a.map or []]))
        h.check_eq(len(a.map or []), c, "number of mappings")
        for got, (x, y) in zip(a.map or [], maps[i]):
            h.check_eq(got[0], x, "user coordinate")
            e = got[1] - y * 1000
            h.check(h.all([e <= 0.5, e >= -0.5]), "design coordinate")
        if c:
            xs = [x for x, _ in maps[i][:c]]
            h.check(h.all([a.minimum <= x for x in xs] + [h.any([a.minimum == x for x in xs])]), "minimum")
            h.check(h.all([a.maximum >= x for x in xs] + [h.any([a.maximum == x for x in xs])]), "maximum")
        else:
            h.check_eq((a.minimum, a.default, a.maximum), (0, 0, 1000), "limits of an axis without mappings")
        h.check(h.all([a.minimum <= a.default, a.default <= a.maximum]), "default")
    h.check_eq(len(ds.sources), n, "sources")
    for m, s in enumerate(ds.sources):
        h.check_eq(s.name, f"M{m}", "name of the source")
        h.check_eq(s.filename, str(b.get_master_path(Path("/dir/font.ufo"), m)), "file name of the source")
        h.observe(f"source{m}", [s.location[a] for a in axes])
        h.check_eq(sorted(s.location), sorted(axes), "axes of the source")
        for i, a in enumerate(axes):
            h.check_eq(s.location[a], loc[m][i] * 1000, "location of the source")
    h.check_eq(len(set(s.filename for s in ds.sources)), n, "file names are different")
    h.check_eq(len(ds.instances), len(inst), "instances")
    for s, d in zip(ds.instances, inst):
        h.check_eq((s.styleName, s.familyName), (d["name"], "Fam"), "names of the instance")
        for i, a in enumerate(axes):
            h.check_eq(s.userLocation[a], d["values"][i], "location of the instance")


def snapshot(u):
    """the parts of a master as plain data"""
    def glyph(g):
        return {"name": g.name, "width": g.width, "height": g.height, "unicodes": list(g.unicodes), "lib": dict(g.lib),
                "contours": [[(p.x, p.y, p.type, p.smooth, p.name) for p in c.points] for c in g.contours],
                "components": [(c.baseGlyph, tuple(c.transformation)) for c in g.components],
                "anchors": [(a.name, a.x, a.y) for a in g.anchors],
                "guidelines": [(x.x, x.y, x.angle, x.name, x.color) for x in g.guidelines]}

    return {"glyphs": [glyph(g) for g in u], "kerning": dict(u.kerning), "groups": dict(u.groups), "lib": dict(u.lib), "features": u.features.text,
            "ascender": u.info.ascender, "guidelines": [dict(g) if isinstance(g, dict) else (g.x, g.y, g.angle, g.name, g.color) for g in u.info.guidelines or []]}


def h_unchanged(h):
    """the VFB is the same after a conversion, and another conversion has the same result"""
    n = h.p["masters"]
    f = Font(h, n)
    c = lambda name: h.int(name, *I16)
    f.add(f.F.GlobalGuides, {"h": [[{"pos": c("gp"), "angle": 0.0}] * n], "v": []})
    f.add(f.F.GlobalGuideProperties, {"h": [{"index": 1, "color": "#ff0000", "name": "g"}], "v": []})
    f.add(f.F.GlyphClass, "_k: a' b")
    f.add(f.F.KerningClassFlags, {"_k": (1024, 0)})
    f.add(f.F.GlyphClass, "other: a b")
    f.add(f.T.TrueTypeZones, {"ttZonesT": [{"position": c("zp"), "value": 3, "name": "z"}], "ttZonesB": []})
    f.add(f.T.TrueTypeStemPPEMs, {"ttStemsV": [{"stem": 0, "round": {"2": 20, "3": 30, "4": 40, "5": 50}}], "ttStemsH": []})
    f.add(f.T.TrueTypeStems, {"ttStemsV": [{"value": c("sv"), "name": "s", "round": {"6": 60}}], "ttStemsH": []})
    f.add(f.T.TrueTypeStemPPEMs1, {"ttStemsV": [{"stem": 0, "round": {1: 10}}], "ttStemsH": []})
    f.add(f.T.TrueTypeZoneDeltas, {0: {10: 1}})
    f.add(f.F.customdata, "font data")
    x, _ = node(h, "n", n, "move")
    f.glyph("a", [x, fixed_node("line", 9, 9, n), fixed_node("line", 70, 9, n)], [(c(f"w{m}"), 0) for m in range(n)],
            hints={"h": [[{"pos": 10, "width": c("hw")}] * n, [{"pos": 50, "width": 5}] * n], "v": [],
                   "hintmasks": [("h", 0), ("r", 1), ("h", 1)]},
            kerning={1: [c(f"k{m}") for m in range(n)]},
            guides={"h": [], "v": [[{"pos": c("vp"), "angle": 0.0}] * n]},
            components=[{"gid": 1, "offsetX": [c("ox")] * n, "offsetY": [0] * n, "scaleX": [1.0] * n, "scaleY": [1.0] * n}],
            tth=[{"cmd": "AlignTop", "params": {"pt": 1, "zone": 0}}])
    f.add(f.G.unicodes, [c("u")])
    f.add(f.G.Links, {"x": [], "y": []})
    f.add(f.G.mark, 85)
    f.add(f.G.note, "note")
    f.add(f.G.GDEFData, {"anchors": [{"name": "top", "x": c("ax"), "x1": -1, "y": 7, "y1": -1}]})
    if n > 1:
        f.add(f.G.AnchorsMM, [{"x": [c(f"amx{m}") for m in range(n)], "y": [0] * n}])
    f.add(f.G.GuideProperties, {"h": [], "v": [{"index": 1, "name": "v"}]})
    f.add(f.G.image, {"origin": (0, 0), "size_units": (1, 1), "size_pixels": (c("px"), 8), "bitmap": {"flag": 0, "data": ["00"], "preview": ["......"]}})
    f.add(f.G.mask, {"num_masters": n, "nodes": [fixed_node(k, i, 4 - i * i, n) for i, k in enumerate(("move", "line", "line"))]})
    f.glyph("b", [fixed_node("move", 0, 0, n), fixed_node("line", 8, 9, n), fixed_node("line", 70, 9, n)])
    f.glyph("b")
    if n > 1:
        f.add(f.F.AxisCount, 1)
        f.add(f.F.AxisName, "Weight")
        f.add(f.F.MasterCount, n)
    for m in range(n):
        f.add(f.M.PostScriptInfo, {"ascender": c(f"as{m}"), "blue_values": [1, 2, 3]})
    before = [copy(e.data) for e in f.v.entries]
    res = []
    for i in range(2):
        fonts = h.module("vfbLib.ufo.builder").VfbToUfoBuilder(f.v).get_ufo_masters(silent=True)
        for e, d in zip(f.v.entries, before):
            h.check_eq(e.data, d, f"entry {e.key} after the conversion")
        res.append([snapshot(u) for u in fonts])
    h.observe("result", [g["width"] for g in res[0][0]["glyphs"]])
    h.check_eq(len(res[0]), n, "number of masters")
    for k in res[0][0]:
        h.check_eq([r[k] for r in res[1]], [r[k] for r in res[0]], "second conversion: " + k)


HARNESSES = [
    Harness("glyphs", h_glyphs, [{"n": n} for n in (1, 2, 3)], thorough=[{"n": n} for n in (1, 2, 3, 4)], bounds="up to 3 glyphs (thorough: 4) with every combination of three names that may collide, every width and positive kerning value"),
    Harness("masters", h_masters, [{"axes": a, "named": k, "count": "yes"} for a, k in ((0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 0), (2, 3), (2, 4), (3, 0), (3, 8), (4, 0), (4, 16))]
            + [{"axes": 0, "named": 1, "count": c} for c in ("none", "zero")], bounds="0 to 4 axes (1 to 16 masters) with all, some and no master names; every coordinate and metric"),
    Harness("PostScript values", h_psinfo, [{"lists": [k], "info": 1} for k, _, _ in LISTS] + [{"lists": ["blue_values"], "info": 0}, {"lists": ["blue_values", "stem_snap_h"], "info": 1, "pshints": False}],
            bounds="two masters, every value; each list with each count that it can hold"),
    Harness("glyph data", h_glyph_data, [{"masters": n, "unicodes": u, "nonbmp": v, "anchors": a, "mm": mm} for n, u, v, a, mm in
                                          ((1, 0, 0, 0, 0), (1, 2, 0, 1, 0), (2, 1, 1, 2, 1), (4, 0, 2, 3, 1), (2, 2, 0, 2, 0))], bounds="up to 4 code points, 3 anchors, 4 masters; every value"),
    Harness("components", h_components, [{"masters": 1, "n": c, "names": 1} for c in (0, 1)] + [{"masters": m, "n": c, "scales": s} for m, c, s in ((1, 1, 0), (2, 1, 1), (2, 2, None), (4, 1, 2))] + [{"masters": 1, "n": 1, "scales": 0, "minimal": True}],
            bounds="up to 2 components of any of 4 glyphs (the one that has them, those before and after) whose names may collide; 1, 2 and 4 masters, every offset, scales in steps of 1/8"),
    Harness("masks", h_mask, [{"masters": n, "metrics": x} for n in (1, 2, 4) for x in (0, 1)], bounds="1, 2 and 4 masters, every coordinate and metric"),
    Harness("designspace", h_designspace, [{"axes": ["Weight"], "counts": [c], "instances": i} for c, i in ((0, 0), (1, 1), (3, 2), (10, 0))] +
            [{"axes": ["Weight"], "counts": None, "instances": 1}, {"axes": ["Serif", "Contrast"], "counts": [2, 3], "instances": 2, "order": [3, 1, 0, 2]},
             {"axes": ["Width", "Optical Size", "Weight"], "counts": [2, 0, 1], "instances": 1}],
            bounds="1 to 3 axes with up to 10 mappings each (two of them symbolic), up to 2 instances; locations in steps of 1/1024, user coordinates in steps of 1/2 and 1/4"),
    Harness("unchanged", h_unchanged, [{"masters": n} for n in (1, 2)], bounds="a font with one entry of most kinds, every value of 15 to 20 of its numbers"),
]
