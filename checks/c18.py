"""C18: TrueType hinting of the UFO masters and of vfb2tth: points, zones, stems."""
import itertools

from sx.spec import Harness
from checks.common import *
from checks.ufo import Font
from checks.c15 import Pen

PROPERTY = "C18"
EXTRA_PACKAGES = ("fontTools",)
CODES = {"AlignBottom": "alignb", "AlignTop": "alignt", "AlignH": "alignh", "AlignV": "alignv", "SingleLinkH": "singleh",
         "SingleLinkV": "singlev", "DoubleLinkH": "doubleh", "DoubleLinkV": "doublev", "InterpolateH": "interpolateh",
         "InterpolateV": "interpolatev", "MDeltaH": "mdeltah", "MDeltaV": "mdeltav", "FDeltaH": "fdeltah", "FDeltaV": "fdeltav"}
ALIGN = {0: "round", 1: "left", 2: "right", 3: "center", 4: "double"}


def attributes(xml):
    """The commands of a glyph program: [{attribute: value}], read as XML"""
    head, tail = "  <ttProgram>\n", "\n  </ttProgram>\n"
    assert xml[:len(head)] == head and xml[-len(tail):] == tail, "program element"
    out = []
    s = xml[len(head):-len(tail)]
    i = 0
    while i < len(s):
        assert s[i:i + 8] == "    <ttc", "command element"
        i += 8
        d = {}
        while s[i] == " ":
            j = i + 1
            while s[j] != "=":
                j += 1
            key = s[i + 1:j]
            assert s[j + 1] == '"', "quote"
            i = j + 2
            val = ""
            while s[i] != '"':
                c = s[i]
                assert c != "<", "character in attribute"
                if c == "&":
                    k = i
                    while s[k] != ";":
                        k += 1
                    val = val + {"amp": "&", "lt": "<", "gt": ">", "quot": '"', "#x27": "'", "#39": "'", "apos": "'"}["" + s[i + 1:k]]
                    i = k + 1
                else:
                    val = val + c
                    i += 1
            assert key not in d, "attribute twice"
            d[key] = val
            i += 1
        assert s[i:i + 2] == "/>", "end of command"
        i += 2
        if i < len(s):
            assert s[i] == "\n", "line"
            i += 1
        out.append(d)
    return out


def square(n, base=0):
    return [{"type": "move" if i == 0 else "line", "flags": 0, "points": [[(base + 10 * i, 7 * i * i)]]} for i in range(n)]


def stems(h, f, widths, names, ppms, late=True):
    """stems with their rounding, V first as in the file"""
    F = f.T
    d = ("ttStemsV", "ttStemsH")
    data = {k: [{"value": w, "name": n, "round": {6: p[6]}} for w, n, p in zip(widths[k], names[k], ppms[k])] for k in d}
    if "2345" in h.p.get("ppems", "2345"):
        f.add(F.TrueTypeStemPPEMs, {k: [{"stem": i, "round": {x: p[x] for x in (2, 3, 4, 5)}} for i, p in enumerate(ppms[k])] for k in d})
    f.add(F.TrueTypeStems, data)
    if "1" in h.p.get("ppems", "1"):
        f.add(F.TrueTypeStemPPEMs1, {k: [{"stem": i, "round": {1: p[1]}} for i, p in enumerate(ppms[k])] for k in d})


def zones(h, f, z, deltas=None):
    f.add(f.T.TrueTypeZones, copy(z))
    if deltas:
        f.add(f.T.TrueTypeZoneDeltas, copy(deltas))


def lib_of(fonts):
    return fonts[0].lib.get("com.fontlab.v2.tth", {})


def h_stems(h):
    """every stem is in the lib under a name of its own, with width, direction and
    rounding; commands refer to the stem that they mean"""
    f = Font(h)
    names = {k: list(h.p[k]) for k in ("ttStemsV", "ttStemsH")}
    widths = {k: [h.int(f"w{k}{i}", *I16) for i in range(len(names[k]))] for k in names}
    ppms = {k: [{1: 90, 2: 80, 3: 70, 4: 60, 5: 50, 6: 40} for _ in names[k]] for k in names}
    stems(h, f, widths, names, ppms)
    d = h.p["dir"]
    k = "ttStems" + d
    which = h.pick("stem", -3, len(names[k]))
    f.glyph("a", square(3), tth=[{"cmd": c + d, "params": {"pt1": 0, "pt2": 2, "stem": which}} for c in ("SingleLink", "DoubleLink")])
    fonts, b = f.convert()
    lib = lib_of(fonts).get("stems", {})
    h.observe("stems", lib)
    order = [(kk, i) for kk in ("ttStemsH", "ttStemsV") for i in range(len(names[kk]))]
    h.check_eq(len(lib), len(order), "number of stems")
    for (kk, i), (name, st) in zip(order, lib.items()):
        want = names[kk][i]
        if want:
            h.check(name == want or name.startswith(want + "#"), "name of the stem")
        h.check_eq(st["width"], widths[kk][i], "width")
        h.check_eq(st["horizontal"], kk == "ttStemsV", "direction")
        h.check_eq(dict(st["round"]), {"90": 1, "80": 2, "70": 3, "60": 4, "50": 5, "40": 6}, "rounding")
    cmds = attributes(fonts[0]["a"].lib["com.fontlab.ttprogram"])
    h.check_eq(len(cmds), 2, "commands")
    for c in cmds:
        if which <= -2:
            h.check_eq(c.get("round"), "true", "rounded link")
            h.check("stem" not in c, "no stem")
        elif which == -1 or not names[k]:
            h.check("stem" not in c and "round" not in c, "no stem")
        else:
            i = which if which < len(names[k]) else 0
            h.check_eq(c["stem"], list(lib)[order.index((k, i))], "stem of the link")


def h_round(h):
    """from the rounding value of every pixel width to the widths at each ppem"""
    f = Font(h)
    p = {i: h.int(f"ppm{i}", 0, 999) for i in h.p["free"]}
    for i in range(1, 7):
        p.setdefault(i, 2000 + i)
    stems(h, f, {"ttStemsV": [80], "ttStemsH": []}, {"ttStemsV": ["x"], "ttStemsH": []}, {"ttStemsV": [p], "ttStemsH": []})
    if h.p["tool"] == "ufo":
        fonts, b = f.convert()
        got = lib_of(fonts)["stems"]["x"]["round"]
    else:
        f.add(f.T.TrueTypeZones, {"ttZonesT": [], "ttZonesB": []})
        got = h.module("vfbLib.tth").extract_truetype_hinting(f.v)["font"]["stems"]["x"]["round"]
    h.observe("round", got)
    got = [(k, v) for k, v in got.items()]
    for i in range(1, 7):
        best = h.all([h.not_(p[j] == p[i]) for j in range(i + 1, 7)])
        mine = [v for k, v in got if k == str(p[i])]
        h.check_eq(len(mine), 1, "each ppem is once there")
        h.check(h.any([h.not_(best), mine[0] == i]), "the biggest width for a ppem")
    h.check(len(got) <= 6, "no other ppems")


def h_zones(h):
    """every zone is in the lib under a name of its own, with position, width, side and
    deltas; commands refer to the zone that they mean"""
    f = Font(h)
    names = {"ttZonesT": list(h.p["T"]), "ttZonesB": list(h.p["B"])}
    z = {k: [{"position": h.int(f"p{k}{i}", *I16), "value": h.int(f"w{k}{i}", *I16), "name": n} for i, n in enumerate(v)] for k, v in names.items()}
    order = [("ttZonesB", i) for i in range(len(names["ttZonesB"]))] + [("ttZonesT", i) for i in range(len(names["ttZonesT"]))]
    deltas = {}
    for i in h.p["deltas"]:
        deltas[i] = {h.int(f"ppm{i}", 10, 99): h.int(f"d{i}", -8, 8), 9: h.int(f"e{i}", -8, 8)}
    zones(h, f, z, deltas)
    side = h.p["side"]
    k = "ttZones" + side[0]
    which = h.pick("zone", 0, len(names[k]) - 1)
    f.glyph("a", square(3), tth=[{"cmd": "Align" + side, "params": {"pt": 1, "zone": which}}])
    if h.p["tool"] == "ufo":
        fonts, b = f.convert()
        lib = lib_of(fonts)["zones"]
        ref = attributes(fonts[0]["a"].lib["com.fontlab.ttprogram"])[0]["zone"]
        dk = "delta"
    else:
        d = h.module("vfbLib.tth").extract_truetype_hinting(f.v)
        lib = d["font"]["zones"]
        h.check_eq(d["glyphs"]["a"][0]["point"], 1, "point")
        ref = d["glyphs"]["a"][0]["zone"]
        dk = "deltas"
        h.check("zone_deltas" not in d["font"], "deltas belong to the zones")
    h.observe("zones", lib)
    h.check_eq(len(lib), len(order), "number of zones")
    byname = {}
    left = dict(lib)
    for j, (kk, i) in enumerate(order):
        # names may be extended, the zones are identified by position in the lib
        src = z[kk][i]
        name, got = list(lib.items())[j]
        h.check(name == src["name"] or name.startswith(src["name"] + "#"), "name of the zone")
        h.check_eq(got["position"], src["position"], "position")
        h.check_eq(got["width"], src["value"], "width")
        h.check_eq(got["top"], kk == "ttZonesT", "side")
        want = {str(a): v for a, v in deltas.get(j, {}).items()}
        h.check_eq(dict(got.get(dk, {})), want, "deltas")
        if (kk, i) == (k, which):
            h.check_eq(ref, name, "zone of the command")


def command(h, code, i, n):
    """One command with arbitrary parameters"""
    p = {}
    lo, hi = (-2, 6) if len(h.p["cmds"]) == 1 else (-1, 1)
    if code.startswith("Align") and code[5] in "BT":
        p = {"pt": h.pick(f"pt{i}", 0, n), "zone": h.pick(f"zone{i}", 0, 1)}
    elif code.startswith("Align"):
        p = {"pt": h.pick(f"pt{i}", 0, n), "align": h.pick(f"align{i}", lo, hi)}
    elif "Link" in code:
        p = {"pt1": h.pick(f"pt1{i}", 0, 1), "pt2": h.pick(f"pt2{i}", 0, n), "stem": -1}
        if code[0] == "S":
            p["align"] = h.pick(f"align{i}", lo, hi)
    elif code.startswith("Inter"):
        p = {"pti": h.pick(f"pti{i}", 0, n), "pt1": 0, "pt2": h.pick(f"pt2{i}", 0, 2), "align": h.pick(f"align{i}", -1, 2)}
    else:
        p = {"pt": h.pick(f"pt{i}", 0, n), "shift": h.int(f"shift{i}", -8, 8), "ppm1": h.int(f"ppm1{i}", 0, 99), "ppm2": h.int(f"ppm2{i}", 10, 99)}
    return {"cmd": code, "params": p}


def check_command(h, got, cmd, point, zone_names):
    p = cmd["params"]
    want = {"code": CODES[cmd["cmd"]]}
    for a, b in (("pt", "point"), ("pti", "point"), ("pt1", "point1"), ("pt2", "point2")):
        if a in p:
            want[b] = point(p[a])
    if "zone" in p:
        want["zone"] = zone_names[p["zone"]]
    if p.get("align", -1) > -1:
        want["align"] = ALIGN.get(p["align"], "round")
    for a, b in (("shift", "delta"), ("ppm1", "ppm1"), ("ppm2", "ppm2")):
        if a in p:
            want[b] = p[a]
    h.check_eq(sorted(got), sorted(want), "attributes of the command")
    for k, v in want.items():
        h.check_eq(got[k], v if isinstance(v, str) or h.p["tool"] == "tth" else str(v), "attribute " + k)


ZN = {"ttZonesT": [{"position": 500, "value": 10, "name": "x"}, {"position": 700, "value": 10, "name": "cap"}],
      "ttZonesB": [{"position": 0, "value": 10, "name": "base"}, {"position": -200, "value": 10, "name": "desc"}]}


def h_commands(h):
    """every command with its parameters, in order"""
    f = Font(h)
    zones(h, f, ZN, {0: {9: 1}})
    cmds = [command(h, c, i, h.p["points"]) for i, c in enumerate(h.p["cmds"])]
    nodes = square(3)
    f.glyph("a", nodes, tth=copy(cmds))
    zn = lambda c: ["base", "desc"] if c["cmd"] == "AlignBottom" else ["x", "cap"]
    if h.p["tool"] == "tth":
        got = h.module("vfbLib.tth").extract_truetype_hinting(f.v)["glyphs"]["a"]
        h.observe("commands", got)
        h.check_eq(len(got), len(cmds), "number of commands")
        for g, c in zip(got, cmds):
            check_command(h, g, c, lambda i: i, zn(c))
        return
    fonts, b = f.convert()
    got = attributes(fonts[0]["a"].lib["com.fontlab.ttprogram"])
    h.observe("commands", fonts[0]["a"].lib["com.fontlab.ttprogram"])
    h.check_eq(len(got), len(cmds), "number of commands")
    pen = Pen()
    fonts[0]["a"].drawPoints(pen)
    labels = {nodes.index(x): p[2] for c in pen.contours for p in c for x in nodes if x["points"][0][0] == tuple(p[3])}
    used = [x for x in labels.values() if x is not None]
    h.check_eq(len(set(used)), len(used), "labels are unique")
    h.check("lsb" not in used and "rsb" not in used, "labels of side bearings")
    labels[3], labels[4] = "lsb", "rsb"
    for g, c in zip(got, cmds):
        check_command(h, g, c, lambda i: labels[i], zn(c))


def h_composite(h):
    """points of composites are points of their components"""
    f = Font(h)
    f.glyph("a", square(2), tth=[{"cmd": "AlignH", "params": {"pt": 1}}])
    f.glyph("c", [], components=[{"gid": g, "offsetX": [0], "offsetY": [0], "scaleX": [1.0], "scaleY": [1.0]} for g in (0, 2, 0)],
            tth=[{"cmd": "AlignV", "params": {"pt": h.pick(f"pt{i}", 0, 8)}} for i in range(h.p["n"])])
    f.glyph("b", square(3, 100), tth=[{"cmd": "AlignH", "params": {"pt": 0}}])
    picked = [c["params"]["pt"] for c in f.v.entries[1].data["tth"]]
    fonts, b = f.convert()
    got = [c["point"] for c in attributes(fonts[0]["c"].lib["com.fontlab.ttprogram"])]
    h.observe("points", got)
    labels = {}
    for n in "ab":
        pen = Pen()
        fonts[0][n].drawPoints(pen)
        labels[n] = [p[2] for c in pen.contours for p in c]
    where = [("a", 0, 0), ("a", 1, 0), ("b", 0, 1), ("b", 1, 1), ("b", 2, 1), ("a", 0, 2), ("a", 1, 2)]
    for g, i in zip(got, picked):
        if i < 7:
            n, j, k = where[i]
            h.check_eq(g, f"{labels[n][j]}-{k}", "point of the component")
        else:
            h.check_eq(g, ["lsb", "rsb"][i - 7], "side bearing")


def h_names(h):
    """names of stems and zones of any characters are kept in the programs"""
    f = Font(h)
    chars = [(34, 34), (38, 39), (60, 60), (62, 62), (97, 97)]
    zn, sn = h.text("zone", h.p["n"], ranges=chars), h.text("stem", h.p["n"], ranges=chars)
    zones(h, f, {"ttZonesT": [{"position": 1, "value": 2, "name": zn}], "ttZonesB": []})
    stems(h, f, {"ttStemsV": [], "ttStemsH": [80]}, {"ttStemsV": [], "ttStemsH": [sn]}, {"ttStemsV": [], "ttStemsH": [{1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 6}]})
    f.glyph("a", square(3), tth=[{"cmd": "AlignTop", "params": {"pt": 1, "zone": 0}}, {"cmd": "SingleLinkH", "params": {"pt1": 0, "pt2": 2, "stem": 0}}])
    fonts, b = f.convert()
    h.observe("program", fonts[0]["a"].lib["com.fontlab.ttprogram"])
    got = attributes(fonts[0]["a"].lib["com.fontlab.ttprogram"])
    h.check_eq(got[0]["zone"], zn, "name of the zone")
    h.check_eq(got[1]["stem"], sn, "name of the stem")
    h.check_eq(list(lib_of(fonts)["zones"]), [zn], "zone")
    h.check_eq(list(lib_of(fonts)["stems"]), [sn], "stem")


def h_export_stems(h):
    """vfb2tth: stems with names of their own, width and direction; commands refer to them"""
    f = Font(h)
    names = {k: list(h.p[k]) for k in ("ttStemsV", "ttStemsH")}
    widths = {k: [h.int(f"w{k}{i}", *I16) for i in range(len(names[k]))] for k in names}
    ppms = {k: [{1: 90, 2: 80, 3: 70, 4: 60, 5: 50, 6: 40} for _ in names[k]] for k in names}
    if h.p.get("stems", 1):
        stems(h, f, widths, names, ppms)
    d = h.p["dir"]
    k = "ttStems" + d
    which = h.pick("stem", -2, len(names[k]))
    f.glyph("a", square(3), tth=[{"cmd": "SingleLink" + d, "params": {"pt1": 0, "pt2": 2, "stem": which}}])
    stops = {}
    for n in ("stemsnaplimit", "zoneppm", "codeppm"):
        stops[n] = h.int(n, *I16)
        f.add(getattr(f.T, n), stops[n])
    g = [{"maxPpem": 8 * i + 8, "flags": h.int(f"gasp{i}", *U16)} for i in range(2)]
    f.add(f.T.gasp, g)
    got = h.module("vfbLib.tth").extract_truetype_hinting(f.v)
    h.observe("hinting", got)
    font = got["font"]
    for n in stops:
        h.check_eq(font[n], stops[n], n)
    h.check_eq(font["gasp"], {"8": g[0]["flags"], "16": g[1]["flags"]}, "gasp")
    order = [(kk, i) for kk in ("ttStemsV", "ttStemsH") for i in range(len(names[kk]))]
    lib = font.get("stems", {})
    h.check_eq(len(lib), len(order), "number of stems")
    for (kk, i), (name, st) in zip(order, lib.items()):
        h.check(name == names[kk][i] or name.startswith(names[kk][i] + "#"), "name of the stem")
        h.check_eq(st["width"], widths[kk][i], "width")
        h.check_eq(st["horizontal"], kk == "ttStemsV", "direction")
        want = {"40": 6}
        if "2345" in h.p.get("ppems", "2345"):
            want.update({"80": 2, "70": 3, "60": 4, "50": 5})
        if "1" in h.p.get("ppems", "1"):
            want["90"] = 1
        h.check_eq(dict(st["round"]), want, "rounding")
    c = got["glyphs"]["a"][0]
    if which <= -2:
        h.check_eq(c.get("round"), True, "rounded link")
    if which < 0 or not names[k]:
        h.check("stem" not in c, "no stem")
    else:
        i = which if which < len(names[k]) else 0
        h.check_eq(c["stem"], list(lib)[order.index((k, i))], "stem of the link")


STEMS = [{"ttStemsV": v, "ttStemsH": u, "dir": d} for v, u in ((("a", "b"), ("c",)), (("a", "a", "a"), ("a",)), (("", ""), ("", "x")), (("h00", ""), ("",)), ((), ("q",)), ((), ())) for d in "HV"]
ZONES = [{"T": t, "B": b, "deltas": d, "side": s} for t, b, d in ((("x", "y"), ("z",), (0, 2)), (("x", "x", "x"), ("x",), (1, 3)), (("", ""), ("", ""), (0, 3)))
         for s in ("Top", "Bottom")]
ONE = [[c] for c in CODES]
TWO = [["AlignBottom", "SingleLinkV"], ["AlignTop", "AlignH"], ["MDeltaV", "InterpolateH"], ["AlignH", "AlignH", "AlignV"]]

HARNESSES = [
    Harness("stems", h_stems, STEMS, bounds="6 layouts of up to 4 stems, with and without names, every width, every stem index"),
    Harness("stem rounding", h_round,
            [{"free": x, "tool": t} for t in ("ufo", "tth") for x in ((2, 3, 4), (4, 5, 6), (1, 2, 6), (1, 5, 6))],
            thorough=[{"free": x, "tool": t} for t in ("ufo", "tth") for x in itertools.combinations(range(1, 7), 4)],
            bounds="any three of the six rounding values from 0 to 999, with any coincidences"),
    Harness("zones", h_zones, [{**z, "tool": t} for z in ZONES for t in ("ufo", "tth")],
            bounds="3 layouts of up to 4 zones, with and without names, every position and width, deltas for two zones"),
    Harness("commands", h_commands, [{"cmds": c, "points": 4 if t == "ufo" else 3, "tool": t} for c in ONE for t in ("ufo", "tth")]
            + [{"cmds": c, "points": 2, "tool": "ufo"} for c in TWO],
            bounds="every command with every point of a contour of 3, alignment and zone; deltas with every shift and ppem up to 99; some pairs"),
    Harness("composites", h_composite, [{"n": n} for n in (1, 2)], bounds="a composite of 3 components, every point, up to 2 commands"),
    Harness("names", h_names, [{"n": n} for n in (1, 2)], bounds="names of up to 2 characters that need escaping"),
    Harness("export of stems", h_export_stems, STEMS + [{**STEMS[0], "ppems": p} for p in ("", "1", "2345")] + [{**STEMS[-1], "stems": 0}],
            bounds="6 layouts of up to 4 stems, with and without names and rounding values, every width, stop and gasp flag"),
]
