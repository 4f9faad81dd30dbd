"""C17: PostScript hints: hints and links of a master, and hint replacement."""
import itertools

from sx.spec import Harness
from checks.common import *

PROPERTY = "C17"
EXTRA_PACKAGES = ("fontTools",)
PS = "com.adobe.type.autohint.v2"
POS = (-(1 << 28), (1 << 28) - 1)


def stem(h, name, masters):
    return [{"pos": h.int(f"{name}p{m}", *POS), "width": h.int(f"{name}w{m}", *POS)} for m in range(masters)]


def covers(h, got, d, pos, width):
    """`got` is a valid stem of the same edges; ghost hints are kept as they are"""
    h.check_eq(got[0], d + "stem", "direction")
    ghost = h.any([width == -20, width == -21])
    lo = h.ite(width < 0, pos + width, pos)
    wd = h.ite(width < 0, -width, width)
    h.check_eq(got[1], h.ite(ghost, pos, lo), "position")
    h.check_eq(got[2], h.ite(ghost, width, wd), "width")


def expected(h, hints, links, nodes, m):
    """(direction, position, width) of every hint and link of one master, in order"""
    out = {"h": [], "v": []}
    for d in "hv":
        for st in hints[d]:
            out[d].append((st[m]["pos"], st[m]["width"]))
        axis = 0 if d == "v" else 1
        for a, b in links["x" if d == "v" else "y"]:
            src = nodes[a]["points"][m][0][axis]
            if b == -1:
                out[d].append((src + 21, -21))
            elif b == -2:
                out[d].append((src, -20))
            else:
                tgt = nodes[b]["points"][m][0][axis]
                lo = h.ite(src < tgt, src, tgt)
                hi = h.ite(src < tgt, tgt, src)
                out[d].append((lo, hi - lo))
    return out


def h_normal(h):
    """a hint with negative width is the same stem from its other edge"""
    pos, width = h.int("pos", *POS), h.int("width", *POS)
    f = h.module("vfbLib.ufo.pshints").normalize_hint
    for d in "hv":
        covers(h, f((d + "stem", pos, width)), d, pos, width)


def setup(h, masters):
    hints = {d: [stem(h, f"{d}{i}", masters) for i in range(h.p[d])] for d in "hv"}
    nodes = [{"type": "move" if i == 0 else "line", "flags": 0,
              "points": [[(h.int(f"x{i}{m}", *POS), h.int(f"y{i}{m}", *POS))] for m in range(masters)]} for i in range(3)]
    links = {}
    for a in "xy":
        links[a] = list(h.p[a])
    return hints, nodes, links


def h_hints(h):
    """the hints of each master are those of this master, followed by its links"""
    n = h.p.get("masters", 2)
    hints, nodes, links = setup(h, n)
    U = h.module("vfbLib.ufo.glyph").VfbToUfoGlyph()
    U.mm_hints, U.mm_nodes, U.links = copy(hints), nodes, copy(links)
    for m in [h.p["only"]] if "only" in h.p else range(n):
        check_hints(h, h.module("vfbLib.ufo.pshints").get_master_hints(U, m), expected(h, hints, links, nodes, m))


def h_resolve(h):
    """the same for the hints that are read from a glyph of the VFB"""
    n = h.p.get("masters", 2)
    hints, nodes, links = setup(h, n)
    V = h.module("vfbLib.vfb.glyph")
    v = vfb(h, n)
    e = entry(h, v, ids(h).G.Glyph.value)
    e.data = {"name": "a", "num_masters": n, "nodes": nodes, "hints": copy(hints)}
    if not (hints["h"] or hints["v"]):
        del e.data["hints"]
    g = V.VfbGlyph(e, v)
    if links["x"] or links["y"] or h.p.get("entry"):
        g.links_entry = entry(h, v, ids(h).G.Links.value)
        g.links_entry.data = copy(links)
    for m in [h.p["only"]] if "only" in h.p else range(n):
        g.master_index = m
        want = expected(h, hints, links, nodes, m)
        check_hints(h, g.resolve_hints(), want)
        sets = g.resolve_hint_sets()
        h.check_eq(sorted(sets), [0], "one hint set")
        check_hints(h, {"h": sets[0][:len(want["h"])], "v": sets[0][len(want["h"]):]}, want)


def check_hints(h, got, want):
    h.check_eq(sorted(got), ["h", "v"], "directions")
    for d in "hv":
        h.check_eq(len(got[d]), len(want[d]), "number of hints")
        for g, (p, w) in zip(got[d], want[d]):
            covers(h, g, d, p, w)


def masks(h, kinds):
    out = []
    for i, k in enumerate(kinds):
        if k == "r":
            out.append(("r", h.pick(f"node{i}", -h.p.get("neg", 0), 2)))
        else:
            out.append((k, h.pick(f"hint{i}", 0, 2)))
    return out


H = {"h": [[{"pos": 0, "width": 20}, {"pos": 5, "width": 25}], [{"pos": 700, "width": -20}, {"pos": 710, "width": -21}]],
     "v": [[{"pos": 100, "width": -90}, {"pos": 90, "width": 10}], [{"pos": -50, "width": 80}, {"pos": -60, "width": 90}]]}
S = [{"h": ["hstem 0 20", "hstem 700 -20"], "v": ["vstem 10 90", "vstem -50 80"]},
     {"h": ["hstem 5 25", "hstem 710 -21"], "v": ["vstem 90 10", "vstem -60 90"]}]


def sets_of(mask, hints, last=True):
    """Node and members of the hint sets of a mask; the first set belongs to the
    first node. Sets without members do not count."""
    out = []
    node, cur = 0, []
    for k, i in mask:
        if k == "r":
            out.append((node, cur))
            node, cur = i if i >= 0 else -i - 1, []
        elif i < len(hints[k]):
            cur.append(hints[k][i])
    out.append((node, cur))
    return [(n, c) for n, c in out if c]


def h_replace(h):
    """every hint set is at the node where it starts, with the stems of the master"""
    mask = masks(h, h.p["mask"])
    P = h.module("vfbLib.ufo.paths")
    nodes = [{"type": "move" if i == 0 else "line", "flags": 0, "points": [[(10 * i, 5)], [(10 * i, 6)]]} for i in range(3)]
    g = h.module("vfbLib.ufo.glyph").VfbToUfoGlyph()
    g.name, g.mm_nodes, g.mm_metrics = "a", nodes, [(500, 0)] * 2
    g.mm_hints, g.hintmasks = copy(H), list(mask)
    for m in range(2):
        u = P.UfoMasterGlyph(g, ["a"], m)
        u.build(True, True)
        got = u.lib.get(PS, {}).get("hintSetList", [])
        h.observe(f"sets{m}", got)
        names = [p[2] for c in u.contours for p in c]
        got = {names.index(s["pointTag"]): s["stems"] for s in got}
        want = {}
        for n, c in sets_of(mask, S[m]):
            want[n] = c
        h.check_eq(sorted(got), sorted(want), "nodes of the hint sets")
        for n in want:
            h.check_eq(sorted(got[n]), sorted(set(want[n])), "stems of a hint set")


def h_replace_vfb(h):
    """the same for a glyph of the VFB"""
    mask = masks(h, h.p["mask"])
    V = h.module("vfbLib.vfb.glyph")
    v = vfb(h, 2)
    e = entry(h, v, ids(h).G.Glyph.value)
    e.data = {"name": "a", "num_masters": 2, "nodes": [], "hints": {**copy(H), "hintmasks": list(mask)}}
    g = V.VfbGlyph(e, v)
    for m in range(2):
        g.master_index = m
        got = g.resolve_hint_sets()
        h.observe(f"sets{m}", got)
        got = {n: [f"{a} {b} {c}" for a, b, c in s] for n, s in got.items()}
        want = {}
        for n, c in sets_of(mask, S[m]):
            want[n] = c
        h.check_eq(sorted(got), sorted(want), "nodes of the hint sets")
        for n in want:
            h.check_eq(got[n], want[n], "hints of a hint set")


def h_all(h):
    """without hint replacement, all stems are in one set at the first point"""
    hints, nodes, links = setup(h, 1)
    for d in "hv":
        for st in hints[d]:
            h.assume(h.all([st[0]["pos"] >= -99, st[0]["pos"] <= 999, st[0]["width"] >= -99, st[0]["width"] <= 99]))
    g = h.module("vfbLib.ufo.glyph").VfbToUfoGlyph()
    g.name, g.mm_nodes, g.mm_metrics = "a", nodes, [(500, 0)]
    g.mm_hints, g.links = copy(hints), copy(links)
    u = h.module("vfbLib.ufo.paths").UfoMasterGlyph(g, ["a"], 0)
    u.build(True, True)
    want = expected(h, hints, links, nodes, 0)
    sets = u.lib.get(PS, {}).get("hintSetList", [])
    if not (want["h"] or want["v"]):
        h.check_eq(sets, [], "no hints")
        return
    h.check_eq(len(sets), 1, "one hint set")
    h.check_eq(sets[0]["pointTag"], u.contours[0][0][2], "first point")
    h.observe("stems", sets[0]["stems"])
    stems = [parse(h, s) for s in sets[0]["stems"]]
    for d in "hv":
        for p, w in want[d]:
            ghost = h.any([w == -20, w == -21])
            neg = h.all([w < 0, h.not_(ghost)])
            e = (d + "stem", h.ite(neg, p + w, p), h.ite(neg, -w, w))
            h.check(h.any([h.same(s, e) for s in stems]), "every hint is in the set")
    h.check(len(stems) <= sum(len(x) for x in want.values()), "no other hints")


def parse(h, s):
    d, p, w = s.split(" ")
    return d, int_of(h, p), int_of(h, w)


def int_of(h, t):
    if not h.symbolic:
        return int(t)
    from sx.seqs import str_chars

    c = str_chars(t)
    sign = 1
    if c[0] == 45:
        sign, c = -1, c[1:]
    v = 0
    for x in c:
        v = v * 10 + (x - 48)
    return sign * v


ALL = [(a, b) for a in range(3) for b in range(-2, 3)]
GRID = ([{"h": a, "v": b, "x": (), "y": ()} for a, b in ((0, 0), (1, 0), (0, 1), (2, 1), (0, 2))]
        + [{"h": 0, "v": 0, "x": (l,), "y": ()} for l in ALL] + [{"h": 0, "v": 0, "x": (), "y": (l,)} for l in ALL]
        + [{"h": 1, "v": 1, "x": ((2, 1),), "y": ((0, -1),)}, {"h": 0, "v": 0, "x": ((0, 2), (1, 0)), "y": ()},
           {"h": 0, "v": 0, "x": ((1, -2),), "y": ((0, 1), (2, 0))}])
GRID += [{"h": 1, "v": 1, "x": ((2, 1),), "y": ((0, -1), (1, 0)), "masters": n, "only": m} for n in (1, 4, 8) for m in range(n)]
MASKS = ["".join(t) for n in range(1, 5) for t in itertools.product("hr", repeat=n)] + ["hvrhv", "hrvrh", "rhrvr", "vrhvrh"]

HARNESSES = [
    Harness("stem normal form", h_normal, bounds="every position and width"),
    Harness("hints and links", h_hints, GRID, bounds="up to 2 hints per direction, every link among 3 nodes alone and three sets of links, every coordinate, 2 masters; one set with each of 1, 4, and 8 masters"),
    Harness("hints of a VFB glyph", h_resolve, GRID + [{"h": 1, "v": 0, "x": (), "y": (), "entry": 1}],
            bounds="up to 2 hints per direction, every link among 3 nodes alone and three sets of links, every coordinate, 2 masters; one set with each of 1, 4, and 8 masters"),
    Harness("hint replacement", h_replace, [{"mask": m, "neg": n} for m in MASKS for n in ((0, 3) if m.count("r") == 1 else (0,))],
            bounds="every mask of 1 to 4 items (and 4 of up to 6) over 3 hints, one of them missing, and 3 nodes; 2 masters"),
    Harness("hint replacement of a VFB glyph", h_replace_vfb, [{"mask": m} for m in MASKS],
            bounds="every mask of 1 to 4 items (and 4 of up to 6) over 3 hints, one of them missing, and 3 nodes; 2 masters"),
    Harness("single hint set", h_all, [{"h": a, "v": b, "x": (), "y": ()} for a, b in ((0, 0), (1, 0), (0, 1))],
            thorough=[{"h": a, "v": b, "x": (), "y": ()} for a, b in ((0, 0), (1, 0), (0, 1), (1, 1))],
            bounds="one hint in either direction, positions from -99 to 999, widths from -99 to 99"),
]
