"""C16: kerning and glyph classes of the UFO masters mean the same as in the VFB."""
import itertools

from sx.spec import Harness
from checks.common import *
from checks.ufo import Font

PROPERTY = "C16"
EXTRA_PACKAGES = ("fontTools",)
KERN = (-(1 << 24), 1 << 24)
FIRST, SECOND = 1 << 10, 1 << 11
GLYPHS = "abcdx"


def pair_values(h, pairs, masters):
    return {p: [h.int(f"k{p[0]}{p[1]}{m}", *KERN) for m in range(masters)] for p in pairs}


def build(h, pairs, masters, classes, flags):
    f = Font(h, masters)
    for n in GLYPHS:
        k = {GLYPHS.index(r): list(v) for (l, r), v in pairs.items() if l == n}
        f.glyph(n, **({"kerning": k} if k else {}))
    for name, text_ in classes.items():
        f.add(f.F.GlyphClass, f"{name}: {text_}")
    f.add(f.F.KerningClassFlags, {n: (x, 0) for n, x in flags.items()})
    return f


def vfb_value(h, pairs, sides, l, r, m):
    """What the VFB says for a pair of glyphs: the kerning of a key glyph is that of
    its class, other pairs of class members are exceptions."""
    def key(side, g):
        return sides[side].get(g)

    kl, kr = key(0, l), key(1, r)
    cand = []
    if kl != l and kr != r:
        cand.append((l, r))
    if kl != l and kr is not None:
        cand.append((l, kr))
    if kl is not None and kr != r:
        cand.append((kl, r))
    if kl is not None and kr is not None:
        cand.append((kl, kr))
    for c in cand:
        if c in pairs:
            return pairs[c][m]
    return 0


def ufo_value(font, l, r):
    """The lookup rules of the UFO specification"""
    def group(side, g):
        return [n for n, members in font.groups.items() if n.startswith(f"public.kern{side}.") and g in members]

    g1, g2 = group(1, l), group(2, r)
    assert len(g1) < 2 and len(g2) < 2, "a glyph is in one kerning group per side"
    for a, b in itertools.product([l] + g1, [r] + g2):
        if (a, b) in font.kerning:
            return font.kerning[a, b]
    return 0


def h_kerning(h):
    masters = h.p.get("masters", 1)
    pairs = pair_values(h, [tuple(p) for p in h.p["pairs"]], masters)
    flags = {n: h.int("flags" + n, *U32) for n in h.p["classes"]}
    fonts, b = build(h, pairs, masters, h.p["classes"], flags).convert()
    sides = [{}, {}]
    for n, t in h.p["classes"].items():
        members = [g.strip("'") for g in t.split()]
        key = [g.strip("'") for g in t.split() if g.endswith("'")]
        for s, bit in ((0, FIRST), (1, SECOND)) if n.startswith("_") else ():
            if flags[n] & bit:
                for g in members:
                    sides[s][g] = key[0] if key else None
    for m in range(masters):
        h.observe(f"kerning{m}", dict(fonts[m].kerning))
        for l in GLYPHS:
            for r in GLYPHS:
                h.check_eq(ufo_value(fonts[m], l, r), vfb_value(h, pairs, sides, l, r, m), f"kerning of {l} and {r}")


def h_classes(h):
    """every class with its members, once per side for kerning classes, in order"""
    fl = {n: h.int("flags" + n, *U32) for n in h.p["classes"] if n.startswith("_")}
    f = build(h, {}, 1, h.p["classes"], fl)
    move, kern, minimal = h.p["move"], h.p["kern"], h.p.get("minimal", False)
    fonts, b = f.convert(move_groups=move, add_kerning_groups=kern, minimal=minimal)
    font = fonts[0]
    want, keys = {}, {}
    for n, t in h.p["classes"].items():
        gs = [g.strip("'") for g in t.split() if g.endswith("'")] + [g for g in t.split() if not g.endswith("'")]
        there = [g for g in gs if g in GLYPHS]
        if minimal:
            if gs and not there:
                continue
            gs = there
        names = [n]
        if n.startswith("_"):
            names = [f"public.kern{s}.{n}" for s, bit in ((1, FIRST), (2, SECOND)) if fl[n] & bit]
        for x in names:
            want[x] = gs
            k = [g.strip("'") for g in t.split() if g.endswith("'")]
            if k and k[0] in GLYPHS:
                keys[x] = k[0]
    h.observe("groups", dict(font.groups))
    h.observe("features", font.features.text)
    fea = []
    for n, gs in want.items():
        moved = kern if n.startswith("public.kern") else False if n.startswith(".") else move
        if moved:
            fea.append(f"@{n} = [{' '.join(gs)}];")
        if moved and move and not n.startswith("public.kern"):
            h.check(n not in font.groups, "class in the feature code only")
        elif gs:
            h.check_eq(sorted(font.groups[n]), sorted(gs), "members of a class")
    h.check_eq(sorted(n for n, gs in font.groups.items() if gs),
               sorted(n for n, gs in want.items() if gs and not (move and not n.startswith("public.kern") and not n.startswith("."))), "classes")
    h.check_eq(sorted(font.features.text.split("\n")), sorted(fea + [""]), "classes in the feature code")
    h.check_eq(font.lib.get("public.groupOrder", []), list(want), "order of the classes")
    got = font.lib.get("com.lucasfonts.vfblib.groupKeyGlyphs", {})
    for x in keys:
        h.check_eq(got.get(x), keys[x], "key glyph")


def h_definition(h):
    """any class definition: members are what is between the spaces"""
    n = h.p["n"]
    t = h.text("t", n, ranges=[(32, 32), (97, 98), (58, 58)][:3 if h.p["colon"] else 2])
    f = Font(h)
    f.glyph("a")
    f.add(f.F.GlyphClass, "_x" + t if h.p["raw"] else "x: " + t)
    f.add(f.F.GlyphClass, "y: a")
    fonts, b = f.convert(move_groups=False)
    g = fonts[0].groups
    h.observe("groups", dict(g))
    h.check_eq(g["y"], ["a"], "other classes")
    if not h.p["raw"]:
        want = []
        cur = ""
        for c in t:
            if c == " ":
                if cur != "":
                    want.append(cur)
                cur = ""
            else:
                cur = cur + c
        if cur != "":
            want.append(cur)
        h.check_eq(list(g["x"]), want, "members")


def h_master_kerning(h):
    """kerning of every master is its own, and the VFB data stays as it was"""
    masters = h.p["masters"]
    pairs = pair_values(h, [("a", "b"), ("b", "a")], masters)
    fonts, b = build(h, pairs, masters, {}, {}).convert()
    h.check_eq(len(fonts), masters, "number of masters")
    for m in range(masters):
        for (l, r), v in pairs.items():
            h.check_eq(ufo_value(fonts[m], l, r), v[m], "value of the master")


C1 = {"_A": "a' b", "_C": "c' d"}
C2 = {"_A": "b a'", "_C": "d c'", ".m": "a b", "ot": "c d"}
C3 = {"_A": "a b' c"}
C4 = {"_A": "a b", "_C": "c' d"}
C5 = {"_1": "a' b x'", "_2": "c"}
K1 = [("a", "c"), ("b", "c"), ("a", "d"), ("b", "d")]
SUB = [[("a", "c")], [("a", "c"), ("b", "d")], [("a", "c"), ("b", "c")], [("a", "c"), ("a", "d")], [("b", "d")], [("a", "a"), ("b", "a"), ("x", "a"), ("x", "b")], K1]

HARNESSES = [
    Harness("kerning", h_kerning,
            [{"classes": c, "pairs": s} for c in (C1, C2, C3) for s in SUB] + [{"classes": C4, "pairs": s} for s in SUB[2:4]]
            + [{"classes": C5, "pairs": [("a", "c"), ("x", "c"), ("b", "c")]}, {"classes": {}, "pairs": K1}, {"classes": C1, "pairs": K1[:2], "masters": 2}],
            bounds="up to 4 pairs among 5 glyphs, four sets of up to two kerning classes, every value and every class flag, 2 masters once"),
    Harness("classes", h_classes,
            [{"classes": c, "move": m, "kern": k} for c in (C1, C2, {"ot": "a z", "_A": "z' a", "_B": "q", "_E": "", "e": ""}) for m in (False, True) for k in (False, True)]
            + [{"classes": {"ot": "a z", "_A": "z' a", "_B": "q", "p": "r s", "ok": "b"}, "move": m, "kern": k, "minimal": True} for m in (False, True) for k in (False, True)],
            bounds="up to 5 classes of all kinds, with missing glyphs and without, every class flag, all options"),
    Harness("class definitions", h_definition, [{"n": n, "raw": r, "colon": c} for n in (0, 1, 3) for r, c in ((0, 0), (1, 0), (1, 1))] + [{"n": 5, "raw": 0, "colon": 0}],
            bounds="definitions with up to 5 characters of letters, spaces and (3) colons"),
    Harness("masters", h_master_kerning, [{"masters": n} for n in (1, 2, 4)], bounds="1, 2 and 4 masters, every value"),
]
