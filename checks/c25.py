"""C25: imported TrueType data, limits, bitmaps and feature code mean the same in the UFO.

The fonts are built entry by entry and converted; programs are assembled again, values are
compared for every number, feature code is compared line by line."""
from sx.spec import Harness
from checks.common import *
from checks.ufo import Font

PROPERTY = "C25"
EXTRA_PACKAGES = ("fontTools",)
TT = "public.truetype.instructions"


def binary(h, f, eid, data):
    """An entry as it is read from a file"""
    e = f.add(eid, data)
    e.decompile()
    return e


def h_cvt(h):
    """the control values, in order, as signed numbers"""
    f = Font(h)
    vals = [h.int(f"v{i}", *I16) for i in range(h.p["n"])]
    binary(h, f, f.T.cvt, Enc(h).i16(*vals).get())
    f.glyph("A")
    fonts, _ = f.convert()
    got = fonts[0].lib.get(TT, {}).get("controlValue", {})
    h.observe("cvt", got)
    h.check_eq(got, {str(i): v for i, v in enumerate(vals)}, "control values")


# instructions that end or begin blocks, take values, or have none or several flag bits
OPS = [0x00, 0x58, 0x1B, 0x59, 0x2C, 0x2D, 0x89, 0x21, 0xC3, 0x91, 0xFF]


def program(h, n):
    """A program (bytes) and the number of instructions without values"""
    b = b""
    for i in range(n):
        op = h.choice(f"op{i}", OPS + ["b", "w", "nb", "nw"])
        if op == "b":
            b += bytes([0xB1, 7, h.choice(f"value{i}", [0, 0x59, 255])])
        elif op == "w":
            b += bytes([0xB8]) + h.choice(f"value{i}", [b"\x00\x00", b"\x80\x00", b"\xff\xff", b"\x59\x59"])
        elif op == "nb":
            b += bytes([0x40, 2, 0x58, 9])
        elif op == "nw":
            b += bytes([0x41, 1, 0xFF, 0x2C])
        else:
            b += bytes([op])
    return b


def assemble(text):
    from fontTools.ttLib.tables.ttProgram import Program

    p = Program()
    p.fromAssembly([str(x) for x in text.splitlines()])
    return p.getBytecode()


def h_programs(h):
    """assembling the programs gives the bytes that were imported"""
    f = Font(h)
    b = program(h, h.p["n"])
    other = bytes([0x2C, 0x2D])
    where = h.p["where"]
    if where == "glyph":
        e = f.glyph("A", imported={"width": 1, "lsb": 0, "unknown1": 0, "unknown2": 0, "unknown3": 0, "bbox": [0] * 4, "num_contours": 0, "endpoints": [], "nodes": [],
                                   "instructions": []}, num_masters=1)
        from fontTools.ttLib.tables.ttProgram import Program

        p = Program()
        p.fromBytecode(b)
        e.data["imported"]["instructions"] = p.getAssembly()
        e.compile()
        e.decompile()
    else:
        binary(h, f, f.T.fpgm, b if where == "fpgm" else other)
        binary(h, f, f.T.prep, b if where == "prep" else other)
        f.glyph("A")
    fonts, _ = f.convert()
    lib = fonts[0].lib.get(TT, {})
    if where == "glyph":
        got = fonts[0]["A"].lib.get(TT)
        if not b:
            h.check(got is None, "no program")
            return
        h.check(bool(got["id"]), "identification of the outline")
        h.check_eq(got["formatVersion"], "1", "format")
        asm = got["assembly"]
    else:
        asm = lib["fontProgram" if where == "fpgm" else "controlValueProgram"]
        h.check_eq(assemble(lib["controlValueProgram" if where == "fpgm" else "fontProgram"]), other, "the other program")
        h.check_eq(lib["formatVersion"], "1", "format")
    h.observe("program", asm)
    h.check_eq(assemble(asm), b, "program")


def h_limits(h):
    """limits in pixels: what a reader of the UFO gets is what the font has"""
    f = Font(h)
    defaults = {"stemsnaplimit": 68, "zoneppm": 48, "codeppm": None, "dropoutppm": 255}
    want = {}
    for k in defaults:
        if h.bool("has " + k):
            want[k] = h.int(k, 0, 0x7FFF)
            binary(h, f, getattr(f.T, k), Enc(h).u16(want[k]).get())
    f.glyph("A")
    fonts, _ = f.convert()
    got = fonts[0].lib.get(LIB_KEY(h), {})
    h.observe("limits", got)
    for k, d in defaults.items():
        if k in want:
            h.check_eq(got.get(k, d), want[k], k)
        else:
            h.check(k not in got, "no value for " + k)


def LIB_KEY(h):
    return h.module("vfbLib.ufo.builder").TT_LIB_KEY


def h_bitmaps(h):
    """bitmaps of a glyph: all rows, from top to bottom, and the metrics"""
    f = Font(h)
    f.glyph("B")
    data, n = [], h.p["n"]
    for i in range(n):
        rows = [h.int(f"r{i}{j}", 0, 255) for j in range(3)]
        data.append({"ppm": h.int(f"ppm{i}", *I16), "origin": (h.int(f"ox{i}", *I16), h.int(f"oy{i}", *I16)),
                     "adv": (h.int(f"ax{i}", *I16), h.int(f"ay{i}", *I16)), "size_pixels": (8, 3), "bitmap": {"data": list(rows)}})
    f.glyph("A")
    e = f.add(f.G.Bitmaps, copy(data))
    fonts, _ = f.convert()
    got = fonts[0]["A"].lib["com.fontlab.v5.bitmaps"]
    h.observe("bitmaps", got)
    h.check("com.fontlab.v5.bitmaps" not in fonts[0]["B"].lib, "other glyph")
    h.check_eq(len(got), n, "number of bitmaps")
    for d, g in zip(data, got):
        h.check_eq(list(g["imageData"]), d["bitmap"]["data"][::-1], "rows")
        h.check_eq((g["width"], g["height"]), (8, 3), "size")
        h.check_eq((g["ppemX"], g["ppemY"]), (d["ppm"], d["ppm"]), "size in pixels per em")
        h.check_eq((g["horiAdvance"], g["vertAdvance"]), d["adv"], "advance")
        h.check_eq((g["horiBearingX"], g["horiBearingY"]), (d["origin"][0], d["origin"][1] + 3), "bearing")
    h.check_eq(e.data, data, "the VFB is unchanged")


CLASSES = {"@_a": ("@public.kern1._a", "@public.kern2._a"), "@b": ("@b", "@b"), "c": ("c", "c"), "[c @_d]": None, "@_": ("@public.kern1._", "@public.kern2._")}


def h_kern_rules(h):
    """references to kerning classes in rules get the names of the UFO groups; all else is kept"""
    lines, want = [], []
    for i in range(h.p["n"]):
        kind = h.choice(f"kind{i}", ["pos", "other", "comment", "comments", "cut", "short", "feature"])
        if kind == "pos":
            indent = h.choice(f"indent{i}", ["", "  ", "\t"])
            enum = h.choice(f"enum{i}", ["", "enum "])
            left, right = h.choice(f"left{i}", [k for k in CLASSES if CLASSES[k]]), h.choice(f"right{i}", [k for k in CLASSES if CLASSES[k]])
            value = h.choice(f"value{i}", ["-5;", "<0 0 3 0>;", "10 ; pos x y 3;"])
            comment = h.choice(f"comment{i}", ["", " # @_a pos @_a c 5;", "#x#y", "# pos @_a @_a 5; # pos c @_a 1;#"])
            lines.append(f"{indent}{enum}pos {left} {right} {value}{comment}")
            want.append(f"{indent}{enum}pos {CLASSES[left][0]} {CLASSES[right][1]} {value}{comment}")
        else:
            lines.append({"other": "  sub @_a by b;", "comment": "# pos @_a @_b 5;", "comments": "  # pos @_a @_b 5; # pos @_a @_b 6; # x", "cut": "  pos @b # @_a @_b 5; # pos @_a @_a 5;", "short": "pos @b#@_a 5 # 1", "feature": "feature kern {"}[kind])
            want.append(lines[-1])
    f = Font(h)
    e = f.add(f.F.features, list(lines))
    f.glyph("A")
    fonts, _ = f.convert()
    got = fonts[0].features.text
    h.observe("features", got)
    # (after the groups)
    h.check_eq(got.splitlines()[-len(want):], want, "feature code")
    h.check(not any(x.strip() for x in got.splitlines()[:-len(want)]), "other code")
    h.check_eq(e.data, lines, "the VFB is unchanged")


def h_features(h):
    """feature code that is taken apart has all lines, in order, under the right tags"""
    kinds = {"prefix": "@a = [a];", "kern": "feature kern {", "ss01": "  feature ss01{ # 1", "comment": "# feature liga {", "rule": "  sub a by b;", "empty": "", "end": "} kern; # feature"}
    got = [h.choice(f"line{i}", list(kinds)) for i in range(h.p["n"])]
    lines = [kinds[k] for k in got]
    d = h.module("vfbLib.parsers.text").OpenTypeStringParser.build_fea_dict(list(lines))
    h.observe("dict", d)
    h.check_eq(d["prefix"] + [x for f in d["features"] for x in f["code"]], lines, "lines")
    h.check_eq([f["tag"] for f in d["features"]], [k for k in got if k in ("kern", "ss01")], "tags")
    for f in d["features"]:
        h.check("feature " + f["tag"] in f["code"][0], "first line")


HARNESSES = [
    Harness("control values", h_cvt, [{"n": n} for n in (0, 1, 2, 5)], thorough=[{"n": 20}], bounds="up to 5 (20) values of 16 bits"),
    Harness("programs", h_programs, [{"n": n, "where": w} for n in (0, 1, 2) for w in ("fpgm", "prep", "glyph")], thorough=[{"n": 3, "where": w} for w in ("fpgm", "prep", "glyph")],
            bounds="every program of up to 2 (3) of 15 instructions, with several values"),
    Harness("limits", h_limits, bounds="every subset of the 4 limits, every value of 16 bits"),
    Harness("bitmaps", h_bitmaps, [{"n": n} for n in (1, 2)], bounds="up to 2 bitmaps, all values of 16 bits, 3 rows of any 8 pixels"),
    Harness("kerning rules", h_kern_rules, [{"n": 1}], thorough=[{"n": 2}], bounds="every rule made of 3 indents, enum or not, 4 by 4 operands, 3 values, 4 comments, and 6 other lines"),
    Harness("parts of the features", h_features, [{"n": n} for n in (0, 1, 2, 3)], thorough=[{"n": 4}, {"n": 5}], bounds="every sequence of up to 3 (5) of 7 lines"),
]
