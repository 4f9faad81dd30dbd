"""C13: decoding any data ends, with an effort bounded by the amount of data, and
either gives a value after all data was used, or an error that leaves the entry's
data as it was."""
from sx.spec import Harness
from checks.common import *

PROPERTY = "C13"
EXTRA_PACKAGES = ("fontTools",)
# loop iterations in vfbLib per entry: fixed part and per byte of data
FIXED, PER_BYTE = 200, 160


def decode(h, eid, data, v):
    e = entry(h, v, eid)
    e.data = data
    n = len(data)
    ok, r, x = h.bounded(FIXED + PER_BYTE * n, e.decompile)
    h.check(ok, "the number of steps is bounded by the amount of data")
    if x is not None:
        h.check(isinstance(e.data, bytes), "data that could not be read is still there")
        h.check_eq(e.data, data, "data that could not be read is unchanged")
        h.observe("error", True)
    else:
        h.check(not isinstance(e.data, bytes), "decoded")
        # nothing is left over, and nothing else is touched
        h.observe("error", False)
    return e


def h_any(h):
    """every entry type with arbitrary data"""
    v = vfb(h, h.p.get("m", 1), ttStemsV_count=1, ttStemsH_count=1)
    v.writer_platform = h.p.get("platform", "macos")
    data = bytes.fromhex(h.p.get("prefix", "")) + h.bytes("b", h.p["n"]) + bytes.fromhex(h.p.get("suffix", ""))
    decode(h, h.p["id"], data, v)


def ids_by_parser():
    from vfbLib.constants import parser_classes

    seen = {}
    for eid, info in parser_classes.items():
        if info[1] is not None:
            seen.setdefault(info[1].__name__, int(eid))
    return seen


IDS = ids_by_parser()


# one path per bit pattern, whatever follows
BITS = ("PostScriptGlobalHintingOptionsParser", "UnicodeRangesParser", "PostScriptGlyphHintingOptionsParser",
        "ExportOptionsParser", "TrueTypeInfoParser", "FontOptionsParser")


def grid(ns):
    return [{"parser": k, "id": i, "n": n} for k, i in IDS.items() for n in ns if not (k in BITS and n > 1)]


def at(eid, m, *prefixes, ns=(3,), ff=(5,), suffix="", **kw):
    """free bytes after a given beginning; the second kind starts with the marker
    of a 32 bit number"""
    return ([dict(kw, id=eid, m=m, prefix=p.replace(" ", ""), n=n, suffix=suffix) for p in prefixes for n in ns] +
            [dict(kw, id=eid, m=m, prefix=p.replace(" ", "") + "ff", n=n, suffix=suffix) for p in prefixes for n in ff])


GLYPH = "01090701"
# a glyph up to and including outlines without nodes
OUT = [GLYPH + "01 8b 08 %s 8b 8b" % n for n in ("8b", "8c", "8d")]

HARNESSES = [
    Harness("any data", h_any, grid((0, 1, 2, 3)), thorough=grid((4,)), bounds="every content of up to 3 (4) bytes, one entry per parser"),
    Harness("counts", h_any,
            [{"parser": k, "id": i, "prefix": "ff", "n": 4 + n} for k, i in IDS.items() for n in (0, 1)
             if k not in BITS],
            bounds="every 32 bit number at the start of the data, with up to one more byte"),
    Harness("glyph", h_any,
            at(2001, 1, GLYPH, ns=(2,), ff=()) +
            # outlines: number of masters, then values, then nodes
            at(2001, 1, GLYPH + "08", GLYPH + "08 8c 8b", GLYPH + "08 8d 8b", GLYPH + "08 8b 8b") +
            at(2001, 1, GLYPH + "08 8c 8b 8c 03", ns=(4,)) +
            [p for s in "23456" for o in OUT for p in at(2001, 1, o + "0" + s)] +
            [p for s in "34" for o in OUT for p in at(2001, 1, o + "0" + s + "8b")] +
            # imported data and instructions
            [p for s in ("09 2a", "09 2c", "09 2a 8b", "0a", "0a 8b") for p in at(2001, 1, GLYPH + s)],
            bounds="3 free bytes, or any 32 bit number and a byte, in each section of a glyph record, with no, one and two masters"),
    Harness("guides", h_any, at(1294, 0, "", "8b") + at(1294, 1, "", "8b") + at(1294, 3, "8b"),
            bounds="the same for the global guides, with no, one and three masters"),
    Harness("masks", h_any, at(2009, 1, "", "8b", "8b 8b 8b", "8b 8c 8b") + at(1295, 1, "", "8b 8b", "8c 8b"),
            bounds="the same for the masks"),
    Harness("bitmaps", h_any,
            [p for pf in ("macos", "windows") for p in
             at(IDS["BackgroundBitmapParser"], 1, "8b 8b 8b 8b 8b 8b", "8b 8b 8b 8b 94 8c", ns=(2,), platform=pf)] +
            at(IDS["GlyphBitmapsParser"], 1, "", "8c 8b 8b 8b 8b 8b 8b 8b", "8c 8b 8b 8b 8b 8b 94 8b", ns=(2,)),
            bounds="any data length with up to 3 bytes of bitmap data, for both platforms"),
    Harness("anchors", h_any, at(2029, 1, "", "8d") + at(2020, 1, "") + at(2018, 1, "", "8b", "8b 8b 8b"),
            bounds="3 free bytes, or any 32 bit number and a byte, in each section"),
    Harness("truetype", h_any,
            at(1264, 1, "53", "58", "54", "33", ns=(2,)) + at(1264, 1, "4c", "39", ns=(0, 1), ff=()) +
            at(1269, 1, "", "8b", "8c 8b") + at(1268, 1, "", "8b") + at(1255, 1, "", "8b"),
            bounds="the same for TrueType info, stems and zones"),
]
