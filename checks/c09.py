"""C09: option records and bit fields."""
from sx.spec import Harness
from checks.common import *

PROPERTY = "C09"

EXPORT = None
HINT3 = {"hint_replacement": 29, "horizontal_3_stem": 30, "vertical_3_stem": 31}
AUTOHINT = {"generate_triple_hints": 8, "generate_delta_instructions": 9,
            "direct_links_to_center_of_the_glyph_where_possible": 10,
            "interpolate_positions_of_cusp_points": 11, "interpolate_positions_of_double_links": 12,
            "add_link_to_rsb": 13}
KERN = {"limit_action": 0, "limit_codepage": 1, "limit_cmap_10": 2, "limit_font_window": 3, "limit_count": 4,
        "limit_keep": 5, "apply_to_assistance": 12}


def field(h, nbits):
    """a bit field: `w` free bits starting at `shift`, all others zero or one"""
    w = min(h.p["w"], nbits - h.p["shift"])
    x = h.int("x", 0, (1 << w) - 1)
    rest = ((1 << nbits) - 1) ^ (((1 << w) - 1) << h.p["shift"]) if h.p["ones"] else 0
    return x * (1 << h.p["shift"]) + rest


def bit(h, v, i):
    return (v >> i) & 1 == 1


def check_bits(h, v, got, bits, what):
    """`got` lists exactly the set ones among `bits`, in ascending order"""
    for i in bits:
        h.check(bit(h, v, i) if i in got else h.not_(bit(h, v, i)), f"{what}: bit {i}")
    h.check(list(got) == sorted(got) and len(set(got)) == len(got), what + ": sorted")
    h.check(all(i in bits for i in got), what + ": known bits only")


def rewrite(h, eid, spec, look):
    e = entry(h, vfb(h), eid)
    e.data = spec
    e.decompile()
    h.observe("decompiled", e.data)
    look(e.data)
    d = copy(e.data)
    e.compile()
    h.check_eq(e.data, spec, "rewritten bytes")
    e.decompile()
    h.check_eq(e.data, d, "read again")


def named(h, v, got, names, what):
    for k, i in names.items():
        h.check(bit(h, v, i) if got.get(k, 0) else h.not_(bit(h, v, i)), f"{what}: {k}")


def h_unicode_ranges(h):
    v = field(h, 128)
    e = Enc(h)
    e._int(v, 16, False)
    rewrite(h, ids(h).F.unicoderanges.value, e.get(), lambda d: check_bits(h, v, d, range(128), "ranges"))


def h_ps_global(h):
    v = field(h, 16)

    def look(d):
        named(h, v, d, {"generate_flex": 0}, "options")
        check_bits(h, v, d["other"], range(1, 16), "other")

    rewrite(h, ids(h).F.PostScriptHintingOptions.value, Enc(h).u16(v).get(), look)


def h_ps_glyph(h):
    v = field(h, 32)

    def look(d):
        named(h, v, d, HINT3, "options")
        check_bits(h, v, d["other"], range(29), "other")

    rewrite(h, ids(h).G.HintingOptions.value, Enc(h).u32(v).get(), look)


def h_export(h):
    v = field(h, 16)
    names = h.module("vfbLib").export_options

    def look(d):
        h.check(len(set(d)) == len(d), "each option once")
        for i in range(16):
            h.check(bit(h, v, i) if names.get(i, i) in d else h.not_(bit(h, v, i)), f"option {i}")
        h.check(all(x in [names.get(i, i) for i in range(16)] for x in d), "options")

    rewrite(h, ids(h).F.ExportOptions.value, Enc(h).u16(v).get(), look)


def signed(h, v):
    return h.ite(v >= 1 << 31, v - (1 << 32), v)


def h_autohint(h):
    v = field(h, 32)

    def look(d):
        a = d["autohinting_options"]
        h.check_eq(a["single_link_attachment_precision"], v & 7, "precision")
        named(h, v, a, AUTOHINT, "options")

    rewrite(h, ids(h).F.FontOptions.value, Enc(h).u8(20).v(signed(h, v)).u8(0x64).get(), look)


def h_kern(h):
    v = field(h, 32)
    rewrite(h, ids(h).F.FontOptions.value, Enc(h).u8(48).v(signed(h, v)).u8(0x64).get(),
            lambda d: named(h, v, d["expand_kern_flags"], KERN, "options"))


def h_font_options(h):
    """any key, any value; keys without a known name are kept under their number"""
    names = h.module("vfbLib").font_options
    keys = []
    e = Enc(h)
    want = {}
    for i in range(h.p["n"]):
        k = h.pick(f"k{i}", 0, 255) if i == 0 else h.choice(f"k{i}", [1, 13, 52, 115, 99])
        h.assume(k not in (20, 48, 0x64) and k not in keys)
        keys.append(k)
        v = h.int(f"v{i}", *I32)
        e.u8(k).v(v)
        want[names.get(k, str(k))] = v / 10000 if k in (12, 13) else v
    spec = e.u8(0x64).get()
    roundtrip(h, ids(h).F.FontOptions.value, want, spec)


def h_mapping_mode(h):
    names = {0: "names_or_index", 1: "unicode_ranges", 3: "codepages"}
    m = h.pick("mode", -2, 8) if not h.p["wide"] else h.choice("mode", [-2**31, -1132, 1132, 70000, 2**31 - 1])
    a, b, c = (h.int(k, *I32) for k in ("m2", "m3", "id"))
    d = {"mapping_mode": names.get(m, str(m)), "m2": a, "m3": b, "mapping_id": c}
    spec = Enc(h).u8(1).v(m).u8(2).v(a).u8(3).v(b).u8(4).v(c).u8(0).get()
    roundtrip(h, ids(h).F.MappingMode.value, d, spec)


def windows(nbits, w=5):
    return [{"w": w, "shift": s, "ones": o} for s in range(0, nbits, w) for o in (0, 1)]


def win2(nbits, w=8, step=4):
    return [{"w": w, "shift": s, "ones": o} for s in range(0, nbits, step) for o in (0, 1)]


W = "every combination of any %d adjacent bits (aligned), all other bits zero or all one"
HARNESSES = [
    Harness("unicode ranges", h_unicode_ranges, [{"w": 4, "shift": s, "ones": o} for s in range(0, 128, 4) for o in (0, 1)],
            thorough=win2(128), bounds=W % 4 + " (8 bits overlapping by 4)"),
    Harness("ps options", h_ps_global, windows(16), thorough=win2(16), bounds=W % 5),
    Harness("glyph ps options", h_ps_glyph, windows(32), thorough=win2(32), bounds=W % 5),
    Harness("export options", h_export, windows(16), thorough=win2(16), bounds=W % 5),
    Harness("autohint options", h_autohint, windows(32), thorough=win2(32), bounds=W % 5),
    Harness("kern options", h_kern, windows(32), thorough=win2(32), bounds=W % 5),
    Harness("font options", h_font_options, [{"n": 0}, {"n": 1}, {"n": 2}], bounds="every key, every value, up to 2 keys"),
    Harness("mapping mode", h_mapping_mode, [{"wide": 0}, {"wide": 1}], bounds="modes -2..8 and 5 wide ones, every other value"),
]
