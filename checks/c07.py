"""C07: font-level records of numbers and names."""
from sx.spec import Harness
from checks.common import *

PROPERTY = "C07"
UINT16 = ["MMEncType", "MasterCount", "is_fixed_pitch", "underline_thickness", "ms_charset", "xuid_num", "year",
          "version_major", "version_minor", "upm", "fond_id", "blue_values_num", "other_blues_num",
          "family_blues_num", "family_other_blues_num", "stem_snap_h_num", "stem_snap_v_num", "font_style",
          "pcl_id", "vp_id", "ms_id", "ExportPCLTTable", "AxisCount"]
TT_UINT16 = ["hhea_line_gap", "stemsnaplimit", "zoneppm", "codeppm", "dropoutppm"]
INT16 = ["weight_code", "underline_position"]
TT_INT16 = ["hhea_ascender", "hhea_descender", "MeasurementLine"]
STRINGS = ["font_name", "version", "notice", "full_name", "family_name", "pref_family_name", "menu_name",
           "apple_name", "weight", "width", "License", "LicenseURL", "copyright", "trademark", "designer",
           "designer_url", "vendor_url", "source", "tt_version", "tt_u_id", "style_name", "pref_style_name",
           "mac_compatible", "SampleText", "pcl_chars_set", "note", "customdata", "GlyphClass", "AxisName",
           "default_character"]
HEX = ["BlockFileDataStart", "BlockFontStart", "BlockNamesStart", "BlockNamesEnd", "BlockFontInfoStart",
       "FontFlags", "BlockFontInfoEnd", "BlockMMFontInfoStart", "BlockMMFontInfoEnd", "BlockMMKerningStart",
       "BlockMMKerningEnd", "BlockFontEnd", "BlockFileDataEnd"]


def h_uint16(h):
    x = h.int("x", *U16)
    spec = Enc(h).u16(x).get()
    for grp, names in ((ids(h).F, UINT16), (ids(h).T, TT_UINT16)):
        for n in names:
            roundtrip(h, grp[n].value, x, spec, what=f" ({n})")


def h_int16(h):
    x = h.int("x", *I16)
    spec = Enc(h).i16(x).get()
    for grp, names in ((ids(h).F, INT16), (ids(h).T, TT_INT16)):
        for n in names:
            roundtrip(h, grp[n].value, x, spec, what=f" ({n})")


def h_int32(h):
    x = h.int("x", *I32)
    roundtrip(h, ids(h).F.unique_id.value, x, Enc(h).i32(x).get())


def h_double(h):
    x = h.double("x")
    for n in ("italic_angle", "slant_angle"):
        roundtrip(h, ids(h).F[n].value, x, Enc(h).d(x).get(), what=f" ({n})")


def h_doubles(h):
    xs = [h.double(f"x{i}") for i in range(h.p["n"])]
    for n in ("weight_vector", "PrimaryInstanceLocations"):
        roundtrip(h, ids(h).F[n].value, xs, Enc(h).d(*xs).get(), what=f" ({n})")


def h_strings(h):
    t = text(h, "t", h.p["n"])
    spec = Enc(h).s_(t).get()
    for n in STRINGS:
        roundtrip(h, ids(h).F[n].value, t, spec, what=f" ({n})")
    for g, n in ((ids(h).G, "CustomDict"), (ids(h).G, "customdata"), (ids(h).G, "note"), (ids(h).M, "MasterName")):
        roundtrip(h, g[n].value, t, spec, what=f" ({n})")


def h_vendor(h):
    n = h.p["n"]
    t = text(h, "t", n)
    spec = Enc(h).s_(t).raw(b"\0" * max(0, 4 - n)).get()
    roundtrip(h, ids(h).F.vendor.value, t, spec)


def h_hex(h):
    b = h.bytes("b", h.p["n"])
    for grp, names in ((ids(h).F, HEX), (ids(h).T, ["cvt", "prep", "fpgm"])):
        for n in names:
            e = entry(h, vfb(h), grp[n].value)
            e.data = b
            e.decompile()
            h.check(isinstance(e.data, str), f"text form ({n})")
            h.check_eq(h.len(e.data), 2 * h.p["n"], f"two digits per byte ({n})")
            e.compile()
            h.check_eq(e.data, b, f"rewritten bytes ({n})")


def h_lists(h):
    n = h.p["n"]
    xs = [h.int(f"x{i}", *U32) for i in range(n)]
    roundtrip(h, ids(h).F.xuid.value, xs, Enc(h).u32(*xs).get(), what=" (xuid)")
    ys = [h.int(f"y{i}", *I32) for i in range(n)]
    roundtrip(h, ids(h).F.Collection.value, ys, Enc(h).v(n, *ys).get(), what=" (collection)")


def h_panose(h):
    xs = [h.int(f"x{i}", *I8) for i in range(10)]
    roundtrip(h, ids(h).F.panose.value, xs, Enc(h).i8(*xs).get())


def h_encoding(h):
    gid, nm = h.int("gid", *U16), text(h, "name", h.p["n"])
    spec = Enc(h).u16(gid).s_(nm).get()
    for n in ("EncodingDefault", "Encoding"):
        roundtrip(h, ids(h).F[n].value, (gid, nm), spec, what=f" ({n})")


def h_version(h):
    p = h.choice("platform", ["windows", "macos"])
    ver = tuple(h.int(f"v{i}", *U8) for i in range(4))
    owner = h.int("owner", *I32)
    d = {"platform": p, "version": ver, "owner": owner}
    e = Enc(h).u8(1).v(["windows", "macos"].index(p)).u8(2, 255, *ver).u8(3).v(owner).u8(0)
    roundtrip(h, ids(h).F.FLVersion.value, d, e.get())


def h_psinfo(h):
    e = Enc(h)
    d = {"font_matrix": tuple(h.double(f"fm{i}") for i in range(6)), "force_bold": h.int("fb", *I32)}
    e.d(*d["font_matrix"]).i32(d["force_bold"])
    for k, n in (("blue_values", 14), ("other_blues", 10), ("family_blues", 14), ("family_other_blues", 10)):
        d[k] = [h.int(f"{k}{i}", *I32) for i in range(n)]
        e.i32(*d[k])
    d["blue_scale"] = h.double("bs")
    e.d(d["blue_scale"])
    for k in ("blue_shift", "blue_fuzz", "std_hw", "std_vw"):
        d[k] = h.int(k, *U32)
        e.u32(d[k])
    for k in ("stem_snap_h", "stem_snap_v"):
        d[k] = [h.int(f"{k}{i}", *U32) for i in range(12)]
        e.u32(*d[k])
    d["bounding_box"] = {k: h.int(k, *I16) for k in ("xMin", "yMin", "xMax", "yMax")}
    e.i16(*d["bounding_box"].values())
    for k in ("adv_width_min", "adv_width_max", "adv_width_avg", "ascender", "descender", "x_height", "cap_height"):
        d[k] = h.int(k, *I32)
        e.i32(d[k])
    roundtrip(h, ids(h).M.PostScriptInfo.value, d, e.get())


def h_pclt(h):
    d = {"font_number": h.int("font_number", *U32)}
    e = Enc(h).vu(d["font_number"])
    for k in ("pitch", "x_height", "style", "type_family", "cap_height", "symbol_set"):
        d[k] = h.int(k, *I32)
        e.v(d[k])
    short = h.p["short"]  # names shorter than their field are filled with null bytes
    d["typeface"] = text(h, "typeface", 3) + ("" if short else " " * 13)
    d["character_complement"] = [h.int(f"cc{i}", *U8) for i in range(8)]
    d["file_name"] = ("" if short else "ABCD") + text(h, "file", 2)
    e.s_(d["typeface"]).raw(bytes(13 if short else 0)).u8(*d["character_complement"])
    e.s_(d["file_name"]).raw(bytes(4 if short else 0))
    for k in ("stroke_weight", "width_type"):
        d[k] = h.int(k, *I8)
        e.i8(d[k])
    d["serif_style"] = h.int("serif", *U8)
    e.u8(d["serif_style"])
    if not short:
        return roundtrip(h, ids(h).F.PCLTTable.value, d, e.get())
    x = entry(h, vfb(h), ids(h).F.PCLTTable.value)
    x.data = d
    x.compile()
    h.check_eq(x.data, e.get(), "written bytes")
    x.decompile()
    for k, w in d.items():
        if k not in ("typeface", "file_name"):
            h.check_eq(x.data[k], w, k)
    x.compile()
    h.check_eq(x.data, e.get(), "rewritten bytes")


def h_cmap(h):
    d = []
    e = Enc(h).v(h.p["n"])
    for i in range(h.p["n"]):
        c = {k: h.int(f"{k}{i}", *I32) for k in ("language_id", "platform_id", "encoding_id", "format", "option")}
        c["page_name"] = text(h, f"page{i}", h.p["name"])
        e.v(c["language_id"], c["platform_id"], c["encoding_id"], c["format"], c["option"]).sl(c["page_name"])
        d.append(c)
    roundtrip(h, ids(h).F.CustomCMAPs.value, d, e.get())


def h_table(h):
    tag, b = text(h, "tag", 4), h.bytes("b", h.p["n"])
    spec = Enc(h).s_(tag).raw(b).get()
    x = entry(h, vfb(h), ids(h).F.TrueTypeTable.value)
    x.data = spec
    x.decompile()
    h.check_eq(x.data["tag"], tag, "tag")
    h.check_eq(h.len(x.data["data"]), 2 * h.p["n"], "two digits per byte")
    x.compile()
    h.check_eq(x.data, spec, "rewritten bytes")


HARNESSES = [
    Harness("uint16 entries", h_uint16, bounds="every value, 28 entries"),
    Harness("int16 entries", h_int16, bounds="every value, 5 entries"),
    Harness("int32 entries", h_int32, bounds="every value"),
    Harness("double entries", h_double, bounds="every double"),
    Harness("double lists", h_doubles, [{"n": n} for n in (0, 1, 4, 16)], bounds="up to 16 doubles"),
    Harness("string entries", h_strings, [{"n": n} for n in (0, 1, 2, 3)], bounds="up to 3 Windows-1252 characters, 34 entries"),
    Harness("vendor", h_vendor, [{"n": n} for n in (0, 1, 3, 4, 5)], bounds="up to 5 characters"),
    Harness("binary entries", h_hex, [{"n": n} for n in (0, 1, 3)], bounds="up to 3 bytes, 16 entries"),
    Harness("lists", h_lists, [{"n": n} for n in (0, 1, 4)], bounds="up to 4 values"),
    Harness("panose", h_panose, bounds="every value"),
    Harness("encoding", h_encoding, [{"n": n} for n in (0, 1, 3)], bounds="every index, names up to 3 characters"),
    Harness("version", h_version, bounds="every version and owner"),
    Harness("psinfo", h_psinfo, bounds="every value of every field"),
    Harness("pclt", h_pclt, [{"short": 0}, {"short": 1}], bounds="every number; 3 and 2 symbolic name characters, alone or in full-length names"),
    Harness("cmap", h_cmap, [{"n": n, "name": k} for n, k in ((0, 0), (1, 2), (2, 1))], bounds="up to 2 records"),
    Harness("binary table", h_table, [{"n": n} for n in (0, 1, 4)], bounds="every tag, up to 4 bytes"),
]
