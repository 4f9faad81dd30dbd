"""C19: font information, time stamps, bit fields and guides in the UFO masters."""
from sx.spec import Harness
from checks.common import *
from checks.ufo import Font

PROPERTY = "C19"
EXTRA_PACKAGES = ("fontTools",)
TEXT, S16, U16_, S32, DBL = "text", "s16", "u16", "s32", "double"
# the attribute that each entry is for
ATTRS = {
    "full_name": ("postscriptFullName", TEXT), "font_name": ("postscriptFontName", TEXT),
    "family_name": ("styleMapFamilyName", TEXT), "copyright": ("copyright", TEXT),
    "notice": ("openTypeNameDescription", TEXT), "source": ("openTypeNameManufacturer", TEXT),
    "trademark": ("trademark", TEXT), "designer": ("openTypeNameDesigner", TEXT),
    "designer_url": ("openTypeNameDesignerURL", TEXT), "vendor_url": ("openTypeNameManufacturerURL", TEXT),
    "License": ("openTypeNameLicense", TEXT), "LicenseURL": ("openTypeNameLicenseURL", TEXT),
    "apple_name": ("macintoshFONDName", TEXT), "SampleText": ("openTypeNameSampleText", TEXT),
    "tt_u_id": ("openTypeNameUniqueID", TEXT), "tt_version": ("openTypeNameVersion", TEXT),
    "note": ("note", TEXT), "default_character": ("postscriptDefaultCharacter", TEXT),
    "style_name": ("postscriptWeightName", TEXT),
    "unique_id": ("postscriptUniqueID", S32), "italic_angle": ("italicAngle", DBL),
    "fond_id": ("macintoshFONDFamilyID", U16_), "version_major": ("versionMajor", U16_),
    "version_minor": ("versionMinor", U16_), "upm": ("unitsPerEm", U16_),
    "hhea_ascender": ("openTypeHheaAscender", S16), "hhea_descender": ("openTypeHheaDescender", S16),
    "hhea_line_gap": ("openTypeHheaLineGap", U16_),
}
RANGE = {S16: I16, U16_: U16, S32: I32}
TT = {
    "head_lowest_rec_ppem": "openTypeHeadLowestRecPPEM",
    **{f"os2_y_{s}script_{a}_{k}": f"openTypeOS2{s.capitalize()}script{a.upper()}{k.capitalize()}"
       for s in ("sub", "super") for a in "xy" for k in ("size", "offset")},
    "os2_y_strikeout_size": "openTypeOS2StrikeoutSize", "os2_y_strikeout_position": "openTypeOS2StrikeoutPosition",
    "os2_s_typo_ascender": "openTypeOS2TypoAscender", "os2_s_typo_descender": "openTypeOS2TypoDescender",
    "os2_s_typo_line_gap": "openTypeOS2TypoLineGap", "os2_us_win_ascent": "openTypeOS2WinAscent",
    "os2_us_win_descent": "openTypeOS2WinDescent",
}
POSITIVE = ("head_lowest_rec_ppem", "os2_us_win_ascent", "os2_us_win_descent")
MAXP = {"max_zones": "maxZones", "max_twilight_points": "maxTwilightPoints", "max_storage": "maxStorage",
        "max_function_defs": "maxFunctionDefs", "max_instruction_defs": "maxInstructionDefs", "max_stack_elements": "maxStackElements"}


def state(info):
    """The attributes of the font info, as plain data"""
    names = [n for n in dir(info) if n[0] != "_" and n not in ("mapping", "mapping_int", "lib", "ui_name", "ds_family_name", "ds_style_name")]
    return {n: getattr(info, n) for n in names if not callable(getattr(info, n))}


def binary(h, f, eid, data):
    """an entry as it is read from a file"""
    e = f.add(eid, data)
    e.decompile()
    h.check(not isinstance(e.data, bytes), "entry was read")
    return e


def value(h, kind, name="v"):
    if kind == TEXT:
        return h.text(name, h.p.get("len", 2), ranges=CP1252)
    if kind == DBL:
        return h.double(name)
    return h.int(name, *RANGE[kind])


def encoded(h, kind, v):
    e = Enc(h)
    if kind == TEXT:
        return v.encode("cp1252")
    return {S16: e.i16, U16_: e.u16, S32: e.i32, DBL: e.d}[kind](v).get()


def plain(h):
    f = Font(h)
    fonts, b = f.convert()
    return state(fonts[0].info)


def h_attributes(h):
    """an entry sets its attribute to its value, and no other attribute"""
    k = h.p["entry"]
    attr, kind = ATTRS[k]
    f = Font(h)
    v = value(h, kind)
    binary(h, f, getattr(f.T if k.startswith("hhea") else f.F, k), encoded(h, kind, v))
    fonts, b = f.convert()
    got = state(fonts[0].info)
    h.observe(attr, got[attr])
    h.check_eq(got[attr], v, attr)
    for n, x in plain(h).items():
        if n != attr:
            h.check_eq(got[n], x, "other attribute " + n)


def h_names(h):
    """preferred names, in either order, with the other names"""
    f = Font(h)
    v = {k: h.text(k, 1, ranges=CP1252) for k in h.p["order"]}
    for k in h.p["order"]:
        binary(h, f, getattr(f.F, k), v[k].encode("cp1252"))
    fonts, b = f.convert()
    i = fonts[0].info
    for attr, k in (("familyName", "pref_family_name"), ("openTypeNamePreferredFamilyName", "pref_family_name"), ("styleName", "pref_style_name"),
                    ("openTypeNamePreferredSubfamilyName", "pref_style_name"), ("styleMapFamilyName", "family_name"), ("postscriptWeightName", "style_name")):
        if k in v:
            h.observe(attr, getattr(i, attr))
            h.check_eq(getattr(i, attr), v[k], attr)


def h_underline(h):
    """the position of the underline is its top edge"""
    f = Font(h)
    p, t = h.int("position", *I16), h.int("thickness", *U16)
    if h.p["position"]:
        binary(h, f, f.F.underline_position, Enc(h).i16(p).get())
    else:
        p = 0
    if h.p["thickness"]:
        binary(h, f, f.F.underline_thickness, Enc(h).u16(t).get())
    else:
        t = 0
    fonts, b = f.convert()
    i = fonts[0].info
    h.observe("underline", (i.postscriptUnderlinePosition, i.postscriptUnderlineThickness))
    h.check_eq(i.postscriptUnderlineThickness, t, "thickness")
    d = 2 * (i.postscriptUnderlinePosition - p) - t
    h.check(h.all([d >= -1, d <= 1]), "position of the top edge")


def h_classes(h):
    f = Font(h)
    w = h.int("weight", *I16)
    p = h.int("pitch", *U16)
    binary(h, f, f.F.weight_code, Enc(h).i16(w).get())
    binary(h, f, f.F.is_fixed_pitch, Enc(h).u16(p).get())
    fonts, b = f.convert()
    i = fonts[0].info
    h.observe("classes", (i.openTypeOS2WeightClass, i.postscriptIsFixedPitch))
    h.check_eq(i.openTypeOS2WeightClass, h.ite(w < 1, 1, h.ite(w > 1000, 1000, w)), "weight class")
    h.check_eq(i.postscriptIsFixedPitch, p != 0, "fixed pitch")


def bits_are(h, got, v, n, what, start=0, omit=()):
    """got lists the bits of v, in ascending order"""
    got = [int(x) for x in got]
    h.check_eq(sorted(set(got)), got, what + " in order, once")
    h.check(all(start <= x < start + n for x in got), what + ": existing bits")
    for i in range(n):
        if i in omit:
            h.check(i + start not in got, what + ": bit left out")
        else:
            h.check_eq(((v >> i) & 1) == 1, i + start in got, f"{what}: bit {i}")


def h_selection(h):
    """style bits become the style map style; the others are kept"""
    f = Font(h)
    v = h.int("style", 0, 127) | h.p["high"]
    binary(h, f, f.F.font_style, Enc(h).u16(v).get())
    fonts, b = f.convert()
    i = fonts[0].info
    h.observe("selection", (i.openTypeOS2Selection, i.styleMapStyleName))
    bits_are(h, i.openTypeOS2Selection, v, 16, "selection", omit=(0, 5, 6))
    bit = lambda n: ((v >> n) & 1) == 1
    want = {(0, 0): "regular", (0, 1): "bold", (1, 0): "italic", (1, 1): "bold italic"}
    for (it, bo), s in want.items():
        c = h.all([bit(0) if it else h.not_(bit(0)), bit(5) if bo else h.not_(bit(5)), h.not_(bit(6))])
        h.check(h.any([h.not_(c), i.styleMapStyleName == s]), "style map style: " + s)
    h.check(i.styleMapStyleName in ("regular", "bold", "italic", "bold italic", "regular italic"), "style map style")
    h.check(h.any([h.not_(bit(6)), i.styleMapStyleName[:7] == "regular"]), "regular")


def ttinfo(h, f, *records):
    names = {n: k for k, n in h.module("vfbLib").ttinfo_names.items()}
    e = Enc(h)
    for n, v in records:
        e.u8(names[n])
        if n == "Codepages":
            e.vu(*v)
        elif n == "OpenTypeOS2Panose":
            e.u8(*v)
        else:
            e.v(v)
    return binary(h, f, f.F.ttinfo, e.u8(0x32).get())


def h_tt_values(h):
    """values of the TrueType info: each sets its attribute and no other"""
    f = Font(h)
    ks = h.p["keys"]
    # (UFO has no negative values for some)
    v = {k: h.int(k, *(U16 if k in POSITIVE else I32)) for k in ks}
    ttinfo(h, f, *v.items())
    fonts, b = f.convert()
    got = state(fonts[0].info)
    for k in ks:
        h.observe(k, got[TT[k]])
        h.check_eq(got[TT[k]], v[k], TT[k])
    for n, x in plain(h).items():
        if n not in [TT[k] for k in ks]:
            h.check_eq(got[n], x, "other attribute " + n)


def h_tt_maxp(h):
    f = Font(h)
    v = {k: h.int(k, *I32) for k in h.p["keys"]}
    ttinfo(h, f, *v.items())
    fonts, b = f.convert()
    lib = fonts[0].lib.get("public.truetype.instructions")
    h.observe("lib", lib)
    if len(v) < 6:
        h.check_eq(lib, {"formatVersion": "1", **{MAXP[k]: x for k, x in v.items()}}, "maxp values")
    else:
        # only values that differ from the defaults are written
        zero = h.all([x == 0 for x in v.values()])
        h.check_eq(lib is None, zero, "default values are left out")
        if lib is not None:
            h.check_eq(lib, {"formatVersion": "1", **{MAXP[k]: x for k, x in v.items()}}, "maxp values")


def h_tt_family_class(h):
    f = Font(h)
    v = h.int("v", *I32)
    ttinfo(h, f, ("os2_s_family_class", v))
    fonts, b = f.convert()
    c, s = fonts[0].info.openTypeOS2FamilyClass
    h.observe("class", (c, s))
    h.check(h.all([s >= 0, s <= 255]), "subclass")
    h.check_eq(c * 256 + s, v, "class and subclass")


def h_tt_width(h):
    """width classes out of range do not prevent the conversion"""
    f = Font(h)
    v = h.int("v", *h.p["range"])
    ttinfo(h, f, ("os2_us_width_class", v))
    fonts, b = f.convert()
    got = int(fonts[0].info.openTypeOS2WidthClass)
    h.observe("width", got)
    h.check_eq(got, h.ite(v < 1, 1, h.ite(v > 9, 9, v)), "width class")


def h_tt_type(h):
    f = Font(h)
    v = h.int("v", 0, 15) + h.p["high"]
    ttinfo(h, f, ("os2_fs_type", v))
    fonts, b = f.convert()
    h.observe("type", fonts[0].info.openTypeOS2Type)
    bits_are(h, fonts[0].info.openTypeOS2Type, v, 16, "embedding")


def h_tt_codepages(h):
    f = Font(h)
    fixed = h.p["fixed"]
    v = [h.int("a", 0, 15) * 16 ** h.p["at"] | fixed[0], h.int("b", 0, 15) * 16 ** h.p["at"] | fixed[1]]
    ttinfo(h, f, ("Codepages", v))
    fonts, b = f.convert()
    got = fonts[0].info.openTypeOS2CodePageRanges
    h.observe("ranges", got)
    bits_are(h, got, v[0] | v[1] << 32, 64, "code pages")


def h_tt_average(h):
    f = Font(h)
    v = h.int("v", *I32)
    ttinfo(h, f, ("Average Width", v))
    fonts, b = f.convert()
    got = fonts[0].info.postscriptNominalWidthX
    h.observe("width", got)
    h.check_eq(got is None, v == 0, "zero is left out")
    if got is not None:
        h.check_eq(got, h.ite(v < 0, -v, v), "nominal width")


EPOCH = 2082841200


def digits(s):
    n = 0
    for c in s:
        d = ord(c) - 48
        n = n * 10 + d
    return n


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def starts(year):
    """the time stamps at which the months of a year and the next year start"""
    leap = year % 4 == 0 and (year % 100 != 0 or year % 400 == 0)
    n = EPOCH + 86400 * sum(365 + (x % 4 == 0) for x in range(1970, year))
    out = [n]
    for d in [31, 28 + leap, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]:
        n += d * 86400
        out.append(n)
    return out


def h_created(h):
    """the date of creation is that of the time stamp"""
    f = Font(h)
    y, m = h.p["year"], h.p["month"]
    if y is None:
        lo, hi = 0, EPOCH
    else:
        lo, hi = starts(y)[m - 1:m + 1]
        hi = min(hi - 1, (1 << 32) - 1)
    if lo < 1 << 31 <= hi:
        v = h.int("v", lo, hi)
        u = v
        v = h.ite(u < 1 << 31, u, u - (1 << 32))
    elif lo < 1 << 31:
        u = v = h.int("v", lo, hi)
    else:
        v = h.int("v", lo - (1 << 32), hi - (1 << 32))
        u = v + (1 << 32)
    if h.p["via"] == "builder":
        ttinfo(h, f, ("head_creation", v))
        fonts, b = f.convert()
        s = fonts[0].info.openTypeHeadCreated
    else:
        i = h.module("vfbLib.ufo.info").VfbToUfoInfo()
        i.set_created_timestamp(v)
        s = i.openTypeHeadCreated
    h.observe("created", s)
    if y is None:
        h.check_eq(s, "1970/01/01 00:00:00", "earliest date")
        return
    h.check_eq(len(s), 19, "length")
    h.check_eq(s[:8], f"{y}/{m:02}/", "year and month")
    h.check_eq(s[10] + s[13] + s[16], " ::", "separators")
    d, H, M, S = digits(s[8:10]), digits(s[11:13]), digits(s[14:16]), digits(s[17:19])
    h.check(h.all([d >= 1, d <= 31, H >= 0, H < 24, M >= 0, M < 60, S >= 0, S < 60]), "ranges")
    h.check_eq((((d - 1) * 24 + H) * 60 + M) * 60 + S, u - lo, "time")


def h_timestamp(h):
    """time stamps are converted back to the same value"""
    m = h.module("vfbLib.ufo.time")
    v = h.int("v", *I32)
    u = h.ite(v < 0, v + (1 << 32), v)
    h.assume(u >= EPOCH)
    got = m.datetime_to_fl(m.convert_timestamp(v))
    h.observe("time", got)
    h.check_eq(got, v, "time stamp")


def h_gasp(h):
    f = Font(h)
    recs = [(h.int(f"ppm{i}", *U16), h.int(f"flags{i}", 0, 15)) for i in range(h.p["n"])]
    e = Enc(h)
    for a, b in recs:
        e.u16(a, b)
    binary(h, f, f.T.gasp, e.get())
    fonts, b = f.convert()
    got = fonts[0].info.openTypeGaspRangeRecords
    h.check_eq(len(got), len(recs), "records")
    for g, (a, b) in zip(got, recs):
        h.observe("gasp", (g["rangeMaxPPEM"], [int(x) for x in g["rangeGaspBehavior"]]))
        h.check_eq(g["rangeMaxPPEM"], a, "size")
        bits_are(h, g["rangeGaspBehavior"], b, 4, "behaviour")


def h_name_records(h):
    f = Font(h)
    recs = [tuple(h.int(f"{n}{i}", 0, 0x7FFF) for n in ("name", "platform", "encoding", "language")) + ("x%d" % i,) for i in range(h.p["n"])]
    f.add(f.F.fontnames, copy(recs))
    fonts, b = f.convert()
    got = fonts[0].info.openTypeNameRecords
    h.check_eq(len(got), len(recs), "records")
    for g, r in zip(got, recs):
        h.observe("record", [g[k] for k in ("nameID", "platformID", "encodingID", "languageID", "string")])
        h.check_eq(tuple(g[k] for k in ("nameID", "platformID", "encodingID", "languageID", "string")), r, "record")


def h_panose(h):
    f = Font(h)
    p = [h.int(f"p{i}", 0, 127) for i in range(10)]
    binary(h, f, f.F.panose, Enc(h).u8(*p).get())
    v = h.text("vendor", 4, ranges=CP1252)
    binary(h, f, f.F.vendor, v.encode("cp1252"))
    r = h.int("r", 0, 15) << h.p["at"] | h.p["fixed"]
    e = Enc(h)
    for i in range(4):
        e.u32((r >> 32 * i) & 0xFFFFFFFF)
    binary(h, f, f.F.unicoderanges, e.get())
    fonts, b = f.convert()
    i = fonts[0].info
    h.observe("panose", (list(i.openTypeOS2Panose), i.openTypeOS2VendorID, list(i.openTypeOS2UnicodeRanges)))
    h.check_eq(list(i.openTypeOS2Panose), p, "panose")
    h.check_eq(i.openTypeOS2VendorID, v, "vendor")
    bits_are(h, i.openTypeOS2UnicodeRanges, r, 128, "unicode ranges")


def h_guides(h):
    """guides keep their position and direction, names and colours go to the right guide"""
    n = 2
    f = Font(h, n)
    num = h.p["num"]
    g = {d: [[{"pos": h.int(f"{d}{i}p{m}", *COORD), "angle": h.int(f"{d}{i}a{m}", -89 * 4 - 3, 89 * 4 + 3) / 4} for m in range(n)]
             for i in range(num[d])] for d in "hv"}
    props = {"h": [], "v": []}
    for d, i, c, nm in h.p["props"]:
        p = {"index": i}
        if c:
            p["color"] = c
        if nm:
            p["name"] = nm
        props[d].append(p)
    if h.p["where"] == "font":
        f.add(f.F.GlobalGuides, copy(g))
        f.add(f.F.GlobalGuideProperties, copy(props))
        fonts, b = f.convert()
        lists = [list(x.info.guidelines or []) for x in fonts]
    else:
        f.glyph("a", guides=copy(g))
        f.add(f.G.GuideProperties, copy(props))
        fonts, b = f.convert()
        lists = [list(x["a"].guidelines) for x in fonts]
    for m, got in enumerate(lists):
        got = [{k: getattr(x, k) for k in ("x", "y", "angle", "name", "color")} if not isinstance(x, dict) else dict(x) for x in got]
        h.observe(f"guides{m}", got)
        h.check_eq(len(got), num["h"] + num["v"], "number of guides")
        it = iter(got)
        for d in "hv":
            for i in range(num[d]):
                x = next(it)
                src = g[d][i][m]
                h.check_eq((x.get("x") or 0, x.get("y") or 0), (0, src["pos"]) if d == "h" else (src["pos"], 0), "position")
                a = src["angle"] if d == "h" else 90 - src["angle"]
                t = x["angle"]
                h.check(h.all([t >= 0, t <= 360]), "range of the angle")
                h.check(h.any([t == a, t == a + 360]), "angle")
                want = {}
                for p in props[d]:
                    if p["index"] == i + 1:
                        want.update(p)
                h.check_eq(x.get("name"), want.get("name"), "name")
                if "color" in want:
                    c = want["color"]
                    h.check_eq(x["color"], ",".join(f"{int(c[1 + 2 * k:3 + 2 * k], 16) / 255:0.4f}" for k in range(3)) + ",1", "colour")
                else:
                    h.check(x.get("color") is None, "no colour")


def h_guide_colour(h):
    """each channel of the colour of a guide"""
    f = Font(h)
    ch = h.p["channel"]
    hexa = h.text("c", 2, ranges=[(48, 57), (97, 102)])
    d = [ord(x) - 48 for x in hexa]
    v = sum(h.ite(x < 10, x, x - 39) * w for x, w in zip(d, (16, 1)))
    c = ["40", "00", "ff"]
    c[ch] = hexa
    f.add(f.F.GlobalGuides, {"h": [[{"pos": 0, "angle": 0.0}]], "v": []})
    f.add(f.F.GlobalGuideProperties, {"h": [{"index": 1, "color": "#" + c[0] + c[1] + c[2]}], "v": []})
    fonts, b = f.convert()
    g = fonts[0].info.guidelines[0]
    parts = (g["color"] if isinstance(g, dict) else g.color).split(",")
    h.observe("colour", parts)
    h.check_eq(len(parts), 4, "colour")
    h.check_eq([p for i, p in enumerate(parts) if i != ch], [p for i, p in enumerate(["0.2510", "0.0000", "1.0000", "1"]) if i != ch], "other channels")
    p = parts[ch]
    h.check_eq(len(p), 6, "length")
    h.check_eq(p[1], ".", "point")
    e = digits(p[0] + p[2:]) * 255 - v * 10000
    h.check(h.all([e <= 128, e >= -128]), "channel")


H2 = [["h", 1, "#12ab00", "one"], ["v", 2, "#ff0080", ""], ["v", 3, "", "lost"], ["h", 2, "", "two"]]
MONTHS = [(1970, 1, "builder"), (1972, 2, "info"), (1979, 12, "info"), (1999, 12, "info"), (2000, 2, "builder"), (2000, 3, "info"), (2011, 6, "info"),
          (2023, 2, "info"), (2038, 1, "builder"), (2040, 2, "info")]
HARNESSES = [
    Harness("attributes", h_attributes, [{"entry": k} for k in ATTRS], bounds="28 entries, one at a time, every value; texts of 2 characters of Windows-1252"),
    Harness("names", h_names, [{"order": o} for o in (["family_name", "pref_family_name", "style_name", "pref_style_name"],
                                                       ["pref_style_name", "style_name", "pref_family_name", "family_name"])],
            bounds="the four family and style names in two orders"),
    Harness("underline", h_underline, [{"position": a, "thickness": b} for a, b in ((1, 1), (0, 1), (1, 0))], bounds="every position and thickness"),
    Harness("weight and pitch", h_classes, [{}], bounds="every value"),
    Harness("style bits", h_selection, [{"high": x} for x in (0, 0x8000, 0x380)], bounds="all combinations of the seven lower bits, three of the upper ones"),
    Harness("TrueType values", h_tt_values, [{"keys": [k]} for k in TT] + [{"keys": list(TT)}], bounds="each of the 16 values alone and all together, every 32 bit value"),
    Harness("maxp values", h_tt_maxp, [{"keys": list(MAXP)}] + [{"keys": [k]} for k in MAXP], bounds="each of the six values alone and all together"),
    Harness("family class", h_tt_family_class, [{}], bounds="every 32 bit value"),
    Harness("width class", h_tt_width, [{"range": [-3, 12]}, {"range": [-(1 << 31), 0]}, {"range": [10, (1 << 31) - 1]}], bounds="every 32 bit value"),
    Harness("embedding", h_tt_type, [{"high": x} for x in (0, 0x300, -16)], bounds="all combinations of the four lower bits"),
    Harness("code pages", h_tt_codepages, [{"at": a, "fixed": x} for a, x in ((0, [0, 0]), (7, [1, 0]), (7, [0, 3]), (4, [0x80000000, 0x80000000]))],
            bounds="every combination of four bits in each half, at three positions"),
    Harness("average width", h_tt_average, [{}], bounds="every 32 bit value"),
    Harness("creation date", h_created, [{"year": None, "month": 0, "via": "builder"}] + [{"year": y, "month": m, "via": v} for y, m, v in MONTHS],
            thorough=[{"year": y, "month": m, "via": "info"} for y in range(1970, 2041, 7) for m in range(1, 13) if starts(y)[m - 1] < 1 << 32],
            bounds="every time stamp before 1970, and every second of 10 months from 1970 to 2040 (thorough: of 11 years)"),
    Harness("time stamps", h_timestamp, [{}], bounds="every time stamp from 1970"),
    Harness("gasp", h_gasp, [{"n": n} for n in (0, 1, 2)], bounds="up to 2 records, every size and combination of behaviours"),
    Harness("name records", h_name_records, [{"n": n} for n in (0, 2)], bounds="up to 2 records, non-negative ids"),
    Harness("lists", h_panose, [{"at": a, "fixed": x} for a, x in ((0, 0), (30, 1 << 127), (124, 1), (62, 1 << 96))],
            bounds="every panose value and vendor; four adjacent Unicode range bits at four positions"),
    Harness("guides", h_guides,
            [{"where": w, "num": {"h": a, "v": b}, "props": p} for w in ("font", "glyph") for a, b, p in ((1, 0, []), (0, 1, []), (1, 2, H2), (2, 1, H2))],
            thorough=[{"where": w, "num": {"h": a, "v": b}, "props": p} for w in ("font", "glyph") for a, b, p in ((1, 0, []), (0, 1, []), (1, 2, H2), (2, 2, H2))],
            bounds="up to 3 guides in 2 masters (thorough: 4), every position, angles in steps of a quarter degree"),
    Harness("guide colours", h_guide_colour, [{"channel": c} for c in range(3)], bounds="every value of a channel"),
]
