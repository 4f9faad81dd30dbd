"""C11: text entries: name records, OpenType feature code, class flags."""
from sx.spec import Harness
from checks.common import *

PROPERTY = "C11"


def h_names(h):
    """any record that is not in the Mac Roman encoding"""
    e = Enc(h).v(h.p["n"])
    d = []
    for i in range(h.p["n"]):
        r = [h.int(f"{k}{i}", *I32) for k in ("name", "plat", "enc", "lang")]
        h.assume(h.not_(h.all([r[1] == 1, r[2] == 0])))
        t = h.text(f"t{i}", h.p["len"], ranges=[(0, 0x10FFFF)])
        e.v(*r).v(h.p["len"])
        for c in t:
            e.v(_ord(h, c))
        d.append((*r, t))
    roundtrip(h, ids(h).F.fontnames.value, d, e.get())


def _ord(h, c):
    if h.symbolic:
        from sx.seqs import str_chars

        return str_chars(c)[0]
    return ord(c)


def h_names_mac(h):
    """Mac Roman records: every character of that encoding"""
    codes = [h.int(f"c{i}", *U8) for i in range(h.p["len"])]
    n, lang = h.int("name", *I32), h.int("lang", *I32)
    e = Enc(h).v(1, n, 1, 0, lang, len(codes), *codes)
    t = mac(h, codes)
    roundtrip(h, ids(h).F.fontnames.value, [(n, 1, 0, lang, t)], e.get())


def mac(h, codes):
    table = bytes(range(256)).decode("macroman")
    if not h.symbolic:
        return "".join(table[c] for c in codes)
    from sx.seqs import mkstr

    out = []
    for c in codes:
        v = c
        for i in range(255, 127, -1):
            v = h.ite(c == i, ord(table[i]), v)
        out.append(v)
    return mkstr(out)


def h_names_read(h):
    """codes that are no characters do not stop the other records from being read"""
    c = h.int("code", *I32)
    plat, enc = h.pick("platform", 0, 3), h.pick("encoding", 0, 1)
    e = Enc(h).v(2, 1, plat, enc, 9, 2, c, 65).v(2, 3, 1, 1033, 1, 66)
    en = entry(h, vfb(h), ids(h).F.fontnames.value)
    en.data = e.get()
    en.decompile()
    h.check_eq(h.len(en.data), 2, "records")
    h.check_eq(en.data[0][:4], (1, plat, enc, 9), "first record")
    h.check_eq(h.len(en.data[0][4]), 2, "first name")
    h.check_eq(en.data[0][4][1], "A", "second character")
    if plat == 1 and enc == 0:
        bad = h.any([c < 0, c > 255])
    else:
        bad = h.any([c < 0, c > 0x10FFFF])
    if bad:
        h.check_eq(en.data[0][4][0], "\ufeff", "placeholder")
    h.check_eq(en.data[1], (2, 3, 1, 1033, "B"), "second record")


def h_features(h):
    """reading feature code keeps every line with content, squeezes runs of empty
    lines to two, ends in one line break, and is stable"""
    n = h.p["n"]
    alphabet = {"ws": [(10, 10), (32, 32), (97, 97)], "cr": [(10, 10), (13, 13), (97, 97)],
                "cp": CP1252 + [(10, 10)], "two": [(10, 10), (97, 97)]}[h.p["chars"]]
    t = h.text("t", n, ranges=alphabet)
    features(h, t)


def h_feature_lines(h):
    """the same for longer texts whose lines are given: e(mpty), s(pace or tab), x
    (text, perhaps indented)"""
    t = ""
    for i, k in enumerate(h.p["lines"]):
        if k == "s":
            t = t + h.text(f"l{i}", 1, ranges=[(9, 9), (32, 32)])
        elif k == "x":
            t = t + h.text(f"l{i}", 1, ranges=[(32, 32), (33, 126)]) + h.text(f"m{i}", 1, ranges=[(33, 126)])
        if i < len(h.p["lines"]) - 1 or h.p.get("nl", 1):
            t = t + "\n"
    features(h, t)


def features(h, t):
    en = entry(h, vfb(h), ids(h).F.features.value)
    en.data = t.encode("cp1252")
    en.decompile()
    got = en.data
    h.observe("lines", got)
    lines = t.splitlines()
    full = [x for x in lines if x.strip()]
    h.check_eq([x for x in got if x.strip()], full, "lines with content")
    h.check_eq(got[-1], "", "last line")
    blank = 0
    for x in got:
        blank = 0 if x.strip() else blank + 1
        h.check(blank <= 3, "no more than two empty lines")
    if len(got) > 1 and len(lines) > 1:
        h.check(got[-2] != "", "one line break at the end")
    # empty lines between lines with content: as many as there were, at most two
    def gaps(ls):
        out, b, seen = [], 0, False
        for x in ls:
            if x.strip():
                if seen:
                    out.append(min(b, 2))
                b, seen = 0, True
            else:
                b += 1
        return out

    h.check_eq(gaps(got), gaps(lines), "empty lines in between")
    d = copy(got)
    en.compile()
    h.observe("compiled", en.data)
    h.check_eq(en.data, "\n".join(d).encode("cp1252"), "written lines")
    en.decompile()
    h.check_eq(en.data, d, "read again")


def h_features_write(h):
    """lines are written in their order, without changes"""
    ls = [h.text(f"l{i}", k, ranges=CP1252) for i, k in enumerate(h.p["lens"])]
    en = entry(h, vfb(h), ids(h).F.features.value)
    en.data = list(ls) + [""]
    en.compile()
    e = Enc(h)
    for x in ls:
        e.s_(x).raw(b"\n")
    h.check_eq(en.data, e.get(), "bytes")


def h_flags(h):
    k = h.p["flags"]
    e = Enc(h).v(h.p["n"])
    d = {}
    for i in range(h.p["n"]):
        nm = "_" + str(i) + text(h, f"name{i}", h.p["len"], h.p.get("long"))
        fl = tuple(h.int(f"f{i}{j}", *I32) for j in range(k))
        d[nm] = fl
        e.sl(nm).v(*fl)
    F = ids(h).F
    roundtrip(h, (F.KerningClassFlags if k == 2 else F.MetricsClassFlags).value, d, e.get())


HARNESSES = [
    Harness("name records", h_names, [{"n": n, "len": k} for n, k in ((0, 0), (1, 0), (1, 2), (2, 1))],
            bounds="up to 2 records, names up to 2 characters, every value"),
    Harness("mac names", h_names_mac, [{"len": n} for n in (1, 2)], bounds="up to 2 characters of Mac Roman"),
    Harness("unusual names", h_names_read, bounds="every code, platforms 0-3, encodings 0-1"),
    Harness("feature code", h_features,
            [{"n": n, "chars": c} for n, c in ((0, "ws"), (1, "cp"), (2, "cp"), (3, "ws"), (4, "ws"), (3, "cr"), (4, "cr"), (6, "two"))],
            thorough=[{"n": n, "chars": c} for n, c in ((3, "cp"), (5, "ws"), (6, "ws"), (5, "cr"), (8, "two"))],
            bounds="up to 4 characters of letter, space, line feed; 4 with carriage returns; 6 of letter and line feed; 2 of Windows-1252"),
    Harness("feature lines", h_feature_lines,
            [{"lines": l} for l in ("xeexeexe", "xsesxeex", "eeexex", "xexexee", "xeeeexeeex", "sxessex", "eee", "xxees", "seseses")] + [{"lines": "xexsx", "nl": 0}],
            thorough=[{"lines": "".join(l), "nl": n} for n in (0, 1) for l in __import__("itertools").product("esx", repeat=5)],
            bounds="ten texts of up to ten lines: empty, one space or tab, two characters with or without indent"),
    Harness("feature code written", h_features_write, [{"lens": l} for l in ([], [0], [2], [1, 0, 1], [0, 0, 0, 1])],
            bounds="up to 4 lines of up to 2 characters"),
    Harness("class flags", h_flags, [{"n": n, "flags": f, "len": k} for f in (2, 3) for n, k in ((0, 0), (1, 0), (1, 2), (2, 1), (3, 0))]
            + [{"n": 1, "flags": 2, "len": 1, "long": True}],
            bounds="up to 3 classes, every flag value, names up to 4 characters (111 once)"),
]
