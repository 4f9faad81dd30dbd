"""C24: a Vfb object shows the file that it has read last, whatever was done before.

Files with symbolic contents are read into objects that were used before, next to other
objects, and with options; the state is compared with what the file says, and with the
state of a new object."""
from sx.spec import Harness
from checks.common import *
from checks.disk import Disk
from checks.c04 import frame

PROPERTY = "C24"
HDR = bytes.fromhex("1a574c46313003032c000000") + bytes(32)
FEATURES = ["platform", "masters", "stems", "upm", "options", "glyphs"]
ALL = ["platform", "stems", "options", "name", "glyph options"]
OPS = ["none", "decompile", "keys", "upm", "write", "edit", "masters"]


def glyph(h, v, name, w):
    e = entry(h, v, ids(h).G.Glyph.value)
    e.data = {"name": name, "num_masters": 1, "nodes": [], "metrics": [(w, 0)]}
    e.compile()
    return frame(h, e.id, e.data)


def build(h, tag, features, error=False, text=b"Fam\xc3\xa9", fixed=()):
    """A file, and what it says (`fixed`: what is not chosen, but the first)"""
    choice = lambda k, xs: xs[0] if k in fixed else h.choice(tag + k, xs)
    I = ids(h)
    w = vfb(h)
    want = {"platform": "macos", "masters": 0, "stems": (0, 0), "upm": 0, "options": None, "glyphs": [], "widths": [], "opts": []}
    out = Enc(h).raw(HDR)
    put = lambda e, d: out.raw(frame(h, e.value, d))
    if "platform" in features:
        k = choice("platform", ["windows", "macos"])
        want["platform"] = k
        put(I.F.FLVersion, Enc(h).u8(1).v(1 if k == "macos" else 0).u8(2).raw(b"\xff\x05\x02\x02\x80").u8(3).v(0).u8(0).get())
    if "masters" in features:
        m = h.int(tag + "masters", 1, 2 if "few" in fixed else 16)
        want["masters"] = m
        put(I.F.MasterCount, Enc(h).u16(m).get())
    put(I.F.family_name, text)
    if "stems" in features:
        nv, nh = choice("stems", [(2, 1), (0, 1)])
        want["stems"] = (nv, nh)
        e = Enc(h)
        for n in (nv, nh):
            e.v(n)
            for i in range(n):
                e.v(h.int(f"{tag}width{n}{nh}{i}", -100, 100)).u8(2).raw(b"ab").v(9)
        put(I.T.TrueTypeStems, e.get())
    if "upm" in features:
        u = h.int(tag + "upm", 0, 0x7FFF)
        want["upm"] = u
        put(I.F.upm, Enc(h).u16(u).get())
    if error:
        put(I.G.Glyph, b"\x01\x09\x07")
    if "options" in features:
        b = choice("options", [b"\x00\x00", b"\x05\x80"])
        put(I.F.PostScriptHintingOptions, b)
        want["options"] = b
    if "glyphs" in features:
        for i in range(2):
            name = choice("name", ["a", tag + "b"]) if i else "a"
            x = h.int(f"{tag}w{i}", -100, 100)
            want["widths"].append(x)
            want["glyphs"].append(name if name not in want["glyphs"] else name + "#1")
            out.raw(glyph(h, w, name, x))
            put(I.G.Links, Enc(h).v(1, x, 3).v(0).get())
            want["opts"].append(None)
            if i:
                b = choice("glyph options", [b"\x01\x00\x00\x00", b"\x00\x10\x00\x80"])
                put(I.G.HintingOptions, b)
                want["opts"][-1] = b
    put(I.F.BlockFileDataEnd, b"")
    return out.get(), want


def read(h, v, data):
    v.read_bytes(h.stream(data))


def use(h, v, op):
    I = ids(h)
    if op == "decompile":
        v.decompile()
    elif op == "keys":
        list(v.keys())
    elif op == "upm":
        v.info.unitsPerEm
    elif op == "write":
        v.write_bytes(h.stream())
    elif op == "masters":
        for m in v.get_masters():
            m.info.unitsPerEm
            m.glyph_order
            m.ps_hinting_options
    elif op == "edit":
        list(v.keys())
        e = entry(h, v, I.F.upm.value)
        e.data = 77
        v.entries.insert(0, e)
        v.entries.pop()


def state(h, v, want, what):
    """v shows what the file says"""
    I = ids(h)
    h.check_eq(v.writer_platform, want["platform"], "platform" + what)
    h.check_eq(v.num_masters, want["masters"], "number of masters" + what)
    h.check_eq((v.ttStemsV_count, v.ttStemsH_count), want["stems"], "number of stems" + what)
    h.check_eq(v.info.unitsPerEm, want["upm"], "units per em" + what)
    h.check_eq(list(v.keys()), want["glyphs"], "glyphs" + what)
    h.check_eq(list(v.glyph_order), want["glyphs"], "glyph order" + what)
    for k, x, o in zip(want["glyphs"], want["widths"], want["opts"]):
        g = v[k]
        h.check(k in v, "glyph" + what)
        h.check_eq(g.entry.data["metrics"][0][0], x, "width" + what)
        h.check(g.links_entry is not None, "links" + what)
        g.links_entry.decompile()
        h.check_eq(g.links_entry.data["y"], [(x, 3)], "links" + what)
        h.check((g.ps_hinting_options is None) == (o is None), "hinting options of the glyph" + what)
        if o is not None:
            h.check(raw(h, v, g.ps_hinting_options, o), "hinting options of the glyph" + what)
    h.check((v.ps_hinting_options is None) == (want["options"] is None), "hinting options" + what)
    if want["options"] is not None:
        h.check(any(e is v.ps_hinting_options for e in v.entries), "hinting options of this file" + what)
    h.check("z" not in v, "unknown glyph" + what)


def raw(h, v, e, data):
    """e has the data of the entry with these bytes"""
    f = entry(h, v, e.id)
    f.data = data
    e.decompile()
    f.decompile()
    return h.same(e.data, f.data)


def values(h, v):
    return [v.writer_platform, v.num_masters, v.ttStemsV_count, v.ttStemsH_count, v.info.unitsPerEm, list(v.keys())]


def h_reread(h):
    """a file that is read into an object that was used before"""
    with Disk(h) as disk:
        disk.modules("vfbLib.vfb.vfb")
        one, _ = build(h, "f", FEATURES, error=h.p.get("error", False), fixed=ALL + ["few"] * (h.p["op"] == "masters"))
        have = [f for f in FEATURES if h.bool("has " + f)]
        two, want = build(h, "s", have, fixed=ALL)
        cls = h.module("vfbLib.vfb.vfb").Vfb
        if h.p["way"] == "path":
            disk.put("a.vfb", one)
            disk.put("b.vfb", two)
            v = cls(disk.path("a.vfb"), timing=False)
        else:
            v = cls(timing=False)
            read(h, v, one)
        if h.p.get("error"):
            err = None
            try:
                v.decompile()
            except Exception as e:
                err = e
            h.check(err is not None, "the error is reported")
            h.check(v.any_errors, "errors are recorded")
        else:
            use(h, v, h.p["op"])
        if h.p["way"] == "path":
            v.vfb_path = disk.path("b.vfb")
            v.read()
        else:
            read(h, v, two)
        h.check(not v.any_errors, "errors of the earlier file")
        w = cls(timing=False)
        read(h, w, two)
        h.check_eq([e.id for e in v.entries], [e.id for e in w.entries], "entries")
        for e, f in zip(v.entries, w.entries):
            h.check_eq(e.data, f.data, "data")
            h.check(e.vfb is v, "parent")
        h.check_eq(v.encoding, w.encoding, "encoding")
        h.observe("values", values(h, v))
        state(h, v, want, "")
        v.decompile()
        h.check(not v.any_errors, "errors")
        s = h.stream()
        v.write_bytes(s)
        h.check_eq(s.getvalue(), two, "file that is written")
        state(h, v, want, " after writing")


HISTORY = ["decompile", "compile", "keys", "upm", "write", "dict", "set upm", "read"]


def h_history(h):
    """whatever is done with an object, it shows the file and the edits"""
    I = ids(h)
    data, want = build(h, "f", FEATURES, fixed=ALL if h.p["n"] > 1 else ())
    v = h.module("vfbLib.vfb.vfb").Vfb(timing=False)
    read(h, v, data)
    upm = next(e for e in v.entries if e.id == I.F.upm.value)
    for i in range(h.p["n"]):
        op = h.p["first"] if "first" in h.p and not i else h.choice(f"op{i}", HISTORY)
        if op == "compile":
            v.compile()
        elif op == "dict":
            v.as_dict()
        elif op == "set upm":
            x = h.int(f"x{i}", 0, 0x7FFF)
            upm.data = x
            want["upm"] = x
            h.check_eq(v.info.unitsPerEm, x, "units per em after the change")
        elif op == "read":
            data, want = build(h, f"r{i}", ["upm", "glyphs"], fixed=ALL)
            read(h, v, data)
            upm = next(e for e in v.entries if e.id == I.F.upm.value)
        else:
            use(h, v, op)
    h.observe("values", values(h, v))
    state(h, v, want, "")


def h_two(h):
    """objects that are in use at the same time"""
    I = ids(h)
    cls = h.module("vfbLib.vfb.vfb").Vfb
    texts = (b"Fam\xc3\xa9", b"\xc3\xbcbA")
    uni = [bool(h.bool(f"unicode{i}")) for i in (0, 1)]
    vs, files, wants, fam = [], [], [], []
    for i in (0, 1):
        data, want = build(h, f"f{i}", ["platform", "upm"], text=texts[i], fixed=ALL if i else ())
        files.append(data)
        wants.append(want)
        vs.append(cls(timing=False, unicode_strings=uni[i]))
        fam.append(texts[i].decode("utf-8" if uni[i] else "cp1252"))
        if not h.p["lazy"]:
            read(h, vs[i], data)
    done = [not h.p["lazy"]] * 2
    for i in range(h.p["n"]):
        k = int(h.bool(f"which{i}"))
        v = vs[k]
        op = h.choice(f"op{i}", ["read", "decompile", "write", "text", "upm"])
        if op == "read":
            read(h, v, files[k])
            done[k] = True
        elif not done[k]:
            continue
        elif op == "text":
            e = next(e for e in v.entries if e.id == I.F.family_name.value)
            e.decompile()
            h.check_eq(e.data, fam[k], "text of this file")
            e.data = e.data + "x"
            e.compile()
            h.check_eq(e.data, texts[k] + b"x", "text that is written")
            e.data = texts[k]
        elif op == "write":
            s = h.stream()
            v.write_bytes(s)
            h.check_eq(s.getvalue(), files[k], "file that is written")
        else:
            use(h, v, op)
    for k in (0, 1):
        if not done[k]:
            read(h, vs[k], files[k])
        v = vs[k]
        e = next(e for e in v.entries if e.id == I.F.family_name.value)
        e.decompile()
        h.observe(f"text{k}", e.data)
        h.check_eq(e.data, fam[k], "text")
        h.check(all(e.vfb is v for e in v.entries), "parent")
        state(h, v, wants[k], "")


def h_dropped(h):
    """what the object knows about the file does not depend on the entries that are kept"""
    I = ids(h)
    data, want = build(h, "f", FEATURES, fixed=ALL[1:])
    drop = {e.value for e in (I.F.FLVersion, I.F.MasterCount, I.T.TrueTypeStems, I.F.upm, I.G.Links) if h.bool("drop " + e.name)}
    given = set(drop)
    v = h.module("vfbLib.vfb.vfb").Vfb(timing=False, drop_keys=given)
    read(h, v, data)
    h.check_eq(v.writer_platform, want["platform"], "platform")
    h.check_eq(v.num_masters, want["masters"], "number of masters")
    h.check_eq((v.ttStemsV_count, v.ttStemsH_count), want["stems"], "number of stems")
    h.observe("values", values(h, v))
    h.check_eq(list(v.keys()), want["glyphs"], "glyphs")
    w = h.module("vfbLib.vfb.vfb").Vfb(timing=False)
    read(h, w, data)
    h.check_eq([e.id for e in v.entries], [e.id for e in w.entries if e.id not in drop], "entries")
    h.check_eq(given, drop, "the given set is not changed")
    u = h.module("vfbLib.vfb.vfb").Vfb(timing=False, only_header=True)
    read(h, u, data)
    h.check_eq(u.entries, [], "only the header")
    u.compile()
    h.check_eq(u.header.data, HDR, "header")


HARNESSES = [
    Harness("reread", h_reread, [{"way": w, "op": o} for w in ("bytes",) for o in OPS] + [{"way": "path", "op": o} for o in ("none", "keys")] + [{"way": "bytes", "op": "", "error": True}],
            bounds="a full file, one of 7 uses or an error, then a file with any of 6 kinds of entries; every value in both"),
    Harness("history", h_history, [{"n": 1}, {"n": 2}] + [{"n": 3, "first": o} for o in HISTORY], thorough=[{"n": 4, "first": o} for o in HISTORY], bounds="every history of up to 3 (4) of 8 operations"),
    Harness("two", h_two, [{"n": 2, "lazy": False}, {"n": 2, "lazy": True}], thorough=[{"n": 3, "lazy": True}, {"n": 3, "lazy": False}, {"n": 4, "lazy": True}],
            bounds="two objects, with and without the option for Unicode strings, every history of up to 2 (4) of 5 operations on either"),
    Harness("dropped", h_dropped, bounds="every subset of 5 kinds of entries"),
]
