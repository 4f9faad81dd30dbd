"""C22: output files: they are complete, they are where the user asked for them, and
nothing else is touched.

Files to write, options, existing files and failures are inputs."""
import json as _json

from sx.spec import Harness
from checks.common import *
from checks.disk import Disk

PROPERTY = "C22"
EXTRA_PACKAGES = ("fontTools",)
MODULES = ("vfbLib.vfb.vfb", "vfbLib.json", "vfbLib.cmdline", "vfbLib.cu2qu", "vfbLib.tth", "vfbLib.diff", "vfbLib.value")


def file_header(minor=0):
    import struct

    return struct.pack("<IBBBBI", 0x464C571A, 0x31, 0x30, 3, minor, 44) + bytes(32)


def new_vfb(h, masters=1):
    v = vfb(h, masters)
    v.header.data = file_header()
    v.header.decompile()
    return v


def add(h, v, eid, data):
    e = entry(h, v, eid)
    e.data = data
    v.entries.append(e)
    return e


def frame(h, eid, data):
    n = h.len(data)
    if n > 0xFFFF:
        return Enc(h).u16(eid | 0x8000).u32(n).raw(data).get()
    return Enc(h).u16(eid).u16(n).raw(data).get()


def h_write(h):
    """a VFB is written completely, or not at all"""
    I = ids(h)
    with Disk(h) as disk:
        disk.modules("vfbLib.vfb.vfb")
        v = new_vfb(h)
        want = Enc(h).raw(file_header())
        bad = False
        for i, kind in enumerate(h.p["entries"]):
            if kind == "raw":
                b = h.bytes(f"b{i}", 3)
                add(h, v, 1700 + i, b)
                want.raw(frame(h, 1700 + i, b))
            elif kind == "text":
                t = h.text(f"t{i}", 2, lo=0x20, hi=0x2FF)
                add(h, v, I.F.font_name.value, t)
                try:
                    want.raw(frame(h, I.F.font_name.value, t.encode("cp1252")))
                except UnicodeEncodeError:
                    bad = True
            elif kind == "int":
                n = h.int(f"n{i}", -(1 << 17), 1 << 17)
                add(h, v, I.F.upm.value, n)
                if 0 <= n < 1 << 16:
                    want.raw(frame(h, I.F.upm.value, Enc(h).u16(n).get()))
                else:
                    bad = True
            elif kind == "other":
                # an entry of a kind that vfbLib can't write
                add(h, v, 1700 + i, b"")
                v.entries[-1].compiler = None
                if h.bool(f"decompiled{i}"):
                    v.entries[-1].data = {"x": 1}
                    bad = True
                else:
                    want.raw(frame(h, 1700 + i, b""))
        old = None
        if h.bool("exists"):
            old = h.bytes("old", 4)
            disk.put("out.vfb", old)
        note = disk.put("note.txt", b"note")
        before = disk.names()
        err = None
        try:
            v.write(disk.path("out.vfb"))
        except Exception as e:
            err = e
        if bad:
            h.check(err is not None, "a failure is reported")
            now = disk.get("out.vfb")
            h.observe("kept", now)
            if old is None:
                h.check_eq(disk.names(), before, "no file was written")
            else:
                h.check(now is not None, "the existing file is there")
                h.check_eq(now, old, "the existing file was kept")
        else:
            h.check(err is None, f"the file was written ({err!r})"[:80])
            h.observe("written", disk.get("out.vfb"))
            h.check_eq(disk.get("out.vfb"), want.get(), "content of the file")
            h.check_eq(disk.names(), sorted(set(before) | {"out.vfb"}), "files")
        h.check_eq(disk.get("note.txt"), b"note", "other files")


# a small font in which every option matters

def ps_info():
    d = {"font_matrix": (0.001, 0.0, 0.0, 0.001, 0.0, 0.0), "blue_scale": 0.04, "bounding_box": {"xMin": 0, "yMin": 0, "xMax": 1, "yMax": 1}}
    for k, n in (("blue_values", 14), ("other_blues", 10), ("family_blues", 14), ("family_other_blues", 10), ("stem_snap_h", 12), ("stem_snap_v", 12)):
        d[k] = [0] * n
    for k in ("force_bold", "blue_shift", "blue_fuzz", "std_hw", "std_vw", "adv_width_min", "adv_width_max", "adv_width_avg", "ascender", "descender", "x_height", "cap_height"):
        d[k] = 1
    return d


def small_font(h, masters):
    """The bytes of a font"""
    I = ids(h)
    F, G, M, T = I.F, I.G, I.M, I.T
    v = new_vfb(h, masters)
    put = lambda e, d: add(h, v, e.value, d)
    put(F.Encoding, (65, "A"))
    put(F.font_name, "X-R")
    put(F.family_name, "Fam\xc3\xa9")
    put(F.pref_family_name, "Fam\xc3\xa9")
    put(F.upm, 1000)
    put(F.MasterCount, masters)
    if masters > 1:
        put(F.AxisCount, 1)
        put(F.AxisName, "Weight")
        for m in range(masters):
            put(M.MasterName, f"M{m}")
            put(M.MasterLocation, (m + 1, (float(m), 0.0, 0.0, 0.0)))
    for m in range(masters):
        put(M.PostScriptInfo, ps_info())
    put(F.GlyphClass, "other: A gone")
    put(F.GlyphClass, "_K: A' B")
    put(F.KerningClassFlags, {"_K": (1 << 10, 0)})
    for n, name in enumerate("AB"):
        d = {"name": name, "num_masters": masters, "nodes": [
            {"type": "move", "flags": 0, "points": [[(0, 0)] for _ in range(masters)]},
            {"type": "line", "flags": 0, "points": [[(100 + n, 0)] for _ in range(masters)]},
            {"type": "curve", "flags": 0, "points": [[(0, 100 + m), (100, 50), (50, 100)] for m in range(masters)]},
        ], "metrics": [(500 + m, 0) for m in range(masters)],
            "hints": {"h": [[{"pos": 0, "width": 20}] * masters], "v": []},
            "guides": {"h": [[{"pos": 7, "angle": 0}] * masters], "v": []},
            "tth": [{"cmd": "AlignH", "params": {"pt": 1, "align": 0}}] if not n else []}
        put(G.Glyph, d)
        put(G.Links, {"x": [], "y": [(0, 1)]})
        if not n:
            put(G.mark, 5)
    add(h, v, F.BlockFileDataEnd.value, b"")
    s = h.stream()
    v.write_bytes(s)
    return s.getvalue()


def fonts_of(h, builder):
    return [summary(f) for f in builder.get_ufo_masters(silent=True)]


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x if isinstance(x, (str, int, float, bytes, bool)) or x is None else str(x)


def summary(font):
    return {"features": font.features.text, "groups": plain(dict(font.groups)), "lib": plain(dict(font.lib)), "family": font.info.familyName,
            "glyphs": {g.name: [g.width, len(g), plain(dict(g.lib)), len(g.guidelines)] for g in font},
            "kerning": len(font.kerning)}


def ufo_stubs(h, disk):
    """UFO writing is ufoLib2's; what is written is recorded, and there is a file"""
    import ufoLib2
    from fontTools.designspaceLib import DesignSpaceDocument

    log = []

    def save(font, path, formatVersion=3, structure=None, overwrite=False, validate=True):
        p = disk.root / path
        if p.exists() and not overwrite:
            raise FileExistsError(str(p))
        p.write_bytes(b"new")
        log.append((str(p.relative_to(disk.root)), "zip" if structure is not None else "ufo", summary(font)))

    def json_dump(font, fp, indent=None, sort_keys=False):
        p = disk.root / fp
        p.write_bytes(b"new")
        log.append((str(p.relative_to(disk.root)), "flat" if indent is None else "json", summary(font)))

    def write(ds, path, **k):
        p = disk.root / path
        p.write_bytes(b"new")
        log.append((str(p.relative_to(disk.root)), "ds", None))

    def normalize(ufoPath, **k):
        log.append((str((disk.root / ufoPath).relative_to(disk.root)), "normalized", None))

    disk.patch(ufoLib2.Font, "save", save)
    disk.patch(ufoLib2.Font, "json_dump", json_dump)
    disk.patch(h.module("vfbLib.ufo.builder"), "normalizeUFO", normalize)
    disk.patch(DesignSpaceDocument, "write", write)
    return log


def options(h, names, argv):
    """Symbolic options; those that are on are in the command line"""
    on = {}
    for n in names:
        on[n] = bool(h.bool("opt" + n))
        if on[n]:
            argv.append(n)
    return on


def h_vfb3ufo(h):
    """vfb3ufo writes what it should where it should, and keeps existing files"""
    masters = h.p["masters"]
    with Disk(h) as disk:
        mod = disk.modules(*MODULES, "vfbLib.ufo.builder")
        log = ufo_stubs(h, disk)
        src = disk.put("in/My.Font.vfb", small_font(h, masters))
        source = disk.get(src)
        disk.path("out").mkdir()
        argv = ["in/My.Font.vfb"]
        where, stem = "in", "My.Font"
        if h.p["output"]:
            sub = "sub/" if h.p["output"] == 2 else ""
            disk.path("out/sub").mkdir()
            argv.append(f"{sub}other.ufo" if h.p["path"] else f"out/{sub}other.ufo")
            where, stem = "out", sub + "other"
        if h.p["path"]:
            argv += ["-p", "out"]
            where = "out"
        on = options(h, ["-fo", "-j", "-z", "-s", "-n"], argv)
        h.assume(not (h.p["output"] and on["-z"]))
        ext = "json" if on["-j"] else "ufoz" if on["-z"] else "ufo"
        outs = [f"{where}/{stem}{'-%d' % m if m else ''}.{ext}" for m in range(masters)] + ([f"{where}/{stem}.designspace"] if masters > 1 else [])
        there = [o for i, o in enumerate(outs) if h.bool(f"exists{i}")]
        for o in there:
            disk.put(o, b"old")
        disk.put(f"{where}/{stem}-9.ufo", b"old")
        before = disk.names()
        err = disk.run(h.module("vfbLib.cmdline").vfb2ufo, *argv)
        h.observe("result", [err is None, disk.names(), sorted(set(x[0] for x in log))])
        h.check_eq(disk.get(src), source, "the input file was kept")
        h.check_eq(disk.get(f"{where}/{stem}-9.ufo"), b"old", "other files were kept")
        if there and not on["-fo"]:
            h.check(err is not None, "existing files are reported")
            h.check_eq(disk.names(), before, "nothing was written")
            for o in there:
                h.check_eq(disk.get(o), b"old", "existing files were kept")
            return
        h.check(err is None, f"converted ({err!r})"[:100])
        h.check_eq(disk.names(), sorted(set(before) | set(outs)), "files that were written")
        for o in outs:
            h.check_eq(disk.get(o), b"new", "file was written")
        kind = ("flat" if on["-z"] else "json") if on["-j"] else "zip" if on["-z"] else "ufo"
        written = [x for x in log if x[1] not in ("normalized", "ds")]
        h.check_eq([(x[0], x[1]) for x in written], [(o, kind) for o in outs[:masters]], "UFOs that were written")
        norm = sorted(set(x[0] for x in log if x[1] == "normalized"))
        h.check_eq(norm, [] if on["-n"] or kind != "ufo" else sorted(outs[:masters]), "UFOs that were normalized")
        if on["-s"]:
            h.check_eq(len(disk.output()), 0, "nothing is printed in silent mode")
        for m, x in enumerate(written):
            h.check_eq(x[2]["glyphs"]["A"][0], 500 + m, "master")


def h_options(h):
    """the options of vfb3ufo have their effect, and no other"""
    with Disk(h) as disk:
        disk.modules(*MODULES, "vfbLib.ufo.builder")
        log = ufo_stubs(h, disk)
        data = small_font(h, 1)
        disk.put("F.vfb", data)
        argv = ["F.vfb", "-s"]
        on = options(h, ["-g", "-k", "-64", "-nops", "-m", "-u"], argv)
        err = disk.run(h.module("vfbLib.cmdline").vfb2ufo, *argv)
        h.check(err is None, f"converted ({err!r})"[:100])
        got = [x[2] for x in log if x[1] == "ufo"]
        h.check_eq(len(got), 1, "one UFO")
        f = got[0]
        h.observe("font", [f["features"] or "", sorted(f["groups"]), f["glyphs"]["A"][3], sorted(f["glyphs"]["A"][2])])
        fea = f["features"] or ""
        h.check(("other" in f["groups"]) == on["-g"], "-g keeps the other groups")
        h.check(("@other" in fea) == (not on["-g"]), "other groups are in the features")
        h.check((".kern1._K" in fea) == on["-k"], "-k adds the kerning groups to the features")
        members = f["groups"].get("other") or fea
        h.check(("gone" in members) == (not on["-m"]), "-m drops missing glyphs")
        h.check((f["glyphs"]["A"][3] > 0) == (not on["-m"]), "-m drops guides")
        hints = [k for k in f["glyphs"]["A"][2] if "hint" in k.lower() and "adobe" in k.lower()]
        h.check((len(hints) > 0) == (not on["-nops"]), "-nops drops PostScript hints")
        h.check_eq(f["family"], "Fam\xe9" if on["-u"] else "Fam\xc3\xa9", "-u reads Unicode strings")
        v = h.module("vfbLib.vfb.vfb").Vfb(timing=False, unicode_strings=on["-u"], minimal=on["-m"])
        v.drop_keys = {ids(h).F.Encoding, ids(h).F.EncodingDefault}
        v.read_bytes(h.stream(data))
        v.decompile()
        b = h.module("vfbLib.ufo.builder").VfbToUfoBuilder(v, minimal=on["-m"], base64=on["-64"], pshints=not on["-nops"], add_kerning_groups=on["-k"], move_groups=not on["-g"])
        h.check_eq(f, fonts_of(h, b)[0], "the font of the given options")


def location(h, argv, name, suffix, other=None):
    """Where the output must be, for the positions in the parameters"""
    where, stem = "in", name + suffix
    if h.p.get("output"):
        other = ("sub/" if h.p["output"] == 2 else "") + other
        argv.append(other if h.p["path"] else "out/" + other)
        where, stem = "out", other
    if h.p["path"]:
        argv += ["-p", "out"]
        where = "out"
    return where + "/" + stem


def entries_of(h, data):
    """(id, data) of the entries in a file"""
    v = h.module("vfbLib.vfb.vfb").Vfb(timing=False)
    v.read_bytes(h.stream(data))
    return v, [(e.id, e.data) for e in v.entries]


def unhex(t):
    return bytes.fromhex(t.replace(" ", ""))


def h_vfb2json(h):
    """vfb2json writes the entries, in order"""
    I = ids(h)
    with Disk(h) as disk:
        disk.modules(*MODULES)
        data = small_font(h, h.p["masters"])
        disk.put("in/My.Font.vfb", data)
        disk.path("out").mkdir()
        argv = ["in/My.Font.vfb"]
        out = location(h, argv, "My.Font", ".vfb.json")
        on = options(h, ["-d", "--header", "-r", "-u"], argv)
        if h.bool("exists"):
            disk.put(out, b"old")
        before = disk.names()
        err = disk.run(h.module("vfbLib.cmdline").vfb2json, *argv)
        h.check(err is None, f"converted ({err!r})"[:100])
        h.check_eq(disk.names(), sorted(set(before) | {out}), "files that were written")
        h.check_eq(disk.get("in/My.Font.vfb"), data, "the input file was kept")
        d = _json.loads(disk.get(out))
        h.observe("json", d)
        h.check_eq(sorted(d), ["entries", "header"], "keys")
        h.check_eq(d["header"]["decompiled"]["signature"] if isinstance(d["header"]["decompiled"], dict) else unhex(d["header"]["decompiled"])[:4], 0x464C571A if isinstance(d["header"]["decompiled"], dict) else b"\x1aWLF", "header")
        if on["--header"]:
            h.check_eq(d["entries"], [], "only the header")
            return
        v, es = entries_of(h, data)
        h.check_eq([e["key"] for e in d["entries"]], [str(e.key) for e in v.entries], "entries")
        w = h.module("vfbLib.vfb.vfb").Vfb(timing=False, unicode_strings=on["-u"])
        w.read_bytes(h.stream(data))
        w.decompile()
        for e, (i, raw), full in zip(d["entries"], es, w.entries):
            if on["-d"]:
                if isinstance(raw, bytes):
                    h.check_eq(unhex(e["decompiled"]), raw, "data of an entry")
                    h.check_eq(e["size"], len(raw), "size of an entry")
            elif i == I.F.BlockFileDataEnd.value:
                pass
            else:
                h.check_eq(jplain(e["decompiled"]), jplain(full.data), "data of an entry")
            if i == I.F.family_name.value and not on["-d"]:
                h.check_eq(e["decompiled"], "Fam\xe9" if on["-u"] else "Fam\xc3\xa9", "-u reads Unicode strings")


def jplain(x):
    if isinstance(x, dict):
        return {str(k): jplain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jplain(v) for v in x]
    return x


def area(nodes, m):
    """(which way round the points are)"""
    pts = [p for n in nodes for p in n["points"][m][1:] + n["points"][m][:1]]
    return sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(pts, pts[1:] + pts[:1]))


def converted(points, masters, error):
    """How many off-curve points it takes for the (only) curve of a contour"""
    from fontTools.cu2qu import curves_to_quadratic

    i = next(i for i, p in enumerate(points) if len(p[0]) == 3)
    cubics = [[points[i - 1][m][0], points[i][m][1], points[i][m][2], points[i][m][0]] for m in range(masters)]
    return len(curves_to_quadratic(cubics, [error] * masters)[0]) - 2


def h_cu2qu(h):
    """vfbcu2qu writes a VFB with quadratic curves; everything else is as it was"""
    I = ids(h)
    masters = h.p["masters"]
    with Disk(h) as disk:
        disk.modules(*MODULES)
        data = small_font(h, masters)
        v, es = entries_of(h, data)
        disk.put("in/My.Font.vfb", data)
        disk.path("out/sub").mkdir(parents=True)
        argv = ["in/My.Font.vfb"]
        out = location(h, argv, "My.Font", ".vfb" if h.p["path"] else ".qu.vfb", "other.vfb")
        on = options(h, ["-fo"], argv)
        tolerance = h.choice("max error", ["", "0.0002", "0.01"]) if h.p["errors"] else ""
        if tolerance:
            argv += ["-m", tolerance]
        exists = bool(h.bool("exists"))
        if exists:
            disk.put(out, b"old")
        before = disk.names()
        err = disk.run(h.module("vfbLib.cu2qu").vfbcu2qu, *argv)
        h.check_eq(disk.get("in/My.Font.vfb"), data, "the input file was kept")
        if exists and not on["-fo"]:
            h.check(err is not None, "existing files are reported")
            h.check_eq(disk.names(), before, "nothing was written")
            h.check_eq(disk.get(out), b"old", "existing files were kept")
            return
        h.check(err is None, f"converted ({err!r})"[:100])
        h.check_eq(disk.names(), sorted(set(before) | {out}), "files that were written")
        w, got = entries_of(h, disk.get(out))
        h.observe("entries", [i for i, _ in got])
        h.check_eq([i for i, _ in got], [i for i, _ in es if i != I.G.Links.value], "entries")
        for e, f in zip([e for e in v.entries if e.id != I.G.Links.value], w.entries):
            if e.id != I.G.Glyph.value:
                h.check_eq(f.data, e.data, "data of other entries")
                continue
            e.decompile()
            f.decompile()
            h.check_eq(f.data["name"], e.data["name"], "name")
            h.check_eq([tuple(x) for x in f.data["metrics"]], [tuple(x) for x in e.data["metrics"]], "metrics")
            types = [n["type"] for n in f.data["nodes"]]
            h.check("tth" not in f.data and "hintmasks" not in f.data.get("hints", {}), "commands and hint masks for nodes that are gone")
            h.check("curve" not in types and "qcurve" in types, "quadratic curves")
            off = converted([n["points"] for n in e.data["nodes"]], masters, float(tolerance or 0.001) * 1000)
            h.check_eq(len([t for t in types if t == "qcurve"]), off, "number of off-curve points for the allowed error")
            for m in range(masters):
                h.check_eq(area(f.data["nodes"], m) < 0, area(e.data["nodes"], m) > 0, "direction of TrueType")
                pts = sorted(p for n in e.data["nodes"] for p in n["points"][m][:1])
                new = [n["points"][m][0] for n in f.data["nodes"]]
                for p in pts:
                    h.check(any(abs(p[0] - q[0]) <= 1 and abs(p[1] - q[1]) <= 1 for q in new), "on-curve points of a master")


def h_unmodified(h):
    """vfbcu2qu writes nothing if there are no outlines"""
    I = ids(h)
    masters = h.p["masters"]
    with Disk(h) as disk:
        disk.modules(*MODULES)
        v = new_vfb(h, masters)
        add(h, v, I.F.upm.value, 1000)
        add(h, v, I.F.MasterCount.value, masters)
        kinds = h.choice("nodes", ["", "mll", "mlc"])
        node = {"m": "move", "l": "line", "q": "qcurve", "c": "curve"}
        # (outlines of symbolic numbers are converted by fontTools, which is no matter here)
        nodes = [{"type": node[k], "flags": 0, "points": [[(100 * i, 40 * i * i + m)] + [(90, 10), (95, 20)] * (k == "c") for m in range(masters)]} for i, k in enumerate(kinds)]
        add(h, v, I.G.Glyph.value, {"name": "A", "num_masters": masters, "nodes": nodes, "metrics": [(h.int("width", *I16), 0)] * masters})
        add(h, v, I.G.Links.value, {"x": [], "y": []})
        add(h, v, I.F.BlockFileDataEnd.value, b"")
        s = h.stream()
        v.write_bytes(s)
        disk.put("a.vfb", s.getvalue())
        there = bool(h.bool("exists"))
        if there:
            disk.put("a.qu.vfb", b"old")
        on = options(h, ["-fo"], argv := ["a.vfb"])
        err = disk.run(h.module("vfbLib.cu2qu").vfbcu2qu, *argv)
        h.observe("result", [err is None, disk.names()])
        h.check_eq(disk.get("a.vfb"), s.getvalue(), "the input file was kept")
        if not kinds:
            h.check(err is None, "no error")
            h.check_eq(disk.get("a.qu.vfb"), b"old" if there else None, "nothing was written")
        else:
            h.check_eq((err is not None) or disk.get("a.qu.vfb") == b"old", there and not on["-fo"], "converted")


def h_unreadable(h):
    """input that is not there, or that cannot be decoded, is reported; nothing is written"""
    I = ids(h)
    with Disk(h) as disk:
        disk.modules(*MODULES, "vfbLib.ufo.builder")
        log = ufo_stubs(h, disk)
        fn, out = {
            "vfb3ufo": (h.module("vfbLib.cmdline").vfb2ufo, "a.ufo"),
            "vfb2json": (h.module("vfbLib.cmdline").vfb2json, "a.vfb.json"),
            "vfbcu2qu": (h.module("vfbLib.cu2qu").vfbcu2qu, "a.qu.vfb"),
            "vfb2tth": (h.module("vfbLib.tth").vfb2tth, "a.tth.json"),
            "vfbdiff": (h.module("vfbLib.diff").diffvfb, "diff.html"),
        }[h.p["tool"]]
        argv = ["a.vfb"]
        if h.p["tool"] == "vfbdiff":
            first = bool(h.bool("first"))
            argv = (["a.vfb", "b.vfb"] if first else ["b.vfb", "a.vfb"]) + ["--html", out]
            disk.put("b.vfb", small_font(h, 1))
        data = None
        what = h.choice("what", ["missing", "empty", "cut header", "glyph"])
        if what == "glyph":
            # (the metrics of the glyph are cut off)
            bad = Enc(h).raw(b"\x01\x09\x07\x01").u8(1).v(1).raw(b"\x41").u8(2).get()
            data = Enc(h).raw(file_header()).raw(frame(h, I.F.MasterCount.value, b"\x01\x00")).raw(frame(h, I.G.Glyph.value, bad)).raw(frame(h, I.F.BlockFileDataEnd.value, b"")).get()
        elif what == "cut header":
            data = file_header()[:h.choice("size", [1, 4, 8, 11])]
        elif what == "empty":
            data = b""
        if data is not None:
            disk.put("a.vfb", data)
        there = bool(h.bool("exists"))
        if there:
            disk.put(out, b"old")
        before = disk.names()
        if h.p["tool"] in ("vfb3ufo", "vfbcu2qu") and h.bool("overwrite"):
            argv.append("-fo")
        err = disk.run(fn, *argv)
        h.observe("result", [err is None, disk.names()])
        h.check(err is not None, "the error is reported")
        h.check_eq(disk.names(), before, "nothing was written")
        if there:
            h.check_eq(disk.get(out), b"old", "the existing file was kept")
        if data is not None:
            h.check_eq(disk.get("a.vfb"), data, "the input file was kept")


def h_tth(h):
    """vfb2tth writes the hinting in the format that was asked for"""
    with Disk(h) as disk:
        disk.modules(*MODULES)
        data = small_font(h, 1)
        disk.put("in/My.Font.vfb", data)
        disk.path("out").mkdir()
        argv = ["in/My.Font.vfb"]
        f = h.choice("format", ["", "json", "toml"])
        if f:
            argv += ["-f", f]
        out = location(h, argv, "My.Font", ".tth." + (f or "json"))
        if h.bool("exists"):
            disk.put(out, b"old")
        before = disk.names()
        err = disk.run(h.module("vfbLib.tth").vfb2tth, *argv)
        h.check(err is None, f"converted ({err!r})"[:100])
        h.check_eq(disk.names(), sorted(set(before) | {out}), "files that were written")
        h.check_eq(disk.get("in/My.Font.vfb"), data, "the input file was kept")
        import tomllib

        got = disk.get(out)
        d = tomllib.loads(got.decode()) if f == "toml" else _json.loads(got)
        h.observe("hinting", d)
        w, _ = entries_of(h, data)
        h.check_eq(d, jplain(h.module("vfbLib.tth").extract_truetype_hinting(w)), "hinting")
        h.check("A" in d["glyphs"], "glyph")


def h_diff(h):
    """vfbdiff shows what is different"""
    I = ids(h)
    with Disk(h) as disk:
        disk.modules(*MODULES)
        values = []
        for i in (1, 2):
            v = new_vfb(h)
            add(h, v, I.F.MasterCount.value, 1)
            values.append((h.choice(f"u{i}", [1000, 2048]), h.choice(f"n{i}", ["abc", "xyz"])))
            add(h, v, I.F.upm.value, values[-1][0])
            add(h, v, I.F.font_name.value, values[-1][1])
            add(h, v, I.F.BlockFileDataEnd.value, b"")
            s = h.stream()
            v.write_bytes(s)
            disk.put(f"f{i}.vfb", s.getvalue())
        argv = ["f1.vfb", "f2.vfb"]
        html = bool(h.bool("html"))
        if html:
            argv += ["--html", "d.html"]
        before = disk.names()
        err = disk.run(h.module("vfbLib.diff").diffvfb, *argv)
        h.check(err is None, f"compared ({err!r})"[:100])
        h.check_eq(disk.names(), sorted(before + ["d.html"] * html), "files")
        words = [(str(a), str(b)) for a, b in zip(*values) if a != b]
        if html:
            text = disk.get("d.html").decode()
            h.observe("html", len(text) > 0)
            rows = [r for r in text.split("\n") if "diff_" in r and "<td" in r]
            if not words:
                h.check("No Differences" in text, "no differences")
            for a, b in words:
                # (characters that the two have in common are not marked)
                h.check(any(marked(r, a) and marked(r, b) for r in rows), "what is different is in one row")
        else:
            lines = [a[0] for a in disk.output()]
            minus = [x[1:].strip() for x in lines if x.startswith("-") and not x.startswith("---")]
            plus = [x[1:].strip() for x in lines if x.startswith("+") and not x.startswith("+++")]
            h.observe("diff", [minus, plus])
            h.check_eq((len(minus), len(plus)), (len(words), len(words)), "number of differences")
            for (a, b), x, y in zip(words, minus, plus):
                h.check(a in x and b in y, "differences")


def marked(row, word):
    """a word in HTML, whatever parts of it are marked"""
    import re

    return word in re.sub("<[^>]*>", "", row)


def h_yuri(h):
    """yuri encodes numbers and decodes them"""
    with Disk(h) as disk:
        m = disk.modules(*MODULES)
        long, signed = bool(h.bool("long")), bool(h.bool("signed"))
        n = h.p["n"]
        xs = [h.int(f"x{i}", *(I32 if signed else (-1131, I32[1]))) for i in range(n)]
        if not signed:
            for x in xs:
                h.assume(x >= (0 if long else -1131))
        args = {}

        class Parser:
            description = ""

            def __init__(self, *a, **k):
                pass

            def add_argument(self, *a, **k):
                pass

            def parse_args(self, *a):
                return Args()

        class Args:
            def __getattr__(self, k):
                return args[k]

        disk.patch(m, "ArgumentParser", Parser)
        args.update(encode=True, long=long, signed=signed, hexstring=xs)
        m.yuri()
        (text,), = disk.output()
        h.observe("encoded", text)
        if long:
            h.check_eq(len(text), 10 * n, "longest notation")
        disk.printed.clear()
        args.update(encode=False, hexstring=[text])
        m.yuri()
        got = [a[0] for a in disk.output()]
        h.observe("decoded", got)
        h.check_eq(got, xs, "decoded numbers")


HARNESSES = [
    Harness("write", h_write, [{"entries": e} for e in (["raw"], ["text"], ["int"], ["other"], ["raw", "text", "int"], ["int", "raw", "other"], ["text", "other", "text"])],
            bounds="up to 3 entries with any bytes, any text of 2 characters, any number up to 2^17, that can or cannot be encoded; with and without an existing file"),
    Harness("vfb3ufo", h_vfb3ufo, [{"masters": m, "path": p, "output": o} for m in (1, 2) for p in (0, 1) for o in (0, 1, 2) if m < 2 or o < 2],
            bounds="every combination of 7 options, 1 and 2 masters, every set of existing files"),
    Harness("vfb3ufo options", h_options, bounds="every combination of 6 options"),
    Harness("vfb2json", h_vfb2json, [{"masters": m, "path": p} for m in (1, 2) for p in (0, 1)], bounds="every combination of 4 options, with and without an existing file"),
    Harness("vfbcu2qu", h_cu2qu, [{"masters": m, "path": p, "output": o, "errors": p == o} for m in (1, 2) for p in (0, 1) for o in (0, 1, 2) if m < 2 or o < 2],
            bounds="1 and 2 masters, every combination of 3 options, with and without an existing file"),
    Harness("nothing to convert", h_unmodified, [{"masters": m} for m in (1, 2)], bounds="1 and 2 masters, 3 outlines, none, with and without curves"),
    Harness("unreadable", h_unreadable, [{"tool": t} for t in ("vfb3ufo", "vfb2json", "vfbcu2qu", "vfb2tth", "vfbdiff")],
            bounds="5 tools, 4 kinds of unreadable input, with and without an existing file"),
    Harness("vfb2tth", h_tth, [{"path": p} for p in (0, 1)], bounds="2 formats, with and without an existing file"),
    Harness("vfbdiff", h_diff, bounds="every combination of two values in two entries of two files, both formats"),
    Harness("yuri", h_yuri, [{"n": n} for n in (1, 2)], bounds="up to 2 numbers of 32 bits"),
]
