"""C10: bitmaps survive the run-length encoding."""
from sx.spec import Harness
from checks.common import *

PROPERTY = "C10"


def pixels(h, runs):
    """byte values of the picture: for each number a run of that length of one
    symbolic value (neighbouring runs may have the same value)"""
    out = []
    for i, n in enumerate(runs):
        out += [h.int(f"b{i}", *U8)] * n
    return out


def rows(data, w):
    bpr = max((w + 15) // 16 * 2, 2)
    return [data[i:i + bpr] for i in range(0, len(data), bpr)]


def preview(h, rs, w):
    out = []
    for r in rs:
        cells = []
        for b in r:
            for k in range(7, -1, -1):
                bit = (b >> k) & 1
                cells += [h.ite(bit == 1, 0x2588, 0x20), h.ite(bit == 1, 0x2589, 0x2595)]
        cells = cells[:w * 2]
        if h.symbolic:
            from sx.seqs import mkstr

            out.append(mkstr(cells))
        else:
            out.append("".join(map(chr, cells)))
    return out


def decode(h, data, n):
    """independent decoder of the run-length format; checks its limits"""
    out, i = [], 0
    while i < n:
        c = data[i]
        i += 1
        if c < 128:
            c = c + 0
            k = 0
            while k <= c:
                out.append(data[i])
                i += 1
                k += 1
        else:
            k = 0
            v = data[i]
            i += 1
            while k <= 256 - c:
                out.append(v)
                k += 1
    h.check(i == n, "the data ends with a chunk")
    return out


def reader(h, b):
    rv = h.module("vfbLib.parsers.value").read_value
    st = h.stream(b)
    return st, lambda signed=True: rv(st, signed)


def store(h, data):
    """the picture as it is stored on the platform"""
    return [255 - b for b in data] if h.p.get("platform") == "windows" else data


def background(h, runs, w):
    data = pixels(h, runs)
    rs = rows(data, w)
    o = (h.int("ox", *I32), h.int("oy", *I32))
    u = (h.int("uw", *U32), h.int("uh", *U32))
    ph = h.int("ph", *U32)
    return data, {"origin": o, "size_units": u, "size_pixels": (w, ph),
                  "bitmap": {"data": rs, "preview": preview(h, rs, w)}}


def h_background(h):
    """written in the format, and read as it was"""
    w = h.p["w"]
    data, d = background(h, h.p["runs"], w)
    v = vfb(h, writer_platform=h.p.get("platform", "macos"))
    e1 = entry(h, v, ids(h).G.image.value)
    e1.data = copy(d)
    e1.compile()
    h.observe("compiled", e1.data)
    st, rv = reader(h, e1.data)
    h.check_eq((rv(), rv()), d["origin"], "origin")
    h.check_eq((rv(False), rv(False)), d["size_units"], "size in units")
    h.check_eq((rv(False), rv(False)), d["size_pixels"], "size in pixels")
    n = rv(False)
    rest = st.read()
    h.check_eq(n, h.len(rest), "length of the bitmap data")
    h.check_eq(decode(h, rest, h.len(rest)), store(h, data), "stored picture")
    e2 = entry(h, v, ids(h).G.image.value)
    e2.data = e1.data
    e2.decompile()
    h.check_eq(e2.data, d, "read back")


def h_glyph_bitmaps(h):
    w = h.p["w"]
    d, raw = [], []
    for i, runs in enumerate(h.p["bitmaps"]):
        data = []
        for j, n in enumerate(runs):
            data += [h.int(f"b{i}_{j}", *U8)] * n
        raw.append(data)
        rs = rows(data, w)
        d.append({"ppm": h.int(f"ppm{i}", *U32), "origin": (h.int(f"ox{i}", *I32), h.int(f"oy{i}", *I32)),
                  "adv": (h.int(f"aw{i}", *U32), h.int(f"ah{i}", *U32)), "size_pixels": (w, h.int(f"h{i}", *U32)),
                  "bitmap": {"data": rs, "preview": preview(h, rs, w)}})
    v = vfb(h, writer_platform=h.p.get("platform", "macos"))
    e1 = entry(h, v, ids(h).G.Bitmaps.value)
    e1.data = copy(d)
    e1.compile()
    h.observe("compiled", e1.data)
    e2 = entry(h, v, ids(h).G.Bitmaps.value)
    e2.data = e1.data
    e2.decompile()
    h.check_eq(e2.data, d, "read back")
    st, rv = reader(h, e1.data)
    h.check_eq(rv(False), len(d), "number of bitmaps")
    for b, data in zip(d, raw):
        h.check_eq(rv(False), b["ppm"], "ppm")
        h.check_eq((rv(), rv()), b["origin"], "origin")
        h.check_eq((rv(False), rv(False)), b["adv"], "advance")
        h.check_eq((rv(False), rv(False)), b["size_pixels"], "size in pixels")
        x = st.read(rv())
        h.check_eq(decode(h, x, h.len(x)), store(h, data), "stored picture")
    h.check_eq(st.read(), b"", "nothing else")


def h_read(h):
    """any run-length data is read as the picture it stands for, and what is
    written afterwards is the same picture"""
    w = 16
    chunks, data = Enc(h), []
    n = 0
    for i, c in enumerate(h.p["chunks"]):
        if c >= 0:
            bs = [h.int(f"c{i}_{k}", *U8) for k in range(c + 1)]
            chunks.i8(c).u8(*bs)
            data += bs
            n += 2 + c
        else:
            b = h.int(f"c{i}", *U8)
            chunks.i8(c).u8(b)
            data += [b] * (1 - c)
            n += 2
    o = (h.int("ox", *I32), h.int("oy", *I32))
    e = Enc(h).v(*o).v(1, 1, w, 1, n).raw(chunks.get())
    v = vfb(h, writer_platform=h.p.get("platform", "macos"))
    en = entry(h, v, ids(h).G.image.value)
    en.data = e.get()
    en.decompile()
    rs = rows(store(h, data), w)
    want = {"origin": o, "size_units": (1, 1), "size_pixels": (w, 1), "bitmap": {"data": rs, "preview": preview(h, rs, w)}}
    h.check_eq(en.data, want, "read")
    h.observe("read", en.data["bitmap"]["data"])
    en.compile()
    en.decompile()
    h.check_eq(en.data, want, "written and read again")


LONG = [[126], [127], [128], [129], [130], [131], [255], [256], [257], [258], [259], [384], [385], [1, 127], [2, 128, 1], [3, 130, 2], [1, 256, 3]]
HARNESSES = [
    Harness("background", h_background,
            [{"runs": r, "w": w} for r, w in (([], 1), ([1, 1], 16), ([1, 1], 1), ([1, 1, 1, 1], 9), ([3, 1], 17), ([2, 2, 2], 16), ([1] * 6, 8), ([4, 1, 3], 32))]
            + [{"runs": r, "w": 16} for r in LONG] + [{"runs": r, "w": 0} for r in ([], [3]) ],
            thorough=[{"runs": [n], "w": w} for n in range(1, 400) for w in (8, 17)] + [{"runs": [1] * n, "w": 16} for n in range(1, 11)],
            bounds="pictures of up to 8 runs of one value each, neighbours equal or not; runs of 126-131, 255-259, 384, 385 bytes"),
    Harness("background, Windows", h_background,
            [{"runs": r, "w": w, "platform": "windows"} for r, w in (([], 1), ([1, 1, 1, 1], 9), ([2, 2, 2], 16), ([128, 1], 16))],
            bounds="up to 4 runs"),
    Harness("verbatim", h_background, [{"runs": [1] * n, "w": 16, "alternate": 1} for n in (3, 5)], bounds="up to 5 values"),
    Harness("glyph bitmaps", h_glyph_bitmaps,
            [{"bitmaps": b, "w": w, "platform": p} for b, w in (([], 8), ([[]], 8), ([[2, 1, 1]], 12), ([[1, 1], [3, 1]], 16), ([[130]], 16))
             for p in ("macos", "windows")],
            bounds="up to 2 bitmaps of up to 3 runs"),
    Harness("read", h_read,
            [{"chunks": c, "platform": p} for p in ("macos", "windows") for c in
             ([], [0, 0], [1], [3], [-1], [-127], [-126], [2, 0], [-1, -1], [0, -1, 0], [-1, 1])] + [{"chunks": [-128]}],
            bounds="up to 3 chunks, every byte value"),
]
