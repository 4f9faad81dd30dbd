"""C04: whatever was done to an entry before, the file written holds its current data
under a header that describes it."""
from sx.spec import Harness
from checks.common import *

PROPERTY = "C04"
HDR = bytes.fromhex("1a574c46313003032c000000") + bytes(32)
OPS = ["decompile", "compile", "header", "text", "bytes", "write", "dict", "id"]


def frame(h, eid, data):
    n = len(data)
    if n <= 0xFFFF:
        return Enc(h).u16(eid).u16(n).get() + data
    return Enc(h).u16(eid + 0x8000).u32(n).get() + data


def start(h):
    v = vfb(h)
    v.header.data = HDR
    return v


def write(h, v):
    out = h.stream()
    v.write_bytes(out)
    return out.getvalue()


def apply(h, v, e, i, state, ops):
    """state: the raw bytes the entry stands for now"""
    op = h.choice(f"op{i}", ops)
    if op == "decompile":
        e.decompile()
    elif op == "compile":
        e.compile()
    elif op == "header":
        if isinstance(e.data, bytes):
            h.check_eq(e.header, frame(h, e.id, state)[: 6 if len(state) > 0xFFFF else 4], "header")
    elif op == "text":
        t = new_text(h, i)
        e.data = t
        state = t.encode("cp1252")
    elif op == "bytes":
        b = new_text(h, i).encode("cp1252")
        e.data = b
        state = b
    elif op == "write":
        h.check_eq(write(h, v), HDR + frame(h, e.id, state), f"file after step {i}")
    elif op == "id":
        I = ids(h).F
        e.id = I.notice.value if e.id == I.font_name.value else I.font_name.value
    elif op == "dict":
        d = v.as_dict()
        h.check(len(d["entries"]) == 1, "entries in the dict")
        if not isinstance(e.data, bytes):
            h.check_eq(d["entries"][0]["decompiled"], state.decode("cp1252"), "dict shows the current data")
    return state


def new_text(h, i):
    k = h.choice(f"len{i}", [1, 3, 70000])
    if k == 70000:
        return "z" * 70000
    return h.text(f"t{i}", 1, lo=0x41, hi=0x5A) + "y" * (k - 1)


def h_text(h):
    v = start(h)
    E = ids(h)
    e = entry(h, v, E.F.font_name.value)
    state = h.bytes("b0", 1)
    h.assume(h.all([state[0] >= 0x30, state[0] <= 0x39]))
    e.data = state
    v.add_entry(e)
    for i in range(h.p["n"]):
        state = apply(h, v, e, i, state, OPS)
    h.check_eq(write(h, v), HDR + frame(h, e.id, state), "file at the end")
    h.check_eq(write(h, v), HDR + frame(h, e.id, state), "file written twice")


def h_list(h):
    """values edited in place"""
    v = start(h)
    E = ids(h)
    e = entry(h, v, E.G.VSB.value)
    vals = [h.int("v0", -107, 107)]
    e.data = Enc(h).v(*vals).get()
    v.add_entry(e)
    for i in range(h.p["n"]):
        op = h.choice(f"op{i}", ["decompile", "compile", "append", "write", "replace"])
        if op == "decompile":
            e.decompile()
        elif op == "compile":
            e.compile()
        elif op == "append":
            if isinstance(e.data, bytes):
                continue
            x = h.int(f"x{i}", -1131, 1131)
            e.data.append(x)
            vals = vals + [x]
        elif op == "replace":
            x = h.int(f"x{i}", -107, 107)
            e.data = [x]
            vals = [x]
        elif op == "write":
            h.check_eq(write(h, v), HDR + frame(h, e.id, Enc(h).v(*vals).get()), f"file after step {i}")
    h.check_eq(write(h, v), HDR + frame(h, e.id, Enc(h).v(*vals).get()), "file at the end")


def h_nested(h):
    """values changed deep inside the data"""
    v = start(h)
    v.num_masters = 1
    E = ids(h)
    kind = h.p["kind"]
    e = entry(h, v, (E.G.Links if kind == "links" else E.G.Glyph).value)
    vals = [h.int("v0", -107, 107), h.int("v1", -107, 107)]
    e.data = data_of(kind, vals)
    v.add_entry(e)
    e.compile()
    for i in range(h.p["n"]):
        op = h.choice(f"op{i}", ["decompile", "compile", "edit", "write", "read"])
        if op == "decompile":
            e.decompile()
        elif op == "compile":
            e.compile()
        elif op == "edit":
            if isinstance(e.data, bytes):
                continue
            k = int(h.bool(f"which{i}"))
            vals[k] = h.int(f"x{i}", -107, 107)
            d = e.data
            if kind == "links":
                if k:
                    d["x"].append((7, vals[k]))
                    d["x"].pop(0)
                else:
                    d["y"][0] = (vals[k], 3)
            else:
                p = d["nodes"][0]["points"][0][0] if k else d["metrics"][0]
                new = (p[0], vals[k])
                if k:
                    d["nodes"][0]["points"][0][0] = new
                else:
                    d["metrics"][0] = new
        elif op == "write":
            h.check_eq(write(h, v), HDR + frame(h, e.id, bytes_of(h, kind, vals)), f"file after step {i}")
        elif op == "read":
            w = start(h)
            w.read_bytes(h.stream(write(h, v)))
            h.check_eq(w.entries[0].data, bytes_of(h, kind, vals), f"data that is read after step {i}")
    h.check_eq(write(h, v), HDR + frame(h, e.id, bytes_of(h, kind, vals)), "file at the end")


def data_of(kind, vals):
    if kind == "links":
        return {"x": [(7, vals[1])], "y": [(vals[0], 3)]}
    return {"name": "a", "num_masters": 1, "nodes": [{"type": "move", "flags": 0, "points": [[(5, vals[1])]]}], "metrics": [(6, vals[0])]}


def bytes_of(h, kind, vals):
    if kind == "links":
        return Enc(h).v(1, vals[0], 3, 1, 7, vals[1]).get()
    v = vfb(h, 1)
    e = entry(h, v, ids(h).G.Glyph.value)
    e.data = data_of(kind, vals)
    e.compile()
    return e.data


def h_several(h):
    """entries inserted, removed and reordered between writes"""
    v = start(h)
    E = ids(h)
    pool = [E.F.font_name.value, E.F.notice.value, E.F.version.value]
    model = []
    for i in range(h.p["n"]):
        op = h.choice(f"op{i}", ["add", "remove", "swap", "edit", "write", "decompile"])
        if op == "add":
            e = entry(h, v, pool[i % 3])
            c = h.text(f"t{i}", 1, lo=0x41, hi=0x5A)
            e.data = c
            v.add_entry(e)
            h.check(e.vfb is v, "parent")
            model.append([e, c])
        elif op == "remove" and model:
            model.pop(0)
            v.entries.pop(0)
        elif op == "swap" and len(model) > 1:
            model.reverse()
            v.entries.reverse()
        elif op == "edit" and model:
            c = h.text(f"t{i}", 2, lo=0x41, hi=0x5A)
            model[-1][0].data = c
            model[-1][1] = c
        elif op == "decompile":
            v.decompile()
        elif op == "write":
            check_all(h, v, model)
    check_all(h, v, model)


def check_all(h, v, model):
    want = HDR
    for e, c in model:
        want = want + frame(h, e.id, c.encode("cp1252"))
    h.check_eq(write(h, v), want, "file")


def h_unknown(h):
    """an entry with an id that is not known keeps its bytes through
    decompile and write"""
    v = start(h)
    known = h.module("vfbLib.constants").parser_classes
    eid = h.choice("eid", [3, 999, 0x7FFF, 2999])
    h.check(eid not in known, "id is unknown")
    e = entry(h, v, eid)
    data = h.bytes("b", h.p["n"])
    e.data = data
    v.add_entry(e)
    for i in range(2):
        op = h.choice(f"op{i}", ["decompile", "compile", "write", "header"])
        if op == "decompile":
            e.decompile()
        elif op == "compile":
            h.check(e.compile(), "compilation is possible")
        elif op == "header":
            if isinstance(e.data, bytes):
                e.header
        else:
            h.check_eq(write(h, v), HDR + frame(h, eid, data), "file")
    h.check_eq(write(h, v), HDR + frame(h, eid, data), "file at the end")


HARNESSES = [
    Harness("text", h_text, [{"n": 1}, {"n": 2}, {"n": 3}], thorough=[{"n": 4}],
            bounds="every history of up to 3 (4) of 8 operations, texts of 1, 3 and 70000 characters"),
    Harness("list", h_list, [{"n": 2}, {"n": 3}], thorough=[{"n": 4}],
            bounds="every history of up to 3 (4) of 5 operations, values in the short range"),
    Harness("nested", h_nested, [{"n": n, "kind": k} for n in (2, 3) for k in ("links", "glyph")] + [{"n": 4, "kind": "links"}], thorough=[{"n": 4, "kind": "glyph"}, {"n": 5, "kind": "links"}],
            bounds="every history of up to 4 (5) of 5 operations on links and glyphs with two values that are changed in place"),
    Harness("several", h_several, [{"n": 3}, {"n": 4}], thorough=[{"n": 5}],
            bounds="every history of up to 4 (5) of 6 operations on up to 4 entries"),
    Harness("unknown", h_unknown, [{"n": 0}, {"n": 2}], bounds="4 unknown ids, every content of 0 or 2 bytes"),
]
