"""C23: what is read can be saved as JSON, and nothing is lost in the raw form.

Every harness that reads entries (the ones of C05 to C13) is run once more, and all data
that vfbLib has decoded must have a JSON form."""
import importlib

from sx.spec import Harness
from checks.common import *
import checks.c13 as c13

PROPERTY = "C23"
EXTRA_PACKAGES = ("fontTools",)


def jsonable(h, x, path="data", surrogates=False):
    """orjson can write this"""
    if x is None or isinstance(x, (bool, float)):
        h.check(True, path)
    elif isinstance(x, int):
        h.check(h.all([x >= -(1 << 63), x < 1 << 64]), path + ": number is out of range")
    elif isinstance(x, str):
        for c in () if surrogates else (x.chars if hasattr(x, "chars") else map(ord, x)):
            h.check(h.any([c < 0xD800, c > 0xDFFF]), path + ": surrogate")
    elif isinstance(x, dict):
        for k, v in x.items():
            h.check(isinstance(k, (str, int, float)) or k is None, f"{path}: key of type {type(k).__name__}")
            jsonable(h, v, f"{path}.{k}" if isinstance(k, str) and type(k) is str else path + ".", surrogates)
    elif isinstance(x, (list, tuple)):
        for v in x:
            jsonable(h, v, path + "[]", surrogates)
    else:
        h.check(False, f"{path}: {type(x).__name__} has no JSON form")


class Quiet:
    """The harness of another property, without its assertions"""

    def __init__(self, h, params):
        self.h, self.p = h, params

    def __getattr__(self, k):
        return getattr(self.h, k)

    def check(self, c, msg):
        return None

    def check_eq(self, a, b, msg):
        return None

    def observe(self, k, v):
        return None


def h_json(h):
    """whatever is decoded has a JSON form"""
    mod = importlib.import_module("checks." + h.p["of"])
    fn = next(x.fn for x in mod.HARNESSES if x.name == h.p["harness"])
    cls = h.module("vfbLib.vfb.entry").VfbEntry
    orig = cls.decompile
    count = [0]

    def decompile(e):
        orig(e)
        if isinstance(e.data, bytes) or e.data is None:
            return
        d = e.as_dict()
        count[0] += 1
        h.check(h.all([d["key"] == str(e.key), d["decompiled"] is e.data]), "as_dict has the decoded data")
        # (known finding: surrogates in name records, see known_findings.txt)
        jsonable(h, e.data, surrogates=e.id == ids(h).F.fontnames.value)
        if count[0] < 3:
            h.observe(f"data{count[0]}", e.data)

    cls.decompile = decompile
    try:
        fn(Quiet(h, h.p["params"]))
    except Exception as e:
        # (errors are the subject of the other property)
        if type(e).__name__ in ("CheckFailed", "Skip"):
            raise
    finally:
        cls.decompile = orig
    h.check(True, "")


def h_raw(h):
    """data that is not decoded is in the JSON form as hex, and not changed by it"""
    n = h.p["n"]
    v = vfb(h)
    e = entry(h, v, h.int("id", 0, 0x7FFF))
    b = h.bytes("b", n)
    e.data = b
    d = e.as_dict()
    h.observe("dict", [d["size"], d["decompiled"]])
    h.check_eq(d["size"], n, "size")
    h.check_eq(len(d["decompiled"]), 2 * n, "length of the hex string")
    for i, c in enumerate("".join(d["decompiled"]) if not h.symbolic else d["decompiled"]):
        x = b[i // 2]
        x = x // 16 if i % 2 == 0 else x % 16
        o = ord(c)
        h.check(h.any([h.all([x < 10, o == x + 48]), h.all([x >= 10, o == x + 87]), h.all([x >= 10, o == x + 55])]), "hex digit")
    h.check_eq(e.data, b, "data is unchanged")


def h_long(h):
    """... whatever its length"""
    e = entry(h, vfb(h), 1)
    n = h.p["n"]
    b = h.bytes("a", 1) + b"\x5a" * (n - 2) + h.bytes("z", 1)
    e.data = b
    d = e.as_dict()
    h.check_eq(d["size"], n, "size")
    h.check_eq(len(d["decompiled"]), 2 * n, "length of the hex string")
    H = h.module("vfbLib.helpers")
    for x, y in ((0, 1), (n // 2, n // 2 + 1), (n - 1, n)):
        h.check_eq(H.deHexStr(d["decompiled"][2 * x:2 * y]), b[x:y], "content")
    h.check(d["decompiled"][2:-2] == "5a" * (n - 2), "constant content")


def of(name, every):
    mod = importlib.import_module("checks." + name)
    return [{"of": name, "harness": x.name, "params": p} for x in mod.HARNESSES
            for i, p in enumerate(x.params) if i % every.get(x.name, 1) == 0]


RECORDS = ("c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12")

# what takes long, and has no other types of values in all of its cases
SOME = {"autohint options": 16, "unicode ranges": 16, "kern options": 16, "ttinfo head flags": 8, "program": 4, "sections": 4}


HARNESSES = [
    Harness("records", h_json, [p for c in RECORDS for p in of(c, SOME)], thorough=[p for c in RECORDS for p in of(c, {})],
            bounds="every record of the harnesses of C05 to C12, with their bounds (quick: a part of those with many cases)"),
    Harness("any data", h_json, of("c13", {"any data": 2, "glyph": 2}), thorough=of("c13", {}), bounds="every content of entries as in C13 (quick: half)"),
    Harness("long", h_long, [{"n": n} for n in (300, 0xFFFF, 0x10001)], bounds="three lengths of up to 65537 bytes, the first and last byte arbitrary"),
    Harness("raw", h_raw, [{"n": n} for n in (0, 1, 2, 8)], bounds="every id, every content of up to 8 bytes"),
]
