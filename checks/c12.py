"""C12: multiple master records."""
from sx.spec import Harness
from checks.common import *

PROPERTY = "C12"


def h_aniso(h):
    d = [[(h.int(f"a{i}s{j}", *I32), h.int(f"a{i}t{j}", *I32)) for j in range(n)] for i, n in enumerate(h.p["ns"])]
    e = Enc(h)
    for ax in d:
        e.v(len(ax))
        for s, t in ax:
            e.v(s, t)
    roundtrip(h, ids(h).F.AnisotropicInterpolationMappings.value, d, e.get())


def h_map_count(h):
    d = [h.int(f"c{i}", *U32) for i in range(4)]
    roundtrip(h, ids(h).F.AxisMappingsCount.value, d, Enc(h).u32(*d).get())


def h_mappings(h):
    d = [(h.double(f"s{i}"), h.double(f"t{i}")) for i in range(h.p["n"])]
    e = Enc(h)
    for s, t in d:
        e.d(s, t)
    roundtrip(h, ids(h).F.AxisMappings.value, d, e.get())


def h_location(h):
    i = h.int("index", *U32)
    loc = tuple(h.double(f"l{k}") for k in range(4))
    roundtrip(h, ids(h).M.MasterLocation.value, (i, loc), Enc(h).u32(i).d(*loc).get())


def h_instances(h):
    n = h.p["n"]
    d = []
    e = Enc(h).v(n)
    for i in range(n):
        nm = text(h, f"name{i}", h.p["name"])
        raw = [h.int(f"i{i}v{k}", *I32) for k in range(4)]
        e.sl(nm).v(*raw)
        d.append({"name": nm, "values": tuple(r / 10000 for r in raw)})
    roundtrip(h, ids(h).F.PrimaryInstances.value, d, e.get())


def h_kern(h):
    m = h.p["m"]
    d = {"l": h.int("l", *U32), "r": h.int("r", *U32), "values": [h.int(f"v{i}", *I16) for i in range(m)]}
    roundtrip(h, ids(h).F.MMKernPair.value, d, Enc(h).u32(d["l"], d["r"]).i16(*d["values"]).get(), v=vfb(h, m))


HARNESSES = [
    Harness("anisotropic", h_aniso, [{"ns": n} for n in ((), (0,), (1,), (2, 0), (1, 2), (0, 0, 1, 1))],
            bounds="up to 4 axes, 3 pairs, every 32 bit value"),
    Harness("mapping counts", h_map_count, bounds="every value"),
    Harness("mappings", h_mappings, [{"n": n} for n in (0, 1, 10, 40)], bounds="up to 40 pairs, every double"),
    Harness("location", h_location, bounds="every index and double"),
    Harness("instances", h_instances, [{"n": a, "name": b} for a, b in ((0, 0), (1, 0), (1, 2), (2, 1))],
            bounds="up to 2 instances, every coordinate with 4 decimals, names up to 2 characters"),
    Harness("kern pair", h_kern, [{"m": m} for m in (1, 2, 4, 16)], bounds="up to 16 masters, every value"),
]
