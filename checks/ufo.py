"""A font built entry by entry, and its conversion to UFO."""
from checks.common import *


class Font:
    def __init__(self, h, masters=1, **attrs):
        self.h = h
        self.v = vfb(h, masters, **attrs)
        self.masters = masters
        I = ids(h)
        self.F, self.G, self.M, self.T = I.F, I.G, I.M, I.T

    def add(self, eid, data):
        e = entry(self.h, self.v, eid.value)
        e.data = data
        self.v.entries.append(e)
        return e

    def glyph(self, name, nodes=(), metrics=None, **kw):
        d = {"name": name, "nodes": list(nodes), "metrics": metrics or [(500, 0)] * self.masters}
        d.update(kw)
        return self.add(self.G.Glyph, d)

    def convert(self, ps=True, axes=True, **opts):
        """The UFO masters, and the builder"""
        if self.masters > 1 and axes:
            for n in range({2: 1, 4: 2}[self.masters]):
                self.v.entries[:0] = []
                self.add(self.F.AxisCount, {2: 1, 4: 2}[self.masters]) if n == 0 else None
                self.add(self.F.AxisName, ["Weight", "Width"][n])
            self.add(self.F.MasterCount, self.masters)
            for m in range(self.masters):
                self.add(self.M.MasterName, f"M{m}")
        if ps:
            for m in range(self.masters):
                self.add(self.M.PostScriptInfo, {})
        b = self.h.module("vfbLib.ufo.builder").VfbToUfoBuilder(self.v, **opts)
        return b.get_ufo_masters(silent=True), b
