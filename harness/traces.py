"""Turns recorded event lists into the form TLC reads: doubles become pairs of 32-bit halves, and every point carries
the position of the evaluation it stands for (a witness; the specification checks it)."""
import json
import struct


def pair(x):
    hi, lo = struct.unpack(">ii", struct.pack(">d", x))
    return [hi, lo]


def unpair(p):
    return struct.unpack(">d", struct.pack(">ii", *p))[0]


def enc(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, float):
        return pair(v)
    if isinstance(v, (list, tuple)):
        return [enc(t) for t in v]
    if isinstance(v, dict):
        return {k: enc(t) for k, t in v.items()}
    return v


def near(a, b):
    return all(x == y or abs(x - y) <= 1e-13 * (1 + abs(y)) for x, y in zip(a, b))


class Witness:
    def __init__(self, start):
        self.free = [j for j in range(start["n"]) if start["lb"][j] != start["ub"][j]]
        self.n = start["n"]
        self.exact = {}
        self.pts = []
        self.vals = {}

    def red(self, x):
        return tuple(x[j] for j in self.free) if len(x) == self.n else tuple(x)

    def add(self, pos, e):
        p = self.red(e["x"])
        self.exact[p] = pos
        self.pts.append((p, pos))
        self.vals[e["v"]] = pos

    def find(self, x):
        p = self.red(x)
        if p in self.exact:
            return self.exact[p]
        for q, pos in reversed(self.pts):
            if len(q) == len(p) and near(q, p):
                return pos
        return 0

    def val(self, v):
        return self.vals.get(v, 0)


def annotate(ev):
    """Adds witness positions (1-based).  Fields ending in i: xi, nxi, yi (list), fi."""
    if not ev or ev[0].get("k") != "start":
        return ev
    w = Witness(ev[0])
    ev[0]["free"] = [j + 1 for j in w.free]
    for pos, e in enumerate(ev, 1):
        k = e["k"]
        if k == "f":
            w.add(pos, e)
        elif k in ("trs", "mult", "opt", "ret"):
            if k != "ret" or e.get("x"):
                e["xi"] = w.find(e["x"])
            if k == "ret":
                e["fi"] = w.val(e["f"])
        elif k == "small":
            e["xi"] = w.find(e["x"])
            e["nxi"] = w.find(e["nx"])
            e["yi"] = [w.find(y) for y in e["Y"]]
            e["nyi"] = [w.find(y) for y in e["nY"]]
        elif k == "mod":
            e["yi"] = [w.find(y) for y in e["Y"]]
        elif k == "iter":
            e["fi"] = w.val(e["f"])
    return ev


DROP = ("msg", "text")


def clean(e):
    return {k: v for k, v in e.items() if k not in DROP}


def encode(ev):
    return [enc(clean(e)) for e in annotate(ev)]


def dump(path, traces):
    with open(path, "w") as fh:
        json.dump(traces, fh, separators=(",", ":"))
