"""Problem families: every problem is a JSON value, so a scenario is replayable from its text alone.

problem = {
  "n": int, "f": {"kind":..., ...}, "c": [ {...}, ... ]  (constraint components, equalities first)
}
All arithmetic is plain Python floats, so a value depends on the point alone.
"""
import math


def dot(a, b):
    s = 0.0
    for u, v in zip(a, b):
        s += u * v
    return s


def scalar(spec, x):
    k = spec["kind"]
    if k == "quad":          # (x-p)'D(x-p)/2 + cross terms + lin + const
        p = spec["p"]
        d = spec["d"]
        z = [xi - pi for xi, pi in zip(x, p)]
        v = 0.5 * sum(di * zi * zi for di, zi in zip(d, z))
        for (i, j, w) in spec.get("cross", []):
            v += w * z[i] * z[j]
        v += dot(spec.get("lin", [0.0] * len(x)), x)
        return v + spec.get("const", 0.0)
    if k == "lin":
        return dot(spec["a"], x) + spec.get("const", 0.0)
    if k == "rosen":
        v = 0.0
        for i in range(len(x) - 1):
            v += spec.get("w", 100.0) * (x[i + 1] - x[i] ** 2) ** 2 + (1.0 - x[i]) ** 2
        return v * spec.get("scale", 1.0)
    if k == "sphere":        # |x-p|^2 - r
        return sum((xi - pi) ** 2 for xi, pi in zip(x, spec["p"])) - spec["r"]
    if k == "wavy":
        v = 0.0
        for i, xi in enumerate(x):
            v += spec["a"] * math.sin(spec["w"] * xi + i) + 0.5 * (xi - spec["p"][i]) ** 2
        return v
    if k == "exp":
        v = 0.0
        for i, xi in enumerate(x):
            t = spec["a"][i] * xi
            t = max(-50.0, min(50.0, t))
            v += math.exp(t) + math.exp(-t * 0.5)
        return v
    if k == "abs":
        return sum(abs(xi - pi) for xi, pi in zip(x, spec["p"]))
    if k == "hs7":
        return math.log(1.0 + x[0] ** 2) - x[1]
    if k == "quartic":
        return sum((xi - pi) ** 4 for xi, pi in zip(x, spec["p"])) + 0.1 * sum((xi - pi) ** 2 for xi, pi in zip(x, spec["p"]))
    if k == "prod":
        v = 1.0
        for xi in x:
            v *= xi
        return v * spec.get("scale", 1.0) + spec.get("const", 0.0)
    if k == "embed":         # the function of the free variables only
        z = list(spec["vals"])
        for j, v in zip(spec["free"], x):
            z[j] = v
        return scalar(spec["of"], z)
    if k == "const":
        return spec["v"]
    raise KeyError(k)


def fval(prob, x):
    return scalar(prob["f"], x)


def cvals(prob, x):
    return [scalar(s, x) for s in prob["c"]]
