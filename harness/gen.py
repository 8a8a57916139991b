"""Random scenario generator (deterministic in its seed)."""
import random


def rfun(r, n, kinds=("quad", "rosen", "wavy", "exp", "quartic", "lin", "abs")):
    k = r.choice(kinds)
    p = [r.randint(-6, 6) / 2 for _ in range(n)]
    if k == "quad":
        d = [r.choice([0.1, 1, 1, 2, 5, 20]) for _ in range(n)]
        if r.random() < 0.2:
            d[r.randrange(n)] *= -0.2
        cross = []
        if n > 1 and r.random() < 0.5:
            i, j = r.sample(range(n), 2)
            cross.append([i, j, r.choice([-0.5, 0.3, 0.05])])
        return {"kind": k, "p": p, "d": d, "cross": cross}
    if k == "lin":
        return {"kind": k, "a": [r.randint(-3, 3) * 1.0 for _ in range(n)], "const": 1.0}
    if k == "rosen":
        if n < 2:
            return {"kind": "quad", "p": p, "d": [1.0]}
        return {"kind": k, "w": r.choice([1.0, 10.0, 100.0])}
    if k == "wavy":
        return {"kind": k, "p": p, "a": r.choice([0.5, 2.0]), "w": r.choice([1.0, 3.0])}
    if k == "exp":
        return {"kind": k, "a": [r.choice([0.3, 1.0, -0.7]) for _ in range(n)]}
    if k in ("quartic", "abs"):
        return {"kind": k, "p": p}


def rcon(r, n, eq):
    k = r.choice(["lin", "lin", "sphere", "quad"])
    if k == "lin":
        return {"kind": "lin", "a": [r.choice([-1.0, 1.0, 2.0, 0.5, 0.0]) for _ in range(n - 1)] + [1.0],
                "const": r.randint(-4, 4) / 2}
    if k == "sphere":
        s = {"kind": "sphere", "p": [r.randint(-2, 2) / 2 for _ in range(n)], "r": r.choice([1.0, 2.0, 4.0])}
        return s
    return {"kind": "quad", "p": [r.randint(-2, 2) / 2 for _ in range(n)], "d": [r.choice([1.0, 0.5, -1.0]) for _ in range(n)],
            "lin": [r.choice([1.0, -1.0, 2.0]) for _ in range(n)], "const": -1.0}


def scenario(seed, nmax=4, allow=("bounds", "eq", "ineq"), opts=True):
    r = random.Random(seed)
    n = r.randint(1, nmax)
    prob = {"n": n, "f": rfun(r, n), "c": []}
    me = mi = 0
    if "eq" in allow and n > 1 and r.random() < 0.45:
        me = r.randint(1, n - 1) if r.random() < 0.9 else n
    if "ineq" in allow and r.random() < 0.35:
        mi = r.randint(1, 2)
    for _ in range(me):
        prob["c"].append(rcon(r, n, True))
    for _ in range(mi):
        prob["c"].append(rcon(r, n, False))
    x0 = [r.randint(-8, 8) / 2 for _ in range(n)]
    lb = ub = None
    if "bounds" in allow and r.random() < 0.6:
        lb = []
        ub = []
        for i in range(n):
            lo = r.choice([-1e20, -5.0, -2.0, 0.0, 0.5])
            hi = r.choice([1e20, 6.0, 3.0]) if lo < 0.3 else r.choice([1e20, 3.0, 2.75])
            lb.append(lo)
            ub.append(hi)
    o = {"verbose": 1}
    if opts:
        o["tol_grad"] = r.choice([1e-5, 1e-4, 1e-3])
        o["tol_feas"] = r.choice([1e-5, 1e-4, 1e-3])
        o["tol_bnds"] = 1e-5
        o["miter"] = r.choice([1, 3, 10, 40, 120, 300])
        o["msimul"] = r.choice([1, n + 1, 8, 25, 60, 150, 300])
        o["final_degree"] = r.choice(["linear", "diagonal", "quadratic"])
        o["hess_approx"] = r.choice(["model", "model", "bfgs"])
        if r.random() < 0.3:
            o["whichmodel"] = "subbasis"
    return {"id": "g%d" % seed, "prob": prob, "x0": x0, "lb": lb, "ub": ub, "me": me, "mi": mi, "options": o}
