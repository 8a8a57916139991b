"""Scenario families.  family(name, k) is the k-th scenario of a family, a JSON value fully describing one run."""
import itertools
import random

import numpy as np

import gen

SYMBOLS = "tBb=wWH"


def _rng(name, k):
    return random.Random("%s/%d" % (name, k))


def base(k):
    return gen.scenario(k)


def models(k):
    r = _rng("models", k)
    s = gen.scenario(k + 500000, nmax=5)
    s["options"]["whichmodel"] = r.choice(["subbasis", "Frobnorm", "l2norm", "regression"])
    s["options"]["miter"] = 60
    s["options"]["msimul"] = 70
    return s


def scripted(k, word=None):
    """The objective is an adversary: its values after the initial simplex follow a word of the environment."""
    r = _rng("scripted", k)
    s = gen.scenario(k + 900000, nmax=3)
    s["script"] = word or "".join(r.choice(SYMBOLS) for _ in range(r.randint(2, 14)))
    s["options"]["miter"] = r.choice([8, 25, 60])
    s["options"]["msimul"] = r.choice([12, 40, 80])
    if r.random() < 0.3:
        s["options"]["whichmodel"] = r.choice(["subbasis", "Frobnorm", "l2norm", "regression"])
    return s


def tightb(k):
    """Bounds near or across the starting point, narrow or one-sided."""
    r = _rng("tightb", k)
    s = gen.scenario(k + 200000, nmax=4, allow=("eq", "ineq") if k % 3 == 0 else ())
    n = s["prob"]["n"]
    lb, ub, x0 = [], [], []
    for i in range(n):
        c = r.randint(-4, 4) / 2
        kind = r.randrange(7)
        if kind == 0:
            lo, hi = c - 0.5, c + 0.5
        elif kind == 1:
            lo, hi = c - 1e-2, c + 1e-2
        elif kind == 2:
            lo, hi = c, 1e20
        elif kind == 3:
            lo, hi = -1e20, c
        elif kind == 4:
            lo, hi = c - 1, c + 1
        elif kind == 5:
            lo, hi = c - 3, c + 4
        else:
            lo, hi = -1e20, 1e20
        lb.append(lo)
        ub.append(hi)
        x0.append(r.choice([c, c - 10, c + 10, max(lo, -50.0), min(hi, 50.0), c + 0.25]))
    s.update(lb=lb, ub=ub, x0=x0)
    s["options"]["miter"] = r.choice([5, 40, 150])
    s["options"]["msimul"] = r.choice([30, 150])
    return s


def fixed(k):
    """Some, but not all, variables fixed by equal bounds."""
    r = _rng("fixed", k)
    s = gen.scenario(k + 300000, nmax=5)
    n = s["prob"]["n"]
    if n == 1:
        return fixed(k + 1000003)
    lb = list(s["lb"] or [-1e20] * n)
    ub = list(s["ub"] or [1e20] * n)
    for i in r.sample(range(n), r.randint(1, n - 1)):
        v = r.randint(-4, 4) / 2
        lb[i] = ub[i] = v
    s.update(lb=lb, ub=ub)
    s["options"]["miter"] = 40
    s["options"]["msimul"] = 60
    return s


def fixmix(k):
    """Fixed variables in problems of the other families."""
    r = _rng("fixmix", k)
    q = k
    while True:
        s = r.choice([mixed, ineq, tightb, models, scripted, budgets, faults, scales])(q)
        n = s["prob"]["n"]
        if n > 1 and s["me"] < n - 1:
            break
        q += 7919
    lb = list(s["lb"] or [-1e20] * n)
    ub = list(s["ub"] or [1e20] * n)
    for i in r.sample(range(n), r.randint(1, max(1, n - 1 - s["me"]))):
        lb[i] = ub[i] = r.choice([r.randint(-4, 4) / 2, s["x0"][i], 0.0, 1.0 / 3])
    s.update(lb=lb, ub=ub)
    s["options"]["miter"] = min(s["options"]["miter"], 60)
    return s


def ineq(k):
    r = _rng("ineq", k)
    n = r.choice([2, 2, 3, 4])
    s = gen.scenario(k + 400000, nmax=4, allow=("bounds",) if k % 2 else ())
    while s["prob"]["n"] < 2:
        k += 7919
        s = gen.scenario(k + 400000, nmax=4, allow=("bounds",) if k % 2 else ())
    n = s["prob"]["n"]
    mi = r.choice([1, 1, 2, 3])
    me = r.choice([0, 0, 0, 1]) if n > 1 else 0
    s["prob"]["c"] = [gen.rcon(r, n, True) for _ in range(me)] + [gen.rcon(r, n, False) for _ in range(mi)]
    s.update(me=me, mi=mi)
    s["options"]["miter"] = r.choice([30, 100, 200])
    s["options"]["msimul"] = r.choice([40, 120])
    return s


def mixed(k):
    """Equalities and inequalities together, often violated at the start (zero slacks)."""
    r = _rng("mixed", k)
    s = gen.scenario(k + 450000, nmax=4, allow=("bounds",) if k % 3 == 0 else ())
    while s["prob"]["n"] < 2:
        k += 7919
        s = gen.scenario(k + 450000, nmax=4, allow=("bounds",) if k % 3 == 0 else ())
    n = s["prob"]["n"]
    me, mi = r.choice([(1, 1), (1, 1), (1, 2), (2, 1)] if n > 2 else [(1, 1)])
    s["prob"]["c"] = [gen.rcon(r, n, True) for _ in range(me)] + [gen.rcon(r, n, False) for _ in range(mi)]
    s.update(me=me, mi=mi)
    if r.random() < 0.3:
        s["script"] = "".join(r.choice(SYMBOLS) for _ in range(r.randint(2, 9)))
    s["options"]["miter"] = r.choice([30, 80])
    s["options"]["msimul"] = r.choice([40, 80])
    return s


def faults(k):
    """An evaluation fails: raises, or returns NaN or an infinity."""
    r = _rng("faults", k)
    s = gen.scenario(k + 600000, nmax=3)
    s["options"]["miter"] = 60
    s["options"]["msimul"] = 60
    where = r.choice(["f", "c"]) if s["prob"]["c"] else "f"
    what = r.choice(["raise", "nan", "inf", "-inf"]) if where == "f" else r.choice(["raise", "nan"])
    s["fault"] = {"k": r.choice([1, 2, 3, 4, 5, 6, 8, 10, 13, 17, 22, 30]), "where": where, "what": what}
    return s


def clip(k):
    """A constraint value is infinite at one evaluation (clipped by the code, not a failure)."""
    s = gen.scenario(k + 700000, nmax=3)
    while not s["prob"]["c"]:
        k += 7919
        s = gen.scenario(k + 700000, nmax=3)
    r = _rng("clip", k)
    s["options"]["miter"] = 40
    s["options"]["msimul"] = 50
    s["fault"] = {"k": r.randint(1, 15), "where": "c", "what": r.choice(["inf", "-inf"])}
    return s


def infc(k):
    """Constraint values that are infinite at the first evaluations or on one side of a plane."""
    s = gen.scenario(k + 750000, nmax=3)
    while not s["prob"]["c"]:
        k += 7919
        s = gen.scenario(k + 750000, nmax=3)
    r = _rng("infc", k)
    s["options"]["miter"] = 40
    s["options"]["msimul"] = 60
    s["fault"] = {"where": "c", "what": r.choice(["inf", "-inf", "1e30", "-1e25"])}
    if r.random() < 0.4:
        s["fault"]["upto"] = r.randint(1, 6)
    else:
        i = r.randrange(s["prob"]["n"])
        s["fault"]["side"] = [i, r.choice([-1, 1]), s["x0"][i] + r.choice([-2.0, -0.5, 0.5, 0.01, 2.0])]
    return s


FMTS = ["col", "row", "flat", "list", "tuple", "nested"]


def formats(k):
    r = _rng("formats", k)
    s = gen.scenario(k + 800000, nmax=3)
    for q in ("x0fmt", "lbfmt", "ubfmt"):
        s[q] = r.choice(FMTS)
    if s["prob"]["n"] == 1 and r.random() < 0.5:
        s["x0fmt"] = "scalar"
    s["ftype"] = r.choice(["float", "np", "arr0", "arr1", "arr2", "buf"])
    s["ctype"] = r.choice(["arr", "list", "tuple", "col", "row", "buf"])
    s["mutate"] = r.choice([False, False, True, "later"])
    s["options"]["miter"] = 30
    s["options"]["msimul"] = 40
    s["options"]["verbose"] = r.choice([0, 1, 2, 3])
    return s


def scales(k):
    r = _rng("scales", k)
    s = gen.scenario(k + 1000000, nmax=3, allow=("bounds",) if k % 2 else ("eq",))
    n = s["prob"]["n"]
    kind = r.randrange(5)
    if kind == 0:
        s["prob"]["f"] = {"kind": "quad", "p": [r.randint(-6, 6) / 2 for _ in range(n)], "d": [r.choice([1e6, 1e5]) for _ in range(n)]}
    elif kind == 1:
        s["prob"]["f"] = {"kind": "quad", "p": [r.randint(-6, 6) / 2 for _ in range(n)], "d": [r.choice([1e-6, 1e-4]) for _ in range(n)]}
    elif kind == 2:
        s["prob"]["f"] = {"kind": "const", "v": r.choice([0.0, 1.0, -3e7])}
    elif kind == 3:
        s["prob"]["f"] = {"kind": "quad", "p": [r.randint(-900, 900) * 1.0 for _ in range(n)], "d": [1.0] * n, "const": 1e6}
    else:       # starting at a solution
        s["prob"]["f"] = {"kind": "quad", "p": list(s["x0"]), "d": [1.0] * n}
    s["options"]["miter"] = r.choice([20, 100, 300])
    s["options"]["msimul"] = r.choice([30, 200])
    return s


def tols(k):
    """Tolerances of different sizes, each attainable and each binding."""
    r = _rng("tols", k)
    s = gen.scenario(k + 1150000, nmax=3, allow=("eq", "ineq") if k % 4 else ("bounds", "eq"))
    o = s["options"]
    o["tol_grad"], o["tol_feas"] = r.choice([(1e-1, 1e-6), (1e-2, 1e-6), (1e-2, 1e-7), (1.0, 1e-5), (1e-6, 1e-1), (1e-5, 1e-2), (1e-7, 1.0), (1e-4, 1e-8)])
    o["tol_bnds"] = r.choice([1e-5, 1e-1, 1e-8])
    o["miter"] = o["msimul"] = r.choice([40, 120])
    return s


def large(k):
    r = _rng("large", k)
    s = gen.scenario(k + 1100000, nmax=8)
    while s["prob"]["n"] < 5:
        k += 7919
        s = gen.scenario(k + 1100000, nmax=8)
    s["options"]["miter"] = r.choice([15, 40])
    s["options"]["msimul"] = r.choice([30, 60])
    return s


def budgets(k):
    """Budgets small enough to end the run in every phase."""
    r = _rng("budgets", k)
    s = gen.scenario(k + 1200000, nmax=3)
    s["options"]["miter"] = r.randint(1, 25)
    s["options"]["msimul"] = r.randint(1, 40)
    if r.random() < 0.5:
        s["script"] = "".join(r.choice(SYMBOLS) for _ in range(r.randint(2, 9)))
    return s


def verbose(k):
    r = _rng("verbose", k)
    s = gen.scenario(k + 1300000, nmax=3)
    s["options"]["verbose"] = k % 7
    s["options"]["miter"] = r.choice([3, 20, 60])
    s["options"]["msimul"] = r.choice([10, 40])
    return s


def console(k):
    """Runs of the other families whose printed output is read."""
    r = _rng("console", k)
    s = r.choice([verbose, mixed, ineq, tightb, fixed, budgets, scripted, faults, infc, models, scales, base, cross, cross])(k)
    s["options"]["verbose"] = r.choice([0, 1, 1, 2, 3, 3, 4, 5, 6])
    if r.random() < 0.25:
        s["options"]["fout"] = 2
    s["options"]["miter"] = min(s["options"]["miter"], 30)
    s["stdout"] = 1
    return s


def defaults(k):
    """Few or no options: the defaults are used."""
    r = _rng("defaults", k)
    s = gen.scenario(k + 1400000, nmax=3, allow=("bounds", "eq"))
    o = {"verbose": 0}
    for name, vals in (("tol_grad", [1e-4]), ("final_degree", ["linear", "quadratic"]), ("miter", [50]), ("whichmodel", ["subbasis", "Frobnorm"])):
        if r.random() < 0.3:
            o[name] = r.choice(vals)
    s["options"] = o
    return s


def cross(k):
    """The features of the other families combined: fixed variables, models, failures, scripts, budgets, output levels, formats."""
    r = _rng("cross", k)
    s = r.choice([base, tightb, tightb, ineq, mixed, models, scales, formats, scripted, fixed])(k + 50021)
    n, o = s["prob"]["n"], s["options"]
    free = n if not s["lb"] else sum(1 for a, b in zip(s["lb"], s["ub"] or [1e20] * n) if a != b)
    room = free - max(1, s["me"] + 1)
    if room > 0 and r.random() < 0.45:
        lb, ub = list(s["lb"] or [-1e20] * n), list(s["ub"] or [1e20] * n)
        for i in r.sample([i for i in range(n) if lb[i] != ub[i]], r.randint(1, room)):
            lb[i] = ub[i] = r.choice([r.randint(-4, 4) / 2, s["x0"][i], 0.0, 1.0 / 3])
        s.update(lb=lb, ub=ub)
    if r.random() < 0.35:
        o["whichmodel"] = r.choice(["subbasis", "Frobnorm", "l2norm", "regression"])
    if r.random() < 0.4:
        o["final_degree"] = r.choice(["linear", "diagonal", "quadratic"])
    if r.random() < 0.4:
        o["hess_approx"] = r.choice(["bfgs", "model"])
    if r.random() < 0.3 and not s.get("script"):
        s["script"] = "".join(r.choice(SYMBOLS) for _ in range(r.randint(2, 12)))
    if r.random() < 0.35:
        where = r.choice(["f", "c"]) if s["prob"]["c"] else "f"
        what = r.choice(["raise", "nan", "inf", "-inf"]) if where == "f" else r.choice(["raise", "nan"])
        s["fault"] = {"k": r.randint(1, 30), "where": where, "what": what}
    if r.random() < 0.4:
        o["miter"], o["msimul"] = r.randint(1, 25), r.randint(1, 45)
    o["miter"], o["msimul"] = min(o["miter"], 80), min(o["msimul"], 80)
    if r.random() < 0.4:
        o["verbose"] = r.choice([0, 1, 2, 3, 3, 4, 5, 6])
    return s


def quasi(k):
    """Quasi-Newton matrices with restarts, in problems of all kinds."""
    r = _rng("quasi", k)
    s = r.choice([base, base, models, ineq, mixed, tightb])(k + 31)
    o = s["options"]
    o["hess_approx"] = "bfgs"
    o["bfgs_restart"] = r.choice([0, 1, 2, 3, 3, 5, 7])
    o["miter"], o["msimul"] = max(o["miter"], 20), min(max(o["msimul"], 25), 60)
    return s


def optimum(A, p, lb, ub, C, me):
    """The minimiser of 1/2 (x-p)'A(x-p) over lb <= x <= ub, a x = b (first me) and a x >= b, with the multipliers of the
    constraints, by enumeration of the active sets; None when there is none or it is degenerate."""
    n, m = len(p), len(C)
    best = None
    for st in itertools.product(*[[0] + [1] * (lb[i] > -1e20) + [2] * (ub[i] < 1e20) for i in range(n)]):
        for act in itertools.product((0, 1), repeat=m - me):
            rows = [(a, b) for j, (a, b) in enumerate(C) if j < me or act[j - me]]
            rows += [([float(i == q) for q in range(n)], lb[i] if st[i] == 1 else ub[i]) for i in range(n) if st[i]]
            k = len(rows)
            if k > n:
                continue
            K = np.zeros((n + k, n + k))
            K[:n, :n] = A
            for q, (a, _) in enumerate(rows):
                K[:n, n + q] = K[n + q, :n] = a
            try:
                if np.linalg.cond(K) > 1e6:
                    continue
                z = np.linalg.solve(K, np.concatenate([np.dot(A, p), [b for _, b in rows]]))
            except np.linalg.LinAlgError:
                continue
            x, mu = z[:n], list(z[n:])
            lm, gap = [0.0] * m, []
            it = iter(mu)
            for j in range(m):
                if j < me or act[j - me]:
                    lm[j] = next(it)
                    if j >= me:
                        gap.append(-lm[j])
                else:
                    gap.append(np.dot(C[j][0], x) - C[j][1])
            for i in range(n):
                if st[i]:
                    v = next(it)
                    gap.append(-v if st[i] == 1 else v)
                    x[i] = lb[i] if st[i] == 1 else ub[i]
                if st[i] != 1 and lb[i] > -1e20:
                    gap.append(x[i] - lb[i])
                if st[i] != 2 and ub[i] < 1e20:
                    gap.append(ub[i] - x[i])
            if not gap or min(gap) > 0.01:
                best = [float(v) for v in x], [float(v) for v in lm]
    return best


def convex(k, kind=None):
    """Strictly convex quadratics, well scaled, with linear constraints and bounds; the minimiser comes with the scenario."""
    q = 0
    while True:
        r = _rng("convex%d" % q, k)
        q += 1
        kd = kind or r.choice(["unc", "bnd", "eq"])
        n = r.choice([1, 2, 2, 3, 3, 4, 5])
        if kd == "eq" and n == 1:
            continue
        d = [r.choice([0.5, 1.0, 2.0, 4.0]) for _ in range(n)]
        p = [r.choice([-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.5]) for _ in range(n)]
        cr = [[i, j, r.choice([-0.2, 0.1, 0.2]) / (1 if n < 3 else 2)] for i in range(n) for j in range(i) if r.random() < 0.5]
        lb, ub, C = None, None, []
        if kd == "bnd":
            lb, ub = [-1e20] * n, [1e20] * n
            i = r.randrange(n)
            lb[i], ub[i] = r.choice([(-1.0, 2.0), (0.0, 2.5), (-2.0, 1e20), (0.0, 1e20), (-1e20, 0.5), (-1e20, -1.0), (0.25, 0.75)])
        me = (r.choice([1, 1, 2]) if n > 2 else 1) if kd == "eq" else 0
        for _ in range(me):
            C.append(([r.choice([-1.0, 0.0, 1.0, 1.0, 2.0]) for _ in range(n)], r.choice([-1.0, 0.0, 0.5, 1.0])))
        if C and np.linalg.matrix_rank(np.array([a for a, _ in C])) < len(C):
            continue
        A = np.diag(d)
        for i, j, w in cr:
            A[i, j] += w
            A[j, i] += w
        best = optimum(A, p, lb or [-1e20] * n, ub or [1e20] * n, C, me)
        if best is None:
            continue
        o = {"verbose": 1}
        if r.random() < 0.4 and kd in ("unc", "eq"):
            o["whichmodel"] = r.choice(["subbasis", "Frobnorm", "regression"] + ["l2norm"] * (kd == "unc"))
        if r.random() < 0.4:
            o["final_degree"] = r.choice(["linear", "diagonal", "quadratic"])
        if r.random() < 0.3 and o.get("final_degree") != "linear" and kd in ("unc", "bnd") and o.get("whichmodel") != "l2norm":
            o["hess_approx"] = "bfgs"
        x0 = [r.choice([-1.5, -1.0, 0.0, 0.25, 1.0, 2.0]) for _ in range(n)]
        return {"id": "", "prob": {"n": n, "f": {"kind": "quad", "p": p, "d": d, "cross": cr},
                                   "c": [{"kind": "lin", "a": a, "const": -b} for a, b in C]},
                "x0": x0, "lb": lb, "ub": ub, "me": me, "mi": 0, "options": o, "star": best[0], "starlm": best[1]}


FAMILIES = {f.__name__: f for f in (base, models, scripted, tightb, fixed, fixmix, ineq, mixed, faults, clip, infc, formats, scales, tols, large,
                                     budgets, verbose, console, defaults, cross, quasi, convex)}


def family(name, k):
    s = FAMILIES[name](k)
    s["id"] = "%s/%d" % (name, k)
    return s
