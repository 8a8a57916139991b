"""Calls of single components of sqpdfo: executes the inputs enumerated by CallGen.tla on the real code and records each
call (arguments, results, and witnesses which the specification checks) for CallTrace.tla."""
import importlib
import json

import numpy as np

import rec
from rec import cols, integer, mat, num, vec


def fn(mod, name):
    return getattr(importlib.import_module("sqpdfo." + mod), name)


def col(v):
    return np.array([[float(t)] for t in v])


def mx(m):
    return np.array([[float(t) for t in r] for r in m])


class Opt:
    verbose = 0
    fout = 1
    bfgs_restart = 0
    final_degree = 0


# ---------------------------------------------------------------- records of calls (also used as taps in runs)
def eigen(A):
    """Witness: eigenvectors (rows) and eigenvalues."""
    try:
        d, v = np.linalg.eigh(0.5 * (np.asarray(A, dtype=float) + np.asarray(A, dtype=float).T))
        return dict(V=mat(v.T), D=vec(d))
    except Exception:
        return dict(V=[], D=[])


def dual(g, H, Delta):
    """Witness: the multiplier with the best lower bound on the quadratic in the ball (bisection on the norm of the step)."""
    try:
        d, v = np.linalg.eigh(np.asarray(H, dtype=float))
        b = v.T.dot(np.ravel(g).astype(float))
        sc = max(1.0, np.abs(d).max())
        lo = max(0.0, -d[0]) + (1e-12 * sc if d[0] < 1e-9 * sc else 0.0)
        norm = lambda l: np.sqrt(np.sum((b / (d + l)) ** 2))
        if norm(lo) <= Delta:
            return float(lo)
        hi = lo + sc
        while norm(hi) > Delta and hi < 1e300:
            hi *= 4
        for _ in range(200):
            m = 0.5 * (lo + hi)
            if norm(m) > Delta:
                lo = m
            else:
                hi = m
        return float(hi)
    except Exception:
        return 0.0


def r_trms(g, H, Delta, eps, out):
    e = dict(k="trms", g=vec(g), H=mat(H), del_=num(Delta), eps=num(eps), s=vec(out[0]), lam=num(out[1]), norms=num(out[2]),
             value=num(out[3]), gplus=vec(out[4]), note=str(out[7])[:30], dual=dual(g, H, num(Delta)))
    e.update(eigen(H))
    return e


def r_tcg(A, b, delta, maxit, tol, out):
    e = dict(k="tcg", A=mat(A), b=vec(b), del_=num(delta), maxit=integer(maxit), tol=num(tol), x=vec(out[0]),
             flag=integer(out[1].flag), iter=integer(out[1].iter), prec=num(out[1].prec))
    e.update(eigen(A))
    return e


def r_trmsbc(g, H, lb, ub, Delta, eps, out):
    return dict(k="trmsbc", eps=num(eps), g=vec(g), H=mat(H), lb=vec(lb), ub=vec(ub), del_=num(Delta), s=vec(out[0]), lam=num(out[1]),
                norms=num(out[2]), value=num(out[3]), gplus=vec(out[4]), note=str(out[7])[:30])


def r_blls(A, b, lb, ub, out):
    A0 = np.asarray(A, dtype=float)
    return dict(k="blls", A=mat(A), b=vec(b), lb=vec(lb), ub=vec(ub), s=vec(out[0]), resn=num(out[1]), opt=num(out[2]),
                exitc=integer(out[3]), cond=float(np.linalg.cond(A0)))


def r_bfgs(H, y, s, first, out, values, niter=1):
    e = dict(k="bfgs", niter=niter, H=mat(H), y=vec(y), s=vec(s), first=int(bool(first)), R=mat(out[0]), pc=num(out[1]),
             ok=int(integer(out[2].flag) == integer(values.success)))
    e.update(eigen(out[0]))
    return e


def r_convex(A, out):
    e = dict(k="convex", A=mat(A), R=mat(out))
    e.update(eigen(A))
    r = eigen(out)
    e.update(RV=r["V"], RD=r["D"])
    return e


def r_cond(A, thr, out):
    A = np.asarray(A, dtype=float)
    s = np.linalg.svd(A, compute_uv=False)
    q = np.linalg.svd(np.asarray(out[0], dtype=float), compute_uv=False)
    return dict(k="cond", A=mat(A), R=mat(out[0]), thr=num(thr), bad=integer(out[1]), S=vec(s), RS=vec(q))


# ---------------------------------------------------------------- executing generated inputs
def x_trms(i):
    f = fn("bcdfo_solve_TR_MS", "bcdfo_solve_TR_MS_")
    for eps in (1e-3, 1e-7):
        g, H, d = col(i["g"]), mx(i["H"]), float(i["del"])
        yield r_trms(i["g"], i["H"], d, eps, f(g, H, d, eps, nargout=9))


def x_tcg(i):
    f = fn("sqpdfo_truncated_cg", "sqpdfo_truncated_cg_")
    for tol in (1e-8,):
        A, b, d = mx(i["A"]), col(i["b"]), float(i["del"])
        yield r_tcg(i["A"], i["b"], d, i["maxit"], tol, f(A, b, d, i["maxit"], tol, nargout=2))


def x_trmsbc(i):
    f = fn("bcdfo_solve_TR_MS_bc", "bcdfo_solve_TR_MS_bc_")
    for strat in (1, 0):
        g, H, lb, ub, d = col(i["g"]), mx(i["H"]), col(i["lb"]), col(i["ub"]), float(i["del"])
        yield r_trmsbc(i["g"], i["H"], i["lb"], i["ub"], d, 1e-7, f(g, H, lb, ub, d, 1e-7, strat, Opt(), nargout=8))


def x_blls(i):
    f = fn("blls", "blls_")
    A, b, lb, ub = mx(i["A"]), col(i["b"]), col(i["lb"]), col(i["ub"])
    yield r_blls(mx(i["A"]), b.copy(), lb.copy(), ub.copy(), f(A, b, lb, ub, nargout=4))


def values():
    v = fn("sqpdfo_values", "sqpdfoValues") if hasattr(importlib.import_module("sqpdfo.sqpdfo_values"), "sqpdfoValues") else None
    return v()


def x_bfgs(i):
    if i["k"] == "convex":
        yield r_convex(mx(i["A"]), fn("sqpdfo_check_convex", "sqpdfo_check_convex_")(mx(i["A"]), Opt()))
        return
    if i["k"] == "cond":
        yield r_cond(mx(i["A"]), float(i["thr"]), fn("sqpdfo_check_cond", "sqpdfo_check_cond_")(mx(i["A"]), float(i["thr"]), Opt(), nargout=2))
        return
    f = fn("sqpdfo_bfgs_update", "sqpdfo_bfgs_update_")
    info = Opt()
    info.flag = 0
    v = values()
    yield r_bfgs(mx(i["H"]), col(i["y"]), col(i["s"]), i["first"],
                 f(mx(i["H"]), col(i["y"]), col(i["s"]), bool(i["first"]), info, Opt(), v, nargout=4), v)


def x_poly(i):
    n, p = len(i["x"]), len(i["P"])
    P = np.array([[float(t) for t in i["P"]]])
    x, base, sc = col(i["x"]), col(i["base"]), float(i["sc"])
    scale = np.array([[1.0]] + [[sc]] * min(n, p - 1) + [[sc * sc]] * max(0, p - n - 1))
    if p == 1:
        scale = np.array([[1.0], [sc]])[:2] if i["shift"] == 0 else None
        if scale is None:
            return
    e = dict(k="poly", P=vec(P), x=vec(x), base=vec(base), scale=vec(scale)[:p], sc=sc, shift=i["shift"])
    e["val"] = num(fn("bcdfo_evalP", "bcdfo_evalP_")(P.copy(), x.copy(), base.copy(), scale.copy(), i["shift"]))
    if p > 1:
        e["grad"] = vec(fn("bcdfo_gradP", "bcdfo_gradP_")(P.copy(), x.copy(), base.copy(), scale.copy(), i["shift"]))
        e["hess"] = mat(fn("bcdfo_hessP", "bcdfo_hessP_")(P.copy(), x.copy(), base.copy(), scale.copy(), i["shift"]))
    e["Z"] = cols(fn("bcdfo_evalZ", "bcdfo_evalZ_")(np.hstack([x, base]), p))
    yield e


def pinv_witness(Y, q, linear=0):
    """Right inverse (columns) of the matrix of monomials of the shifted, scaled points; [] when badly conditioned."""
    z = [[a - b for a, b in zip(y, Y[0])] for y in Y]
    sc = max(np.linalg.norm(v) for v in z)
    A = np.array([rec.phi([a / sc for a in v])[:q] for v in z])
    if linear:
        if np.linalg.cond(A[:, :linear]) > 1e3:
            return []
    if A.shape[0] > A.shape[1] or np.linalg.cond(A) > 1e3:
        return []
    return mat(np.linalg.pinv(A).T)


def x_set(i):
    n, wm, sh = i["n"], i["wm"], i["shift"]
    mag = float(i["mag"])
    Y0 = np.array([[mag * float(t) for t in y] for y in i["Y"]]).T
    p1 = Y0.shape[1]
    full = (n + 1) * (n + 2) // 2
    if wm != 3 and p1 > full:
        return
    build = fn("bcdfo_build_QR_of_Y", "bcdfo_build_QR_of_Y_")
    Q, R, base, scale = build(Y0.copy(), wm, sh, 1.0, 1.0, 1e15, nargout=4)
    q = p1 if wm == 0 else full
    W = pinv_witness(i["Y"], q, n + 1 if wm == 1 else 0) if p1 <= full else []
    x = mag * col(i["x"])
    e = dict(k="set", mag=mag, n=n, wm=wm, shift=sh, Y=cols(Y0), fY=[float(t) for t in i["fY"]], x=vec(x), Q=mat(Q), R=mat(R), base=vec(base),
             scale=vec(scale), W=W)
    if W or p1 > full:
        P = fn("bcdfo_computeP", "bcdfo_computeP_")(Q.copy(), R.copy(), Y0.copy(), np.array([[float(t) for t in i["fY"]]]), wm,
                                                   np.zeros((1, q)), np.arange(p1), 0, 0, np.zeros((n, 1)), scale.copy(), sh, 1.0)
        e["P"] = vec(P)
        lj = fn("bcdfo_computeLj", "bcdfo_computeLj_")
        e["L"] = [vec(lj(Q.copy(), R.copy(), j, Y0.copy(), wm, scale.copy(), sh)) for j in range(p1)]
        ev = fn("bcdfo_evalL", "bcdfo_evalL_")
        e["lx"] = vec(ev(Q.copy(), R.copy(), Y0.copy(), np.arange(p1), x.copy(), base.copy(), wm, scale.copy(), sh))
    if W:
        find = fn("bcdfo_find_new_yj", "bcdfo_find_new_yj_")
        e["news"] = []
        for j in range(1, min(p1, 4)):
            y, imp = find(Q.copy(), R.copy(), Y0.copy(), j, mag, 1e-3, base.copy(), 1, wm, scale.copy(), sh, nargout=2)[:2]
            e["news"].append([j + 1, vec(y), num(imp)])
    yield e


def as_set(Y, Q, R, base, scale, n, wm, sh):
    q = len(Y) if wm == 0 else (n + 1) * (n + 2) // 2
    return dict(n=n, wm=wm, shift=sh, Y=Y, Q=mat(Q), R=mat(R), base=vec(base), scale=vec(scale),
                W=pinv_witness(Y, q, n + 1 if wm == 1 else 0) if len(Y) <= (n + 1) * (n + 2) // 2 else [])


def lag_parts(L, s):
    """Gradient at the first point and Hessian of a polynomial, for the witnesses."""
    n = s["n"]
    co = [a * b for a, b in zip(L, s["scale"])] if s["shift"] else L
    z = [0.0] * n if s["shift"] else s["Y"][0]
    P = np.array(list(co) + [0.0] * ((n + 1) * (n + 2) // 2 - len(co)))
    H = np.zeros((n, n))
    k = n + 1
    for i in range(n):
        H[i, i] = P[k]
        k += 1
    for d in range(1, n):
        for i in range(n - d):
            H[i, i + d] = H[i + d, i] = P[k]
            k += 1
    return P[1:n + 1] + H.dot(np.array(z)), H


def best_points(g, H, d):
    """Candidates for the largest |g's + s'Hs/2| in the ball."""
    out = []
    for sg in (1, -1):
        lam = dual(sg * g, sg * H, d)
        w, v = np.linalg.eigh(sg * H)
        b = v.T.dot(sg * g)
        s = -v.dot(b / np.maximum(w + lam, 1e-14))
        nn = np.linalg.norm(s)
        if np.isfinite(nn) and nn > 0:
            out.append(s * min(1.0, d / nn) * (1 - 1e-12))
            for t in (1, -1):
                # to the boundary along the leading eigenvector
                u = t * v[:, 0]
                a, bb, cc = 1.0, s.dot(u), s.dot(s) - d * d
                if cc < 0:
                    out.append((s + (-bb + np.sqrt(bb * bb - cc)) * u) * (1 - 1e-12))
    return out


def x_geo(i):
    n, wm, sh = i["n"], i["wm"], i["shift"]
    mag = float(i["mag"])
    Y0 = np.array([[mag * float(t) for t in y] for y in i["Y"]]).T
    p1 = Y0.shape[1]
    full = (n + 1) * (n + 2) // 2
    d = mag * float(i["del"])
    build = fn("bcdfo_build_QR_of_Y", "bcdfo_build_QR_of_Y_")
    Q, R, base, scale = build(Y0.copy(), wm, sh, 1.0, 1.0, 1e15, nargout=4)
    e = dict(as_set(cols(Y0), Q, R, base, scale, n, wm, sh), k="geo", del_=d, farfact=i["far"], closethr=i["close"],
             fY=[float(t) for t in i["fY"]], x=[mag * float(t) for t in i["x"]])
    if not e["W"]:
        return
    C = lambda *a: [q.copy() for q in a]
    lj, find = fn("bcdfo_computeLj", "bcdfo_computeLj_"), fn("bcdfo_find_new_yj", "bcdfo_find_new_yj_")
    e["L"] = [vec(lj(*C(Q, R), j, Y0.copy(), wm, scale.copy(), sh)) for j in range(p1)]
    e["find"], e["wit"] = [], []
    rad = max(np.linalg.norm(Y0[:, j] - Y0[:, 0]) for j in range(p1))
    for j in range(1, p1):
        y, imp = find(*C(Q, R, Y0), j, d, 1e-3, base.copy(), 1, wm, scale.copy(), sh, nargout=2)[:2]
        e["find"].append([vec(y), num(imp)])
        g, H = lag_parts(e["L"][j], e)
        w = eigen(H)
        w.update(dp=dual(g, H, d), dm=dual(-g, -H, d), rp=dual(g, H, rad), rm=dual(-g, -H, rad))
        e["wit"].append(w)
    xl, xu = -1e20 * np.ones((n, 1)), 1e20 * np.ones((n, 1))
    free = np.arange(n)
    o = fn("bcdfo_poisedness_Y", "bcdfo_poisedness_Y_")(*C(Q, R, Y0), 1e-3, base.copy(), 1, wm, 0, xl, xu, free, 1, scale.copy(), sh, nargout=2)
    e["poi"] = [num(o[0]), num(o[1])]
    o = fn("bcdfo_repair_Y", "bcdfo_repair_Y_")(*C(Q, R, Y0), d, float(i["far"]), 1e-10, float(i["close"]), 1e-3, base.copy(), 1, wm, 0, xl, xu,
                                               free, 1, scale.copy(), sh, 1.0, 1e15, nargout=8)
    r = as_set(cols(o[2]), o[0], o[1], o[6], o[7], n, wm, sh)
    r.update(replaced=[int(t) for t in np.ravel(o[3])], imp=num(o[4]), rad=num(o[5]), cand=[], L=[])
    if r["W"]:
        r["L"] = [vec(lj(*C(o[0], o[1]), j, o[2].copy(), wm, np.array(o[7]).copy(), sh)) for j in range(p1)]
        for j in range(1, p1):
            g, H = lag_parts(r["L"][j], r)
            r["cand"].append([vec(np.array(r["Y"][0]) + s) for s in best_points(g, H, d)])
    e["rep"] = r
    x = mag * col(i["x"])
    e["ops"] = []

    def op(name, Y, Q, R, b, s, **kw):
        e["ops"].append(dict(as_set(cols(Y), Q, R, b, s, n, wm, sh), op=name, **kw))
    if all(vec(x) != y for y in e["Y"]):
        p, q1, r1, Y1, b1, s1 = fn("bcdfo_augment_Y", "bcdfo_augment_Y_")(x.copy(), Y0.copy(), wm, sh, 1.0, 1.0, 1e15, nargout=6)
        op("augment", Y1, q1, r1, b1, s1, p=integer(p))
        q1, r1, Y1, b1, s1 = fn("bcdfo_replace_in_Y", "bcdfo_replace_in_Y_")(*C(Q, R, x, Y0), i["j"], base.copy(), wm, scale.copy(), sh, 1.0, 1.0, 1e15, nargout=5)
        op("replace", Y1, q1, r1, b1, s1, j=i["j"])
        choice = [j for j in range(p1) if i["part"] == 0 or (j + i["part"]) % 2 == 0 or i["part"] > 3 and j > 0]
        q1, r1, Y1, pos, b1, s1 = fn("bcdfo_include_in_Y", "bcdfo_include_in_Y_")(
            x.copy(), *C(Q, R, Y0), np.array(choice), float(i["thr"]), i["crit"], base.copy(), wm, i["succ"], scale.copy(), sh, 1.0, 1.0, 1e15, nargout=6)
        op("include", Y1, q1, r1, b1, s1, choice=choice, thr=i["thr"], crit=i["crit"], succ=i["succ"], pos=integer(pos))
    fY = np.array([e["fY"]])
    for a, b in ((0, i["j"]), (i["j"], 0)):
        q1, r1, Y1, ind, f1, ci, ce, b1, s1 = fn("sqpdfo_swap_in_Y", "sqpdfo_swap_in_Y_")(
            a, b, *C(Q, R, Y0), np.arange(1, p1 + 1), np.ravel(fY).copy(), np.array([]), fY.copy(), base.copy(), wm, scale.copy(), sh, 1.0, 1.0, 1e15, nargout=9)
        op("swap", Y1, q1, r1, b1, s1, i=a, j=b, fY=vec(f1), ind=[int(t) for t in np.ravel(ind)], ce=mat(ce))
    yield e


EXEC = dict(geo=x_geo, trms=x_trms, tcg=x_tcg, trmsbc=x_trmsbc, blls=x_blls, bfgs=x_bfgs, convex=x_bfgs, cond=x_bfgs, poly=x_poly, set=x_set)


def run_input(inp):
    """The records of the calls made on one generated input.  A component that is not there (or has another signature) is
    not called; an exception raised inside one is recorded."""
    import contextlib
    import io
    import traceback
    import sqpdfo.sqpdfo_main      # noqa: F401
    out = []
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            for e in EXEC[inp["k"]](inp):
                e["gen"] = 1
                out.append(e)
    except Exception as x:
        fr = traceback.extract_tb(x.__traceback__)
        if any("/sqpdfo/" in f.filename for f in fr):
            out.append(dict(k="raised", of=inp["k"], type=type(x).__name__, where="%s:%d" % (fr[-1].filename.split("/")[-1], fr[-1].lineno)))
    return out


def run_scenario(s, taps, cap=12):
    """The component calls made in one run (at most cap of every kind, spread over the run)."""
    ev = rec.execute(s, taps)
    kinds = {}
    for e in ev:
        if e["k"] in KINDS:
            kinds.setdefault(e["k"], []).append(e)
    out = []
    for k, es in kinds.items():
        step = max(1, len(es) // cap)
        out += [dict(e, gen=0) for e in es[::step][:cap]]
    return out


# ---------------------------------------------------------------- taps: the same calls inside runs
def t_trms(a, pre, out):
    return r_trms(a["g"], a["H"], a["Delta"], a["eps_D"], out)


def t_tcg(a, pre, out):
    return r_tcg(a["A"], a["b"], a["delta"], a["max_iter"], a["tol"], out)


def t_trmsbc(a, pre, out):
    return r_trmsbc(a["g"], a["H"], a["lb"], a["ub"], a["Delta"], a["eps_D"], out)


def t_blls(a, pre, out):
    return r_blls(a["A"], a["b"], a["lb"], a["ub"], out)


def t_bfgs(a, pre, out):
    return r_bfgs(a["H"], a["y"], a["s"], a["first"], out, a["values"], pre["info"]["niter"])


def t_convex(a, pre, out):
    return r_convex(a["A_"], out)


def t_cond(a, pre, out):
    return r_cond(a["A"], a["cthreshold"], out)


TAPS = {
    "ktrms": ("bcdfo_solve_TR_MS", "bcdfo_solve_TR_MS_", t_trms),
    "ktcg": ("sqpdfo_truncated_cg", "sqpdfo_truncated_cg_", t_tcg),
    "ktrmsbc": ("bcdfo_solve_TR_MS_bc", "bcdfo_solve_TR_MS_bc_", t_trmsbc),
    "kblls": ("blls", "blls_", t_blls),
    "kbfgs": ("sqpdfo_bfgs_update", "sqpdfo_bfgs_update_", t_bfgs),
    "kconvex": ("sqpdfo_check_convex", "sqpdfo_check_convex_", t_convex),
    "kcond": ("sqpdfo_check_cond", "sqpdfo_check_cond_", t_cond),
}

KINDS = {"trms", "tcg", "trmsbc", "blls", "bfgs", "convex", "cond"}


def job(j):
    idx, what, arg, taps, pid = j
    import traces
    try:
        rs = run_input(arg) if what == "input" else run_scenario(arg, taps)
        for e in rs:
            if e["k"] == "raised":
                e["prop"] = pid
        return idx, [json.dumps(traces.enc(traces.clean(e)), separators=(",", ":")) for e in rs], ""
    except BaseException as x:
        return idx, [], "%s: %s" % (type(x).__name__, x)


def generate(suite, count, seed):
    """The inputs of a suite, enumerated by TLC."""
    import tlc
    r = tlc.run("CallGen", env=dict(SUITE=suite, COUNT=str(count)), workers=1, seed=seed, mem="4g")
    inp = [json.loads(q[2:]) for q in r.lines if q.startswith("I ")]
    return inp, ("" if inp and "No error has been found" in r.out else r.out[-600:])


def check(suites, scenarios, taps, pid, count, seed, procs=8, timeout=700, extra=()):
    from concurrent.futures import ThreadPoolExecutor
    from multiprocessing import Pool
    import validate
    errors = []
    jobs = []
    with ThreadPoolExecutor(4) as ex:
        for inp, err in ex.map(lambda q: generate(q, count, seed), suites):
            if err:
                errors.append((0, "CallGen: " + err))
            jobs += [("input", i) for i in inp]
    jobs += [("input", i) for i in extra] + [("scen", s) for s in scenarios]
    src = []

    def items():
        with Pool(procs) as p:
            todo = [(k, w, a, tuple(taps), pid) for k, (w, a) in enumerate(jobs)]
            for idx, texts, err in p.imap_unordered(job, todo, chunksize=max(1, min(50, len(todo) // 64 or 1))):
                if err:
                    errors.append((idx, err))
                for t in texts:
                    src.append(idx)
                    yield len(src) - 1, t
    r = validate.check_texts(items(), pid, module="CallTrace", chunk=1500000, procs=procs, timeout=timeout)
    r["errors"] = errors + r["errors"]
    r["jobs"], r["src"] = jobs, src
    return r


def replay(v, path):
    """Runs the input or scenario of a violation again."""
    one = [v["scenario"]]
    r = check([], [] if v["source"] == "input" else one, v["taps"], v["property"], 0, 1, procs=1, extra=one if v["source"] == "input" else [])
    for _, c, _ in sorted(set(r["bad"])):
        print("VIOLATION property=%s replay=%s" % (v["property"], path))
        print("  " + c)
    return 1 if r["bad"] or r["malformed"] else 0
