"""Pairs of runs that must be equal (PairTrace.tla): histories of calls in one process, equivalent ways of making a call,
problems with fixed variables and their reductions, and options given and left to their defaults."""
import copy
import json
import os
import random
import re
import tempfile
import zlib
from multiprocessing import Pool

SEEN = ("f", "c", "ret", "exc", "hist", "out")


def observe(s, hold=None, fresh=True):
    import rec
    if s.get("glob"):
        import numpy as np
        np.random.seed(7)
        random.seed(7)
    ev = [e for e in rec.execute(s, (), hold=hold, fresh_cwd=fresh) if e["k"] in SEEN]
    for e in ev:
        e.pop("fault", None)
        if e["k"] == "out":         # what was printed, without addresses
            h = zlib.crc32(re.sub("0x[0-9a-f]+", "0x", e["text"]).encode())
            e.clear()
            e.update(k="out", h=[h >> 16, h & 65535])
        if e["k"] == "exc":
            e.pop("msg", None)
            e.pop("where", None)
        if e["k"] == "f" and not e["ok"]:
            e["v"] = 0.0
        if e["k"] == "c" and not e["ok"]:
            e["v"] = []
    return ev


def pair(prop, a, b, rel="same", free=(), fix=(), hist=1, tol="0"):
    return dict(prop=prop, rel=rel, free=list(free), fix=[float(v) for v in fix], hist=hist, tol=tol, A=a, B=b)


# ---------------------------------------------------------------- sessions
def quad(n, d=1.0, p=1.0):
    return {"kind": "quad", "p": [p] * n, "d": [d] * n, "cross": [[0, 1, 0.3]] if n > 1 else []}


def lin(a, c=0.0):
    return {"kind": "lin", "a": a, "const": c}


def kinds():
    o = dict(verbose=1, miter=12, msimul=14)
    base = dict(x0=[-1.0, 2.0], lb=None, ub=None, me=0, mi=0, options=o)

    def k(n, f, c=(), **kw):
        return dict(copy.deepcopy(base), prob={"n": n, "f": f, "c": list(c)}, **kw)
    circle = {"kind": "sphere", "p": [0.0, 0.0], "r": 2.0}
    rosen = {"kind": "rosen", "w": 10.0}
    wavy = {"kind": "wavy", "a": 0.5, "w": 3.0, "p": [0.5, -0.5]}
    out = dict(
        free=k(2, rosen),
        bounds=k(2, wavy) | dict(lb=[-2.0, 0.0], ub=[1e20, 3.0]),
        eq=k(2, quad(2)) | dict(me=1) | dict(prob={"n": 2, "f": quad(2), "c": [circle]}),
        ineq1=k(2, quad(2), [lin([-1.0, 1.0], 0.5)]) | dict(mi=1),
        ineq2=k(2, rosen, [lin([1.0, 1.0], 1.0), circle]) | dict(mi=2),
        mix=k(3, quad(3, 2.0), [lin([1.0, 1.0, 1.0], -1.0), lin([1.0, 0.0, -1.0], 0.25)]) | dict(me=1, mi=1, x0=[0.0, 1.0, -1.0]),
        bfgs=k(2, rosen, [lin([1.0, 2.0], -1.0)]) | dict(me=1, options=dict(o, hess_approx="bfgs")),
        frob=k(2, wavy) | dict(options=dict(o, whichmodel="Frobnorm", tol_grad=1e-3)),
        big=k(4, quad(4, 3.0)) | dict(x0=[0.0, 1.0, -1.0, 2.0], options=dict(o, verbose=2, msimul=20, final_degree="quadratic")),
        fixed=k(3, quad(3)) | dict(x0=[0.0, 0.5, 1.0], lb=[-5.0, 0.5, -5.0], ub=[5.0, 0.5, 5.0]),
        noisy=k(2, rosen, [lin([1.0, 1.0], -0.5)]) | dict(mi=1, options=dict(o, verbose=4)),
        raises=k(2, wavy, [circle]) | dict(mi=1, fault=dict(k=5, where="c", what="raise")),
        nan=k(2, quad(2), [circle]) | dict(me=1, fault=dict(k=2, where="f", what="nan")),
        nofunc=k(2, rosen, [circle]) | dict(me=1, nofunc=1),
        nocons=k(2, rosen, [lin([1.0, 1.0]), circle]) | dict(mi=2, nocons=1),
        badopt=k(2, rosen, [circle]) | dict(mi=1, options=dict(o, miter=-1)),
        crossed=k(2, rosen) | dict(lb=[1.0, 1.0], ub=[0.0, 2.0]),
        long=k(2, rosen, [circle]) | dict(me=1, lb=[-1.0, -1.25], ub=[1.5, 1e20], options=dict(verbose=3, miter=80, msimul=90, tol_grad=1e-7, tol_feas=1e-7)),
        quiet=k(2, wavy, [circle]) | dict(mi=1, lb=[0.5, -1e20], ub=[1e20, 1.0], options=dict(o, verbose=0, fout=2, whichmodel="regression")),
        restart=k(3, quad(3, 2.0), [lin([1.0, 1.0, 1.0], -1.0)]) | dict(me=1, x0=[0.0, 1.0, -1.0], options=dict(o, hess_approx="bfgs", bfgs_restart=3, verbose=2)),
    )
    for s in out.values():
        s["stdout"] = 1
    return out


def session_job(names):
    ks = kinds()
    try:
        with tempfile.TemporaryDirectory(prefix="sqpses") as tmp:       # one directory for the whole session
            old = os.getcwd()
            os.chdir(tmp)
            try:
                return [observe(ks[q], fresh=False) for q in names], ""
            finally:
                os.chdir(old)
    except BaseException as x:
        return [], "%s: %s" % (type(x).__name__, x)


def sessions(length, extra, seed):
    """Histories enumerated by TLC."""
    import tlc
    r = tlc.run("Session", env=dict(SLEN=str(length), SEXTRA=str(extra)), workers=1, seed=seed, mem="4g")
    out = [json.loads(q[2:]) for q in r.lines if q.startswith("S ")]
    return out, ("" if out and "No error has been found" in r.out else r.out[-500:]), r


def run_sessions(prop, hs, procs=8):
    """(pairs, sources, errors): every call of every session against the same call in a fresh process."""
    ks = sorted({q for h in hs for q in h})
    pairs, src, errors = [], [], []
    import rec
    import sqpdfo           # noqa: F401  (imported, but nothing is run in this process)
    rec.attach()
    with Pool(procs, maxtasksperchild=1) as p:          # every session has a process of its own
        fresh = {}
        for q, (obs, err) in zip(ks, p.map(session_job, [[q] for q in ks], chunksize=1)):
            if err:
                errors.append(("session " + q, err))
            else:
                fresh[q] = obs[0]
        for h, (obs, err) in zip(hs, p.imap(session_job, hs, chunksize=1)):
            if err:
                errors.append(("session %s" % h, err))
                continue
            for k, (q, o) in enumerate(zip(h, obs)):
                if q in fresh:
                    pairs.append(pair(prop, fresh[q], o))
                    src.append(dict(kind="session", calls=h[:k + 1]))
    return pairs, src, errors


# ---------------------------------------------------------------- variants of one call
def variants(count, seed):
    import tlc
    r = tlc.run("Variants", env=dict(COUNT=str(count)), workers=1, seed=seed, mem="4g")
    out = [json.loads(q[2:]) for q in r.lines if q.startswith("S ")]
    return out, ("" if out and "No error has been found" in r.out else r.out[-500:])


def apply_variant(s, v):
    """The same call made differently, or None when the variant does not exist for it."""
    b = copy.deepcopy(s)
    n = s["prob"]["n"]
    for q in ("x0fmt", "lbfmt", "ubfmt"):
        f = v[q]
        if f == "scalar" and n > 1:
            f = "flat"
        if f.startswith("int") and any(t != int(t) for t in s["x0"]):
            f = "list"
        b[q] = f
    b["ftype"], b["ctype"] = v["ftype"], v["ctype"]
    if v["mutate"] != "no":
        b["mutate"] = v["mutate"]
    b["options"]["verbose"] = int(v["verbose"])
    b["optform"] = v["optform"]
    b["glob"] = int(v["glob"] == "seeded")
    inf = float("inf")
    for q, sg in (("lb", -1), ("ub", 1)):
        if v["inf"] == "inf" and b[q] is not None:
            b[q] = [sg * inf if sg * t >= 1e20 else t for t in b[q]]
        if v["inf"] == "omit" and b[q] is not None and all(sg * t >= 1e20 for t in b[q]):
            b[q] = None
        if v["inf"] == "inf" and b[q] is None:
            b[q] = [sg * inf] * n
    return b


def variant_job(job):
    prop, s, v = job
    try:
        b = apply_variant(s, v)
        hold = {}
        a = observe(s, hold=hold if v["again"] == "yes" else None)
        if v["again"] == "yes":
            return pair(prop, a, observe(s, hold=hold)), ""
        same = int(b["options"]["verbose"] in (1, 2, 3) and s["options"].get("verbose", 1) in (1, 2, 3))
        return pair(prop, a, observe(b), hist=same), ""
    except BaseException as x:
        return None, "%s: %s" % (type(x).__name__, x)


# ---------------------------------------------------------------- fixed variables
def reduced_spec(spec, free, vals):
    """The function of the free variables, as a problem text: the fixed values are inserted before evaluation."""
    return dict(kind="embed", of=spec, free=free, vals=vals)


def reduce_scenario(s):
    n = s["prob"]["n"]
    lb, ub = s["lb"], s["ub"]
    free = [j for j in range(n) if lb[j] != ub[j]]
    vals = [0.0 if j in free else lb[j] for j in range(n)]
    b = copy.deepcopy(s)
    b["prob"] = dict(n=len(free), sn=n, f=reduced_spec(s["prob"]["f"], free, vals), c=[reduced_spec(c, free, vals) for c in s["prob"]["c"]])
    for q in ("x0", "lb", "ub"):
        b[q] = [s[q][j] for j in free]
    return b, free, vals


def reduced_job(job):
    prop, s, tol = job
    try:
        b, free, vals = reduce_scenario(s)
        return pair(prop, observe(s), observe(b), rel="reduced", free=[j + 1 for j in free], fix=vals, tol=tol), ""
    except BaseException as x:
        return None, "%s: %s" % (type(x).__name__, x)


# ---------------------------------------------------------------- defaults and spellings of options
DEFAULTS = dict(miter=1000, msimul=1000, tol_grad=1e-5, tol_feas=1e-5, tol_bnds=1e-5, dxmin=1e-8, verbose=1, hess_approx="model",
                whichmodel="subbasis", final_degree="diagonal", bfgs_restart=0, algo_descent="powell", inf="__inf__", fout=1)


def option_job(job):
    prop, s, name, how = job
    try:
        a, b = copy.deepcopy(s), copy.deepcopy(s)
        if how == "default":
            a["options"].pop(name, None)
            b["options"][name] = DEFAULTS[name]
        elif how == "zero":
            a["options"].pop(name, None)
            b["options"][name] = 0
        elif how == "none":
            a["options"], b["options"] = None, dict(verbose=1)
        return pair(prop, observe(a), observe(b)), ""
    except BaseException as x:
        return None, "%s: %s" % (type(x).__name__, x)


JOBS = dict(variant=variant_job, reduced=reduced_job, option=option_job)


def run_jobs(kind, jobs, procs=8):
    pairs, src, errors = [], [], []
    with Pool(procs) as p:
        for j, (r, err) in zip(jobs, p.imap(JOBS[kind], jobs, chunksize=4)):
            if err:
                errors.append((kind, err))
            else:
                pairs.append(r)
                src.append(dict(kind=kind, job=list(j)))
    return pairs, src, errors


def validate_pairs(pairs, pid, procs=8, timeout=700):
    import traces
    import validate
    items = ((k, json.dumps(dict(traces.enc(p), prop=p["prop"]), separators=(",", ":"))) for k, p in enumerate(pairs))
    return validate.check_texts(items, pid, module="PairTrace", chunk=3000000, procs=procs, timeout=timeout)


def rerun(src):
    if src["kind"] == "session":
        ps, _, _ = run_sessions(src.get("prop", "P10"), [src["calls"]], procs=2)
        return ps[-1:]
    return run_jobs(src["kind"], [tuple(src["job"])], procs=1)[0]


def replay(v, path):
    r = validate_pairs(rerun(v["scenario"]), v["property"], procs=1)
    for _, c, pos in sorted(set(r["bad"])):
        print("VIOLATION property=%s replay=%s" % (v["property"], path))
        print("  %s at event %d" % (c, pos))
    return 1 if r["bad"] or r["malformed"] else 0
