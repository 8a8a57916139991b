"""Calls of optimize enumerated by Api.tla, executed on the real code and judged by ApiTrace.tla."""
import contextlib
import io
import json
import os
import shutil
import tempfile
from multiprocessing import Pool

import numpy as np

ABSENT = object()
VALUES = dict(
    algo_descent=dict(good="wolfe", odd=" Po Well", oddwolfe="wOL fe ", unknown="newton", empty=""),
    hess_approx=dict(good="bfgs", odd=" b F g S ", oddmodel="MOdel", unknown="sr1", empty=""),
    whichmodel=dict(good="subbasis", odd="Frob Norm", l2=" L2 Norm", regr="regress ioN ", oddsub=" Sub Basis", unknown="0", empty=" "),
    final_degree=dict(good="linear", odd="QUADRATIC ", diag=" Diago nal", oddlin=" Line ar", unknown="cubic", empty=""),
    dxmin=dict(good=1e-3, zero=0, negative=-1e-8),
    inf=dict(good=1e20, zero=0.0, negative=-1.0),
    miter=dict(good=3, zero=0, negative=-5),
    msimul=dict(good=7, zero=0, negative=-1),
    tol_grad=dict(good=1e-3, zero=0.0, negative=-1e-5),
    tol_feas=dict(good=1e-3, zero=0, negative=-1e-5),
    tol_bnds=dict(good=1e-3, zero=0.0, negative=-1e-9),
    bfgs_restart=dict(good=3),
    verbose=dict(good=2, zero=0, six=6, seven=7, negative=-1),
    fout=dict(good=1, negative=-2))
NAMED = ("algo_descent", "hess_approx", "whichmodel", "final_degree")
NAMES = ("powell", "wolfe", "bfgs", "model", "linear", "diagonal", "quadratic", "subbasis", "frobnorm", "l2norm", "regression")
GROUP = dict(algo_descent=("powell", "wolfe"), hess_approx=("bfgs", "model"), final_degree=("linear", "diagonal", "quadratic"),
             whichmodel=("subbasis", "frobnorm", "l2norm", "regression"))
BOUNDS = dict(none=(None, None), ok=([-5.0, -5.0], [5.0, 4.0]), lbonly=([-1.0, -2.0], None), ubonly=(None, [3.0, 2.0]),
              infinite=([-np.inf, -np.inf], [np.inf, np.inf]), somefixed=([0.5, -5.0], [0.5, 5.0]), crossed=([1.0, -5.0], [0.0, 5.0]),
              lastcrossed=([-5.0, 2.0], [5.0, 1.0]), fixedcrossed=([0.5, 1.0], [0.5, -1.0]), allfixed=([0.5, -1.0], [0.5, -1.0]))


class Options:
    pass


def effective(out):
    info, options, values = out
    if int(np.ravel(info.flag)[0]) != 0:
        return None
    e = {}
    for n in VALUES:
        v = getattr(options, n)
        if n in NAMED:
            hit = [q for q in GROUP[n] if getattr(values, q, ABSENT) == v]
            e[n] = hit[0] if hit else str(v)
        else:
            e[n] = float(v)
    return e


def execute(call):
    """One call; returns the record judged by ApiTrace."""
    import sqpdfo
    import sqpdfo.sqpdfo_prelim as pre
    calls = dict(nf=0, nc=0)
    seen = []

    def f(x):
        calls["nf"] += 1
        return float((x[0] - 1.0) ** 2 + 2.0 * (x[1] + 0.5) ** 2)
    cons = call["cons"]
    me, mi = dict(none=(None, None), unused=(0, 0), eq=(1, 0), eq_nofunc=(1, 0), ineq=(0, 1), ineq_nofunc=(0, 1), mix=(1, 1))[cons]

    def c(x):
        calls["nc"] += 1
        v = [x[0] + x[1], x[0] + 2.0]
        return np.array(v[:1] if cons != "mix" else v)
    x0 = dict(ok=np.array([[0.5], [-1.0]]), list=[0.5, -1.0], missing=None, empty=[], matrix=np.array([[1.0, 2.0], [3.0, 4.0]]))[call["x0"]]
    lb, ub = BOUNDS[call["bounds"]]
    o = None
    if call["optobj"] != "none":
        o = Options()
        if call["optobj"] == "given":
            for n, tag in call["o"].items():
                if tag != "absent":
                    setattr(o, n, VALUES[n][tag])
    kw = {}
    if me is not None:
        kw.update(me=me, mi=mi)
    if cons in ("eq", "ineq", "mix", "unused"):
        kw["func_c"] = c
    real = getattr(pre, "sqpdfo_options_", None)

    def tap(*a, **k):
        out = real(*a, **k)
        try:
            e = effective(out)
            if e is not None:
                seen.append(e)
        except Exception:
            pass
        return out
    if real is not None:
        pre.sqpdfo_options_ = tap
    old, tmp = os.getcwd(), tempfile.mkdtemp(prefix="sqpapi")
    os.chdir(tmp)
    r = dict(call=call, exc="", flag=-1, haseff=0, eff={})
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            x, lm, info = sqpdfo.optimize(o, f if call["func"] == "ok" else None, x0, lb, ub, **kw)
        r["flag"] = int(np.ravel(info.flag)[0])
    except BaseException as e:
        r["exc"] = type(e).__name__
    finally:
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)
        if real is not None:
            pre.sqpdfo_options_ = real
    r.update(calls)
    if seen:
        r.update(haseff=1, eff=seen[0])
    return r


def job(call):
    try:
        return execute(call), ""
    except BaseException as e:
        return None, "%s: %s" % (type(e).__name__, e)


def enumerated(count, seed):
    import tlc
    r = tlc.run("Api", env=dict(COUNT=str(count)), workers=1, seed=seed, mem="6g")
    ok = "No error has been found" in r.out
    return [json.loads(q[2:]) for q in r.lines if q.startswith("S ")], ("" if ok else r.out[-600:]), r


def validate_records(recs, pid, procs=8):
    import traces
    import validate
    items = ((k, json.dumps(traces.enc(e), separators=(",", ":"))) for k, e in enumerate(recs))
    return validate.check_texts(items, pid, module="ApiTrace", chunk=1500000, procs=procs)


def check(count, seed, pid, extra=()):
    calls, err, r = enumerated(count, seed)
    calls += list(extra)
    recs, src, errors = [], [], [("Api", err)] if err else []
    with Pool(8) as p:
        for c, (e, msg) in zip(calls, p.imap(job, calls, chunksize=8)):
            if msg:
                errors.append(("api", msg))
            else:
                recs.append(e)
                src.append(c)
    out = validate_records(recs, pid)
    out["states"] += r.distinct
    out["transitions"] += r.states
    out["errors"] = errors + out["errors"]
    out.update(src=src, recs=recs, enumerated=len(calls))
    return out


def replay(v, path):
    r = validate_records([execute(v["scenario"])], v["property"], procs=1)
    for _, c, pos in sorted(set(r["bad"])):
        print("VIOLATION property=%s replay=%s" % (v["property"], path))
        print("  %s" % c)
    return 1 if r["bad"] or r["malformed"] else 0
