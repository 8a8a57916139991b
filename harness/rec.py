"""Runs one scenario of sqpdfo from /repo and records what an observer can see.

The observation is a list of events (dicts).  Events of the user interface (start, f, c, ret, exc, hist) are always
recorded; events of internal functions ("taps") are recorded by wrapping the named function in every sqpdfo module.  A
tap that cannot be attached or decoded is left out: the specification evaluates only clauses whose events are present.
"""
import contextlib
import importlib
import inspect
import io
import os
import shutil
import signal
import sys
import tempfile
import traceback
import warnings

os.environ.setdefault("OPENBLAS_CORETYPE", "Nehalem")     # the same rounding on every machine
for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(k, "1")
warnings.filterwarnings("ignore")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)

import numpy as np            # noqa: E402
import problems               # noqa: E402

_ev = None                    # current event list (None: not recording)
_orig = {}


class Timeout(BaseException):
    pass


def vec(v):
    if v is None:
        return []
    return [float(t) for t in np.asarray(v, dtype=float).ravel()]


def mat(m):
    """A matrix as a list of rows ([] when empty)."""
    a = np.asarray(m, dtype=float)
    if a.size == 0:
        return []
    if a.ndim == 1:
        a = a.reshape(-1, 1)
    return [[float(t) for t in r] for r in a]


def cols(m):
    """The columns of a matrix, i.e. points stored columnwise as a list of points."""
    a = np.asarray(m, dtype=float)
    if a.size == 0:
        return []
    if a.ndim == 1:
        a = a.reshape(1, -1)
    return [[float(t) for t in r] for r in a.T]


def num(v):
    return float(np.asarray(v, dtype=float).ravel()[0])


def integer(v):
    return int(round(num(v)))


def slack_state():
    import sqpdfo.sqpdfo_global_variables as g
    try:
        s = g.get_slacks()
    except Exception:
        s = None
    return [] if s is None else vec(s)


# ---------------------------------------------------------------- taps
def t_trs(a, pre, out):
    i = pre["info"]
    return dict(k="trs", x=vec(a["x"]), delta=num(a["delta"]), M=mat(a["M"]), g=i["g"], f=i["f"], ce=i["ce"],
                ae=i["ae"], sl=pre["sl"], niter=i["niter"], nsimul=i["nsimul"], lb=vec(a["lb"]), ub=vec(a["ub"]),
                rej=int(bool(a["radius_has_been_rejected"])), lm=vec(a["lm"]),
                xnew=vec(out[0]), dout=num(out[1]), rpred=num(out[2]), act=int(bool(out[3]) or bool(out[4])),
                flag=integer(getattr(out[7], "flag", 0)), slp=vec(out[8]))


def t_small(a, pre, out):
    return dict(k="small", sigma=num(a["sigma_"]), x=vec(a["x_"]), fx=num(a["fx_"]), Y=pre["Y"], fY=pre["fY"],
                ceY=pre["ceY"], sl=pre["sl"], nx=vec(out[0]), nfx=num(out[1]), nY=cols(out[4]), nfY=vec(out[5]),
                nceY=cols(out[7]) if np.size(out[7]) else [], lb=vec(a["xl_"]), ub=vec(a["xu_"]),
                ind=[int(v) for v in np.ravel(a["indfree_"])],
                f=num(out[11].f), ce=vec(out[11].ce))


def t_mod(a, pre, out):
    e = dict(k="mod", Y=pre["Y"], fY=pre["fYm"], wm=integer(a["whichmodel"]), P=mat(out),
             scale=vec(a["scale"]), shift=integer(a["shift_Y"]))
    e["W"] = right_inverse(e)
    return e


def phi(z):
    n = len(z)
    v = [1.0] + list(z) + [0.5 * u * u for u in z]
    for k in range(1, n):
        v += [z[i] * z[i + k] for i in range(n - k)]
    return v


def right_inverse(e):
    """Witness that the set is poised: columns of a right inverse of the matrix of scaled monomials ([] if none)."""
    try:
        q = len(e["P"][0])
        Y = e["Y"]
        rows = []
        for y in Y:
            z = [u - w for u, w in zip(y, Y[0])] if e["shift"] else y
            m = phi(z)[:q]
            rows.append([u * w for u, w in zip(m, e["scale"])] if e["shift"] else m)
        A = np.array(rows)
        if e["wm"] == 1:        # minimum Frobenius norm: the linear part must be determined as well
            lin = A[:, :len(Y[0]) + 1]
            if np.linalg.cond(lin) > 1e3:
                return []
            if A.shape[0] == lin.shape[1]:
                A = lin
        if A.shape[0] > A.shape[1] or np.linalg.cond(A) > 1e3:
            return []
        return [[float(u) for u in c] for c in np.linalg.pinv(A).T]
    except Exception:
        return []


def t_hess(a, pre, out):
    return dict(k="hess", M=mat(out[0]), M0=mat(a["M"]), s=vec(a["s"]), g=vec(out[2].g), ae=mat(out[2].ae),
                gx=vec(a["gx"]), gce=mat(a["gce"]), gci=mat(a["gci"]), me=integer(a["me"]), mi=integer(a["mi"]),
                lm=vec(a["lm"]), null=int(bool(a["null_step"])), g0=pre["info"]["g"], ae0=pre["info"]["ae"], nsimul=pre["info"]["nsimul"])


def t_mult(a, pre, out):
    i = pre["info"]
    n = np.size(a["x"])
    return dict(k="mult", x=vec(a["x"]), lb=vec(a["lb"]) or [-float("inf")] * n, ub=vec(a["ub"]) or [float("inf")] * n, g=i["g"], ae=i["ae"], ce=i["ce"],
                sl=pre["sl"], lm=vec(out[0]), K=mult_inverse(a, i, pre["sl"]))


def mult_inverse(a, i, sl):
    """Witness for the multiplier system: the inverse of A A' over the multipliers that are not fixed at zero."""
    try:
        x, lb, ub = vec(a["x"]), vec(a["lb"]), vec(a["ub"])
        n, m, ns = len(x), len(i["ae"]), len(sl)
        rows = []
        for j in range(n):
            lo0 = lb[j] <= -1e20 or (ub[j] < 1e20 and abs(x[j] - ub[j]) < 1e-6)
            up0 = ub[j] >= 1e20 or (lb[j] > -1e20 and abs(x[j] - lb[j]) < 1e-6)
            if not (lo0 and up0):
                rows.append([float(j == k) for k in range(n + ns)])
        for r in range(m):
            rows.append(list(i["ae"][r]) + [-2 * sl[l] if l == r - (m - ns) else 0.0 for l in range(ns)])
        A = np.array(rows)
        if not len(rows):
            return []
        AA = A.dot(A.T)
        if np.linalg.cond(AA) > 1e6:
            return []
        return mat(np.linalg.inv(AA))
    except Exception:
        return []


def t_opt(a, pre, out):
    i = pre["info"]
    return dict(k="opt", x=vec(a["x"]), lm=vec(a["lm"]), lb=vec(a["lb"]), ub=vec(a["ub"]), g=i["g"], ae=i["ae"],
                ce=i["ce"], sl=pre["sl"], feas=vec(out[0]), comp=vec(out[1]), glag=vec(out[2].glag))


def t_iter(a, pre, out):
    i = pre["info"]
    return dict(k="iter", niter=i["niter"], nsimul=i["nsimul"], f=i["f"], glagn=i["glagn"], feasn=i["feasn"],
                compl=i["compl"], delta=num(a["old_delta"]), norms=num(a["norms"]), merit=num(a["merit"]),
                itype=str(a["itype"]).strip() or "none")


def t_poi(a, pre, out):
    return dict(k="poi", poised=num(out[0]), rad=num(out[1]), Y=cols(a["Y"]))


def t_repair(a, pre, out):
    return dict(k="repair", Y=pre["Y"], nY=cols(out[2]), rep=[int(v) for v in np.ravel(out[3])] if np.size(out[3]) else [],
                delta=num(a["Delta"]), farfact=num(a["farfact"]), x=vec(a["xbase"]), poised=num(out[4]), rad=num(out[5]))


def t_find(a, pre, out):
    return dict(k="find", Y=pre["Y"], delta=num(a["Delta"]), j=integer(a["j"]), y=vec(out[0]), imp=num(out[1]))


def t_setop(kind):
    def t(a, pre, out):
        if kind == "augment":
            return dict(k="augment", Y=pre["Y"], y=vec(a["Ynew"]), nY=cols(out[3]), p=integer(out[0]))
        if kind == "include":
            return dict(k="include", Y=pre["Y"], y=vec(a["x"]), nY=cols(out[2]), pos=integer(out[3]))
        if kind == "swap":
            return dict(k="swap", Y=pre["Y"], i=integer(a["i"]), j=integer(a["j"]), nY=cols(out[2]),
                        fY=pre["fY"], nfY=vec(out[4]))
        if kind == "replace":
            return dict(k="replace", Y=pre["Y"], j=integer(a["j"]), y=vec(a["ynew"]), nY=cols(out[2]))
    return t


TAPS = {
    "trs": ("sqpdfo_solve_TR_bc", "sqpdfo_solve_TR_bc_", t_trs),
    "small": ("sqpdfo_find_smallf", "sqpdfo_find_smallf_", t_small),
    "mod": ("bcdfo_computeP", "bcdfo_computeP_", t_mod),
    "hess": ("sqpdfo_computeHessian", "sqpdfo_computeHessian_", t_hess),
    "mult": ("sqpdfo_compute_multiplier", "sqpdfo_compute_multiplier_", t_mult),
    "opt": ("sqpdfo_optimality", "sqpdfo_optimality_", t_opt),
    "iter": ("sqpdfo_iter_printout", "sqpdfo_iter_printout_", t_iter),
    "poi": ("bcdfo_poisedness_Y", "bcdfo_poisedness_Y_", t_poi),
    "repair": ("bcdfo_repair_Y", "bcdfo_repair_Y_", t_repair),
    "find": ("bcdfo_find_new_yj", "bcdfo_find_new_yj_", t_find),
    "augment": ("bcdfo_augment_Y", "bcdfo_augment_Y_", t_setop("augment")),
    "include": ("bcdfo_include_in_Y", "bcdfo_include_in_Y_", t_setop("include")),
    "swap": ("sqpdfo_swap_in_Y", "sqpdfo_swap_in_Y_", t_setop("swap")),
    "replace": ("bcdfo_replace_in_Y", "bcdfo_replace_in_Y_", t_setop("replace")),
}


def pre_state(a):
    """What a call's arguments are before the call (a callee may write into them)."""
    p = {"sl": slack_state()}
    i = a.get("info_", a.get("info"))
    if i is not None:
        d = {}
        for name, conv in (("g", vec), ("f", num), ("ce", vec), ("ci", vec), ("ae", mat), ("glagn", num), ("feasn", num),
                           ("compl", num), ("niter", integer)):
            try:
                d[name] = conv(getattr(i, name))
            except Exception:
                d[name] = [] if conv in (vec, mat) else (0 if conv is integer else float("nan"))
        try:
            d["nsimul"] = int(i.nsimul[1])
        except Exception:
            d["nsimul"] = 0
        p["info"] = d
    for name in ("Y", "Y_"):
        if name in a:
            p["Y"] = cols(a[name])
    for name in ("fY", "fY_"):
        if name in a and a[name] is not None:
            p["fY"] = vec(a[name])
            p["fYm"] = [vec(r) for r in np.atleast_2d(np.asarray(a[name], dtype=float))]
    for name in ("ceY", "ceY_"):
        if name in a and a[name] is not None:
            p["ceY"] = cols(a[name]) if np.size(a[name]) else []
    return p


def wrap(name, fn, conv):
    sig = inspect.signature(fn)

    def w(*args, **kw):
        ev = _ev
        if ev is None or name not in _active:
            return fn(*args, **kw)
        a = pre = None
        try:
            b = sig.bind(*args, **kw)
            b.apply_defaults()
            a = b.arguments
            pre = pre_state(a)
            a = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in a.items()}
        except Exception:
            a = None
        out = fn(*args, **kw)
        if a is not None:
            try:
                ev.append(conv(a, pre, out))
            except Exception:
                _untapped.add(name)
        return out
    w.__wrapped__ = fn
    return w


def all_taps():
    import calls
    return dict(TAPS, **calls.TAPS)


_active = set()
_untapped = set()
_attached = False


def attach():
    global _attached
    if _attached:
        return
    _attached = True
    import sqpdfo      # noqa: F401
    import sqpdfo.sqpdfo_main    # noqa: F401
    for name, (mod, fname, conv) in all_taps().items():
        try:
            m = importlib.import_module("sqpdfo." + mod)
            fn = getattr(m, fname)
        except Exception:
            _untapped.add(name)
            continue
        w = wrap(name, fn, conv)
        for mn, mm in list(sys.modules.items()):
            if mn.startswith("sqpdfo") and mm is not None:
                for an in list(vars(mm)):
                    if getattr(mm, an, None) is fn:
                        setattr(mm, an, w)


def shape_arg(v, fmt):
    """A point given by the user in one of the documented or usual representations."""
    if v is None:
        return None
    if fmt == "col":
        return np.array([v], dtype=float).T
    if fmt == "row":
        return np.array([v], dtype=float)
    if fmt == "flat":
        return np.array(v, dtype=float)
    if fmt == "list":
        return list(v)
    if fmt == "tuple":
        return tuple(v)
    if fmt == "intcol":
        return np.array([[int(t) for t in v]]).T
    if fmt == "intlist":
        return [int(t) for t in v]
    if fmt == "scalar":
        return v[0]
    if fmt == "nested":
        return [[t] for t in v]
    raise KeyError(fmt)


np.seterr(all="ignore")


class Options:
    pass


def hits(fault, nf, pt, bad):
    """Whether the nf-th evaluation, at pt, fails: the k-th, all up to the k-th, all on one side of a plane, and repetitions."""
    if "upto" in fault:
        now = nf <= fault["upto"]
    elif "side" in fault:
        i, sign, v = fault["side"]
        now = sign * pt[i] > sign * v
    else:
        now = nf == fault["k"]
    return now or tuple(pt) in bad


def make_user(s, ev):
    """User callbacks.  s["fault"] = {"k": evaluation number (or "upto", "side"), "where": "f"|"c", "what": "raise"|"nan"|"inf"|"-inf"}
    s["script"] = list of values replacing the objective from the (n+2)th evaluation on (a scripted oracle)."""
    p = s["prob"]
    fault = s.get("fault")
    script = s.get("script")
    mutate = s.get("mutate")
    state = {"nf": 0, "best": None, "bad": set(), "bufs": []}

    def buffer(name, v):
        """The user's own array, returned every time with new content."""
        b = state.setdefault(name, np.zeros(len(v)))
        check()
        b[:] = v
        state["bufs"] = [q for q in state["bufs"] if q[0] is not b] + [(b, b.tobytes())]
        return b

    def check():
        state["touched"] = state.get("touched", 0) or int(any(b.tobytes() != w for b, w in state["bufs"]))

    def keep(x):
        """Changes the points received earlier."""
        for y in state.setdefault("kept", []):
            for i in range(len(y)):
                y[i] = 55.0
        state["kept"] = [x]
    state["check"] = check

    def bad(what):
        if what == "raise":
            raise ValueError("scripted failure")
        if what == "exit":
            raise SystemExit("scripted exit")
        return float(what)

    def user_f(x):
        state["nf"] += 1
        pt = [float(t) for t in x]
        e = {"k": "f", "x": pt, "ok": 1, "v": 0.0}
        ev.append(e)
        if fault and fault["where"] == "f" and hits(fault, state["nf"], pt, state["bad"]):
            state["bad"].add(tuple(pt))
            e["ok"] = 0
            e["fault"] = fault["what"]
            v = bad(fault["what"])
            return v
        if script:
            v = scripted(script, state, p, pt)
        else:
            v = problems.fval(p, pt)
        e["v"] = float(v)
        state["best"] = v if state["best"] is None else min(state["best"], v)
        if mutate:
            if mutate == "later":
                keep(x)
            else:
                for i in range(len(x)):
                    x[i] = 77.0
        ft = s.get("ftype")
        if ft == "arr0":
            return np.array(v)
        if ft == "arr1":
            return np.array([v])
        if ft == "arr2":
            return np.array([[v]])
        if ft == "np":
            return np.float64(v)
        if ft == "buf":
            return buffer("fbuf", [v])
        return v

    def user_c(x):
        pt = [float(t) for t in x]
        e = {"k": "c", "x": pt, "ok": 1, "v": []}
        ev.append(e)
        v = problems.cvals(p, pt)
        e["v"] = [float(t) for t in v]
        if fault and fault["where"] == "c" and hits(fault, state["nf"], pt, state["bad"]):
            state["bad"].add(tuple(pt))
            if fault["what"] in ("raise", "nan"):
                e["ok"] = 0
            e["fault"] = fault["what"]
            v[state["nf"] % len(v)] = bad(fault["what"])
            e["v"] = [float(t) for t in v]
        if mutate:
            if mutate == "later":
                keep(x)
            else:
                for i in range(len(x)):
                    x[i] = -77.0
        ct = s.get("ctype", "arr")
        if ct == "list":
            return list(v)
        if ct == "tuple":
            return tuple(v)
        if ct == "col":
            return np.array([v]).T
        if ct == "row":
            return np.array([v])
        if ct == "buf":
            return buffer("cbuf", v)
        if ct == "int" and all(t == int(t) for t in v):
            return [int(t) for t in v]
        return np.array(v)

    return user_f, user_c, state


def scripted(script, state, p, pt):
    """Objective values chosen by the specification's environment, one symbol per evaluation after the first n+1."""
    k = state["nf"] - p.get("sn", p["n"]) - 2
    base = problems.fval(p, pt)
    memo = state.setdefault("memo", {})       # the same point has the same value
    if tuple(pt) not in memo:
        memo[tuple(pt)] = base if k < 0 else symbol(script[k % len(script)], base, state["best"])
    return memo[tuple(pt)]


def symbol(a, base, b):
    if a == "t":          # the true value
        return base
    if a == "B":          # much better than everything so far
        return b - 1.0
    if a == "b":          # marginally better
        return b - 1e-9
    if a == "=":          # exactly as good
        return b
    if a == "w":          # slightly worse
        return b + 1e-3
    if a == "W":          # much worse
        return b + 1e3
    if a == "H":          # astronomically worse
        return 1e22
    raise KeyError(a)


def spaced(v):
    return "  ".join(v.upper()) + " " if isinstance(v, str) and not v.startswith("__") else v


def user_options(o, form="object"):
    if o is None:
        return None
    if form == "class":
        class u:
            pass
    elif form == "instance_of_subclass":
        class Sub(Options):
            extra = "ignored"
        u = Sub()
    else:
        u = Options()
    if form == "spaced":
        o = {k: spaced(v) for k, v in o.items()}
    for k, v in o.items():
        if k.startswith("__"):
            continue
        setattr(u, k, float("inf") if v == "__inf__" else (float("nan") if v == "__nan__" else v))
    return u


def arr_snapshot(v):
    if isinstance(v, np.ndarray):
        return ("a", v.shape, v.tobytes())
    return ("r", repr(v))


def execute(s, taps=(), timeout=60, fresh_cwd=True, hold=None):
    """Runs scenario s in a scratch directory; returns the event list.  The arguments given to an earlier call with the
    same (dictionary) hold are used again."""
    global _ev, _active
    import sqpdfo
    attach()
    ev = []
    n = s["prob"]["n"]
    lb, ub = s.get("lb"), s.get("ub")
    start = dict(k="start", n=n, me=s["me"], mi=s["mi"], x0=[float(t) for t in s["x0"] or []],
                 haslb=int(lb is not None), hasub=int(ub is not None),
                 lb=[float(t) for t in lb] if lb is not None else [-1e20] * n,
                 ub=[float(t) for t in ub] if ub is not None else [1e20] * n,
                 nc=len(s["prob"]["c"]))
    o = s.get("options") or {}
    d = lambda k, v: o.get(k, v)
    start.update(miter=int(num_or(d("miter", 1000), 0)), msimul=int(num_or(d("msimul", 1000), 0)),
                 tolg=tol(d("tol_grad", 1e-5)), tolf=tol(d("tol_feas", 1e-5)), tolb=tol(d("tol_bnds", 1e-5)),
                 verbose=int(num_or(d("verbose", 1), 1)), prob=s["prob"], valid=int(s.get("valid", 1)),
                 hess=str(d("hess_approx", "model")).lower().strip(), restart=max(0, integer(d("bfgs_restart", 0))),
                 degree=str(d("final_degree", "diagonal")).lower().replace(" ", ""),
                 exact=int(not s.get("script") and not s.get("fault") and str(d("whichmodel", "subbasis")).lower().strip() in ("subbasis", "frobnorm")))
    if s.get("star"):
        start.update(star=s["star"], starlm=s["starlm"])
    ev.append(start)
    f, c, user = make_user(s, ev)
    fmt = s.get("fmt", "col")
    x0 = shape_arg(s["x0"], s.get("x0fmt", fmt))
    lba = shape_arg(lb, s.get("lbfmt", fmt))
    uba = shape_arg(ub, s.get("ubfmt", fmt))
    opts = user_options(s.get("options"), s.get("optform", "object"))
    if hold is not None:
        x0, lba, uba, opts = hold.setdefault("args", (x0, lba, uba, opts))
    kw = dict(me=s["me"], mi=s["mi"])
    if s["prob"]["c"] and not s.get("nocons"):
        kw["func_c"] = c
    if s.get("nofunc"):
        f = None
    before = [arr_snapshot(v) for v in (x0, lba, uba)]
    obefore = repr(sorted(vars(opts).items(), key=str)) if opts is not None else ""
    buf, ebuf = io.StringIO(), io.StringIO()
    _ev, _active = ev, set(taps)
    tmp = None
    if fresh_cwd:
        old = os.getcwd()
        tmp = tempfile.mkdtemp(prefix="sqprun")
        os.chdir(tmp)
        with open("convhist.m", "w") as fh:
            fh.write(STALE)
    hstate = hist_state()
    res = None

    def alarm(*_):
        raise Timeout()
    prev = signal.signal(signal.SIGPROF, alarm)
    signal.setitimer(signal.ITIMER_PROF, timeout)       # processor time, so that a busy machine is no hang
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(ebuf):
            res = sqpdfo.optimize(opts, f, x0, lba, uba, **kw)
    except Timeout:
        ev.append(dict(k="exc", type="Timeout", where=""))
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        fr = [t for t in tb if "sqpdfo" in t.filename]
        ev.append(dict(k="exc", type=type(e).__name__, msg=str(e)[:100],
                       where="%s:%d" % (os.path.basename(fr[-1].filename), fr[-1].lineno) if fr else ""))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, prev)
        _ev = None
        hist = read_hist(hstate)
        if fresh_cwd:
            os.chdir(old)
            shutil.rmtree(tmp, ignore_errors=True)
    after = [arr_snapshot(v) for v in (x0, lba, uba)]
    oafter = repr(sorted(vars(opts).items(), key=str)) if opts is not None else ""
    user["check"]()
    if res is not None:
        r = dict(k="ret", same=int(before == after and not user.get("touched")), osame=int(obefore == oafter))
        try:
            x, lm, info = res
            r.update(xdim=int(np.ndim(x)), x=vec(x), lm=vec(lm), flag=integer(info.flag))
            for name, conv in (("f", num), ("ce", vec), ("ci", vec), ("glagn", num), ("feasn", num), ("compl", num),
                               ("niter", integer), ("g", vec), ("ae", mat)):
                try:
                    r[name] = conv(getattr(info, name))
                except Exception:
                    r[name] = [] if conv in (vec, mat) else (-1 if conv is integer else float("nan"))
            try:
                r["nsimul"] = int(info.nsimul[1])
            except Exception:
                r["nsimul"] = -1
        except Exception as e:
            r = dict(k="exc", type="BadResult", msg=str(e)[:100], where="")
        ev.append(r)
    if hist is not None:
        ev.append(hist)
    if s.get("stdout"):
        import console
        to_err = o.get("fout") == 2
        a, b = (ebuf, buf) if to_err else (buf, ebuf)
        ev.append(dict(console.parse(a.getvalue(), b.getvalue()), fout=2 if to_err else 1, text=a.getvalue()[:200000]))
    return ev


def num_or(v, dflt):
    try:
        f = float(v)
        return f if f == f and abs(f) < 1e9 else (10 ** 9 if f > 0 else dflt)
    except Exception:
        return dflt


def tol(v):
    try:
        v = float(v)
        return v if v > 0 else 1e-5
    except Exception:
        return 1e-5


STALE = "function A=history \n A=[ \n   7   7   7.00000000e+00\n];"      # the file of an earlier run


def hist_state():
    return os.stat("convhist.m").st_mtime_ns if os.path.exists("convhist.m") else 0


def read_hist(before=-1):
    """convhist.m as its structure: header ok, rows of numbers, closed."""
    t = open("convhist.m").read() if os.path.exists("convhist.m") else STALE
    if t == STALE or hist_state() == before:
        return dict(k="hist", present=0, head=0, close=0, rows=[], bad=0)
    head = int(t.startswith("function A=history \n A=[ \n"))
    body = t.split("A=[", 1)[1] if "A=[" in t else t
    close = int(body.rstrip().endswith("];") and body.count("];") == 1)
    body = body.split("];")[0]
    rows, bad = [], 0
    for line in body.splitlines():
        if not line.strip():
            continue
        try:
            rows.append([float(w) for w in line.split()])
        except ValueError:
            bad += 1
    return dict(k="hist", present=1, head=head, close=close, rows=rows, bad=bad)
