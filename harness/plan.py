"""Which checks decide which property, and how a check is run, reported and replayed."""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.json")


class Ctx:
    """What a part of a check adds to: violations, statistics, samples."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.viol = []            # dicts: clause, what, replay
        self.states = self.transitions = self.traces = self.events = 0
        self.cov = {}
        self.samples = []
        self.parts = []
        self.errors = []
        self.exhaustive = False

    def quick(self):
        return self.tier == "quick"

    def n(self, q, t=None):
        return q if self.quick() else (t if t is not None else 10 * q)

    def add(self, r):
        self.states += r["states"]
        self.transitions += r["transitions"]
        self.traces += r["traces"]
        self.events += r.get("events", 0)
        for k, v in r["cov"].items():
            self.cov[k] = self.cov.get(k, 0) + v


def key_of(s):
    return json.dumps({k: v for k, v in s.items() if k != "id"}, sort_keys=True)


def known(pid):
    if not os.path.exists(KNOWN):
        return []
    return [e for e in json.load(open(KNOWN))["findings"] if e["property"] == pid]


# ---------------------------------------------------------------- parts
def run_trace(ctx, part):
    """Runs of the real code, validated by the trace specification."""
    import families
    import validate
    scen = []
    for fam, (q, t) in part["families"].items():
        base = (ctx.seed - 1) * 1000003
        scen += [families.family(fam, base + k) for k in range(ctx.n(q, t))]
    t0 = time.time()
    if part.get("words"):
        import core
        bs, r = core.behaviours(ctx.n(*part["words"]), ctx.seed)
        if not bs:
            ctx.errors.append("Sqpdfo_words: " + validate.tlc_error(r.out))
        scen += [core.scenario(b, k, ctx.seed) for k, b in enumerate(bs)]
        ctx.parts.append(dict(part="behaviours of Sqpdfo.tla executed", count=len(bs)))
    for e in known(ctx.pid):
        if e.get("part", "trace") == "trace":
            scen.append(e["scenario"])
    r = validate.check(scen, part["taps"], ctx.pid, module=part.get("module", "SqpTrace"),
                       deadline=t0 + ctx.n(300, 3000), timeout=ctx.n(600, 3000))
    ctx.add(r)
    for k, c, pos in sorted(set(r["bad"])):
        ctx.viol.append(dict(part="trace", clause=c, pos=pos, scenario=scen[k], taps=list(part["taps"]),
                             module=part.get("module", "SqpTrace"), what="%s at event %d of %s" % (c, pos, scen[k].get("id"))))
    for k, msg in r["malformed"]:
        ctx.viol.append(dict(part="trace", clause=ctx.pid + "_malformed", pos=0, scenario=scen[k], taps=list(part["taps"]),
                             module=part.get("module", "SqpTrace"), what="events of %s contradict their shape: %s" % (scen[k].get("id"), msg)))
    ctx.errors += ["%s: %s" % (scen[k].get("id"), m) for k, m in r["errors"]]
    ctx.parts.append(dict(part="trace", families={f: ctx.n(*v) for f, v in part["families"].items()}, runs=r["traces"],
                          events=r["events"], seconds=round(time.time() - t0, 1)))
    ctx.samples += [dict(scenario=s) for s in scen[:2]]


def run_model(ctx, part):
    """Exhaustive check of the core specification by TLC."""
    import tlc
    t0 = time.time()
    for cfg in part["cfgs"] if ctx.quick() else part["cfgs"] + part.get("deep", []):
        r = tlc.run(part["module"], cfg, workers=8, mem="12g", timeout=ctx.n(300, 3000))
        ok = "No error has been found" in r.out
        if not ok:
            ctx.errors.append("TLC %s %s: %s" % (part["module"], cfg, validate_error(r.out)))
        ctx.states += r.distinct
        ctx.transitions += r.states
        ctx.parts.append(dict(part="model", module=part["module"], cfg=cfg, distinct_states=r.distinct, transitions=r.states,
                              complete=ok, seconds=round(time.time() - t0, 1)))


def validate_error(out):
    import validate
    return validate.tlc_error(out)


def run_calls(ctx, part):
    """Component calls, on inputs enumerated by TLC and as made in runs, against their contracts."""
    import calls
    import families
    t0 = time.time()
    base = (ctx.seed - 1) * 1000003
    scen = [families.family(fam, base + k) for fam, (q, t) in part["families"].items() for k in range(ctx.n(q, t))]
    inputs = []
    for e in known(ctx.pid):
        if e.get("part") == "calls":
            (inputs if "k" in e["scenario"] else scen).append(e["scenario"])
    r = calls.check(part["suites"], scen, part["taps"], ctx.pid, ctx.n(*part["count"]), ctx.seed, extra=inputs, timeout=ctx.n(600, 3000))
    ctx.add(r)

    def viol(k, c, what):
        w, a = r["jobs"][r["src"][k]]
        ctx.viol.append(dict(part="calls", clause=c, pos=0, scenario=a, source=w, taps=list(part["taps"]),
                             what="%s in a call %s" % (what, "made in " + a.get("id", "a run") if w == "scen" else "on a generated input (%s)" % a["k"])))
    for k, c, pos in sorted(set(r["bad"])):
        viol(k, c, c)
    for k, msg in r["malformed"]:
        viol(k, ctx.pid + "_malformed", "record contradicts its shape: " + msg)
    ctx.errors += ["%s: %s" % (k, m) for k, m in r["errors"]]
    ctx.parts.append(dict(part="calls", suites=part["suites"], inputs_enumerated=sum(1 for w, _ in r["jobs"] if w == "input"),
                          runs=len(scen), calls=r["traces"], seconds=round(time.time() - t0, 1)))
    ctx.samples += [dict(input=a) for w, a in r["jobs"][:2]]


def run_api(ctx, part):
    """Calls enumerated by the decision table of the arguments and options, made and judged."""
    import api
    t0 = time.time()
    extra = [e["scenario"] for e in known(ctx.pid) if e.get("part") == "api"]
    r = api.check(ctx.n(*part["count"]), ctx.seed, ctx.pid, extra)
    ctx.add(r)
    for k, c, _ in sorted(set(r["bad"])):
        ctx.viol.append(dict(part="api", clause=c, pos=0, scenario=r["src"][k], what="%s: %s" % (c, describe_call(r["src"][k]))))
    for k, msg in r["malformed"]:
        ctx.viol.append(dict(part="api", clause=ctx.pid + "_malformed", pos=0, scenario=r["src"][k], what="record contradicts its shape: " + msg))
    ctx.errors += ["%s: %s" % (k, m) for k, m in r["errors"]]
    ctx.parts.append(dict(part="api", calls_enumerated=r["enumerated"], executed=r["traces"], seconds=round(time.time() - t0, 1)))
    ctx.samples += [dict(call=r["src"][k]) for k in range(min(2, len(r["src"])))]


def describe_call(c):
    plain = ("ok", "none", "given", "absent")
    return json.dumps(dict({d: v for d, v in c.items() if d != "o" and v not in plain}, options={d: v for d, v in c["o"].items() if v not in plain}))


def pair_jobs(ctx, part):
    """The pairs of a part: (kind, pairs, sources, errors)."""
    import families
    import pairs
    base = (ctx.seed - 1) * 1000003
    kind = part["pairs"]
    fams = part.get("fams", [])
    if kind == "session":
        hs, err, r = pairs.sessions(*part["quick" if ctx.quick() else "thorough"], ctx.seed)
        ctx.states += r.distinct
        ctx.transitions += r.states
        if err:
            ctx.errors.append("Session: " + err)
        return pairs.run_sessions(ctx.pid, hs)
    if kind == "variant":
        count, m = part["quick" if ctx.quick() else "thorough"]
        vs, err = pairs.variants(count, ctx.seed)
        if err:
            ctx.errors.append("Variants: " + err)
        jobs = [(ctx.pid, families.family(fams[(j * m + q) % len(fams)], base + j * m + q), v) for j, v in enumerate(vs) for q in range(m)]
    elif kind == "reduced":
        jobs = [(ctx.pid, families.family(fams[q % len(fams)], base + q), "0") for q in range(ctx.n(*part["count"]))]
    else:
        what = ([(o, "default") for o in pairs.DEFAULTS] + [(o, "zero") for o in ("tol_grad", "tol_feas", "tol_bnds")] + [("", "none")])
        jobs = [(ctx.pid, families.family(fams[q % len(fams)], base + q), *w) for q, w in enumerate(what * ctx.n(*part["count"]))]
    return pairs.run_jobs(kind, jobs)


def run_pairs(ctx, part):
    """Pairs of runs that must agree, compared by the product construction PairTrace."""
    import pairs
    t0 = time.time()
    ps, src, errors = pair_jobs(ctx, part)
    extra = [dict(e["scenario"]) for e in known(ctx.pid) if e.get("part") == "pairs" and e["scenario"]["kind"] == part["pairs"]]
    for e in extra:
        got = pairs.rerun(e)
        ps += got
        src += [e] * len(got)
    r = pairs.validate_pairs(ps, ctx.pid, timeout=ctx.n(600, 3000))
    ctx.add(r)
    ctx.events += sum(len(q["A"]) + len(q["B"]) for q in ps)
    for k, c, pos in sorted(set(r["bad"])):
        ctx.viol.append(dict(part="pairs", clause=c, pos=pos, scenario=dict(src[k], prop=ctx.pid), what="%s at event %d of %s" % (c, pos, describe_pair(src[k]))))
    for k, msg in r["malformed"]:
        ctx.viol.append(dict(part="pairs", clause=ctx.pid + "_malformed", pos=0, scenario=dict(src[k], prop=ctx.pid), what="pair contradicts its shape: " + msg))
    ctx.errors += ["%s: %s" % (k, m) for k, m in errors + r["errors"]]
    ctx.parts.append(dict(part="pairs", kind=part["pairs"], pairs=r["traces"], seconds=round(time.time() - t0, 1)))
    ctx.samples += [dict(pair=q) for q in src[:2]]


def describe_pair(s):
    if s["kind"] == "session":
        return " -> ".join(s["calls"])
    plain = ("col", "float", "arr", "no", "1", "1e20", "object")
    return "%s %s" % (s["job"][1].get("id"), [({a: b for a, b in q.items() if b not in plain} if isinstance(q, dict) else q) for q in s["job"][2:]])


RUN = {"trace": run_trace, "model": run_model, "calls": run_calls, "api": run_api, "pairs": run_pairs}


def C(suites, count, taps="", **fams):
    return dict(kind="calls", suites=suites.split(), count=count, taps=taps.split(),
                families={k: (v if isinstance(v, tuple) else (v, 12 * v)) for k, v in fams.items()})


def T(taps, words=None, **fams):
    return dict(kind="trace", taps=taps.split(), words=words, families={k: (v if isinstance(v, tuple) else (v, 12 * v)) for k, v in fams.items()})


M = dict(kind="model", module="Sqpdfo", cfgs=["Sqpdfo.cfg"], deep=["Sqpdfo_deep.cfg"])

PLAN = {
    "P01": [M, T("trs small iter", words=(80, 900), base=120, budgets=100, formats=80, scripted=60, faults=60, fixed=40, ineq=20, models=20, cross=200)],
    "P02": [M, T("trs small iter", words=(120, 2500), base=120, budgets=200, scripted=80, scales=60, tightb=40, defaults=16, models=20, faults=40, cross=150)],
    "P03": [M, T("trs small", words=(80, 900), base=160, budgets=120, scripted=60, fixed=60, faults=80, ineq=30, formats=60, scales=40, cross=200)],
    "P04": [M, T("trs small opt", words=(150, 2500), base=160, scripted=200, ineq=40, models=40, tightb=40, scales=40, fixed=30, fixmix=60, tols=40, cross=200)],
    "P05": [T("trs small mult", base=120, tightb=250, fixed=80, scripted=60, ineq=40, scales=40, formats=40, cross=250)],
    "P06": [M, T("trs small repair", words=(150, 2500), base=160, scripted=200, tightb=80, ineq=40, models=30, scales=40, large=16, cross=200)],
    "P07": [T("opt iter", base=240, tightb=120, ineq=60, fixed=60, scales=60, defaults=20, models=30, infc=60, cross=200, tols=200)],
    "P08": [T("mult opt", base=160, tightb=140, ineq=50, fixed=60, fixmix=120, models=20, scripted=40, cross=120)],
    "P09": [T("mod hess small repair trs", base=100, models=40, scripted=60, tightb=40, ineq=20, fixed=30, large=10, clip=30, cross=80)],
    "P10": [dict(kind="pairs", pairs="session", quick=(2, 150), thorough=(3, 1500))],
    "P12": [dict(kind="api", count=(600, 12000)),
            dict(kind="pairs", pairs="option", count=(5, 60), fams=["base", "ineq", "models", "tightb", "mixed"])],
    "P14": [dict(kind="pairs", pairs="variant", quick=(150, 5), thorough=(1200, 12),
                 fams=["base", "formats", "ineq", "tightb", "fixed", "models", "faults", "mixed", "scales", "scripted", "budgets", "large", "clip", "infc", "cross"])],
    "P15": [dict(kind="pairs", pairs="reduced", count=(700, 8000), fams=["fixed", "fixmix"]),
            T("trs mult", fixed=100, fixmix=60, cross=80)],
    "P11": [M, T("trs", words=(150, 2500), faults=500, clip=60, infc=120, base=60, formats=30, cross=250)],
    "P13": [T("iter opt trs", words=(60, 900), base=120, verbose=160, budgets=80, formats=60, scripted=30, ineq=20, faults=40, cross=200)],
    "P16": [T("trs small opt", ineq=140, mixed=120, infc=60, tightb=40, base=80, scripted=40, fixmix=80, tols=60, cross=120)],
    "P17": [C("trms tcg", (500, 6000), "ktrms ktcg", base=160, tightb=60, ineq=60, scripted=80, models=20, scales=60, large=12, defaults=20, cross=100)],
    "P18": [C("trmsbc blls", (300, 4000), "ktrmsbc kblls", base=160, tightb=160, ineq=60, scripted=60, fixed=20, scales=60, large=12, cross=100)],
    "P19": [C("poly set", (100, 1500))],
    "P20": [T("mod hess mult", base=100, models=40, scripted=40, ineq=50, large=10, cross=80, quasi=90),
            C("bfgs", (100, 1500), "kbfgs kconvex kcond", base=120, tightb=60, ineq=60, scripted=40, scales=40, large=12)],
    "P23": [T("", convex=(900, 12000))],
    "P22": [C("geo", (60, 700))],
    "P21": [T("iter trs", console=(500, 8000))],
    "P24": [T("mod trs small opt repair poi", words=(60, 900), base=160, models=60, scripted=100, tightb=60, ineq=60, fixed=40, quasi=40, tols=60, large=10, cross=200)],
}


TECH = {}


# ---------------------------------------------------------------- running and reporting
def judge(ctx):
    """Splits the violations into known findings and new ones."""
    kn = known(ctx.pid)
    new, seen = [], {}
    for v in ctx.viol:
        hit = [e for e in kn if e["clause"] == v["clause"] and "scenario" in v and key_of(e["scenario"]) == key_of(v["scenario"])]
        if hit:
            seen[hit[0]["what"]] = 1
        else:
            new.append(v)
    return new, sorted(seen)


def replay_file(ctx, v, k):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (ctx.pid, k))
    with open(path, "w") as fh:
        json.dump(dict(v, property=ctx.pid, rerun="/verif/run_check.py --replay " + path), fh, indent=1)
    return path


def evidence(ctx, wall, nviol):
    os.makedirs(EVID, exist_ok=True)
    cov = dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces, events=ctx.events,
               clauses={k: ctx.cov[k] for k in sorted(ctx.cov)}, parts=ctx.parts, samples=ctx.samples[:6] or [ctx.parts],
               exhaustive=ctx.exhaustive)
    with open(os.path.join(EVID, ctx.pid + ".json"), "w") as fh:
        json.dump(dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level="model_checking", coverage=cov,
                       assumptions=["the harness records what the user's functions were called with and what the call returned",
                                    "TLC and the IEEE module evaluate the specification"],
                       wall_s=round(wall, 2), violations=nviol), fh, indent=1)


def check(pid, tier, seed):
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    for part in PLAN[pid]:
        RUN[part["kind"]](ctx, part)
    new, seen = judge(ctx)
    evidence(ctx, time.time() - t0, len(new))
    for w in seen:
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    by = {}
    for v in new:
        by.setdefault(v["clause"], []).append(v)
    for k, (c, vs) in enumerate(sorted(by.items())):
        print("VIOLATION property=%s replay=%s" % (pid, replay_file(ctx, vs[0], k)))
        print("  %s: %d case(s), first: %s" % (c, len(vs), vs[0]["what"]))
    print("%s %s: %d runs, %d events, %d states, %d clauses, %.1f s%s" % (
        pid, tier, ctx.traces, ctx.events, ctx.states, len(ctx.cov), time.time() - t0,
        "" if not ctx.errors else "; %d errors" % len(ctx.errors)))
    if new:
        return 1
    if ctx.errors:
        print("ERROR of the check (no verdict):")
        for e in ctx.errors[:5]:
            print("  " + e)
        return 2
    return 0


def replay(path):
    import validate
    v = json.load(open(path))
    if v["part"] != "trace":
        return importlib.import_module(v["part"]).replay(v, path)
    r = validate.check([v["scenario"]], v["taps"], v["property"], module=v["module"])
    for _, c, pos in r["bad"]:
        print("VIOLATION property=%s replay=%s" % (v["property"], path))
        print("  %s at event %d" % (c, pos))
    return 1 if r["bad"] or r["malformed"] else 0


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    sys.stdout.reconfigure(line_buffering=True)
    if a.replay:
        return replay(a.replay)
    return check(a.property, "thorough" if a.tier.startswith("t") else "quick", a.seed)
