"""Executes scenarios on the real code and validates the recorded traces with TLC, in parallel chunks."""
import json
import os
import shutil
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from multiprocessing import Pool

import traces
import tlc

MAX_HANGS = 3


def _one(job):
    import rec
    idx, s, taps, post = job
    try:
        ev = rec.execute(s, taps)
        hung = any(e.get("type") == "Timeout" for e in ev)
        if post:
            ev = POST[post](ev)
    except BaseException as e:      # a broken harness run is reported as such, not as a verdict
        return idx, None, "%s: %s" % (type(e).__name__, e), 0, False
    return idx, json.dumps(traces.encode(ev), separators=(",", ":")), "", len(ev), hung


POST = {}


def record(scenarios, taps, procs=8, post=None, deadline=None):
    """Yields (index, encoded trace text, error, number of events)."""
    jobs = [(k, s, tuple(taps), post) for k, s in enumerate(scenarios)]
    hangs = 0
    with Pool(procs) as p:
        for r in p.imap_unordered(_one, jobs, chunksize=max(1, min(8, len(jobs) // (procs * 4) or 1))):
            yield r[:4]
            hangs += r[4]
            if hangs >= MAX_HANGS or (deadline and time.time() > deadline):
                p.terminate()
                return


def run_batch(module, path, clauses, timeout):
    return tlc.run(module, env=dict(TRACE_FILE=path, CLAUSES=clauses), workers=1, mem="3g", timeout=timeout)


def verdicts(r):
    """The verdict lines of a TLC run: {trace number: (failed clauses, evaluated clauses)}."""
    out = {}
    for line in r.lines:
        if line.startswith("V "):
            t, bad, cov = json.loads(line[2:])
            out[t] = (bad, cov)
    return out


def check_texts(items, clauses, module="SqpTrace", chunk=6000000, procs=8, timeout=700):
    """items: iterable of (index, trace text).  Returns dict(bad, cov, states, transitions, traces, errors, malformed)."""
    out = dict(bad=[], cov={}, states=0, transitions=0, traces=0, errors=[], malformed=[])
    tmp = tempfile.mkdtemp(prefix="sqpval")
    pool = ThreadPoolExecutor(procs)
    futs = []
    text_of = {}

    def submit(batch):
        f = os.path.join(tmp, "t%d.json" % len(futs))
        with open(f, "w") as fh:
            fh.write("[" + ",".join(t for _, t in batch) + "]")
        ids = [k for k, _ in batch]
        futs.append(pool.submit(lambda: (ids, run_batch(module, f, clauses, timeout), f)))

    def take(ids, r):
        vs = verdicts(r)
        for t, (bad, cov) in vs.items():
            for c in cov:
                out["cov"][c] = out["cov"].get(c, 0) + 1
            for c, pos in bad:
                out["bad"].append((ids[t - 1], c, pos))
        out["states"] += r.distinct
        out["transitions"] += r.states
        out["traces"] += len(vs)
        return [k for j, k in enumerate(ids, 1) if j not in vs]

    batch, size = [], 0
    try:
        for idx, text in items:
            batch.append((idx, text))
            text_of[idx] = text
            size += len(text)
            if size > chunk:
                submit(batch)
                batch, size = [], 0
        if batch:
            # the rest is split so that all processors have work
            per = max(1, -(-len(batch) // procs)) if not futs else len(batch)
            for q in range(0, len(batch), per):
                submit(batch[q:q + per])
        missing = []
        for fu in list(futs):
            ids, r, f = fu.result()
            os.remove(f)
            miss = take(ids, r)
            if miss:
                missing.append((miss, r))
        # a trace TLC cannot evaluate on its own is malformed (its events contradict their declared shape)
        for miss, r in missing:
            if "Parsing or semantic analysis failed" in r.out or "TIMEOUT" in r.out or len(miss) > 400:
                out["errors"].append((miss[0], "TLC: %d verdicts missing\n%s" % (len(miss), tlc_error(r.out))))
                continue
            again = []
            for k in miss[:24]:
                f = os.path.join(tmp, "m%d.json" % k)
                with open(f, "w") as fh:
                    fh.write("[" + text_of[k] + "]")
                again.append((k, pool.submit(run_batch, module, f, clauses, timeout)))
            for k, fu in again:
                r1 = fu.result()
                if take([k], r1):
                    out["malformed"].append((k, tlc_error(r1.out)))
    finally:
        pool.shutdown(wait=True)
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def check(scenarios, taps, clauses, module="SqpTrace", procs=8, post=None, deadline=None, **kw):
    errors, count = [], [0]

    def items():
        for idx, text, err, nev in record(scenarios, taps, procs, post, deadline):
            if err:
                errors.append((idx, err))
                continue
            count[0] += nev
            yield idx, text
    out = check_texts(items(), clauses, module, procs=procs, **kw)
    out["errors"] = errors + out["errors"]
    out["events"] = count[0]
    return out


def tlc_error(text):
    keep = [q for q in text.splitlines() if "rror" in q or "ttempt" in q or "TIMEOUT" in q or "line" in q]
    return "\n".join(keep[:12])
