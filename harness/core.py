"""Behaviours of the core specification (Sqpdfo.tla), drawn by TLC, as scenarios for the real code."""
import json
import random

import gen
import tlc

N = 3       # initial points in Sqpdfo_words.cfg


def behaviours(count, seed):
    """Finished behaviours: differing words, spread over the exits and lengths."""
    r = tlc.run("Sqpdfo", "Sqpdfo_words.cfg", simulate="num=%d" % (8 * count + 200), depth=200, workers=1, seed=seed, mem="4g", timeout=600)
    got = {}
    for line in r.lines:
        if line.startswith("S "):
            b = json.loads(line[2:])
            got.setdefault(("".join(b["word"]), b["cons"]), b)
    groups = {}
    for key in sorted(got):
        b = got[key]
        groups.setdefault((b["flag"], b["cons"], min(len(b["word"]) // 3, 6)), []).append(b)
    rnd = random.Random(seed)
    for g in groups.values():
        rnd.shuffle(g)
    out = []
    while len(out) < count and groups:
        for key in sorted(groups):
            out.append(groups[key].pop())
            if not groups[key]:
                del groups[key]
    return out[:count], r


def scenario(b, k, seed=1):
    """The environment of behaviour b for the real code: its word, its budgets, its failure."""
    q = k + 1500000 + (seed - 1) * 1000003
    rnd = random.Random("core/%d" % q)
    allow = ("eq", "ineq") if b["cons"] else ("bounds",) if k % 2 else ()
    s = gen.scenario(q, nmax=3, allow=allow)
    while bool(s["prob"]["c"]) != b["cons"]:
        q += 7919
        s = gen.scenario(q, nmax=3, allow=allow)
    n = s["prob"]["n"]
    w = b["word"]
    word = "".join(a for a in w[N:] if a != "x")
    if word:
        s["script"] = word
    s["options"]["miter"] = b["miter"]
    s["options"]["msimul"] = max(1, b["msimul"] - N + n + 1)
    if w and w[-1] == "x":
        where = rnd.choice(["f", "c"]) if b["cons"] else "f"
        s["fault"] = {"k": min(len(w), n + 1) if len(w) <= N else n + 1 + len(w) - N, "where": where,
                      "what": rnd.choice(["raise", "nan", "inf", "-inf"] if where == "f" else ["raise", "nan"])}
    s["id"] = "core/%d (%s)" % (k, "".join(w))
    return s
