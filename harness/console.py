"""What a run printed, as structure: heading, rows of the iteration table, final summary, lists of variables and constraints."""
import re

NUM = r"[+-]?(?:\d+\.\d*(?:e[+-]?\d+)?|\d+(?:e[+-]?\d+)?|inf|nan)"
ROW = re.compile(r"^\s*(\d+)\s+(\d+)\s+(%s)\s+(%s)((?:\s+%s)*)\s*([A-Za-z]+)?\s*$" % (NUM, NUM, NUM), re.I)
HEAD = re.compile(r"^\s*iter\s+neval\s+fvalue\s+merit")


def after(label, text, which=-1):
    m = re.findall(re.escape(label).replace(r"\ ", r"\s+") + r"\s*(%s)" % NUM, text, re.I)
    return float(m[which]) if m else None


def table(text, title):
    """Rows of numbers below a title."""
    if title not in text:
        return []
    rows = []
    for line in text.split(title, 1)[1].splitlines()[1:]:
        w = line.split()
        try:
            rows.append([float(q) for q in w])
        except ValueError:
            if rows:
                break
            continue
        if not w and rows:
            break
    return [r for r in rows if r]


def parse(text, other):
    out = dict(k="out", rows=[], types=[], head=0, codes=[], reason="", f=[], glagn=[], feasn=[], iters=[], evals=[], vars=[], cons=[],
               stray=other.count("Exit code") + other.count("Final function value") + len(re.findall(r"^ *iter +neval", other, re.M)))
    lines = text.splitlines()
    end = next((j for j, q in enumerate(lines) if "Exit code" in q), len(lines))
    for q in lines[:end]:
        if HEAD.match(q):
            out["head"] += 1
            continue
        m = ROW.match(q)
        if m and out["head"]:
            out["rows"].append([float(m.group(1)), float(m.group(2)), float(m.group(3)), float(m.group(4))] + [float(t) for t in m.group(5).split()])
            out["types"].append(m.group(6) or "")
    for q in lines:
        m = re.match(r"^\s*Exit code (-?\d+):\s*(.*?)\s*$", q)
        if m:
            out["codes"].append(int(m.group(1)))
            out["reason"] = m.group(2)
    tail = "\n".join(lines[end:])
    for name, labels in (("f", ["Final function value"]), ("glagn", ["gradient of the Lagrangian (inf norm)", "Gradient of the objective function (inf norm)"]),
                         ("feasn", ["feasibility"]), ("iters", ["nbr of iterations"]), ("evals", ["nbr of function evaluations"])):
        v = next((t for t in (after(q, tail) for q in labels) if t is not None), None)
        if v is not None:
            out[name] = [int(v)] if name in ("iters", "evals") else [v]
    out["vars"] = table(tail, "VARIABLES:")
    out["cons"] = table(tail, "Equality constraints:")
    return out
