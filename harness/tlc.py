"""Runs TLC on a module of /verif/spec."""
import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
COMM = "/opt/veriftools/tla/CommunityModules-deps.jar"
CLS = os.path.join(HERE, "build", "classes")


def classes():
    """Compiled module overrides (built by setup_cmd; built here when missing or out of date)."""
    src = [os.path.join(SPEC, "java", f) for f in sorted(os.listdir(os.path.join(SPEC, "java"))) if f.endswith(".java")]
    dst = [os.path.join(CLS, os.path.basename(f)[:-5] + ".class") for f in src]
    if all(os.path.exists(d) and os.path.getmtime(d) >= os.path.getmtime(s) for s, d in zip(src, dst)):
        return CLS
    os.makedirs(CLS, exist_ok=True)
    subprocess.run(["javac", "-cp", JAR, "-d", CLS] + src, check=True, stdout=subprocess.DEVNULL)
    return CLS


class Result:
    pass


def run(module, cfg=None, env=None, workers=8, mem="8g", timeout=800, simulate=None, depth=None, seed=None,
        deadlock=False, extra=(), opens=()):
    """Returns Result(out, code, states, distinct, violated, lines) where lines are the PrintT payloads after '@'."""
    classes()
    meta = tempfile.mkdtemp(prefix="tlcmeta")
    cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta, "-Xmx" + mem, "-Xss64m",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:SqpOverrides",
           "-cp", ":".join([CLS, JAR, COMM]), "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers)]
    if not deadlock:
        cmd.append("-deadlock")
    if simulate:
        cmd += ["-simulate", simulate]
    if depth:
        cmd += ["-depth", str(depth)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    cmd += list(extra)
    cmd += ["-config", cfg or module + ".cfg", module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    r = Result()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        r.out = p.stdout.decode("utf-8", "replace")
        r.code = p.returncode
    except subprocess.TimeoutExpired as x:
        r.out = (x.stdout or b"").decode("utf-8", "replace") + "\nTIMEOUT"
        r.code = -1
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.out)
    r.states, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    r.violated = re.findall(r"Invariant (\w+) is violated|Action property (\w+) is violated|property (\w+) is violated", r.out)
    r.lines = []
    for line in r.out.splitlines():
        if line.startswith('"@'):
            try:
                r.lines.append(json.loads(line)[1:])
            except ValueError:
                r.lines.append(line[2:-1].replace('\\"', '"'))
    return r
