"""Run TLC and read its verdict."""
import os
import re
import shutil
import subprocess
import tempfile
import time

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Result:
    pass


_accel = {}


def accel(scratch):
    """Compiles the faster evaluations of a few operators (spec/accel)."""
    if scratch not in _accel:
        d = os.path.join(scratch, "accel")
        os.makedirs(d, exist_ok=True)
        src = os.path.join(ROOT, "spec", "accel")
        subprocess.run(["javac", "-cp", JAR, "-d", d] + [os.path.join(src, f) for f in sorted(os.listdir(src))],
                       check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        _accel[scratch] = d
    return _accel[scratch]


def run_tlc(module, cfg_text, scratch, env=None, workers=8, timeout=800, extra=(), mem="6g", fast=True, more=()):
    """module: name of a .tla in spec/.  Returns a Result with generated, distinct,
    completed, mismatches, error, out."""
    d = tempfile.mkdtemp(prefix="tlc.", dir=scratch)
    for f in os.listdir(os.path.join(ROOT, "spec")):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(ROOT, "spec", f), d)
    for f in more:
        shutil.copy(f, d)
    cfg = os.path.join(d, module + ".cfg")
    open(cfg, "w").write(cfg_text)
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Xss128m", "-Xmx" + mem, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", JAR + (":" + accel(scratch) if fast else ""), "tlc2.TLC",
           "-workers", str(workers), "-deadlock", "-metadir", os.path.join(d, "states"),
           "-config", cfg] + list(extra) + [module + ".tla"]
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        out += "\nTIMEOUT\n"
    r = Result()
    r.out = out
    r.wall = time.time() - t0
    r.completed = "Model checking completed. No error has been found." in out
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
        pass
    r.generated = int(m.group(1).replace(",", "")) if m else 0
    r.distinct = int(m.group(2).replace(",", "")) if m else 0
    r.mismatches = [(int(a), int(b), c) for a, b, c in
                    re.findall(r'<<"MISMATCH", (\d+), (\d+), "([^"]*)">>', out)]
    r.invariant = re.findall(r"Invariant (\S+) is violated", out)
    r.error = None if r.completed else (out[-3000:])
    shutil.rmtree(d, ignore_errors=True)
    return r
