"""Drives the recursive verifier and its transform contract."""
import os
import re
import subprocess
import sys
import tempfile

import soldrv as sd

ARR = sd.ARR
NTT = "NTT"


def order():
    """The transform's order of the points, as places in the other order."""
    q = sd.ring.Q
    w = [q - 1]
    while len(w) < 512:
        r = {}
        for x in range(1, q // 2 + 1):
            r[x * x % q] = x
        w = [y for v in w for y in (r[v], q - r[v])]
    x = [0] * 512
    x[1] = 1
    at = {int(v): i for i, v in enumerate(sd.ring.ntt(x))}
    return [at[v] for v in w]


def send(w, c, name, args):
    try:
        return w.send(w.contract(c), c, name, args)
    except KeyError:
        raise ValueError("no such method")


def arrs(w, out, k):
    if out is None:
        raise ValueError("reverted")
    return w.m.dec_tuple([ARR] * k, out, 0)


def o_rv(name):
    def op(w, a):
        out = send(w, "ETHFalcon", name, [bytes(a["m"]), {"salt": bytes(a["salt"]), "s1": a["s1"]}, a["h"]])
        if out is not None and out != bytes(32):
            raise ValueError("not the zero address")
        return {"ok": out is not None}
    return op


def o_bin(name):
    return lambda w, a: {"x": arrs(w, send(w, NTT, name, [a["a"], a["b"]]), 1)[0]}


def o_one(name):
    return lambda w, a: {"x": arrs(w, send(w, NTT, name, [a["a"]]), 1)[0]}


def o_rsplit(w, a):
    x, y = arrs(w, send(w, NTT, "splitNTT", [a["a"]]), 2)
    return {"x": x, "y": y}


OPS = {"rverify": o_rv("verify"), "rverify_ntt": o_rv("verify_nttpub"), "rfw": o_one("nTT"), "rinv": o_one("iNTT"),
       "rmul": o_bin("mulZQ"), "rmulopt": o_bin("mulZQ_opt"), "rpoint": o_bin("mulNTT"), "radd": o_bin("addZQ"),
       "rsub": o_bin("subZQ"), "rneg": o_one("negZQ"), "rsplit": o_rsplit, "rmerge": o_bin("mergeNTT")}


def text(s):
    return list(re.sub(r"\\x(..)", lambda m: chr(int(m.group(1), 16)), s).encode("latin-1"))


def forgery(env):
    """The calls in the Solidity text printed by forgery.py."""
    with tempfile.TemporaryDirectory(dir=env.ctx["scratch"]) as d:
        p = subprocess.run([sys.executable, os.path.join(env.ctx["pythonref"], "forgery.py")], cwd=d, capture_output=True, text=True,
                           env=dict(os.environ, PYTHONPATH=":".join(sys.path), PYTHONIOENCODING="utf-8", PYTHONDONTWRITEBYTECODE="1"))
    if p.returncode:
        raise RuntimeError(p.stderr[-200:])

    def numbers(x):
        return [int(v) for v in re.sub(r"u?int\d*\(([^)]*)\)", r"\1", x).split(",")]
    h = numbers(re.search(r"pk = \[([^\]]*)\]", p.stdout).group(1))
    s1 = numbers(re.search(r"s1 = \[([^\]]*)\]", p.stdout).group(1))
    return [{"m": text(m), "salt": text(s), "s1": s1, "h": h} for m, s in
            re.findall(r'msg\d* = "([^"]*)".*?sig\.salt = "([^"]*)"', p.stdout, re.S)]


def run(env, sess):
    w = sd.World(env)
    if sess["gen"] == "forgery":
        def go():
            v = forgery(env)
            return {"v": [dict(x, ok=OPS["rverify"](w, x)["ok"]) for x in v]}
        env.call("rforge", {}, go)
        return
    for op in sess["gen"]:
        a = {k: v for k, v in op.items() if k != "op"}
        env.call(op["op"], a, lambda: OPS[op["op"]](w, a))
