"""Keccak-256 digests (C) and the Python hash-chain generator."""
import ctypes as C
import random

import capi
import xofdrv
from props.c01 import merge

NEEDS = ["c", "py"]
SPEC = "Xof"
RULE = "an event is one digest or generator call; distinct by arguments"
ASSUMPTIONS = ["Keccak.tla agrees with Keccak-256 (checked against pycryptodome answers by setup)"]


def models(tier):
    base = "INIT Init\nNEXT Next\nINVARIANT AbsorbIsSplit\nINVARIANT PaddedOnce\nINVARIANT OutIsStream\nCONSTANTS\n"
    return [{"module": "MC_Sponge", "name": "emit", "emit": "sponge", "workers": 1,
             "cfg": base + "Rate = 4\nSizes = {0,1,3,4,5,8}\nMaxOps = 4\nMaxIn = 30\nMaxOut = 4\nEmit = TRUE\n",
             "bounds": "rate 4, every behaviour of 4 calls, replayed as digests"}]


def sessions(tier, seed, behav):
    rng = random.Random(seed)
    out = []
    m = {0: 0, 1: 1, 3: 135, 4: 136, 5: 137, 8: 272}
    done = set()
    for b in behav["sponge"]:
        ins = tuple(k for o, k in b if o == "inject")
        if ins in done:
            continue
        done.add(ins)
        out.append({"kind": "kec", "seed": rng.getrandbits(60), "gen":
                    [["kinit", 1, 0]] + [["kupdate", 1, m[k]] for k in ins] + [["kfinal", 1, 0]]})
    sizes = list(range(0, 290)) if tier == "quick" else list(range(0, 700))
    for k in range(0, len(sizes), 10):
        out.append({"kind": "kec", "seed": rng.getrandbits(60),
                    "gen": [x for n in sizes[k:k + 10] for x in
                            (["kinit", 1, 0], ["kupdate", 1, n], ["kfinal", 1, 0])]})
    for i in range(30 if tier == "quick" else 300):
        seqs = []
        for c in (1, 2):
            seqs.append([["kinit", c, 0]] + [["kupdate", c, rng.choice([0, 1, 7, 8, 9, 100, 128, 136, 200, rng.randrange(500)])]
                                            for _ in range(rng.randrange(6))] + [["kfinal", c, 0]])
        out.append({"kind": "kec", "seed": rng.getrandbits(60), "gen": merge(rng, seqs)})
    for n in (65535, 32768, 32767):
        out.append({"kind": "kec", "seed": n, "gen": [["kinit", 1, 0], ["kupdate", 1, n], ["kupdate", 1, 3], ["kfinal", 1, 0]]})
    for i in range(40 if tier == "quick" else 400):
        seqs = []
        for c in ((1, 2) if i % 2 else (1,)):
            s = [["init", c, [0, 0, 0]]] + [["inject", c, rng.choice([0, 1, 40, 135, 136, 137, 300])]
                                            for _ in range(rng.randrange(5))]
            if rng.random() < 0.5:
                s.append(["flip", c, 0])
            for _ in range(rng.randrange(1, 40)):
                s.append(["extract", c, 2])
                if rng.random() < 0.05:
                    s.append(["inject", c, 4])
            seqs.append(s)
        out.append({"kind": "chain", "impl": "pychain", "seed": rng.getrandbits(60), "gen": merge(rng, seqs)})
    for n in (1, 3, 4, 32, 33, 0):
        out.append({"kind": "chain", "impl": "pychain", "seed": n,
                    "gen": [["init", 1, [0, 0, 0]], ["inject", 1, 40], ["extract", 1, n], ["extract", 1, 2]]})
    return out


def run(env, sess):
    if sess["kind"] == "chain":
        return xofdrv.run(env, sess)
    rng = random.Random(sess["seed"])
    lib = capi.get(env)
    ctx = {1: C.create_string_buffer(1024), 2: C.create_string_buffer(1024)}
    for op, c, n in sess["gen"]:
        if op == "kinit":
            env.call(op, {"c": c}, lambda: lib.f("keccak_init", None)(ctx[c]) or {})
        elif op == "kupdate":
            m = rng.randbytes(n)

            def f():
                b = lib.inb("in", m)
                lib.f("keccak_update", None)(ctx[c], b.p, C.c_uint16(n))
                return {}
            env.call(op, {"c": c, "m": list(m)}, f)
        else:
            def f():
                o = lib.buf("out", 32)
                lib.f("keccak_final", None)(ctx[c], o.p)
                return {"out": list(o.get()), "bad": ["under"] if o.under() else []}
            env.call(op, {"c": c}, f)
