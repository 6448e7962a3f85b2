"""The recursive verifier in external/."""
import random

import recdrv as rd
import signdrv
import soldrv as sd

NEEDS = ["solrec", "py"]
SPEC = "EvmRecTrace"
RULE = "an event is one message call to a contract; distinct by operation and arguments"
ASSUMPTIONS = ["no Solidity compiler is installed: the contracts are compiled to Python by lib/sol, which runs the "
               "repository's own 80 Solidity tests correctly", "gas is not modelled"]
EVENT_TIMEOUT = 120
run = rd.run
Q = sd.ring.Q
N = 512


def models(tier):
    c = "INIT Init\nNEXT Next\n" + "".join("INVARIANT %s\n" % i for i in (
        "Root", "PointsAreRoots", "Evaluates", "Inverts", "RProduct")) + "CONSTANTS\n"

    def one(k, m, r, every, what):
        return {"module": "MC_RecTree", "name": "n%d_%d" % (2 ** k, m), "bounds": what,
                "cfg": c + "K = %d\nM = %d\nR = %d\nEvery = %s\n" % (k, m, r, "TRUE" if every else "FALSE")}
    out = [one(1, 17, 4, True, "all vectors of degree 2 modulo 17"), one(2, 17, 2, True, "all vectors of degree 4 modulo 17"),
           one(5, Q, pow(7, 32, Q), False, "a basis of degree 32 modulo 12289: all vectors, the transform being linear")]
    if tier != "quick":
        out.append(one(6, Q, pow(7, 16, Q), False, "a basis of degree 64 modulo 12289"))
    return out


def reals(h):
    return [int(v) for v in h]


def key(k, form, order):
    return reals(sd.ring.intt(k)) if form == "rverify" else [int(k[i]) for i in order]


def signed(rng, x):
    """A coefficient in one of the forms it may have."""
    x = int(x)
    k = rng.randrange(8)
    return x + Q if x < 0 and k == 0 else x - Q if x > 0 and k == 1 else rng.choice([0, Q, -Q]) if x == 0 and k < 3 else x


def made(rng, norm=None, salt=None, m=None):
    while True:
        nn = norm or rng.choice([sd.BOUND, sd.BOUND, sd.BOUND + 1, sd.BOUND + 1, sd.BOUND - 1, sd.BOUND + rng.randrange(1, 1000),
                                 rng.randrange(1, sd.BOUND), 1, 2, rng.randrange(1, 4 * N), sd.BOUND * 2, sd.BOUND * 4])
        sl = rng.randbytes(rng.choice([40, 40, 40, 0, 1, 136])) if salt is None else salt
        mm = rng.randbytes(rng.choice([0, 1, 31, 32, 32, 33, 136, 300])) if m is None else m
        p = signdrv.short_pair(rng, N, nn, rng.choice(["std", "eth"]))
        if p is None:
            continue
        if rng.random() < 0.3:
            p = [sorted(v, key=abs, reverse=rng.random() < 0.2) for v in p]
        hn = sd.ring.h_for(sd.ring.point("chain", mm, sl, N), *p)
        if hn is not None:
            return {"salt": sl, "m": mm, "s1": reals(p[1]), "hn": hn}


def verifies(rng, order, count):
    gen = []
    for _ in range(count):
        k = made(rng)
        f = rng.choice(["rverify", "rverify_ntt"])
        h = key(k["hn"], f, order)
        base = {"op": f, "m": list(k["m"]), "salt": list(k["salt"]), "s1": k["s1"], "h": h}
        gen.append(base)
        gen.append(dict(base, op={"rverify": "rverify_ntt", "rverify_ntt": "rverify"}[f],
                        h=key(k["hn"], {"rverify": "rverify_ntt", "rverify_ntt": "rverify"}[f], order),
                        s1=[signed(rng, x) for x in k["s1"]]))
        for _ in range(2):
            e = dict(base)
            x = rng.randrange(8)
            if x < 3:
                s = list(e["s1"])
                i = rng.randrange(N)
                s[i] = rng.choice([s[i] + Q, s[i] - Q, s[i] + 2 * Q, s[i] - 2 * Q, s[i] + 1, -s[i], 65536 * Q + s[i], s[i] - 65536 * Q,
                                   2 ** 30, -2 ** 30])
                e["s1"] = s
            elif x == 3:
                e["h"] = [v + Q * rng.randrange(1, 5) if rng.random() < 0.2 else v for v in h]
            elif x == 4:
                y = list(h)
                y[rng.choice([0, 511, rng.randrange(N)])] += rng.choice([1, -1])
                e["h"] = [max(v, 0) for v in y]
            elif x == 5:
                e["salt"], e["m"] = rng.choice([(e["m"], e["salt"]), (e["salt"] + [0], e["m"]), (e["salt"][:-1], e["m"]),
                                                (e["salt"], e["m"] + [0]), (e["salt"], e["m"][:-1]),
                                                (e["salt"][1:], e["m"] + e["salt"][:1])])
            elif x == 6:
                e["s1"] = rng.choice([e["s1"][:-1], e["s1"] + [0], [], e["s1"][:256], e["s1"] * 2])
            else:
                e["h"] = rng.choice([h[:-1], h + [0], [], h[:256], h * 2])
            gen.append(e)
    return {"kind": "rec", "w": 4 * count, "gen": gen}


def forged(rng, order):
    """One part is small, the other what it has to be under an honest key."""
    gen = []
    for _ in range(2):
        salt, m = rng.randbytes(40), rng.randbytes(32)
        pt = sd.ring.point("chain", m, salt, N)
        hn = [rng.randrange(1, Q) for _ in range(N)]
        t = [rng.randrange(-3, 4) for _ in range(N)]
        s1 = sd.ring.centre(sd.ring.intt((sd.ring.ntt(pt) - sd.ring.ntt(t)) * sd.ring.inv(hn)))
        for s in (s1, [0] * N, t):
            f = rng.choice(["rverify", "rverify_ntt"])
            gen.append({"op": f, "m": list(m), "salt": list(salt), "s1": reals(s), "h": key(sd.np_(hn), f, order)})
    return {"kind": "rec", "w": 4, "gen": gen}


def vec(rng, n):
    k = rng.randrange(6)
    if k == 0:
        v = [0] * n
        v[rng.randrange(n)] = rng.choice([1, Q - 1, rng.randrange(Q)])
        return v
    if k == 1:
        return [rng.choice([0, Q - 1])] * n
    return [rng.choice([0, 1, Q - 1, rng.randrange(Q), rng.randrange(Q)]) for _ in range(n)]


def algebra(rng, count):
    gen = []
    for _ in range(count):
        n = 2 ** rng.randrange(1, 10)
        o = rng.choice(["rfw", "rinv", "rmul", "rmulopt", "rpoint", "radd", "rsub", "rneg", "rsplit", "rmerge", "rfw", "rinv"])
        a = vec(rng, n)
        if o in ("rfw", "rmul") and rng.random() < 0.3:
            a = [v + Q * rng.randrange(10000) if rng.random() < 0.3 else v for v in a]
        if o == "rmul" and n > 64 and rng.random() < 0.5:
            n = 512
            a = vec(rng, n)
        if o == "rmerge":
            a = a[:n // 2] if n > 2 else [a[0]]
        e = {"op": o, "a": a}
        if o in ("rmul", "rmulopt", "rpoint", "radd", "rsub", "rmerge"):
            e["b"] = vec(rng, len(a))
        gen.append(e)
    return {"kind": "rec", "w": count / 4, "gen": gen}


def basis(rng, n):
    """Every unit vector through both directions: with linearity, the whole transform."""
    gen = []
    for i in range(n):
        v = [0] * n
        v[i] = 1
        gen += [{"op": "rfw", "a": v}, {"op": "rinv", "a": v}]
    return [{"kind": "rec", "w": len(gen[i:i + 32]) / 8, "gen": gen[i:i + 32]} for i in range(0, len(gen), 32)]


def sessions(tier, seed):
    rng = random.Random(seed)
    q = tier == "quick"
    order = rd.order()
    out = [verifies(rng, order, 4) for _ in range(40 if q else 400)]
    out += [forged(rng, order) for _ in range(4 if q else 40)]
    out += [algebra(rng, 12) for _ in range(60 if q else 600)]
    out += [{"kind": "rec", "w": 12, "gen": "forgery"} for _ in range(2 if q else 12)]
    for n in (2, 4, 8, 16, 32, 64) if q else (2, 4, 8, 16, 32, 64, 128, 256, 512):
        out += basis(rng, n)
    return out
