"""Signing is Klein's sampler on the lattice of the key."""
import random

import kleindrv

NEEDS = ["c", "cfp", "py"]
SPEC = "KleinTrace"
CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
RULE = "an event is one signature (every draw of it); distinct by key, target and seed"
ASSUMPTIONS = ["draws whose centre is within 2^-24 of an integer, or whose random bytes are within 2^-29 of the acceptance "
               "threshold, are left open: floating point may decide either way",
               "keys come from the C generator (C16), partly with other representatives of the second row"]
EVENT_TIMEOUT = 60
run = kleindrv.run


def models(tier):
    c = ("INIT Init\nNEXT Next\nINVARIANT Agree\nCHECK_DEADLOCK FALSE\nCONSTANTS\nN = %d\nB = 1\nSup = 2\nSupF = %d\nJ = {%s}\n"
         "Ones = %d\nZ = {0,1}\nT = {3}\n")
    big = tier != "quick"
    out = [{"module": "MC_Klein", "name": "two", "workers": 8, "cfg": c % (2, 2, "1,2", 4 if big else 1),
            "bounds": "degree 2, all bases of coefficients -1..1 up to sign, " + ("every outcome 0 or 1 above the floor" if big else
                      "at most one outcome other than the floor")},
           {"module": "MC_Klein", "name": "four", "workers": 8, "cfg": c % (4, 1, "1,2,3,4" if big else "2", 1 if big else 0),
            "bounds": "degree 4, bases whose first vector has at most two coefficients -1 or 1 in each half, the second at most one" +
                      (", at most one outcome other than the floor" if big else ", all outcomes the floor")}]
    return out


def target(rng, n):
    r = rng.random()
    if r < 0.05:
        return [12288] * n
    if r < 0.1:
        return [rng.choice([0, 12288]) for _ in range(n)]
    if r < 0.15:
        return [0] * (n - 1) + [rng.randrange(1, 12289)]
    return [rng.randrange(12289) for _ in range(n)]


def one(rng, n, kind):
    hm = target(rng, n)
    if kind in ("seed", "tape"):
        return {"op": "pre", "how": kind, "hm": hm, "seed": list(rng.randbytes(rng.choice([1, 32, 40, 56]) if kind == "seed" else 60 * n + 400))}
    return {"op": "sign", "lib": kind[0], "tree": kind[1], "hm": hm, "seed": list(rng.randbytes(rng.choice([40, 48, 56])))}


KINDS = [("c", False), ("c", True), ("cfp", False), ("cfp", True), "seed", "tape"]
COUNT = {2: 24, 4: 24, 8: 24, 16: 16, 32: 12, 64: 8, 128: 6, 256: 4, 512: 3, 1024: 1}


def sessions(tier, seed):
    rng = random.Random(seed)
    big = tier != "quick"
    out = []
    for n, c in COUNT.items():
        for i in range(c * (6 if big else 1)):
            key = [rng.choice([2, 3, 3, 4]), rng.randrange(2 * n) % 256] + list(rng.randbytes(8))
            kinds = KINDS * (3 if n <= 16 else 1)
            for j in range(0, len(kinds), 6 if n < 128 else 1):
                out.append({"kind": "klein", "n": n, "key": key, "w": 1 + n / 40,
                            "gen": [one(rng, n, x) for x in kinds[j:j + (6 if n < 128 else 1)]]})
    return out
