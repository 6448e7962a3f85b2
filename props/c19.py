"""Signatures of the Python implementation, first mode."""
import random

import pydrv
import ring

NEEDS = ["c", "py"]
SPEC = "PyTrace"
RULE = "an event is one call of sign, verify or recover; distinct by arguments"
ASSUMPTIONS = ["polyntt is not installable offline: the ring arithmetic it provides is replaced by an exact stand-in",
               "private keys come from the C key generator; the distribution of the sampled vectors is not specified",
               "a ValueError counts as a refusal"]
EVENT_TIMEOUT = 120
run = pydrv.run


def models(tier):
    return []


def a_check(rng, mode, n, xof, sig, hn, m, pk=None):
    h = [int(v) for v in ring.intt(hn)]
    if pk is None:
        pk = pydrv.address(mode, hn) if mode != "falcon" else b""
    return {"op": "check", "mode": mode, "n": n, "h": h, "pk": list(pk), "m": list(m), "sig": list(sig), "xof": xof}


def signing(rng, mode, n, signs, muts):
    xof = rng.choice(["keccak", "keccak", "shake", "shake", "blake2s", "chain"])
    key = list(rng.randbytes(8))
    gen = []
    for _ in range(signs):
        seeded = rng.random() < 0.7
        ev = {"op": "sign", "mode": mode, "n": n, "key": key, "xof": xof, "seeded": seeded,
              "m": list(rng.randbytes(rng.choice([0, 1, 3, 32, 33, 96, 500]))),
              "tape": list(rng.randbytes(40 + 48 * 30)) if seeded else []}
        gen.append(ev)
        gen.append({"op": "last", "of": []})
        gen += [{"op": "last", "of": [rng.randrange(1 << 30)]} for _ in range(muts)]
        if seeded and rng.random() < 0.4:
            gen.append(ev)
        if seeded and rng.random() < 0.2:
            gen.append(dict(ev, xof=rng.choice(pydrv.XOFS)))
    return {"kind": "py", "w": 1 + n / 40 * signs, "gen": gen}


def crafts(rng, mode, n, count, muts):
    gen = []
    for _ in range(count):
        xof = rng.choice(pydrv.XOFS)
        sig, hn, m, p = pydrv.crafted(rng, mode, n, xof)
        gen.append(a_check(rng, mode, n, xof, sig, hn, m))
        for _ in range(muts):
            s2, h2, m2 = pydrv.mutate(rng, mode, n, sig, ring.intt(hn), m)
            gen.append(a_check(rng, mode, n, xof, s2, ring.ntt(h2), m2,
                               None if rng.random() < 0.7 or mode == "falcon" else rng.choice([bytes(20), pydrv.address(mode, hn)])))
    return {"kind": "py", "w": 1 + n * count / 200, "gen": gen}


def build(rng, modes, big):
    k = 8 if big else 1
    out = []
    for mode in modes:
        for logn in range(1, 11):
            n = 1 << logn
            for i in range((2 if logn > 8 else 3) * k):
                out.append(crafts(rng, mode, n, 6 if logn < 9 else 3, 3))
            for i in range({9: 4, 10: 1}.get(logn, 2) * k):
                out.append(signing(rng, mode, n, 2 if logn < 9 else 1, 3))
    return out


def sessions(tier, seed):
    rng = random.Random(seed)
    return build(rng, ["falcon"], tier != "quick") + ([] if tier != "quick" else build(rng, ["falcon"], False))
