"""The Gaussian samplers, on chosen random bytes."""
import random
from decimal import Decimal as D, getcontext

import sampdrv

NEEDS = ["c", "py"]
SPEC = "SamplerTrace"
CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
RULE = "an event is one draw; distinct by its parameters and random bytes"
ASSUMPTIONS = ["acceptance thresholds are the exact ones up to a relative 2^-43 in C and 2^-37 in Python; draws whose random bytes fall within that of a "
               "threshold are left open", "deviations lie strictly between the smoothing parameter and 1.8, as key generation ensures"]
run = sampdrv.run
SIGMIN = {}
getcontext().prec = 50
S0 = D("1.8205")
RHO = [(-(D(k * k)) / (2 * S0 * S0)).exp() for k in range(40)]
TOT = sum(RHO)
PK = [int(r / TOT * 2**72) for r in RHO]
TAIL = [sum(PK[i:]) for i in range(1, 19)]


def models(tier):
    b = 4 if tier == "quick" else 8
    return [{"module": "MC_Sampler", "name": "compare", "workers": 8,
             "cfg": "INIT Init\nNEXT Next\nINVARIANT BorrowOk\nINVARIANT LazyOk\nINVARIANT Consumed\nCONSTANT B = %d\n" % b,
             "bounds": "all pairs of three-digit numbers, base %d" % b}]


def draw72(rng):
    r = rng.random()
    if r < 0.35:
        u = TAIL[rng.randrange(18)] + rng.choice([0, -1, 1])
    elif r < 0.5:
        # one limb equal to that of a threshold
        t = TAIL[rng.randrange(18)]
        k = 24 * rng.randrange(3)
        u = (rng.getrandbits(72) & ~(0xFFFFFF << k)) | (t & (0xFFFFFF << k))
    elif r < 0.6:
        i = rng.randrange(18)
        t, k = TAIL[i], 24 * rng.randrange(3)
        u = t ^ (rng.choice([1, 0x800000, 0xFFFFFF, rng.getrandbits(24)]) << k)
    elif r < 0.7:
        u = rng.choice([0, 2**72 - 1, 2**71, 2**64 - 1, 2**64, 2**48, 2**48 - 1, 2**24, 2**24 - 1])
    elif r < 0.8:
        u = rng.getrandbits(rng.randrange(1, 72))
    else:
        u = rng.getrandbits(72)
    return max(0, min(2**72 - 1, u))


def one(rng, impl):
    n = 2 ** rng.randrange(1, 11)
    smin = SMIN[n] if rng.random() < 0.8 else rng.uniform(1.11, 1.3)
    sigma = smin * rng.choice([1.0000001, 1.2, rng.uniform(1.0000001, 1.36)])
    sigma = min(sigma, 1.8)
    r = rng.random()
    if r < 0.25:
        mu = float(rng.randrange(-20000, 20001))
        mu += rng.choice([0.0, 0.5, 0.25, 2.0**-rng.randrange(1, 30), -2.0**-rng.randrange(1, 30)])
    elif r < 0.5:
        mu = rng.uniform(-2, 2)
    else:
        mu = rng.uniform(-1, 1) * 2.0**rng.randrange(1, 27)
    sg = 1 / sigma if impl == "c" else sigma
    isg = D(sg) if impl == "c" else 1 / D(sg)
    fl = D(mu).to_integral_value(rounding="ROUND_FLOOR")
    fr = D(mu) - fl
    tape = bytearray()
    while len(tape) < 440:
        u = draw72(rng) if rng.random() < 0.5 else rng.randrange(TAIL[rng.choice([0, 0, 1, 2])] if rng.random() < 0.5 else 2**72)
        z0 = sum(u < t for t in TAIL)
        bb = rng.randrange(256)
        b = bb & 1
        z = b + (2 * b - 1) * z0
        x = (D(z) - fr) ** 2 * isg * isg / 2 - D(z0 * z0) / (2 * S0 * S0)
        v = min(int(isg * D(smin) * (-x).exp() * 2**64), 2**64 - 1)
        zb = v.to_bytes(8, "big")
        acc = rng.random() < 0.5
        lead = next((i for i in range(8) if zb[i]), 7)
        k = min(7, rng.choice([0, 0, 1, 2, 3, 4, 5 if impl == "c" else 4, lead, lead + 1, lead + 2, lead + 3]))
        t = bytearray(zb[:k])
        d = zb[k]
        if rng.random() < 0.7:
            d = (max(0, d - rng.choice([1, 1, rng.randrange(1, 256)])) if acc else min(255, d + rng.choice([1, 1, rng.randrange(1, 256)])))
        else:
            d = rng.randrange(256)
        t.append(d)
        tape += u.to_bytes(9, "little") + bytes([bb]) + bytes(t)
        if bytes(t) == zb[:k + 1]:
            tape += rng.randbytes(7 - k)
        if bytes(t) < zb[:k + 1]:
            break
    tape += rng.randbytes(max(0, 460 - len(tape)) if rng.random() < 0.3 else 40)
    return {"op": "samp", "impl": impl, "mu": mu, "sg": sg, "smin": smin, "tape": list(tape)}


def smins():
    out = {}
    for lg in range(1, 11):
        n = 2**lg
        lam = 2 if n < 8 else n // 4
        pi = D("3.14159265358979323846264338327950288419716939937510")
        x = (D(4 * n) * (1 + (D(2)**64 * lam).sqrt())).ln() / 2
        out[n] = float(x.sqrt() / pi)
    return out


SMIN = smins()


def sessions(tier, seed):
    rng = random.Random(seed)
    big = tier != "quick"
    out = []
    for impl in ("c", "py"):
        ev = [{"op": "base", "impl": impl, "tape": list((t + d).to_bytes(9, "little"))} for t in TAIL for d in (-1, 0, 1) if t + d >= 0]
        for _ in range(60000 if big else 2000):
            ev.append({"op": "base", "impl": impl, "tape": list(draw72(rng).to_bytes(9, "little"))})
        out += [{"kind": "table", "gen": ev[i:i + 100]} for i in range(0, len(ev), 100)]
        for _ in range(8000 if big else 400):
            out.append({"kind": "draw", "gen": [one(rng, impl) for _ in range(10)]})
    return out
