"""On-chain recovery: ZKNOX_epervier and ZKNOX_ethepervier."""
import random

import soldrv as sd
from props import c20

NEEDS = ["sol"]
SPEC = "EvmTrace"
RULE = "an event is one message call to a contract; distinct by operation and arguments"
ASSUMPTIONS = ["no Solidity compiler is installed: the contracts are compiled to Python by lib/sol, which runs the "
               "repository's own 80 Solidity tests correctly", "gas is not modelled (memory beyond 16 MB runs out of gas)"]
EVENT_TIMEOUT = 120
run = sd.run
Q = 12289


def models(tier):
    return c20.models(tier)


def hint_of(s2):
    p = 1
    for v in sd.ring.ntt(s2):
        p = p * int(v) % Q
    return pow(p, -1, Q) if p else 0


def rec(c, salt, m, s1, s2, hint):
    return {"op": "recover", "c": c, "salt": list(salt), "m": list(m), "s1": s1, "s2": s2, "hint": sd.lanes([hint])}


def sess(rng, c, count):
    gen = []
    for _ in range(count):
        k = sd.crafted(rng, sd.XOF[c])
        if rng.random() < 0.5:                # any short pair determines some key
            k["m"], k["salt"] = rng.randbytes(rng.choice([0, 1, 32, 64, 137])), rng.randbytes(40)
        s1, s2 = sd.nonneg(k["s1"]), sd.nonneg(k["s2"])
        h = hint_of(s2)
        gen.append(rec(c, k["salt"], k["m"], s1, s2, h))
        for _ in range(3):
            salt, m, t1, t2, g, c2 = k["salt"], k["m"], s1, s2, h, c
            x = rng.randrange(10)
            if x < 2:
                t1 = sd.damage(rng, s1)
            elif x < 4:
                t2 = sd.damage(rng, s2)
                if len(t2) == 512 and rng.random() < 0.7:
                    g = hint_of([v % Q for v in t2])
            elif x < 6:
                g = rng.choice([h + Q, h + 2 * Q, h + Q * (1 << rng.randrange(1, 230)), (-h) % Q, 0, 1,
                                (h + 1) % Q, h * 2 % Q, (1 << 256) - Q + h, Q, rng.randrange(Q),
                                h ^ (1 << rng.randrange(14)), h * pow(2, rng.randrange(1, 240), Q) % Q])
            elif x == 6:
                salt = rng.choice([salt[:-1], salt + b"\0", salt[:39] + bytes([salt[39] ^ 1]), b"", salt + m[:1]])
            elif x == 7:
                m = rng.choice([m + b"\0", m[:-1], m[::-1]])
            elif x == 8:                       # s2 that has no inverse
                t2 = sd.nonneg(sd.ring.singular(sd.ring.centre(s2), rng.choice([0, 511, rng.randrange(512)])))
                if rng.random() < 0.2:
                    t2 = [0] * 512
                t = [int(v) for v in sd.ring.ntt(t2) if v]
                h1 = 1
                for v in t:
                    h1 = h1 * pow(v, -1, Q) % Q
                g = rng.choice([0, 1, h, h1, h1])
            else:
                c2 = rng.choice(["epervier", "ethepervier"])
            gen.append(rec(c2, salt, m, t1, t2, g))
    return {"kind": "evm", "w": count, "gen": gen}


def sparse(rng, c):
    """Tiny vectors, for which most coefficients are zero, up to both ends."""
    gen = []
    for _ in range(4):
        s1, s2 = [0] * 512, [0] * 512
        for _ in range(rng.choice([0, 1, 2])):
            s1[rng.choice([0, 511, rng.randrange(512)])] = rng.choice([1, Q - 1, 6144, 6145, 5833, 5834])
        s2[rng.choice([0, 511, rng.randrange(512)])] = rng.choice([1, Q - 1, 3, 5833, Q - 5833, 5834, 2047])
        h = hint_of(s2)
        gen.append(rec(c, rng.randbytes(40), rng.randbytes(32), s1, s2, h))
        gen.append(rec(c, rng.randbytes(40), rng.randbytes(32), s1, s2, (h + rng.randrange(Q)) % Q))
    return {"kind": "evm", "w": 4, "gen": gen}


def sessions(tier, seed):
    rng = random.Random(seed)
    k = 2 if tier == "quick" else 20
    out = []
    for c in ("epervier", "ethepervier"):
        out += [sess(rng, c, 5) for _ in range(16 * k)]
        out += [sparse(rng, c) for _ in range(6 * k)]
    return out
