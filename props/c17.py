"""AES-256 CTR DRBG (C and Python) and the seed expander."""
import random

import rngdrv
from Crypto.Cipher import AES

NEEDS = ["kat", "py"]
SPEC = "DrbgTrace"
RULE = "an event is one generator call; distinct by arguments"
ASSUMPTIONS = ["Aes.tla agrees with FIPS 197 (checked by setup)"]
run = rngdrv.run


def entropy_for(rng, v):
    """Seed material after which the counter is v."""
    t = AES.new(bytes(32), AES.MODE_ECB).encrypt((3).to_bytes(16, "big"))
    return rng.randbytes(32) + bytes(a ^ b for a, b in zip(t, v))


def sessions(tier, seed):
    rng = random.Random(seed)
    out = []
    big = tier != "quick"
    NS = [0, 1, 15, 16, 17, 31, 32, 33, 40, 48, 47, 64, 100, 255, 256, 300]
    for i in range(150 if not big else 3000):
        evs = []
        impls = rng.choice([["c"], ["py", "py"], ["py"]])
        for c, impl in enumerate(impls, 1):
            ff = rng.randrange(0, 17)
            v = rng.randbytes(16 - ff) + b"\xff" * ff
            if rng.random() < 0.5:
                v = (int.from_bytes(v, "big") - rng.randrange(0, 6)) % 2**128
                v = v.to_bytes(16, "big")
            ent = entropy_for(rng, v)
            wp = rng.random() < 0.5
            pers = rng.randbytes(48 if impl == "c" else rng.choice([0, 1, 32, 47, 48])) if wp else b""
            if rng.random() < 0.5 and wp:      # keep the chosen counter
                pp = pers + bytes(48 - len(pers))
                ent = bytes(a ^ b for a, b in zip(ent, pp))
            evs.append(["dr_init", c, impl, list(ent), list(pers), wp])
        for _ in range(rng.randrange(2, 9)):
            c = rng.randrange(len(impls)) + 1
            impl = impls[c - 1]
            r = rng.random()
            if r < 0.1 and impl == "py":
                if rng.random() < 0.5:
                    evs.append(["dr_init", c, impl, list(rng.randbytes(rng.choice([0, 32, 47, 49, 96]))), [], False])
                else:
                    evs.append(["dr_init", c, impl, list(rng.randbytes(48)), list(rng.randbytes(49)), True])
            elif r < 0.35 and impl == "py":
                evs.append(["dr_gen", c, impl, rng.choice(NS), list(rng.randbytes(rng.choice([1, 16, 47, 48, 48, 49])))])
            elif r < 0.15 and impl == "c":
                evs.append(["dr_update", c, impl, list(rng.randbytes(32)), list(rng.randbytes(rng.randrange(17)).ljust(16, b"\xff")),
                            list(rng.randbytes(48)) if rng.random() < 0.6 else []])
            else:
                evs.append(["dr_gen", c, impl, rng.choice(NS), []])
        out.append({"kind": "drbg", "gen": evs})
    for i in range(60 if not big else 1200):
        evs = []
        lens = [rng.choice([1, 2, 17, 100, 1000, 5000, 65537, 2**24 + 5, 2**31 - 1, 2**32 - 1, 2**32, 2**40]) for _ in range(2)]
        for c in (1, 2):
            evs.append(["sx_init", c, "c", list(rng.randbytes(32)), list(rng.randbytes(8)), lens[c - 1]])
            if lens[c - 1] >= 2**32:
                lens[c - 1] = rng.choice([100, 1000, 10000])
                evs.append(["sx_init", c, "c", list(rng.randbytes(32)), list(rng.randbytes(8)), lens[c - 1]])
        for _ in range(rng.randrange(3, 10)):
            c = rng.choice([1, 2])
            n = rng.choice([0, 1, 5, 15, 16, 17, 31, 32, 33, 48, 200, lens[c - 1] - 1, lens[c - 1], lens[c - 1] + 1])
            if n > 6000 and n < lens[c - 1]:
                n = rng.choice([100, 1000, 4095, 4096, 4097, 4500])
            n = min(n, 6000)
            evs.append(["sx", c, "c", max(0, n)])
            if n < lens[c - 1]:
                lens[c - 1] -= n
        out.append({"kind": "sx", "gen": evs})
    return out
