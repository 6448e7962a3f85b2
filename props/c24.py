"""On-chain hashing: streaming SHAKE256, Keccak-f[1600], hash-to-point."""
import random

import soldrv as sd
from props import c05 as h2p

NEEDS = ["sol"]
SPEC = "EvmXof"
RULE = "an event is one call of a Solidity hash function; distinct by operation and arguments"
ASSUMPTIONS = ["no Solidity compiler is installed: the functions are compiled to Python by lib/sol, which runs the "
               "repository's own 80 Solidity tests correctly", "a context is used as the functions return it: updates, one "
               "padding, then squeezes, or updates and one digest"]
EVENT_TIMEOUT = 120
run = sd.run


def models(tier):
    base = "INIT Init\nNEXT Next\nINVARIANT AbsorbIsSplit\nINVARIANT PaddedOnce\nINVARIANT OutIsStream\nCONSTANTS\n"
    return [{"module": "MC_Sponge", "name": "emit", "emit": "sponge", "workers": 1,
             "cfg": base + "Rate = 4\nSizes = {0,1,3,4,5}\nMaxOps = 4\nMaxIn = 20\nMaxOut = 20\nEmit = TRUE\n",
             "bounds": "rate 4, every behaviour of 4 calls ending in the squeezing phase, replayed"}]


def data(rng, k):
    return list(rng.choice([rng.randbytes(k), rng.randbytes(k), b"\xff" * k, bytes(k)]))


def stream(rng, c):
    seq = [{"op": "init", "c": c, "m": [], "rate": 136, "ds": 31, "named": rng.random() < 0.5}]
    for _ in range(rng.randrange(0, 5)):
        seq.append({"op": "inject", "c": c, "m": data(rng, rng.choice(
            [0, 1, 2, 7, 8, 31, 40, 127, 128, 135, 136, 137, 271, 272, 273, rng.randrange(700)]))})
    if rng.random() < 0.25:
        seq.append({"op": "digest", "c": c, "n": rng.choice([0, 1, 31, 32, 64, 135, 136, 137, 272, 273, 500])})
    else:
        seq.append({"op": "flip", "c": c})
        for _ in range(rng.randrange(1, 7)):
            seq.append({"op": "extract", "c": c, "n": rng.choice([0, 1, 2, 8, 33, 56, 63, 135, 136, 137, 272, 273, 300])})
    return seq


def merge(rng, seqs):
    out = []
    while any(seqs):
        out.append(rng.choice([s for s in seqs if s]).pop(0))
    return out


def edges(rng, q):
    """Inputs whose streams contain the edge samples and those with most rejections."""
    ev = []
    for f, xof in (("NIST", "shake"), ("EVM", "keccak"), ("TETRATION", "chain")):
        for m in h2p.search(rng, xof, 512, 400 if q else 3000, 8 if q else 14):
            a, b = (m[7:], m[:7]) if f == "TETRATION" else (m[:7], m[7:])
            ev.append({"op": "h2p", "f": f, "salt": list(a), "m": list(b)})
    rng.shuffle(ev)
    return [{"kind": "evm", "w": 3, "gen": ev[i:i + 4]} for i in range(0, len(ev), 4)]


def sessions(tier, seed, behav):
    rng = random.Random(seed)
    q = tier == "quick"
    out = edges(rng, q)
    size = {0: 0, 1: 1, 3: 135, 4: 136, 5: 137}
    for n, b in enumerate(behav["sponge"]):
        if q and n % 3 != seed % 3:
            continue
        ops = [{"op": "init", "c": 1, "m": [], "rate": 136, "ds": 31, "named": n % 2 == 0}]
        for o, k in b:
            ops.append({"op": "inject", "c": 1, "m": data(rng, size[k])} if o == "inject" else
                       {"op": "flip", "c": 1} if o == "flip" else {"op": "extract", "c": 1, "n": size[k]})
        out.append({"kind": "evm", "w": 1, "gen": ops})
    for _ in range(150 if q else 1500):
        out.append({"kind": "evm", "w": 3, "gen": merge(rng, [stream(rng, c) for c in rng.choice([[1], [1, 2], [1, 2, 3]])])})
    for _ in range(20 if q else 150):
        gen = []
        for _ in range(12):
            st = rng.choice([rng.randbytes(200), bytes(200), b"\xff" * 200, bytes(8) + b"\xff" * 192])
            if rng.random() < 0.4:
                st = bytearray(200)
                st[rng.randrange(200)] = 1 << rng.randrange(8)
            gen.append({"op": "f1600", "st": list(st)})
        for _ in range(6):
            gen.append({"op": "split", "x": list(rng.choice([rng.randbytes(32), bytes(31) + b"\1", b"\x80" + bytes(31),
                                                             b"\xff" * 32, bytes(range(32))]))})
        out.append({"kind": "evm", "w": 2, "gen": gen})
    for i in range(150 if q else 1500):
        gen = []
        for _ in range(6):
            f = rng.choice(["EVM", "EVM", "NIST", "NIST", "TETRATION"])
            salt = rng.randbytes(rng.choice([40, 40, 40, 40, 0, 1, 39, 41, 96, 136]))
            m = rng.randbytes(rng.choice([32, 32, 0, 1, 31, 33, 64, 95, 96, 97, 135, 136, 137, 232, 300, 1000]))
            gen.append({"op": "h2p", "f": f, "salt": list(salt), "m": list(m)})
        out.append({"kind": "evm", "w": 4, "gen": gen})
    return out
