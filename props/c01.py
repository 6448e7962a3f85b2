"""SHAKE256 streams: C and Python."""
import random

import xofdrv

NEEDS = ["c", "py"]
SPEC = "Xof"
RULE = "an event is one streaming call (init, inject, flip, extract) on the real object; distinct by arguments"
ASSUMPTIONS = ["Keccak.tla's permutation agrees with FIPS 202 (checked against hashlib answers by setup)"]
run = xofdrv.run

MC = "SPECIFICATION Spec\nINVARIANT AbsorbIsSplit PaddedOnce OutIsStream\nCONSTANTS\n"


def models(tier):
    ops = 5 if tier == "quick" else 6
    base = "INIT Init\nNEXT Next\nINVARIANT AbsorbIsSplit\nINVARIANT PaddedOnce\nINVARIANT OutIsStream\nCONSTANTS\n"
    return [
        {"module": "MC_Sponge", "name": "split", "cfg": base + "Rate = 4\nSizes = {0,1,2,3,4,5,7,8,9}\nMaxOps = %d\n"
         "MaxIn = 13\nMaxOut = 13\nEmit = FALSE\n" % ops, "bounds": "rate 4, every chunk-size sequence of %d calls" % ops},
        {"module": "MC_Sponge", "name": "emit", "emit": "sponge", "workers": 1,
         "cfg": base + "Rate = 4\nSizes = {0,1,3,4,5}\nMaxOps = 4\nMaxIn = 20\nMaxOut = 20\nEmit = TRUE\n",
         "bounds": "rate 4, every behaviour of 4 calls ending in the squeezing phase, replayed"}]


def sessions(tier, seed, behav):
    rng = random.Random(seed)
    out = []
    m = {0: 0, 1: 1, 3: 135, 4: 136, 5: 137}
    beh = behav["sponge"]
    for n, b in enumerate(beh):
        ops = [["init", 1, [136, 31, 0]]] + [[o, 1, m[k] if o != "flip" else 0] for o, k in b]
        if tier == "quick":
            impls = ["cshake"] + (["pyshake"] if n % 4 == seed % 4 else [])
        else:
            impls = ["cshake", "pyshake"]
        for im in impls:
            out.append({"kind": "shake", "impl": im, "seed": rng.getrandbits(60), "gen": ops,
                        "w": 1 if im == "cshake" else 4})
    N = 60 if tier == "quick" else 600
    for i in range(N):
        py = i % 2
        ops = []
        for c in ((1, 2) if i % 3 == 0 else (1,)):
            rate, ds, k = 136, 31, 0
            if py and rng.random() < 0.5:
                k = rng.choice([0, 1, 5, 135, 136, 137, 300])
            if py and rng.random() < 0.3:
                rate, ds = rng.choice([(168, 31), (136, 6), (72, 6), (144, 1), (104, 6), (136, 1)])
            seq = [["init", c, [rate, ds, k]]]
            for _ in range(rng.randrange(0, 5)):
                seq.append(["inject", c, rng.choice([0, 1, 2, 7, 8, 31, 40, 127, 128, 135, 136, 137, 271, 272, 273,
                                                     rng.randrange(700)])])
            seq.append(["flip", c, 0])
            for _ in range(rng.randrange(1, 7)):
                seq.append(["extract", c, rng.choice([0, 1, 2, 8, 33, 56, 63, 135, 136, 137, 272, 273, 300])])
            if rng.random() < 0.2:      # reuse of the object
                seq += [["init", c, [rate, ds, 0]], ["inject", c, 3], ["flip", c, 0], ["extract", c, 40]]
            ops.append(seq)
        out.append({"kind": "shake", "impl": "pyshake" if py else "cshake", "seed": rng.getrandbits(60),
                    "gen": merge(rng, ops), "w": 4 if py else 1})
    return out


def merge(rng, seqs):
    seqs = [list(s) for s in seqs]
    out = []
    while any(seqs):
        s = rng.choice([s for s in seqs if s])
        out.append(s.pop(0))
    return out
