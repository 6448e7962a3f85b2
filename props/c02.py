"""The Keccak-256 counter generator: C and Python."""
import random

import xofdrv
from props.c01 import merge

NEEDS = ["c", "py"]
SPEC = "Xof"
RULE = "an event is one generator call on the real object; distinct by arguments"
ASSUMPTIONS = ["Keccak.tla agrees with Keccak-256 (checked against pycryptodome answers by setup)"]
run = xofdrv.run
IMPLS = ["ckprng", "pykprng"]
KIND = "kprng"
CAP = 4096


def models(tier):
    base = "INIT Init\nNEXT Next\nINVARIANT OutIsStream\nINVARIANT NeverOverfull\nINVARIANT NoOutputBeforeFlip\nCONSTANTS\n"
    return [
        {"module": "MC_CtrGen", "name": "stream", "cfg": base + "Cap = 5\nBlk = 3\nSizes = {0,1,4,5,6}\n"
         "OutSizes = {0,1,2,3,4,7}\nMaxOps = %d\nEmit = FALSE\n" % (5 if tier == "quick" else 6),
         "bounds": "capacity 5, block 3, every call sequence"},
        {"module": "MC_CtrGen", "name": "emit", "emit": "ctr", "workers": 1,
         "cfg": base + "Cap = 5\nBlk = 3\nSizes = {0,1,5,6}\nOutSizes = {0,2,3,4}\nMaxOps = 4\nEmit = TRUE\n",
         "bounds": "every behaviour of 4 calls, replayed"}]


def sessions(tier, seed, behav):
    rng = random.Random(seed)
    out = []
    mi = {0: 0, 1: 1, 5: CAP, 6: CAP + 1}
    mo = {0: 0, 2: 31, 3: 32, 4: 33}
    beh = behav["ctr"]
    for n, b in enumerate(beh):
        ops = [["init", 1, [0, 0, 0]]]
        for o, k, rc in b:
            ops.append([o, 1, mi[k] if o == "inject" else mo[k] if o == "extract" else 0])
        # a full buffer costs a specification evaluation of the whole of it: sample those
        heavy = any(o == "inject" and k == 5 for o, k, _ in b) and any(o == "flip" for o, _, _ in b)
        for im in IMPLS:
            if tier == "quick" and (n + seed) % (24 if heavy else 6 if im[0] == "p" else 3):
                continue
            out.append({"kind": KIND, "impl": im, "seed": rng.getrandbits(60), "gen": ops})
    for i in range(60 if tier == "quick" else 600):
        ops = []
        for c in ((1, 2) if i % 3 == 0 else (1,)):
            seq = [["init", c, [0, 0, 0]]]
            for _ in range(rng.randrange(0, 6)):
                seq.append(["inject", c, rng.choice([0, 1, 31, 32, 33, 40, 135, 136, 137, rng.randrange(600)])])
            if rng.random() < 0.15:
                tot = sum(s[2] for s in seq[1:])
                d = rng.choice([-1, 0, 1])
                if CAP - tot + d > 0:
                    seq.append(["inject", c, CAP - tot + d])
            if rng.random() < 0.2:
                seq.append(["extract", c, rng.choice([0, 1, 40])])
            seq.append(["flip", c, 0])
            for _ in range(rng.randrange(1, 9)):
                r = rng.random()
                if r < 0.07:
                    seq.append(["flip", c, 0])
                elif r < 0.14:
                    seq.append(["inject", c, rng.choice([0, 1, 50])])
                else:
                    seq.append(["extract", c, rng.choice([0, 1, 2, 2, 2, 8, 30, 31, 32, 33, 63, 64, 65, 100])])
            if rng.random() < 0.2:
                seq += [["init", c, [0, 0, 0]], ["inject", c, 3], ["flip", c, 0], ["extract", c, 40]]
            ops.append(seq)
        out.append({"kind": KIND, "impl": IMPLS[i % len(IMPLS)], "seed": rng.getrandbits(60), "gen": merge(rng, ops)})
    # long streams: recorded around the places where a byte of the block number changes and at random ones
    for im in IMPLS:
        top = 18 if im[0] == "c" else 17
        if tier != "quick":
            top += 3
        marks = {33 * 32, (1 << top) * 32 + 7}
        for j in range(8, top + 1):
            for m in (1 << j, 3 << (j - 1)):
                marks |= {m * 32 - 33, m * 32 + 3}
        marks |= {rng.randrange(100, 32 << top) for _ in range(40)}
        ops, at = [["init", 1, [0, 0, 0]], ["inject", 1, 48], ["flip", 1, 0]], 0
        for m in sorted(x for x in marks if x < (32 << top) + 100):
            if m - at >= 40:
                ops.append(["skip", 1, [m - at, 36]])
                at = m
            if rng.random() < 0.3:
                ops.append(["extract", 1, 31])
                at += 31
        ops += [["extract", 1, 70]]
        out.append({"kind": KIND, "impl": im, "seed": rng.getrandbits(60), "w": 200, "gen": ops})
        for n in (8192, 8193, 8223):
            out.append({"kind": KIND, "impl": im, "seed": rng.getrandbits(60), "w": 4,
                        "gen": [["init", 1, [0, 0, 0]], ["inject", 1, 48], ["flip", 1, 0], ["skip", 1, [n, 40]],
                                ["extract", 1, 70]]})
    return out
