"""The parameter sets and their derivation."""
import random

import paramdrv

NEEDS = ["py"]
SPEC = "ParamTrace"
RULE = "an event is one parameter set, or one smoothing parameter; distinct by its inputs"
ASSUMPTIONS = ["lengths of signatures are given, not derived", "block sizes are compared below on a grid and just before"]
run = paramdrv.run


def models(tier):
    return [{"module": "MC_Params", "name": "", "workers": 4,
             "cfg": "INIT Init\nNEXT Next\nINVARIANT SameSigma\nINVARIANT BoundOk\nINVARIANT LeafOk\nINVARIANT RejectOk\n"
                    "INVARIANT SplitsOk\nCHECK_DEADLOCK FALSE\n", "bounds": "every degree from 2 to 1024"}]


def sessions(tier, seed):
    rng = random.Random(seed)
    big = tier != "quick"
    evs = []
    for k in range(1, 11):
        n = 1 << k
        evs.append({"op": "table", "a": {"n": n}})
        evs.append({"op": "derived", "made": True, "a": {"n": n, "bits": max(2, n >> 2)}})
        for b in [2, 80, 128, 192, 256, 65536] + [int(2 ** rng.uniform(1, 20)) for _ in range(2 if not big else 20)]:
            evs.append({"op": "derived", "made": False, "a": {"n": n, "bits": b}})
    for _ in range(40 if not big else 400):
        d = rng.random() < 0.3
        evs.append({"op": "smooth", "default": d, "a": {
            "m": rng.choice([1, 2, 3, 1024, 2048, rng.randrange(1, 4096)]), "norm": d or rng.random() < 0.3,
            "num": rng.choice([1, 1, 3]), "den": rng.choice([1, 2, 1000, 1 << 30, rng.randrange(1, 1 << 30)])}})
    rng.shuffle(evs)
    return [{"kind": "param", "w": 3, "gen": evs[i:i + 2]} for i in range(0, len(evs), 2)]
