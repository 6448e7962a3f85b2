"""The test for short vectors at every degree."""
import random

import ringdrv
import signdrv
from props.c14 import BOUNDS

NEEDS = ["c"]
SPEC = "RingTrace"
RULE = "an event is one norm test; distinct by function, degree and arguments"
ASSUMPTIONS = []
run = ringdrv.run


def models(tier):
    return [{"module": "MC_Norm", "name": "", "workers": 8,
             "cfg": "INIT Init\nNEXT Next\nINVARIANT Saturates\nCHECK_DEADLOCK FALSE\nCONSTANTS\nW = %d\nLen2 = %d\n"
                    % ((5, 3) if tier == "quick" else (6, 4)),
             "bounds": "every vector of up to %d squares in words of %d bits" % ((3, 5) if tier == "quick" else (4, 6))}]


def mixed(rng, n, norm):
    """2n values of 16 bits with exactly this squared norm."""
    for _ in range(60):
        lim = rng.choice([32767, 32767, 32767, 6144, 2047])
        if norm > lim * lim * 2 * n * 9 // 10:
            lim = 32767
        x = signdrv.vec_norm(rng, 2 * n, norm, lim, rng.choice(["spike", "noise", "flat", "greedy"]))
        if x is not None:
            return x
    return None


def sessions(tier, seed):
    rng = random.Random(seed)
    big = tier != "quick"
    evs = []
    for logn in range(1, 11):
        n, b = 1 << logn, BOUNDS[logn]
        cap = 2 * n * 32767 * 32767
        ts = [0, 1, b - 1, b, b, b + 1, b + 2, 2 * b]
        for k in ((31, 32, 33, 34, 40) if n > 2 else (31, 32)):
            ts += [(1 << k) + d for d in (-1, 0, 1, b, b + 1, b - 1)]
        ts += [3 << 31, (3 << 32) + b, (5 << 32) + 7, (1 << 32) + (1 << 31) + 3]
        ts += [b + (1 << l2) for l2 in (26, 27, 28, 29, 30)]
        for t in ts * (8 if big else 1):
            if not 0 <= t <= cap * 9 // 10:
                continue
            x = mixed(rng, n, t)
            if x is None:
                continue
            if rng.random() < 0.5:
                rng.shuffle(x)
            evs.append({"op": "is_short", "a": {"x": x[:n], "y": x[n:]}})
            # the same total, part of it already summed
            v = x[n:]
            sq = t - sum(z * z for z in v)
            if sq < 2**31:
                evs.append({"op": "is_short_half", "a": {"x": v, "hi": sq >> 16, "lo": sq & 65535}})
        for _ in range(30 if big else 6):
            m = rng.choice([0, 0, 1, b])
            v = signdrv.vec_norm(rng, n, m, 32767, "greedy") or [0] * n
            for sq in (0, b - m, b - m + 1, b + 1, 2**31 - 1, 2**31, 2**32 - 1, 2**31 + b, 2**32 - m, rng.randrange(2**32)):
                sq = max(0, min(2**32 - 1, sq))
                evs.append({"op": "is_short_half", "a": {"x": v, "hi": sq >> 16, "lo": sq & 65535}})
        w = [0] * n
        w[rng.randrange(n)] = -32768
        evs.append({"op": "is_short", "a": {"x": w, "y": [0] * n}})
        evs.append({"op": "is_short", "a": {"x": [0] * n, "y": w}})
        evs.append({"op": "is_short", "a": {"x": [-32768] * n, "y": [-32768] * n}})
        evs.append({"op": "is_short", "a": {"x": [32767] * n, "y": [-32768] * n}})
        for sq in (0, 2**30, 2**31, 3 << 30, 2**32 - 1):
            evs.append({"op": "is_short_half", "a": {"x": w, "hi": sq >> 16, "lo": sq & 65535}})
            evs.append({"op": "is_short_half", "a": {"x": [-32768] * n, "hi": sq >> 16, "lo": sq & 65535}})
    rng.shuffle(evs)
    return [{"kind": "norm", "gen": evs[i:i + 4]} for i in range(0, len(evs), 4)]
