"""Fixed-width signed encodings (private keys)."""
import random

import codecdrv
from codecdrv import bits_pack, mutate, chunks
from props.c06 import mc

NEEDS = ["c", "py"]
SPEC = "CodecTrace"
RULE = "an event is one encode or decode call; distinct by format, width, degree and input"
ASSUMPTIONS = ["vectors handed to an encoder have the announced number of elements"]
run = codecdrv.run


def models(tier):
    return mc("trim", 2, 300, 300, "{0, 1, 15, 127, 31}")


def sessions(tier, seed):
    rng = random.Random(seed)
    big = tier != "quick"
    evs = []
    for i in range(2400 if not big else 24000):
        logn = rng.choice([1, 1, 2, 2, 3, 4, 5, 6] + ([9, 10] if i % 6 == 0 else []))
        n = 1 << logn
        i8 = rng.random() < 0.6
        w = rng.choice([5, 6, 7, 8, 8] if i8 else [2, 5, 8, 9, 10, 12, 15])
        mx = (1 << (w - 1)) - 1
        edge = [0, 1, -1, mx, -mx, mx - 1, 1 - mx]
        x = [rng.choice(edge) if rng.random() < 0.4 else rng.randint(-mx, mx) for _ in range(n)]
        ln = (n * w + 7) // 8
        k = rng.randrange(4)
        if k < 2:
            if rng.random() < 0.35:
                lim = 127 if i8 else 32767
                bad = [v for v in (mx + 1, -mx - 1, -mx - 2, lim, -lim - 1) if -lim - 1 <= v <= lim and abs(v) > mx]
                if bad:
                    x[rng.randrange(n)] = rng.choice(bad)
            if i8 and rng.random() < 0.4:
                if rng.random() < 0.1:
                    x[rng.randrange(n)] = rng.choice([128, 300, -129])
                evs.append({"op": "pyenc", "f": "trim", "w": w, "x": x})
            else:
                evs.append({"op": "enc", "f": "trim", "w": w, "logn": logn, "x": x, "i8": i8,
                            "max": rng.choice([ln, ln, ln, ln + 1, ln + 9, ln - 1, 0, -1])})
        else:
            if rng.random() < 0.25:
                x[rng.randrange(n)] = -mx - 1
            s = bits_pack([(v, w) for v in x])
            if rng.random() < 0.4:
                s = mutate(rng, s)
            if i8 and rng.random() < 0.4:
                evs.append({"op": "pydec", "f": "trim", "w": w, "n": n, "s": list(s)})
            else:
                evs.append({"op": "dec", "f": "trim", "w": w, "logn": logn, "s": list(s), "i8": i8})
    # every width the formats use, the extreme values at each position, every pattern of the unused bits
    for i8, w in [(True, b) for b in (5, 6, 7, 8)] + [(False, b) for b in (9, 10, 12)]:
        for logn in (1, 2, 3):
            n = 1 << logn
            mx = (1 << (w - 1)) - 1
            for pos in range(n):
                for v in (-mx - 1, -mx, mx):
                    x = [rng.randint(-mx, mx) for _ in range(n)]
                    x[pos] = v
                    s = bits_pack([(y, w) for y in x])
                    evs.append({"op": "dec", "f": "trim", "w": w, "logn": logn, "s": list(s), "i8": i8})
                    if i8:
                        evs.append({"op": "pydec", "f": "trim", "w": w, "n": n, "s": list(s)})
                    evs.append({"op": "enc", "f": "trim", "w": w, "logn": logn, "x": x, "i8": i8, "max": len(s)})
            s = bits_pack([(rng.randint(-mx, mx), w) for _ in range(n)])
            for pad in range(1, 1 << (-n * w % 8)):
                u = s[:-1] + bytes([s[-1] | pad])
                evs.append({"op": "dec", "f": "trim", "w": w, "logn": logn, "s": list(u), "i8": i8})
                if i8:
                    evs.append({"op": "pydec", "f": "trim", "w": w, "n": n, "s": list(u)})
    return chunks(evs)
