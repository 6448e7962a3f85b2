"""Encodings of vectors modulo q (public keys)."""
import random

import codecdrv
from codecdrv import Q, bits_pack, mutate, chunks

NEEDS = ["c", "py"]
SPEC = "CodecTrace"
RULE = "an event is one encode or decode call; distinct by format, degree and input"
ASSUMPTIONS = ["vectors handed to an encoder have the announced number of elements"]
run = codecdrv.run


def mc(kind, maxlen, below, hi, others):
    return [{"module": "MC_Codec", "name": kind, "workers": 8,
             "cfg": "INIT Init\nNEXT Next\nINVARIANT Canonical\nCHECK_DEADLOCK FALSE\nCONSTANTS\nMaxLen = %d\nKind = \"%s\"\n"
             % (maxlen, kind), "bounds": "every byte string of at most %d bytes" % maxlen},
            {"module": "MC_Round", "name": kind, "workers": 8,
             "cfg": "INIT Init\nNEXT Next\nINVARIANT RoundTrip\nCHECK_DEADLOCK FALSE\nCONSTANTS\nKind = \"%s\"\nBelow = %d\nHi = %d\nOthers = %s\n"
             % (kind, below, hi, others), "bounds": "values %d..%d, alone and in pairs" % (-below, hi)}]


def models(tier):
    return mc("modq", 2, 5, 16400, "{0, 1, 12288, 8191}")


EDGE = [0, 1, 2, 127, 128, 255, 256, 6144, 6145, 8191, 8192, 12287, 12288]


def sessions(tier, seed):
    rng = random.Random(seed)
    big = tier != "quick"
    evs = []

    def val():
        return rng.choice(EDGE) if rng.random() < 0.4 else rng.randrange(Q)
    for i in range(1500 if not big else 15000):
        logn = rng.choice([1, 1, 2, 2, 3, 4, 5, 6] + ([9, 10] if i % 6 == 0 else []))
        n = 1 << logn
        w = rng.choice([14, 16])
        ln = (n * w + 7) // 8
        x = [val() for _ in range(n)]
        if rng.random() < 0.3:
            x[rng.randrange(n)] = rng.choice([12289, 12290, 16383, 16384, 32767, 32768, 65535])
        k = rng.randrange(4)
        if k == 0:
            evs.append({"op": "enc", "f": "modq", "w": w, "logn": logn, "x": x,
                        "max": rng.choice([ln, ln, ln, ln + 1, ln + 9, ln - 1, 0, -1])})
        elif k == 1 and w == 14:
            if rng.random() < 0.1:
                x[rng.randrange(n)] = -1
            evs.append({"op": "pyenc", "f": "modq", "w": 14, "x": x})
        else:
            s = bits_pack([(v, w) for v in x])
            if rng.random() < 0.4:
                s = mutate(rng, s)
            if w == 14 and rng.random() < 0.4:
                evs.append({"op": "pydec", "f": "modq", "w": 14, "n": n, "s": list(s)})
            else:
                evs.append({"op": "dec", "f": "modq", "w": w, "logn": logn, "s": list(s)})
    for i in range(60 if not big else 600):
        logn = rng.choice([9, 9, 10])
        s = bytes([logn]) + bits_pack([(val(), 14) for _ in range(1 << logn)])
        r = rng.random()
        if r < 0.3:
            s = mutate(rng, s)
        elif r < 0.45:
            s = bytes([rng.choice([0, 8, 9, 10, 11, 0x19, 0x29, 255])]) + s[1:]
        elif r < 0.6:
            s = s[:rng.choice([0, 1, 896, 897, 898, 1792, 1793])]
        elif r < 0.75:
            s = bytes([rng.choice([9, 10])]) + (s[1:] * 3)[:rng.choice([895, 896, 897, 1791, 1792, 1793])]
        evs.append({"op": "from_bytes", "s": list(s)})
    # every pattern of the unused bits (degree 2 is where there are any), and every bit of short encodings
    for logn, n in ((1, 2), (2, 4), (3, 8)):
        ln = (n * 14 + 7) // 8
        for _ in range(3):
            s = bits_pack([(val(), 14) for _ in range(n)])
            for pad in range(1, 1 << (8 * ln - 14 * n)):
                u = s[:-1] + bytes([s[-1] | pad])
                evs += [{"op": "dec", "f": "modq", "w": 14, "logn": logn, "s": list(u)},
                        {"op": "pydec", "f": "modq", "w": 14, "n": n, "s": list(u)}]
        # each value around the modulus at each position
        for w in (14, 16):
            for pos in range(n):
                for v in (12288, 12289, 12290, 16383):
                    x = [val() for _ in range(n)]
                    x[pos] = v
                    s = bits_pack([(y, w) for y in x])
                    evs.append({"op": "dec", "f": "modq", "w": w, "logn": logn, "s": list(s)})
                    if w == 14:
                        evs.append({"op": "pydec", "f": "modq", "w": 14, "n": n, "s": list(s)})
                    evs.append({"op": "enc", "f": "modq", "w": w, "logn": logn, "x": x, "max": len(s)})
    return chunks(evs)
