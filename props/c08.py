"""Signature encodings: Golomb-Rice and 16-bit words, C and Python."""
import random

import codecdrv
from codecdrv import Q, bits_pack, comp_bytes, mutate, chunks
from props.c06 import mc

NEEDS = ["c", "py"]
SPEC = "CodecTrace"
RULE = "an event is one encode or decode call; distinct by format, degree and input"
ASSUMPTIONS = ["vectors handed to an encoder have the announced number of elements"]
run = codecdrv.run


def models(tier):
    return (mc("comp", 2, 2100, 2100, "{0, 1, 127, 2047}") + mc("comp16", 2, 12300, 12300, "{0, 6144}") +
            mc("pad", 2, 1500, 1500, "{0, 1, 127, 300}"))


def sessions(tier, seed):
    rng = random.Random(seed)
    big = tier != "quick"
    evs = []
    E = [0, 0, 1, -1, 127, -127, 128, -128, 255, 256, 2046, 2047, -2046, -2047, 1920, 1919, -1920]

    def small():
        r = rng.random()
        return rng.choice(E) if r < 0.25 else rng.randint(-2047, 2047) if r < 0.4 else int(rng.gauss(0, 165))
    for i in range(2600 if not big else 26000):
        logn = rng.choice([1, 1, 2, 2, 3, 4, 5, 6] + ([9, 10] if i % 8 == 0 else []))
        n = 1 << logn
        k = rng.randrange(8)
        x = [max(-2047, min(2047, small())) for _ in range(n)]
        if k == 0:
            ln = len(comp_bytes(x))
            if rng.random() < 0.3:
                x[rng.randrange(n)] = rng.choice([2048, -2048, 3000, 32767, -32768])
            evs.append({"op": "enc", "f": "comp", "w": 0, "logn": logn, "x": x,
                        "max": rng.choice([ln, ln, ln, ln + 1, ln + 9, ln - 1, ln - 2, 0, -1])})
        elif k in (1, 2):
            s = comp_bytes(x)
            r = rng.random()
            if r < 0.15:       # minus zero somewhere
                j = rng.randrange(n)
                f = []
                for t, v in enumerate(x):
                    neg = 1 if v < 0 else 0
                    if t == j:
                        neg, v = 1, rng.choice([0, 0, 128, 256])
                    f += [(neg, 1), (abs(v) & 127, 7), (1, (abs(v) >> 7) + 1)]
                s = bits_pack(f)
            elif r < 0.25:     # too large
                f = []
                j = rng.randrange(n)
                for t, v in enumerate(x):
                    v = rng.choice([2048, -2048, 2100, -2175, 4000]) if t == j else v
                    f += [(1 if v < 0 else 0, 1), (abs(v) & 127, 7), (1, (abs(v) >> 7) + 1)]
                s = bits_pack(f)
            elif r < 0.6:
                s = mutate(rng, s)
            elif r < 0.65:
                s = rng.randbytes(rng.randrange(0, 3 * n))
            evs.append({"op": "dec", "f": "comp", "w": 0, "logn": logn, "s": list(s)})
        elif k == 3:
            x = [rng.choice([0, 1, -1, 2046, 2047, 2048, -2047, -2048, 6144, -6144, 6145, 12288, -12288, 165, -165])
                 if rng.random() < 0.5 else rng.randint(-12288, 12288) for _ in range(n)]
            if rng.random() < 0.25:
                x[rng.randrange(n)] = rng.choice([12289, -12289, 32767, -32768])
            ln = 2 * n
            evs.append({"op": "enc", "f": "comp16", "w": 16, "logn": logn, "x": x,
                        "max": rng.choice([ln, ln, ln, ln + 1, ln - 1, 0, -1])})
        elif k == 4:
            s = bits_pack([(rng.choice([0, 1, 2046, 2047, 2048, 6144, 6145, 10241, 10242, 12288])
                            if rng.random() < 0.3 else rng.randrange(Q), 16) for _ in range(n)])
            if rng.random() < 0.5:
                s = mutate(rng, s)
            evs.append({"op": "dec", "f": "comp16", "w": 16, "logn": logn, "s": list(s)})
        elif k == 5:
            if rng.random() < 0.3:
                x[rng.randrange(n)] = rng.choice([2048, 2500, -4000])
            ln = len(comp_bytes(x))
            evs.append({"op": "compress", "x": x, "slen": max(0, ln + rng.choice([0, 0, 1, 7, -1, -2, 20]))})
        elif k == 6:
            ln = len(comp_bytes(x))
            slen = ln + rng.choice([0, 0, 1, 4, 20])
            s = comp_bytes(x, slen)
            r = rng.random()
            if r < 0.45:
                s = mutate(rng, s)
            elif r < 0.55:
                s = bytes(rng.randrange(0, slen + 1))
            elif r < 0.65:
                s = comp_bytes(x + [rng.choice([0, 1, -5])])
                slen = max(slen, len(s))
            elif r < 0.7:
                s = comp_bytes(x[:-1], slen)
            elif r < 0.75:
                f = []
                j = rng.randrange(n)
                for t, v in enumerate(x):
                    neg = 1 if v < 0 else 0
                    if t == j:
                        neg, v = 1, 0
                    f += [(neg, 1), (abs(v) & 127, 7), (1, (abs(v) >> 7) + 1)]
                s = bits_pack(f)
                s += bytes(max(0, slen - len(s)))
            evs.append({"op": "decompress", "s": list(s), "slen": slen, "n": n})
        else:
            evs.append({"op": "decode16", "n": n, "s": list(rng.randbytes(rng.choice([0, 1, 2 * n, 2 * n + 1, 2 * n - 1])))})
    # -0, the largest value and one above it at each position, every pattern of the unused bits
    for n in (2, 4, 8):
        logn = n.bit_length() - 1
        for pos in range(n):
            for neg, v in ((1, 0), (0, 2047), (1, 2047), (0, 2048), (1, 2048)):
                x = [max(-2047, min(2047, small())) for _ in range(n)]
                f = []
                for i, y in enumerate(x):
                    sg, m = (neg, v) if i == pos else (1 if y < 0 else 0, abs(y))
                    f += [(sg, 1), (m & 127, 7), (1, (m >> 7) + 1)]
                s = bits_pack(f)
                evs.append({"op": "dec", "f": "comp", "w": 0, "logn": logn, "s": list(s)})
                evs.append({"op": "decompress", "s": list(s) + [0, 0], "slen": len(s) + 2, "n": n})
            for v in (12288, 12289, 12290, 32767, 32768, 65535):
                y = [rng.randrange(Q) for _ in range(n)]
                y[pos] = v
                evs.append({"op": "dec", "f": "comp16", "w": 16, "logn": logn, "s": list(bits_pack([(u, 16) for u in y]))})
        for _ in range(6):
            x = [max(-2047, min(2047, small())) for _ in range(n)]
            s = comp_bytes(x)
            free = -sum(9 + (abs(v) >> 7) for v in x) % 8
            for pad in range(1, 1 << free):
                u = s[:-1] + bytes([s[-1] | pad])
                evs.append({"op": "dec", "f": "comp", "w": 0, "logn": logn, "s": list(u)})
                evs.append({"op": "decompress", "s": list(u), "slen": len(u), "n": n})
                evs.append({"op": "decompress", "s": list(u) + [0], "slen": len(u) + 1, "n": n})
    return chunks(evs)
