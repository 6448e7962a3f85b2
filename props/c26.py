"""On-chain decoding of compressed keys, signatures and signed messages."""
import random

import codecdrv as cd
import soldrv as sd
from props.c06 import mc

NEEDS = ["sol"]
SPEC = "EvmCodecTrace"
RULE = "an event is one call of a decoder (with the verification that follows it); distinct by arguments"
ASSUMPTIONS = ["no Solidity compiler is installed: the functions are compiled to Python by lib/sol, which runs the "
               "repository's own 80 Solidity tests correctly"]
EVENT_TIMEOUT = 120
run = sd.run
Q = 12289


def models(tier):
    return mc("comp", 2, 2100, 2100, "{0, 1, 127, 2047}") + mc("modq", 2, 5, 16400, "{0, 1, 12288, 8191}")


def coeffs(rng):
    k = rng.randrange(5)
    if k == 0:
        x = [int(rng.gauss(0, 165)) for _ in range(512)]
    elif k == 1:
        x = [rng.choice([0, 1, -1, 127, 128, -127, -128]) for _ in range(512)]
    elif k == 2:
        x = [int(rng.gauss(0, 100)) for _ in range(512)]
        for _ in range(3):
            x[rng.choice([0, 511, rng.randrange(512)])] = rng.choice([2047, -2047, 1920, -1920, 1919])
    elif k == 3:              # around the longest body that is accepted
        x = [int(rng.gauss(0, 120)) for _ in range(512)]
        want = 8 * rng.choice([664, 665, 665, 665, 666]) - rng.randrange(8)
        for _ in range(20000):
            bits = sum(9 + (abs(v) >> 7) for v in x)
            if bits == want:
                break
            i = rng.randrange(512)
            if bits < want and abs(x[i]) < 1900:
                x[i] += 128 if x[i] >= 0 else -128
            elif bits > want and abs(x[i]) > 128:
                x[i] -= 128 if x[i] >= 0 else -128
    else:
        x = [0] * 512
        for _ in range(rng.randrange(6)):
            x[rng.randrange(512)] = rng.randrange(-2047, 2048)
    return [max(-2047, min(2047, v)) for v in x]


def body(rng, x):
    """Encodings of x, canonical or not."""
    if rng.random() < 0.25:           # one wrong field
        f = []
        j = rng.choice([0, 511, rng.randrange(512)])
        for i, v in enumerate(x):
            s, a = (1 if v < 0 else 0), abs(v)
            if i == j:
                k = rng.randrange(3)
                if k == 0:
                    s, a = 1, 0
                elif k == 1:
                    a = rng.choice([2047, 2048, 2049, 2175, 2176, 4095, 9000])
                else:
                    s, a = 1, 128
            f += [(s, 1), (a & 127, 7), (1, (a >> 7) + 1)]
        b = cd.bits_pack(f)
    else:
        b = cd.comp_bytes(x)
    return b


def sigs(rng):
    gen = []
    for _ in range(8):
        b = bytearray(body(rng, coeffs(rng)))
        k = rng.randrange(8)
        if k == 0:
            b[-1] ^= 1 << rng.randrange(8)
        elif k == 1:
            b = b[:-1]
        elif k == 2:
            b += bytes(rng.choice([1, 2, 40]))
        elif k == 3:
            b += bytes(rng.choice([0, 1, 5])) + bytes([rng.choice([1, 128, 64])]) + bytes(rng.choice([0, 3]))
        elif k == 4:
            b = cd.mutate(rng, bytes(b))
        pre = rng.randbytes(rng.choice([0, 0, 1, 31, 75]))
        o = len(pre)
        if rng.random() < 0.05:
            o = len(pre) + len(b) + rng.choice([0, 1, 5])
        gen.append({"op": "d_sig", "b": list(pre + bytes(b)), "o": o})
    return {"kind": "codec", "w": 4, "gen": gen}


def pack14(x):
    return cd.bits_pack([(v, 14) for v in x])


def keys(rng):
    gen = []
    for _ in range(6):
        x = [rng.randrange(Q) for _ in range(512)]
        for _ in range(rng.choice([0, 1, 3])):
            x[rng.choice([0, 511, rng.randrange(512)])] = rng.choice([0, Q - 1])
        if rng.random() < 0.4:
            x[rng.choice([0, 511, rng.randrange(512)])] = rng.choice([Q, Q + 1, 16383, 12290 + rng.randrange(4000)])
        b = pack14(x)
        b = rng.choice([b, b, b, b[:-1], b + b"\0", b + rng.randbytes(3), b""])
        pre = rng.choice([b"\x09", b"", rng.randbytes(5)])
        gen.append({"op": "d_key", "b": list(pre + b), "o": rng.choice([len(pre)] * 5 + [len(pre) + 1])})
    return {"kind": "codec", "w": 2, "gen": gen}


def kats(rng):
    gen = []
    for c in rng.sample(["falcon", "ethfalcon"], 2):
        while True:
            k = sd.crafted(rng, sd.XOF[c], norm=rng.choice([sd.BOUND, sd.BOUND + 1, sd.BOUND, rng.randrange(10 ** 7, sd.BOUND)]))
            if max(abs(v) for v in k["s2"]) < 2048:
                break
        s2 = [int(v) for v in k["s2"]]
        h = [int(v) for v in sd.ring.intt(sd.np_(k["hn"]))]
        x = rng.random()
        b = cd.comp_bytes(s2)
        if x < 0.15:
            b = bytearray(b)
            b[-1] ^= 1 << rng.randrange(8)
        elif x < 0.25:
            b = bytes(body(rng, s2))
        elif x < 0.35:
            b = b[:-1]
        elif x < 0.45:
            b = b + bytes(rng.choice([1, 2]))
        sg = b"\x29" + bytes(b)
        pk = b"\x09" + pack14(h)
        for _ in range(3):
            m, p, g, ml, d, salt = k["m"], pk, sg, len(k["m"]), 0, k["salt"]
            y = rng.randrange(14)
            if y == 0:
                d = rng.choice([1, -1, 2, 256])
            elif y == 1:
                ml += rng.choice([1, -1])
            elif y == 2:
                p = rng.choice([p[:-1], p + b"\0", b"\x0a" + p[1:], b"", p[:1], p[:897 - 14]])
            elif y == 3:
                g = bytes([rng.choice([0x39, 0x28, 0x2a, 0, 0x59])]) + g[1:]
            elif y == 4:
                m = m[:-1] + b"x" if m else b"y"
                ml = len(m)
            elif y == 5:
                g = g + b"\1"
            elif y == 6:
                ml = rng.choice([-1, -42, -43, -len(g), 1 << 30])
            elif y == 7:
                p = b"\x09" + pack14([v + (Q if v < 4000 and rng.random() < 0.01 else 0) for v in h])
            elif y == 8:
                salt = salt[:-1] + bytes([salt[-1] ^ 1])
            sm = max(0, len(g) + d).to_bytes(2, "big") + salt + m + g
            if y == 9:
                sm = rng.choice([sm[:-1], sm[:rng.randrange(len(sm))], sm[:42], b"", sm[:1], sm[:43 + len(m)]])
            gen.append({"op": "d_kat", "c": c, "pk": list(p), "sm": list(sm), "mlen": ml})
    return {"kind": "codec", "w": 4, "gen": gen}


def sessions(tier, seed):
    rng = random.Random(seed)
    k = 2 if tier == "quick" else 25
    out = []
    for f, c in ((sigs, 40), (keys, 20), (kats, 40)):
        out += [f(rng) for _ in range(c * k)]
    return out
