"""The emulated binary64 arithmetic, its tables and its constants."""
import math
import random

import fprdrv

NEEDS = ["cfp", "py"]
SPEC = "FprTrace"
CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT P = 53\nCONSTANT EBIAS = 1022\n"
RULE = "an event is one floating-point operation, or one table entry; distinct by operation and operands"
ASSUMPTIONS = ["operands are zeros or normal numbers, and results do not overflow, as documented",
               "the scaled exponential is called with 0 <= x <= ln 2 and 0 <= c < 1"]
run = fprdrv.run
M = 1 << 52


def models(tier):
    big = tier != "quick"
    base = "INIT Init\nNEXT Next\nINVARIANT AddOk\nINVARIANT MulOk\nINVARIANT DivOk\nINVARIANT DefOk\nINVARIANT CmpOk\n"
    return [{"module": "MC_Fpr", "name": "rounding", "workers": 8,
             "cfg": base + "CONSTANT P = %d\nCONSTANT EBIAS = 0\nCONSTANT EMAX = %d\n" % ((4, 10) if big else (3, 10)),
             "bounds": "all pairs of values, precision %d" % (4 if big else 3)},
            {"module": "MC_Fpr", "name": "integers", "workers": 4,
             "cfg": "INIT InitX\nNEXT Next\nINVARIANT SqrtOk\nINVARIANT IntOk\nCONSTANT P = %d\nCONSTANT EBIAS = 8\n"
                    "CONSTANT EMAX = 7\n" % (6 if big else 4), "bounds": "all values, precision %d" % (6 if big else 4)}]


def mant(rng):
    r = rng.random()
    if r < 0.25:
        return rng.choice([0, 1, 2, 3, M - 1, M - 2, M // 2, M // 2 - 1, M // 2 + 1, M // 4, 3 * M // 4])
    if r < 0.5:
        return sum(1 << rng.randrange(52) for _ in range(rng.choice([1, 2, 3]))) % M
    if r < 0.6:
        return (M - 1) ^ ((1 << rng.randrange(52)) | (1 << rng.randrange(52)))
    if r < 0.7:
        k = rng.randrange(1, 52)
        return (rng.randrange(M) >> k << k) | rng.choice([0, (1 << k) - 1])
    return rng.randrange(M)


def enc(s, e, m):
    return s << 63 | e << 52 | m


def any_(rng, lo=700, hi=1300):
    if rng.random() < 0.04:
        return enc(rng.randrange(2), 0, 0)
    return enc(rng.randrange(2), rng.randrange(lo, hi), mant(rng))


def adds(rng):
    ex = rng.choice([rng.randrange(100, 1900), rng.randrange(1000, 1060), rng.randrange(1, 70)])
    x = enc(rng.randrange(2), ex, mant(rng))
    r = rng.random()
    if r < 0.35:
        gap = rng.choice([0, 1, 2, 3, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 90, rng.randrange(66)])
        y = enc(rng.randrange(2), max(1, ex - gap), mant(rng))
    elif r < 0.55:
        # the bits of y beyond those of x: a tie, or just off it
        gap = rng.randrange(1, 54)
        low = rng.choice([1 << (gap - 1), (1 << (gap - 1)) - 1, (1 << (gap - 1)) + 1, 1, (1 << gap) - 1, 0])
        full = ((M | rng.randrange(M)) >> gap << gap | low % (1 << gap)) if gap < 53 else M | low % M
        y = enc(rng.randrange(2), max(1, ex - gap), full % M)
    elif r < 0.8:
        # cancellation
        y = enc(1 - (x >> 63), max(1, ex - rng.choice([0, 0, 1])), (x % M + rng.choice([0, 1, -1, 2, -2, rng.randrange(64)])) % M)
    elif r < 0.9:
        y = enc(rng.randrange(2), 0, 0)
        if rng.random() < 0.3:
            x = enc(rng.randrange(2), 0, 0)
    else:
        y = any_(rng, max(1, ex - 70), ex + 1)
    return (x, y) if rng.random() < 0.5 else (y, x)


def muls(rng):
    mx = mant(rng) | (rng.random() < 0.7)
    my = mant(rng)
    if rng.random() < 0.6 and mx & 1:
        # choose the low half of the product
        k = rng.choice([52, 53])
        t = rng.choice([1 << (k - 1), (1 << (k - 1)) + 1, (1 << (k - 1)) - 1, 1, (1 << k) - 1, 3 << (k - 2),
                        1 << rng.randrange(k), 1 << 24, 1 << 25, 1 << 49, 1 << 50, (1 << 50) - 1])
        my = t * pow(M | mx, -1, 1 << 53) % (1 << 53) % M
    ex = rng.randrange(3, 1900)
    ey = rng.randrange(3, 1900)
    while not 1026 < ex + ey < 3060:
        ey = rng.randrange(3, 1900)
    if rng.random() < 0.1:
        ey = max(1, min(2046, 1023 - ex + rng.randrange(-2, 4)))
    x, y = enc(rng.randrange(2), ex, mx), enc(rng.randrange(2), ey, my)
    if rng.random() < 0.06:
        x = enc(rng.randrange(2), 0, 0)
    if rng.random() < 0.04:
        y = enc(rng.randrange(2), 0, 0)
    return x, y


def divs(rng):
    my, mz = M | mant(rng), M | mant(rng)
    r = rng.random()
    if r < 0.5:
        # the quotient is near mz, or near the middle between it and the next
        h = rng.choice([2 * mz, 2 * mz + 1])
        q = (h * my) >> 1
        q += rng.choice([0, 1, -1])
        q >>= max(0, q.bit_length() - 53)
        mx = q % M if q.bit_length() == 53 else rng.randrange(M)
    elif r < 0.6:
        mx = my % M
    else:
        mx = mant(rng)
    ex, ey = rng.randrange(300, 1700), rng.randrange(300, 1700)
    while abs(ex - ey) > 1000:
        ey = rng.randrange(300, 1700)
    if rng.random() < 0.08:
        ey = rng.randrange(1500, 1900)
        ex = ey - 1023 + rng.randrange(-2, 4)
    x = enc(rng.randrange(2), ex, mx)
    if rng.random() < 0.05:
        x = enc(rng.randrange(2), 0, 0)
    return x, enc(rng.randrange(2), ey, my % M)


def roots(rng):
    r = rng.random()
    if r < 0.04:
        return 0
    z = M | mant(rng)
    if r < 0.5:
        h = rng.choice([2 * z, 2 * z + 1]) if r < 0.4 else 2 * (z >> 26 << 26)
        q = h * h
        b = q.bit_length()
        m = (q >> (b - 53)) + rng.choice([0, 0, 1, -1])
        m = max(M, min(2 * M - 1, m))
        return enc(0, 2 * rng.randrange(250, 750) + (b & 1), m % M)
    return enc(0, rng.randrange(1, 2046), mant(rng))


def ints(rng):
    """Values around integers and half-integers."""
    r = rng.random()
    s = rng.randrange(2)
    if r < 0.06:
        return 0 if r < 0.04 else 1 << 63
    if r < 0.5:
        k = rng.randrange(0, 52)
        whole = rng.choice([0, 1, (1 << k) - 1, rng.randrange(1 << k)]) if k else 0
        f = 52 - k
        frac = rng.choice([0, 1, (1 << f) - 1, 1 << (f - 1), (1 << (f - 1)) - 1, (1 << (f - 1)) + 1, rng.randrange(1 << f)])
        return enc(s, 1023 + k, (whole << f | frac % (1 << f)) % M)
    if r < 0.75:
        return enc(s, 1023 + rng.randrange(50, 63), mant(rng))
    if r < 0.9:
        return enc(s, 1023 - rng.choice([1, 1, 1, 2, 2, 3, 50, 53, 62, 63, 64, 65, 66, 1000]), mant(rng))
    return any_(rng, 1000, 1085)


def longs(rng):
    b = rng.randrange(1, 64)
    r = rng.random()
    if r < 0.05:
        return 0
    if r < 0.5 or b < 55:
        v = rng.getrandbits(b) | 1 << (b - 1)
    else:
        cut = b - 53
        v = (1 << (b - 1)) | rng.getrandbits(b - 1) >> cut << cut
        v += rng.choice([1 << (cut - 1), (1 << (cut - 1)) - 1, (1 << (cut - 1)) + 1, 1, (1 << cut) - 1, 0])
    v = min(v, 2**63 - 1)
    return -v if rng.random() < 0.5 else v


def one(rng):
    f = rng.choice(["add", "add", "add", "sub", "sub", "mul", "mul", "mul", "sqr", "div", "div", "inv", "sqrt", "sqrt",
                    "half", "double", "neg", "lt", "rint", "rint", "trunc", "floor", "floor", "of", "scaled"])
    x = y = k = 0
    if f in ("add", "sub"):
        x, y = adds(rng)
        if f == "sub":
            y ^= 1 << 63
    elif f == "mul":
        x, y = muls(rng)
    elif f == "sqr":
        x = enc(rng.randrange(2), rng.randrange(520, 1500), mant(rng))
        if rng.random() < 0.05:
            x = enc(rng.randrange(2), 0, 0)
    elif f == "div":
        x, y = divs(rng)
    elif f == "inv":
        x = enc(rng.randrange(2), rng.randrange(3, 2044), mant(rng))
    elif f == "sqrt":
        x = roots(rng)
    elif f in ("half", "double", "neg"):
        x = any_(rng, 2, 2040)
    elif f == "lt":
        x = any_(rng)
        r = rng.random()
        y = any_(rng) if r < 0.3 else x if r < 0.5 else x ^ 1 << 63 if r < 0.6 else x ^ 1 if r < 0.8 else x ^ 1 << 52
        if rng.random() < 0.3:
            x |= 1 << 63
            y |= 1 << 63
    elif f in ("rint", "trunc", "floor"):
        x = ints(rng)
    elif f == "of":
        x = longs(rng)
    else:
        x, k = longs(rng), rng.choice([0, -1, 1, 30, -30, -600, 600, rng.randrange(-1000, 900), rng.randrange(-1090, -1015)])
    return ["fp", f, x, y, k]


def expm(rng):
    import struct
    r = rng.random()
    ln2 = 0.6931471805599453
    x = rng.choice([0.0, 2.0**-rng.randrange(1, 70), ln2, ln2 - 2.0**-rng.randrange(4, 50)]) if r < 0.3 else rng.random() * ln2
    c = rng.choice([0.5, 0.999999, 2.0**-rng.randrange(1, 60), 1 - 2.0**-53, 0.75]) if rng.random() < 0.3 else 0.6 + 0.4 * rng.random()
    if c >= 1:
        c = 0.5
    w = lambda v: struct.unpack("<Q", struct.pack("<d", v))[0]     # noqa: E731
    return ["fp", "expm", w(x), w(c), 0]


def sessions(tier, seed):
    rng = random.Random(seed)
    big = tier != "quick"
    out = []
    for _ in range(1200 if not big else 20000):
        out.append({"kind": "fp", "gen": [one(rng) for _ in range(50)]})
    for _ in range(60 if not big else 1500):
        out.append({"kind": "exp", "gen": [expm(rng) for _ in range(25)]})
    for i in range(1, 1024, 16):
        out.append({"kind": "roots", "gen": [["root", j] for j in range(i, min(1024, i + 16))]})
    cs = []
    for c in fprdrv.CONSTS[:-1]:
        if c in ("inv_sigma", "sigma_min"):
            cs += [["const", c, i] for i in range(1, 11)]
        elif c == "p2_tab":
            cs += [["const", c, i] for i in range(11)]
        else:
            cs.append(["const", c, 0])
    cs += [["py", i] for i in range(1, 11)]
    for i in range(0, len(cs), 6):
        out.append({"kind": "const", "gen": cs[i:i + 6]})
    return out
