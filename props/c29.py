"""Transforms, ring operations and trees over the complex embeddings; number-field helpers."""
import random

import fftdrv

NEEDS = ["c", "py"]
SPEC = "FftTrace"
CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
RULE = "an event is one ring operation, transform, tree or field operation; distinct by operation and operands"
ASSUMPTIONS = ["divisors are well conditioned, and products stay below 2^31", "tolerances: 2^-14 on coefficients, 2^-42 on values",
               "trees are those of bases the C key generation makes"]
run = fftdrv.run
C2 = ["add", "sub", "mul", "muladj"]
CF = ["id", "id", "add", "sub", "neg", "adj", "mul", "mul", "muladj", "selfadj", "mulconst", "div", "div", "invnorm", "addmuladj",
      "mulauto", "divauto", "split", "split", "merge", "merge", "ldl", "ldlmv"]
PF = ["id", "add", "sub", "neg", "adj", "mul", "mul", "div", "div", "split", "merge", "ldl"]


def models(tier):
    big = tier != "quick"
    return [{"module": "MC_Tower", "name": "tower", "workers": 8,
             "cfg": "INIT Init\nNEXT Next\nINVARIANT NormOk\nINVARIANT LiftOk\nINVARIANT SplitOk\nINVARIANT GramOk\n"
                    "CONSTANT N = %d\nCONSTANT B = %d\n" % ((4, 2) if big else (4, 1)),
             "bounds": "all pairs of polynomials of degree below 4 with coefficients up to %d" % (2 if big else 1)}]


def poly(rng, n, m):
    r = rng.random()
    if r < 0.15:
        x = [0] * n
        for _ in range(rng.choice([1, 1, 2, 3])):
            x[rng.choice([0, 1 % n, n // 2, n - 1, n // 2 - 1, rng.randrange(n)])] = rng.choice([-m, m, 1, rng.randint(-m, m)])
        return x
    if r < 0.25:
        return [rng.choice([-m, m]) for _ in range(n)]
    return [rng.randint(-m, m) for _ in range(n)]


def unitish(rng, n):
    """Well conditioned: one coefficient outweighs the others."""
    x = [0] * n
    s = 0
    for _ in range(min(n, rng.choice([1, 3, 12]))):
        v = rng.choice([-2, -1, 1, 2])
        i = rng.randrange(n)
        s += abs(v)
        x[i] += v
    i = rng.choice([0, 0, 1, n - 1, n // 2, rng.randrange(n)])
    x[i] = rng.choice([-1, 1]) * (s + rng.choice([2, 5, 9]))
    return x


def ring(rng, impl, n, f=None):
    f = f or rng.choice(CF if impl == "c" else PF)
    cap = lambda e, k: max(1, int((2.0**29 / n**k) ** (1 / e)))     # noqa: E731
    c = 0
    m = rng.choice([1, 5, 127, 6144])
    if f in ("mul", "muladj", "selfadj"):
        m = min(m * 50, cap(2, 1))
        p = [poly(rng, n, m), poly(rng, n, m)]
    elif f in ("div", "divauto"):
        p = [poly(rng, n, min(m, 500)), unitish(rng, n)]
    elif f == "invnorm":
        p = [poly(rng, n, min(m, 500)), unitish(rng, n), unitish(rng, n)]
    elif f == "addmuladj":
        m = min(m, cap(2, 1) // 2)
        p = [poly(rng, n, m) for _ in range(4)]
    elif f == "mulauto":
        p = [poly(rng, n, min(m, 100)), unitish(rng, n)]
    elif f in ("ldl", "ldlmv"):
        a = unitish(rng, n)
        p = [a, poly(rng, n, 2), poly(rng, n, rng.choice([1, 9, 30])), poly(rng, n, 30)]
        # the first row must not be small anywhere
        p[1] = [0] * n if rng.random() < 0.2 else p[1]
    elif f == "merge":
        p = [poly(rng, n // 2, m), poly(rng, n // 2, m)]
    elif f == "mulconst":
        c = rng.choice([0, 1, -1, 2, 12289, -5])
        p = [poly(rng, n, m)]
    else:
        m = rng.choice([m, 2**20])
        p = [poly(rng, n, m), poly(rng, n, m)]
    if f in ("id", "neg", "adj", "selfadj", "split"):
        p = p[:1]
    if impl == "py":
        c = rng.randrange(2)
    return {"op": "ring", "impl": impl, "f": f, "n": n, "p": p, "c": c}


def bigint(rng, b):
    v = rng.getrandbits(b)
    r = rng.random()
    if r < 0.1:
        v = rng.choice([0, 1, 2**b - 1, 2**(b - 1), 2**(b - 8) if b > 8 else 1])
    return -v if rng.random() < 0.5 else v


def field(rng):
    f = rng.choice(["karamul", "karamul", "karatsuba", "galois", "norm", "norm", "lift", "bitsize", "xgcd", "reduce", "reduce", "solve", "solve"])
    n = rng.choice([1, 2, 4, 8, 16, 32])
    b = rng.choice([3, 30, 53, 64, 200, 1000])
    bp = lambda n, b: [bigint(rng, b) for _ in range(n)]     # noqa: E731
    if f in ("karamul", "karatsuba"):
        p = [bp(n, b), bp(n, rng.choice([b, 5]))]
    elif f in ("galois", "lift"):
        p = [bp(n, b)]
    elif f == "norm":
        p = [bp(max(2, n), b)]
    elif f == "bitsize":
        p = [[bigint(rng, rng.randrange(1, 200)) for _ in range(n)] + [rng.choice([-1, 1]) * 2**rng.choice([7, 8, 15, 16, 52, 53, 56, 63, 64])]]
    elif f == "xgcd":
        g = rng.choice([1, 1, 1, 6, 2**40])
        p = [[g * (1 + rng.getrandbits(b)), g * (1 + rng.getrandbits(rng.choice([b, 8])))]]
        if rng.random() < 0.1:
            p[0][rng.randrange(2)] = 0
        if p[0] == [0, 0]:
            p[0][0] = 1
    elif f == "reduce":
        n = rng.choice([2, 4, 8, 16, 32, 64])
        f_, g_ = unitish(rng, n), poly(rng, n, 3)
        bits = rng.choice([0, 5, 30, 50, 60, 100, 300])
        k = bp(n, bits) if bits else [0] * n
        lo = rng.choice([1, 20, 500])
        F = [int(v) for v in fftdrv.negmul(obj(k), obj(f_)) + obj(poly(rng, n, lo))]
        G = [int(v) for v in fftdrv.negmul(obj(k), obj(g_)) + obj(poly(rng, n, lo))]
        p = [f_, g_, F, G]
    else:
        n = rng.choice([2, 2, 4, 4, 8, 16])
        m = rng.choice([2, 8, 60])
        # odd sums make a common factor 2 impossible, most of the time
        p = [poly(rng, n, m), poly(rng, n, m)]
        if not any(p[0]):
            p[0][0] = 1
        if not any(p[1]):
            p[1][0] = 1
        if rng.random() < 0.8:
            for x in p:
                x[0] += 1 - sum(x) % 2
    return {"op": "field", "f": f, "p": [[str(v) for v in x] for x in p]}


def obj(x):
    import numpy as np
    return np.array(x, dtype=object)


def sessions(tier, seed):
    rng = random.Random(seed)
    big = tier != "quick"
    out = []
    for impl in ("c", "py"):
        for lg in range(1, 11):
            n = 2**lg
            todo = []
            fs = sorted(set(CF if impl == "c" else PF))
            for f in fs:
                for _ in range((6 if lg > 7 else 20) * (8 if big else 1)):
                    todo.append(ring(rng, impl, n, f))
            for i in range(0, len(todo), 12):
                out.append({"kind": "ring", "gen": todo[i:i + 12], "w": 1 + n // 64})
            ev = [{"op": "map", "impl": impl, "n": n}]
            cnt = n if impl == "py" else n // 2
            for _ in range((6 if lg > 7 else 20) * (6 if big else 1)):
                ev.append({"op": "value", "impl": impl, "n": n, "x": poly(rng, n, rng.choice([1, 100, 12289, 2**18])), "j": rng.randrange(cnt)})
            out.append({"kind": "transform", "gen": ev, "w": 3 + n // 32})
    for lg in range(1, 10 if big else 8):
        for i in range(12 if big else 4):
            out.append({"kind": "tree", "w": 1 + 2**lg // 8,
                        "gen": [{"op": "tree", "n": 2**lg, "key": rng.randrange(2**30), "r": rng.randrange(2**30)}]})
    for lg in range(1, 11 if big else 10):
        for i in range(3 if big else 1):
            out.append({"kind": "leaf", "w": 1 + 2**lg // 8, "gen": [{"op": "leaf", "n": 2**lg, "key": rng.randrange(2**30)}]})
    for _ in range(3000 if big else 400):
        out.append({"kind": "field", "gen": [field(rng) for _ in range(6)], "w": 2})
    for n in (64, 256):
        for _ in range(4 if big else 1):
            out.append({"kind": "field", "w": 10, "gen": [{"op": "solve", "n": n, "key": rng.randrange(2**30)}]})
    for _ in range(60 if big else 40):
        gen = []
        for _ in range(3):
            n = rng.choice([2, 4, 8, 16, 32] + ([64, 128] if big else []))
            gen.append({"op": "gs", "f": poly(rng, n, rng.choice([3, 60])), "g": unitish(rng, n), "q": rng.choice([12289, 12289, 17])})
        out.append({"kind": "gs", "w": 6, "gen": gen})
    return out
