"""Key generation, C and Python."""
import random

import keydrv

NEEDS = ["c", "ceth", "py"]
SPEC = "KeyTrace"
RULE = "an event is one key generation or one exact integer operation; distinct by arguments"
ASSUMPTIONS = ["the quality bound on the orthogonalised basis is a floating-point condition and is not specified",
               "which candidates are refused before the accepted one is specified by the integer conditions only"]
EVENT_TIMEOUT = 120
run = keydrv.run


def models(tier):
    big = tier != "quick"
    return [{"module": "MC_Cand", "name": "", "workers": 4,
             "cfg": "INIT Init\nNEXT Next\nINVARIANT Fits\nINVARIANT First\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
                    "N = %d\nLim = 1\nDraws = %d\n" % ((4, 8) if big else (3, 7)),
             "bounds": "every sequence of draws in -2..2"}]


def sessions(tier, seed):
    rng = random.Random(seed)
    big = tier != "quick"
    out = []
    per = {1: 12, 2: 12, 3: 10, 4: 10, 5: 10, 6: 8, 7: 6, 8: 5, 9: 5, 10: 3}
    for logn in range(1, 11):
        for i in range(per[logn] * (8 if big else 1)):
            s = list(rng.randbytes(rng.choice([0, 1, 32, 48, 135, 136, 137, 200])))
            ev = {"op": "core", "a": {"n": 1 << logn, "seed": s}, "G": rng.random() < 0.5}
            gen = [ev]
            if rng.random() < 0.25:
                gen.append(dict(ev, G=not ev["G"]))
            out.append({"kind": "key", "w": 4, "gen": gen})
    for i in range(8 if not big else 60):
        v = ["std", "zk"][i % 2]
        s = rng.randbytes(rng.choice([32, 33, 48, 64, 200]))
        out.append({"kind": "key", "w": 6, "gen": [{"op": "keypair", "eth": i % 4 > 1, "a": {
            "v": v, "seeded": True, "seed": list(s), "tape": []}}]})
        out.append({"kind": "key", "w": 6, "gen": [{"op": "keypair", "eth": i % 4 > 1, "a": {
            "v": v, "seeded": False, "seed": [], "tape": list(rng.randbytes(48))}}]})
    out.append({"kind": "key", "gen": [{"op": "keypair", "eth": False, "a": {"v": v, "seeded": True, "seed": [3] * ln, "tape": []}}
                                       for v in ("std", "zk") for ln in (0, 1, 31)]})
    for n, k in ((2, 6), (4, 6), (8, 6), (16, 6), (32, 4), (64, 3), (128, 2), (256, 1), (512, 1 if not big else 6)):
        for i in range(k * (6 if big and n < 512 else 1)):
            out.append({"kind": "key", "w": 2 + n / 20, "gen": [
                {"op": "pygen", "a": {"n": n, "seed": list(rng.randbytes(20)), "pre": [], "table": n > 4 and rng.random() < 0.6}}]})
    # candidates one step inside or outside a condition
    for i in range(24 if not big else 200):
        n = rng.choice([16, 32, 32, 64] if i % 4 or not big else [128, 256, 512])
        kind = ["zero0", "zeroN", "zero", "16822", "16824", "16824"][i % 6]
        pre = b"".join(keydrv.draws(rng, x) for x in keydrv.crafted(rng, n, kind))
        out.append({"kind": "key", "w": 3, "gen": [
            {"op": "pygen", "a": {"n": n, "seed": list(rng.randbytes(20)), "pre": list(pre), "table": True}}]})
    for i in range(32 if not big else 320):
        kind = ["edge", "edgein", "edge", "edge", "edge", "zero0", "zeroN", "zero", "16824", "16822"][i % 10]
        n = rng.choice([64, 128, 256, 512, 1024] if kind[0] == "e" else [16, 32, 64, 128, 256] + [512] * big)
        # several in a row of those to be refused, as some have no solution anyway
        row = [keydrv.crafted(rng, n, kind, [(0, 1), (0, -1), (1, 1), (1, -1)][j]) for j in range(4)] \
            if kind == "edge" else [keydrv.crafted(rng, n, kind) for _ in range(1 if kind in ("edgein", "16822") else 3)]
        rng.shuffle(row)
        pre = b"".join(keydrv.draws(rng, x) for fg in row for x in fg)
        out.append({"kind": "key", "w": 3 + n / 100, "gen": [
            {"op": "core", "a": {"n": n, "seed": list(rng.randbytes(20)), "pre": list(pre)}, "G": rng.random() < 0.5}]})
    for i in range(8 if not big else 60):
        out.append({"kind": "key", "w": 12, "gen": [{"op": "extreme", "tries": 2500, "seed": rng.getrandbits(30), "a": {
            "n": [2, 4, 8, 2][i % 4]}}]})
    for i in range(4 if not big else 30):
        n = rng.choice([256, 512])
        out.append({"kind": "key", "w": 12, "gen": [{"op": "core", "hunt": rng.getrandbits(30), "a": {"n": n}, "G": True}]})
        out.append({"kind": "key", "w": 12, "gen": [{"op": "pygen", "hunt": rng.getrandbits(30), "a": {
            "n": 64, "pre": [], "table": True}}]})
    evs = []
    for i in range(150 if not big else 2000):
        n = rng.choice([1, 2, 4, 8, 16, 32])
        b = rng.choice([1, 3, 8, 20])
        evs.append({"op": "solve", "a": {"f": [rng.randint(-b, b) for _ in range(n)],
                                         "g": [rng.randint(-b, b) for _ in range(n)]}})
    for i in range(400 if not big else 4000):
        f = rng.choice(["karamul", "karamul", "conjugate", "field_norm", "lift", "add", "sub", "neg", "sqnorm", "xgcd"])
        n = rng.choice([2, 2, 4, 8, 16, 64, 256])
        b = rng.choice([1, 5, 100, 1000])
        x, y = ([rng.randint(-b, b) for _ in range(n)] for _ in range(2))
        if f == "xgcd":
            x = [rng.choice([1, -1]) * rng.randrange(1, 20000), rng.randrange(0, 20000)]
        if f in ("conjugate", "lift", "neg", "sqnorm", "xgcd", "field_norm"):
            y = []
        if f == "sqnorm":
            x = [v % 200 for v in x]
        evs.append({"op": "poly", "a": {"f": f, "x": x, "y": y}})
    rng.shuffle(evs)
    out += [{"kind": "key", "gen": evs[i:i + 5]} for i in range(0, len(evs), 5)]
    return out
