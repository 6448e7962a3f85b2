"""Known-answer files and test contracts hold valid vectors."""
import random

import rspdrv
import signdrv

NEEDS = ["c", "py"]
SPEC = "KatTrace"
RULE = "an event is one file written or read, one key converted; distinct by its arguments"
ASSUMPTIONS = ["requests have messages of at least one byte, as those of the NIST programs",
               "a private key whose G leaves the range of a byte may be decoded: nothing else in Python reads G"]
EVENT_TIMEOUT = 120
run = rspdrv.run


def models(tier):
    return [{"module": "MC_Kat", "name": "lines", "workers": 4,
             "cfg": "INIT Init\nNEXT Next\nINVARIANT Agree\nINVARIANT ReadBack\nCHECK_DEADLOCK FALSE\nCONSTANTS\nL = %d\nKeys = {1,2}\nVals = {1,2}\n"
             % (5 if tier == "quick" else 6), "bounds": "every file of up to %d lines, two keys, two values" % (5 if tier == "quick" else 6)}]


def request(rng, k, bad=""):
    first = rng.choice([0, 0, 7, 99])
    return {"op": "rsp", "bad": bad, "eol": rng.choice(["\n", "\n", "\r\n"]), "gap": rng.choice([1, 1, 2, 3]), "end": rng.random() < 0.4,
            "upper": rng.random() < 0.7, "sk": [0x58] + [1] * 1280 if rng.random() < 0.5 else [0x59] + [0] * 1280,
            "vecs": [{"count": first + i, "seed": list(rng.randbytes(48)), "key": [rng.randrange(4), 33],
                      "m": list(rng.randbytes(rng.choice([1, 2, 33, 33, 66, 99, 95, 136, 200, 600])))} for i in range(k)]}


def text(rng, how):
    """A file of known lines in any order."""
    out = []
    for _ in range(rng.randrange(1, 14)):
        c = rng.random()
        eol = rng.choice(["\n", "\n", "\n", "\r\n", " \n"])
        if c < 0.2:
            out.append(eol)
        elif c < 0.3:
            out.append("# Falcon-512" + eol)
        elif c < 0.35:
            out.append(rng.choice(["nothing", "count =", "a=b"]) + eol)
        else:
            k = rng.choice(["count", "count", "seed", "mlen", "msg", "pk", "sm"])
            v = str(rng.randrange(300)) if k in ("count", "mlen") else rng.randbytes(rng.choice([1, 3, 20])).hex()
            out.append("%s%s = %s%s" % (rng.choice(["", "", " "]), k, rng.choice([v, v.upper()]), eol))
    t = "".join(out)
    return {"op": "parse", "how": how, "text": list((t.rstrip("\r\n") if rng.random() < 0.3 else t).encode())}


def real(rng):
    """A private key, damaged or not."""
    return {"op": "skdec", "key": [rng.randrange(4), 33], "sk": [], "upper": rng.random() < 0.5}


def sessions(tier, seed):
    rng = random.Random(seed)
    big = tier != "quick"
    out = []
    for i in range(160 if big else 14):
        out.append({"kind": "rsp", "w": 6, "gen": [request(rng, rng.choice([1, 1, 2, 3]))]})
    for i in range(30 if big else 6):
        out.append({"kind": "rsp", "w": 4, "gen": [request(rng, rng.choice([1, 2]), rng.choice(["counts", "key"] if i % 2 else ["counts"]))]})
    for i in range(1200 if big else 120):
        out.append({"kind": "parse", "gen": [text(rng, how) for how in ("req", "rsp")]})
    for i in range(200 if big else 20):
        g = [real(rng)]
        for _ in range(2):
            b = bytearray([0x59]) + bytearray(rng.randbytes(1280)) if rng.random() < 0.3 else None
            if b is None:
                b = bytearray([0x59]) + bytearray(rspdrv.bits([rng.randrange(-31, 32) for _ in range(1024)], 6)) + \
                    bytearray(rspdrv.bits([rng.randrange(-127, 128) for _ in range(512)], 8))
                if rng.random() < 0.8:
                    b = bytearray(signdrv.bad_sk(rng, bytes(b)))
            g.append({"op": "skdec", "sk": list(b), "upper": rng.random() < 0.5})
        out.append({"kind": "keys", "w": 2, "gen": g})
        h = [rng.choice([rng.randrange(12289), rng.randrange(12289), 0, 12288, rng.randrange(-12289, 24578)]) for _ in range(512)]
        out.append({"kind": "keys", "gen": [{"op": "pkenc", "h": h}]})
    for s in rspdrv.SUITES:
        out.append({"kind": "suite", "w": 20, "gen": [{"op": "suite", "suite": s}]})
    return out
