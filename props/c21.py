"""C and Python, same inputs."""
import random

import interopdrv

NEEDS = ["c", "ceth", "py"]
SPEC = "InteropTrace"
RULE = "an event is one call into C or Python with inputs shared between the two; distinct by arguments"
ASSUMPTIONS = ["both implementations use the machine's IEEE doubles",
               "polyntt is not installable offline: the ring arithmetic it provides is replaced by an exact stand-in"]
EVENT_TIMEOUT = 120
run = interopdrv.run


def models(tier):
    return [{"module": "MC_TwoBuf", "name": "", "workers": 2,
             "cfg": "INIT Init\nNEXT Next\nINVARIANT SameBytes\nCHECK_DEADLOCK FALSE\nCONSTANTS\nB = 512\nW = 8\n",
             "bounds": "buffers of 512 bytes, every sequence of base samples and bytes of any length"}]


def sessions(tier, seed):
    rng = random.Random(seed)
    big = tier != "quick"
    out = []
    for i in range(40 if not big else 400):
        gen = []
        for _ in range(3):
            g = {"xof": rng.choice(["shake", "shake", "keccak"]), "m": list(rng.randbytes(rng.choice([0, 1, 33, 100, 500, 3300]))),
                 "tape": list(rng.randbytes(88))}
            fl = rng.randrange(700) if rng.random() < 0.25 else None
            part = [dict(g, op="csign", v="std", pad=rng.random() < 0.5, flip=fl), dict(g, op="csign", v="zk"),
                    dict(g, op="psign", flip=fl)]
            rng.shuffle(part)
            gen += part
        out.append({"kind": "interop", "w": 6, "key": list(rng.randbytes(6)), "gen": gen})
    for n, c in ((4, 6), (8, 4), (16, 6), (32, 5), (64, 6), (128, 4), (256, 3), (512, 4)):
        for i in range(c * (8 if big else 1)):
            out.append({"kind": "interop", "w": 1 + n / 60, "gen": [{"op": "keys", "n": n, "seed": list(rng.randbytes(24))}]})
    for n, c in ((2, 30), (4, 30), (8, 30), (16, 30), (32, 24), (64, 24), (128, 12), (256, 8), (512, 4), (1024, 4)):
        for i in range(c * (10 if big else 1)):
            key = list(rng.randbytes(8))
            out.append({"kind": "interop", "w": 1 + n / 60,
                        "gen": [{"op": "sgn", "n": n, "key": key, "xof": rng.choice(["shake", "keccak"]),
                                 "m": list(rng.randbytes(rng.choice([0, 1, 32, 200]))), "salt": list(rng.randbytes(40)),
                                 "seed": list(rng.randbytes(48))} for _ in range(8 if n < 128 else 2)]})
    return out
