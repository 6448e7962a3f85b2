"""Signing with the C interface: what comes out opens, and nothing else happens."""
import random

import signdrv
from props.c09 import SPEC, RULE, models  # noqa: F401

NEEDS = ["c", "ceth"]
ASSUMPTIONS = ["which short vector is drawn is not specified, only that it is valid and a function of the randomness"]
run = signdrv.run


def sessions(tier, seed):
    rng = random.Random(seed)
    big = tier != "quick"
    out = []
    combos = [("std", "shake"), ("zk", "shake"), ("std", "keccak"), ("zk", "keccak"), ("epv", "shake")]
    for i in range(70 if not big else 900):
        key = rng.choice([b"\x01", b"\x02", b"\x03", rng.randbytes(1)]) * 32
        gen = []
        for v, xof in rng.sample(combos, 3):
            m = rng.randbytes(rng.choice([0, 1, 33, 95, 96, 97, 136, 333]))
            tape = rng.randbytes(88)
            s = {"op": "sign", "v": v, "xof": xof, "m": list(m), "key": list(key), "tape": list(tape),
                 "alias": rng.choice([False, False, 42, 0, 2, rng.randrange(648)])}
            gen.append(s)
            gen.append({"op": "open", "v": v, "xof": xof, "of": []})
            if rng.random() < 0.5:     # again, under another encoding of the same generator
                gen.append(dict(s, v=rng.choice(["std", "zk"]), alias=False))
                gen.append({"op": "open", "v": gen[-1]["v"], "xof": xof, "of": []})
            if rng.random() < 0.6:
                gen.append(dict(s, bad=rng.getrandbits(40), alias=False))
        out.append({"kind": "sign", "gen": gen})
    # the announced length: encodings of 1..2 bytes either side of a multiple of 256 arise by themselves
    for v, xof in combos:
        for ln in [4056, 5000, 65536 + 33] if xof == "shake" else [4056]:
            out.append({"kind": "sign", "w": 6, "gen": [
                {"op": "sign", "v": v, "xof": xof, "m": list(rng.randbytes(ln)), "key": [1] * 32,
                 "tape": list(rng.randbytes(88))}, {"op": "open", "v": v, "xof": xof, "of": []}]})
    return out
