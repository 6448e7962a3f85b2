"""BLAKE2s: the Python generator and the hash of field elements."""
import random
import sys

import xofdrv
import props.c02 as c02

NEEDS = ["py"]
SPEC = "Xof"
RULE = "an event is one generator or hash call; distinct by arguments"
ASSUMPTIONS = ["Blake2s.tla agrees with RFC 7693 (checked against hashlib answers by setup)"]
models = c02.models
PRIME = 2**251 + 17 * 2**192 + 1


def sessions(tier, seed, behav):
    import types
    m = types.FunctionType(c02.sessions.__code__, dict(c02.__dict__, IMPLS=["pyb2"], KIND="b2prng", CAP=1024))
    out = m(tier, seed, behav)
    rng = random.Random(seed + 7)
    edge = [0, 1, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64, 2**251, PRIME - 1, PRIME, PRIME + 1, PRIME + 2**63,
            2**252 - 1, 2 * PRIME - 1, 2**256 - 1]
    for i in range(60 if tier == "quick" else 600):
        evs = []
        for _ in range(6):
            k = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 32])
            evs.append(["felts", [rng.choice([rng.choice(edge), rng.getrandbits(rng.choice([8, 32, 62, 63, 64, 250, 251, 256]))])
                                  for _ in range(k)], bool(rng.getrandbits(1)), bool(rng.getrandbits(1))])
        out.append({"kind": "felts", "seed": 0, "gen": evs})
    return out


def run(env, sess):
    if sess["kind"] == "b2prng":
        return xofdrv.run(env, sess)
    sys.path.insert(0, env.ctx["pythonref"] + "/blake2s")
    import blake2s
    for op, fs, enc, le in sess["gen"]:
        env.call(op, {"c": 1, "f": [list(f.to_bytes(32, "little")) for f in fs], "enc": enc, "le": le},
                 lambda: {"out": list(blake2s.calculate_blake2s_hash_from_felt252s(list(fs), enc, le).to_bytes(32, "little"))})
