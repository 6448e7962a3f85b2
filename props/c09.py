"""Verdict of the C FALCON interface on signed messages."""
import random

import signdrv
from signdrv import crafted, mutate_sm

NEEDS = ["c"]
SPEC = "SignedTrace"
RULE = "an event is one call of the interface; distinct by all its inputs"
ASSUMPTIONS = ["crafted inputs are built with harness arithmetic; only the specification judges them"]
run = signdrv.run
V, XOF = "std", "shake"


def models(tier):
    return [{"module": "MC_Envelope", "name": "", "workers": 8,
             "cfg": "INIT Init\nNEXT Next\nINVARIANT Framing\nCHECK_DEADLOCK FALSE\nCONSTANTS\nMaxLen = %d\nNL = 2\nAlphabet = {0, 1, 2, 9}\n"
             % (8 if tier == "quick" else 9), "bounds": "every string over four bytes, nonce of 2"}]


def opens(rng, v, xof, nreal, ncraft, big):
    out = []
    for i in range(nreal):               # real signatures, and damage to them
        key = rng.choice([1, 2, 3]).to_bytes(32, "big")
        m = rng.randbytes(rng.choice([0, 1, 33, 95, 96, 97, 300, 1000]))
        gen = [{"op": "sign", "v": v, "xof": xof, "m": list(m), "key": list(key), "tape": list(rng.randbytes(88))},
               {"op": "open", "v": v, "xof": xof, "of": []}]
        for j in range(4):
            gen.append({"op": "open", "v": v, "xof": xof, "of": [rng.getrandbits(40)], "alias": rng.random() < 0.3})
        out.append({"kind": "open", "gen": gen})
    for i in range(ncraft):              # signatures with a chosen norm under a chosen key
        sm, pk, nonce, m, p = crafted(rng, v, xof)
        gen = [{"op": "open", "v": v, "xof": xof, "sm": list(sm), "pk": list(pk), "alias": rng.random() < 0.3}]
        if rng.random() < 0.5:
            sm2, pk2 = mutate_sm(rng, v, sm, pk, len(m))
            gen.append({"op": "open", "v": v, "xof": xof, "sm": list(sm2), "pk": list(pk2)})
        out.append({"kind": "open", "gen": gen})
    for k in [0, 1, 2, 20, 38, 39] + list(range(3, 38, 3)) * big:      # signed as they are, but too short to hold a nonce
        sm, pk, nonce, m, p = crafted(rng, v, xof, m=b"", norm=rng.randrange(1, signdrv.BOUND), salt=k)
        out.append({"kind": "open", "gen": [{"op": "open", "v": v, "xof": xof, "sm": list(sm), "pk": list(pk)}]})
    return out


def long_opens(rng, v, xof, lens):
    out = []
    for ln in lens:
        sm, pk, nonce, m, p = crafted(rng, v, xof, m=rng.randbytes(ln), norm=signdrv.BOUND)
        gen = [{"op": "open", "v": v, "xof": xof, "sm": list(sm), "pk": list(pk)}]
        for pos in (42, 42 + ln // 2, 42 + ln - 1):
            b = bytearray(sm)
            b[pos] ^= 1
            gen.append({"op": "open", "v": v, "xof": xof, "sm": list(b), "pk": list(pk)})
        out.append({"kind": "open", "w": 8, "gen": gen})
    return out


def sessions(tier, seed):
    rng = random.Random(seed)
    big = tier != "quick"
    k = 12 if big else 1
    return (opens(rng, V, XOF, 100 * k, 500 * k, big) +
            long_opens(rng, V, XOF, [4056, 4057, 5000] + ([65494, 65536, 66000, 131072] if big else [66000])))
