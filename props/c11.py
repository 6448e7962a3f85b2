"""ETHFALCON builds: the Keccak generator behind both interfaces."""
import random

import signdrv
from props.c09 import SPEC, RULE, ASSUMPTIONS, models, opens, long_opens  # noqa: F401

NEEDS = ["c", "ceth"]
run = signdrv.run


def sessions(tier, seed):
    rng = random.Random(seed)
    big = tier != "quick"
    k = 12 if big else 1
    out = []
    for v in ("std", "zk"):
        out += opens(rng, v, "keccak", 50 * k, 200 * k, big)
        out += long_opens(rng, v, "keccak", [2000, 4055, 4056])
        for ln in (4056, 4057, 4096, 5000, 65496, 66000):      # signing around the generator's capacity
            m = rng.randbytes(ln)
            gen = [{"op": "sign", "v": v, "xof": "keccak", "m": list(m), "key": [1] * 32, "tape": list(rng.randbytes(88))}]
            if ln <= 4056:
                gen.append({"op": "open", "v": v, "xof": "keccak", "of": []})
            # a message that does not fit under a signature of its nonce alone
            nonce = rng.randbytes(40)
            p = signdrv.short_pair(rng, 512, 1000000, v)
            hn = signdrv.ring.h_for(signdrv.ring.point("keccak", nonce, b""), *p)
            sm = signdrv.assemble(nonce, m, signdrv.esig(v, *p))
            gen.append({"op": "open", "v": v, "xof": "keccak", "sm": list(sm), "pk": list(signdrv.pk_bytes(v, hn))})
            out.append({"kind": "open", "w": 5, "gen": gen})
        # the point of the other generator, or of the standard build
        for i in range(6 * k):
            sm, pk, nonce, m, p = signdrv.crafted(rng, v, "shake", norm=rng.randrange(1, signdrv.BOUND))
            out.append({"kind": "open", "gen": [{"op": "open", "v": v, "xof": x, "sm": list(sm), "pk": list(pk)}
                                                for x in ("keccak", "shake")]})
    return out
