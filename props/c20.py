"""Key recovery in the Python implementation."""
import random

import pydrv
from props.c19 import NEEDS, SPEC, RULE, ASSUMPTIONS, EVENT_TIMEOUT, build  # noqa: F401

run = pydrv.run


def models(tier):
    big = tier != "quick"
    return [{"module": "MC_Recover", "name": "", "workers": 4,
             "cfg": "INIT Init\nNEXT Next\nINVARIANT Sound\nINVARIANT Unique\nCHECK_DEADLOCK FALSE\nCONSTANTS\nB = %d\n" % (2 if big else 1),
             "bounds": "degree 2, all pairs of vectors with coefficients of absolute value <= %d" % (2 if big else 1)}]


def sessions(tier, seed):
    rng = random.Random(seed)
    big = tier != "quick"
    out = build(rng, ["recovery", "epervier"], big)
    for i in range(20 if not big else 200):
        out.append({"kind": "py", "gen": [{"op": "compact", "x": [rng.choice([0, 12288, 65535, rng.randrange(65536)])
                                                                  for _ in range(rng.choice([16, 32, 512, 1024]))]}]})
    return out
