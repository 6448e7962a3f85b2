"""Verdict of the C interface with 16-bit encodings."""
import random

import signdrv
from props.c09 import NEEDS, SPEC, RULE, ASSUMPTIONS, models, opens, long_opens  # noqa: F401

run = signdrv.run


def sessions(tier, seed):
    rng = random.Random(seed)
    big = tier != "quick"
    k = 12 if big else 1
    return (opens(rng, "zk", "shake", 100 * k, 500 * k, big) +
            long_opens(rng, "zk", "shake", [4057, 66000] if not big else [4057, 65494, 65536, 66000]))
