"""ChaCha20 generators, C and Python."""
import random

import rngdrv

NEEDS = ["c", "py"]
SPEC = "DrbgTrace"
RULE = "an event is one generator call; distinct by arguments and position"
ASSUMPTIONS = ["ChaCha.tla agrees with RFC 8439 blocks (checked by setup)",
               "the Python generator is asked for at most 512 bytes at a time, as in signing"]
run = rngdrv.run
CFG0 = ("INIT Init\nNEXT Next\nINVARIANT NeverEmpty\nINVARIANT Ordered\nINVARIANT Accounted\nINVARIANT DropsAreTails\n"
        "CHECK_DEADLOCK FALSE\nCONSTANTS\nB = %d\nW = %d\nRuns = %s\nMaxOps = %d\nEmit = %s\n")


def models(tier):
    return [{"module": "MC_Buffered", "name": "replay", "workers": 1, "emit": "buf",
             "cfg": CFG0 % (5, 2, "{0, 1, 6}", 4, "TRUE"), "bounds": "buffer 5, words 2, every sequence of 4 calls"},
            {"module": "MC_Buffered", "name": "deep", "workers": 4,
             "cfg": CFG0 % (6, 2, "{0, 3, 6, 13}", 6 if tier == "quick" else 8, "FALSE"), "bounds": "buffer 6, words 2"}]


def sessions(tier, seed, behav):
    rng = random.Random(seed)
    out = []
    big = tier != "quick"
    # behaviours of the model, started so many bytes before the end of a real buffer that they cross it
    for b in behav["buf"]:
        for back in ([rng.randrange(1, 14)] if not big else range(1, 16)):
            evs = [["cc_init", 1, list(rng.randbytes(20))], ["bytes", 1, 512 - back]]
            for o, n in b:
                evs.append(["u64", 1] if o == "w" else ["u8", 1] if o == "b" else ["bytes", 1, {0: 0, 1: 1, 6: 520}[n]])
            out.append({"kind": "cc", "gen": evs})
    for back in range(0, 24):
        evs = [["cc_init", 1, list(rng.randbytes(30))], ["bytes", 1, 512 - back], ["u64", 1], ["u8", 1], ["u64", 1], ["bytes", 1, 20]]
        out.append({"kind": "cc", "gen": evs})
    for back in list(range(0, 14)) * (1 if not big else 6):
        evs = [["pc_init", 1, list(rng.randbytes(56))], ["pbytes", 1, 300], ["pbytes", 1, 212 - back]]
        evs += [["pbytes", 1, k] for k in rng.choice([[9, 1, 1, 9], [1, 9, 1, 9], [10, 1], [8, 1, 9]])]
        out.append({"kind": "cc", "gen": evs})
    for i in range(100 if not big else 1500):
        evs = []
        kinds = [rng.choice(["cc", "pc"]) for _ in range(2)]
        for c in (1, 2):
            seed_ = rng.randbytes(56)
            if rng.random() < 0.6:    # counter about to carry, into its upper half or out of a byte
                k = rng.choice([32, 32, 32, 8, 16, 24])
                lo = (rng.getrandbits(32) | ((1 << k) - 1)) - rng.randrange(0, 20)
                seed_ = seed_[:48] + lo.to_bytes(4, "little") + rng.choice(
                    [bytes(4), bytes([255] * 3 + [0]), rng.randbytes(4)])
            evs.append([kinds[c - 1] + "_init", c, list(seed_)])
        for _ in range(rng.randrange(5, 40)):
            c = rng.choice([1, 2])
            if kinds[c - 1] == "cc":
                evs.append(rng.choice([["u64", c], ["u8", c], ["u64", c], ["bytes", c, rng.choice([0, 1, 7, 100, 300, 511, 512, 513, 1200])]]))
            else:
                evs.append(["pbytes", c, rng.choice([0, 1, 1, 8, 9, 9, 9, 57, 100, 511, 512])])
        out.append({"kind": "cc", "gen": evs})
    # long streams: many refills
    for i in range(2 if not big else 12):
        evs = [["cc_init", 1, list(rng.randbytes(30))]] + [["bytes", 1, 3000] for _ in range(20)]
        out.append({"kind": "cc", "gen": evs})
        evs = [["pc_init", 1, list(rng.randbytes(56))]] + [["pbytes", 1, 400] for _ in range(60)]
        out.append({"kind": "cc", "gen": evs})
    return out
