"""The Go binding and geth's precompile."""
import random

import godrv
import signdrv

NEEDS = ["go"]
SPEC = "GoTrace"
RULE = "an event is a round of concurrent calls; distinct by all their inputs"
ASSUMPTIONS = ["go-ethereum is not available: its byte-string decoder is replaced by one that follows the same rules",
               "the driver is built with the address sanitizer, whose reports end the process",
               "callers that are inside the C random generator at the same time are made to proceed in step"]
EVENT_TIMEOUT = 60
run = godrv.run


def models(tier):
    c = "INIT Init\nNEXT Next\nINVARIANT Fresh\nINVARIANT Entropy\nINVARIANT Held\nCHECK_DEADLOCK FALSE\nCONSTANTS\nSerial = TRUE\nSeeds = TRUE\n"
    k = 3 if tier == "quick" else 4
    return [{"module": "MC_GoBinding", "name": "all", "cfg": c + "Callers = {1,2,3}\nMaxRounds = %d\nEmit = FALSE\n" % (2 if tier == "quick" else 3),
             "workers": 8, "bounds": "three callers, every interleaving"},
            {"module": "MC_GoBinding", "name": "emit", "emit": "rounds", "workers": 1,
             "cfg": c + "Callers = {1,2}\nMaxRounds = %d\nEmit = TRUE\n" % k, "bounds": "two callers, %d rounds" % k}]


def replay(rng, rounds):
    """A behaviour of the model, in one process or with a fresh one in between."""
    gen = [{"op": "start"}]
    if rng.random() < 0.6:              # a key from elsewhere
        gen += [{"op": "round", "calls": [{"op": "keygen"}]}, {"op": "start"}]
    for i, f in enumerate(rounds):
        calls = []
        for c in f:
            if c == "keygen":
                calls.append({"op": "keygen"})
            elif c == "sign":
                calls.append({"op": "sign", "m": list(rng.randbytes(rng.choice([0, 1, 31, 200])))})
            elif c == "verify":
                calls.append({"op": "verify", "bad": rng.choice([0, 0, 1])})
        gen.append({"op": "round", "calls": calls, "lock": len(calls) > 1, "seed": rng.getrandbits(40)})
        if rng.random() < 0.3:
            gen.append({"op": "start"})
    return {"kind": "go", "w": 4, "gen": gen}


def use(rng, lens, bads):
    gen = [{"op": "start"}, {"op": "round", "calls": [{"op": "keygen"}] * rng.choice([1, 2]), "lock": True}]
    for n in lens:
        gen.append({"op": "round", "calls": [{"op": "sign", "m": list(rng.randbytes(n))}], "seed": rng.getrandbits(40)})
    gen.append({"op": "start"})
    gen.append({"op": "round", "calls": [{"op": "keygen"}]})
    for j in range(bads):
        calls = []
        for _ in range(rng.choice([1, 2, 3])):
            o = rng.choice(["sign", "verify", "verify", "run", "run"])
            c = {"op": o}
            if o == "sign":
                c["m"] = list(rng.randbytes(rng.choice([0, 3, 1100])))
                if rng.random() < 0.7:
                    c["bad"] = 1
            else:
                c["bad"] = rng.choice([0, 0, 1, 1, 2])
                if o == "run" and rng.random() < 0.6:
                    c["abi"] = True
            calls.append(c)
        gen.append({"op": "round", "calls": calls, "seed": rng.getrandbits(40)})
    return {"kind": "go", "w": 6, "gen": gen}


def crafted(rng, count):
    """Signatures of chosen norm under chosen keys, and short inputs of every kind."""
    gen = [{"op": "start"}]
    for _ in range(count):
        n = rng.choice([0, 1, 982, 983, 1023, 1024, 1025, 2000, 5000, rng.randrange(3000)])
        sm, pk, nonce, m, p = signdrv.crafted(rng, "std", "shake", m=rng.randbytes(n))
        other = rng.choice([m, m, m, m + b"\0", m[:-1]])
        calls = [{"op": "verify", "s": list(sm), "m": list(other), "k": list(pk)},
                 {"op": "run", "input": list(godrv.abi([sm, other, pk], rng, rng.random() < 0.3))}]
        gen.append({"op": "round", "calls": calls})
    return {"kind": "go", "w": 2 * count, "gen": gen}


def storm(rng):
    """Many verifiers at work at the same time, on valid and invalid input."""
    gen = [{"op": "start"}]
    for _ in range(2):
        calls = []
        for _ in range(6):
            sm, pk, nonce, m, p = signdrv.crafted(rng, "std", "shake", m=rng.randbytes(rng.choice([5, 200, 900])),
                                                  norm=signdrv.BOUND + rng.choice([0, -5, 1, 7]))
            if rng.random() < 0.5:
                calls.append({"op": "verify", "s": list(sm), "m": list(m), "k": list(pk)})
            else:
                calls.append({"op": "run", "input": list(godrv.abi([sm, m, pk]))})
        gen.append({"op": "round", "calls": calls, "rep": 40})
    return {"kind": "go", "w": 12, "gen": gen}


def tiny(rng):
    b = lambda: list(rng.randbytes(rng.choice([0, 0, 1, 2, 41, 42, 43, 100, 897, 1281])))     # noqa: E731
    pk = lambda: rng.choice([b(), list(bytes([9] + [0] * 896)), list(bytes([9]) + rng.randbytes(896))])     # noqa: E731
    gen = [{"op": "start"}]
    for _ in range(12):
        gen.append({"op": "round", "calls": [{"op": "verify", "s": b(), "m": b(), "k": pk()}, {"op": "sign", "m": b(), "k": b()},
                                             {"op": "run", "input": list(godrv.abi([bytes(b()), bytes(b()), bytes(pk())], rng,
                                                                                   rng.random() < 0.5))}]})
    return {"kind": "go", "gen": gen}


def sessions(tier, seed, behav):
    rng = random.Random(seed)
    q = tier == "quick"
    bs = {str(b): b for b in behav["rounds"]}
    bs = [bs[k] for k in sorted(bs)]
    rng.shuffle(bs)
    k = 1 if q else 12
    return ([replay(rng, b) for b in bs[:40 if q else 500]] +
            [use(rng, rng.choice([[0, 1], [640, 641, 1330], [982, 983, 1024], [33, 1025], [4000], [70000]]), 6) for _ in range(24 * k)] +
            [crafted(rng, 4) for _ in range(16 * k)] + [tiny(rng) for _ in range(8 * k)] + [storm(rng) for _ in range(8 * k)])
