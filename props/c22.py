"""On-chain verification: ZKNOX_falcon and ZKNOX_ethfalcon."""
import random

import soldrv as sd

NEEDS = ["sol"]
SPEC = "EvmTrace"
RULE = "an event is one message call to a contract; distinct by operation and arguments"
ASSUMPTIONS = ["no Solidity compiler is installed: the contracts are compiled to Python by lib/sol, which runs the "
               "repository's own 80 Solidity tests correctly", "gas is not modelled (memory beyond 16 MB runs out of gas)"]
EVENT_TIMEOUT = 120
run = sd.run


def models(tier):
    c = "INIT Init\nNEXT Next\nINVARIANT Sound\nINVARIANT OneKey\nCONSTANTS\nKeys = {1,2}\n"
    return [{"module": "MC_Registry", "name": "all", "cfg": c + "MaxOps = 5\nEmit = FALSE\n",
             "bounds": "two keys, 5 operations"},
            {"module": "MC_Registry", "name": "emit", "emit": "reg", "workers": 1,
             "cfg": c + "MaxOps = 4\nEmit = TRUE\n", "bounds": "two keys, 4 operations, behaviours replayed"}]


def v4(c, salt, m, s2, pk):
    return {"op": "verify4", "c": c, "salt": list(salt), "m": list(m), "s2": s2, "pk": pk}


def four(rng, c, count):
    gen = []
    for _ in range(count):
        k = sd.crafted(rng, sd.XOF[c])
        s2, pk = sd.nonneg(k["s2"]), k["hn"]
        gen.append(v4(c, k["salt"], k["m"], s2, pk))
        for _ in range(2):
            salt, m, t2, p2, c2 = k["salt"], k["m"], s2, pk, c
            x = rng.randrange(9)
            if x < 4:
                t2 = sd.damage(rng, s2)
            elif x == 4:                                   # the key's words may be unreduced
                p2 = [v + sd.ring.Q * rng.randrange(5) if rng.random() < 0.2 and v < 4000 else v for v in pk]
            elif x == 5:
                p2 = sd.damage(rng, pk)
            elif x == 6:
                salt = rng.choice([salt[:-1], salt + b"\0", salt[:39] + bytes([salt[39] ^ 1]), b"", salt + m[:1]])
                if rng.random() < 0.3:
                    m = m[1:]
            elif x == 7:
                m = rng.choice([m + b"\0", m[:-1], m[::-1]])
            else:
                c2 = rng.choice(["falcon", "ethfalcon"])
            gen.append(v4(c2, salt, m, t2, p2))
    return {"kind": "evm", "w": count, "gen": gen}


def forged(rng, c):
    """Signatures that are not short, made for any key: one part small, the other whatever it must be."""
    gen = []
    for _ in range(3):
        salt, m = rng.randbytes(40), rng.randbytes(32)
        pt = sd.ring.point(sd.XOF[c], salt, m, 512)
        hn = [rng.randrange(1, sd.ring.Q) for _ in range(512)]
        d = [0] * 512
        for _ in range(rng.choice([0, 1, 3])):
            d[rng.randrange(512)] = rng.randrange(-50, 50)
        s2 = sd.ring.intt(sd.ring.ntt(pt - sd.np_(d)) * sd.ring.inv(hn) % sd.ring.Q)   # s1 = d
        gen.append(v4(c, salt, m, sd.nonneg(s2), hn))
        gen.append(v4(c, salt, m, [0] * 512, hn))                                       # s2 = 0
        gen.append(v4(c, salt, m, [v if i < 32 else 0 for i, v in enumerate(sd.nonneg(s2))], hn))
    return {"kind": "evm", "w": 4, "gen": gen}


def packed(rng, c, count):
    """Keys registered with setKey, several at once, and signatures under them."""
    gen, ks = [], []
    for i in range(count):
        k = sd.crafted(rng, sd.XOF[c], m=rng.randbytes(32))
        ks.append(k)
        blob = sd.abi_words(sd.words(k["hn"]))
        gen.append({"op": "setkey", "c": c, "blob": list(blob)})
    odd = 0
    for _ in range(3):
        blob = sd.abi_words(sd.words(rng.choice(ks)["hn"]))
        x = rng.randrange(7)
        if x == 0:
            blob = blob[:-1]
        elif x == 1:
            blob = blob + rng.randbytes(7)
        elif x == 2:
            blob = (64).to_bytes(32, "big") + bytes(32) + blob[32:]
        elif x == 3:
            blob = blob[:63] + bytes([rng.choice([31, 33, 0])]) + blob[64:]
        elif x == 4:
            blob = rng.choice([b"", bytes(31), bytes(64), b"\xff" * 64])
        elif x == 5:
            blob = blob[:63] + b"\x20" + blob[64:1000]
        else:
            blob = blob + bytes(24575 - len(blob) + rng.choice([0, 1]))
            odd += len(blob) > 24575
        gen.append({"op": "setkey", "c": c, "blob": list(blob)})
    calls = []

    def v3(k, ptr, sig, dg=None, c2=None, more=()):
        calls.append({"op": "verify3", "c": c2 or c, "ptr": ptr, "more": list(more),
                      "digest": list(k["m"] if dg is None else dg), "sig": list(sig)})
    for i, k in enumerate(ks):
        w = b"".join(x.to_bytes(32, "big") for x in sd.words(sd.nonneg(k["s2"])))
        sig = k["salt"] + w
        v3(k, i, sig, more=rng.choice([b"", b"", b"abc", bytes(12)]))
        for _ in range(3):
            x = rng.randrange(8)
            if x == 0:
                v3(k, rng.randrange(count + 4), sig)
            elif x == 1:
                v3(k, i, rng.choice([sig + b"\0", sig[:-1], sig + bytes(31), sig + bytes(32), sig[:-32], sig[:40],
                                     sig[:39], b"", sig[1:], sig[:72], sig[:8]]))
            elif x == 2:
                v3(k, i, sig, dg=bytes(32) if rng.random() < 0.5 else k["m"][:31] + bytes([k["m"][31] ^ 1]))
            elif x == 3:
                y = sd.damage(rng, sd.nonneg(k["s2"]))
                v3(k, i, k["salt"] + b"".join(z.to_bytes(32, "big") for z in sd.words(y)))
            elif x == 4:
                j = rng.randrange(len(sig))
                v3(k, i, sig[:j] + bytes([sig[j] ^ (1 << rng.randrange(8))]) + sig[j + 1:])
            elif x == 5:
                v3(k, count + rng.randrange(4), sig)
            elif x == 6:
                v3(k, i, sig, c2=rng.choice(["falcon", "ethfalcon"]))
            else:
                v3(k, i, sig)
    rng.shuffle(calls)
    return {"kind": "evm", "w": count * 2, "gen": gen + calls}


def registry(rng, c, ops):
    """Replays a behaviour of the registry model."""
    ks = [sd.crafted(rng, sd.XOF[c], norm=sd.BOUND - rng.randrange(3), m=rng.randbytes(32)) for _ in range(2)]
    gen = []
    for o, x, j, bad in ops:
        if o == "set":
            gen.append({"op": "setkey", "c": c, "blob": list(sd.abi_words(sd.words(ks[x - 1]["hn"])))})
            continue
        k = ks[j - 1]
        sig = bytearray(k["salt"] + b"".join(z.to_bytes(32, "big") for z in sd.words(sd.nonneg(k["s2"]))))
        if bad:
            sig[rng.randrange(len(sig))] ^= 1 << rng.randrange(8)
        gen.append({"op": "verify3", "c": c, "ptr": x - 1 if x else 99, "more": [], "digest": list(k["m"]), "sig": list(sig)})
    return {"kind": "evm", "w": 2, "gen": gen}


def sessions(tier, seed, behav):
    rng = random.Random(seed)
    k = 3 if tier == "quick" else 20
    out = []
    b = behav["reg"]
    for ops in rng.sample(b, min(len(b), 60 if tier == "quick" else 1500)):
        out.append(registry(rng, rng.choice(["falcon", "ethfalcon"]), ops))
    for c in ("falcon", "ethfalcon"):
        out += [four(rng, c, 6) for _ in range(16 * k)]
        out += [packed(rng, c, 4) for _ in range(8 * k)]
        out += [forged(rng, c) for _ in range(2 * k)]
    return out
