"""The command line tool and the signer bridge."""
import random

import clidrv
import pydrv
import soldrv as sd
from pydrv import ring

NEEDS = ["c", "py", "sol"]
SPEC = "CliTrace"
RULE = "an event is one run of the tool; distinct by the command, its arguments and the files it reads"
ASSUMPTIONS = ["foundry is not available: `cast` is a stub that encodes its arguments as cast does and runs the contract "
               "in the Solidity interpreter; a transaction is judged by what its call does",
               "most keys come from the C generator and are written to files by the tool's own functions"]
EVENT_TIMEOUT = 90
BUDGET = 420
run = clidrv.run
VERS = ["falcon", "ethfalcon", "falconrec", "epervier"]
CONT = {"falcon": ["falcon"], "ethfalcon": ["ethfalcon"], "epervier": ["epervier"], "falconrec": ["epervier"]}


def models(tier):
    c = ("INIT Init\nNEXT Next\nINVARIANT Distinct\nINVARIANT Hidden\nINVARIANT Complete\nINVARIANT Sound\nINVARIANT Out\n"
         "CHECK_DEADLOCK FALSE\nCONSTANTS\nFlip = TRUE\nAbsorbed = {\"version\",\"public\",\"secret\"}\nRate = %d\nNMsgs = %d\n"
         "Versions = %s\nMaxLen = %d\nMaxKeys = 2\nEmit = %s\n")
    v4 = "{" + ",".join('"%s"' % v for v in VERS) + "}"
    n = 6 if tier == "quick" else 7
    return [{"module": "MC_Cli", "name": "all", "workers": 8, "cfg": c % (2, 3, v4, n - 1, "FALSE"),
             "bounds": "four versions, two keys, three messages, %d commands" % (n - 1)},
            {"module": "MC_Cli", "name": "emit", "emit": "runs", "workers": 1,
             "cfg": c % (3, 2, v4, n - 1, "TRUE"), "bounds": "two messages, %d commands" % (n - 1)}]


def key(rng):
    return list(rng.choice(KEYS))


KEYS = [b"cli key %d" % i for i in range(6)]


def message(rng):
    """Not empty: the tool refuses that."""
    n = rng.choice([1, 1, 2, 21, 30, 31, 32, 32, 55, 56, 64, 71, 72, 96, 135, 136, 137, 300])
    return list(rng.choice([rng.randbytes(n), bytes(n), b"\0" * (n - 1) + b"\1", b"\xff" * n]))


def onchain(rng, act, m, c):
    return {"op": "chain", "act": act, "m": m, "c": c, "at": "0x" + rng.randbytes(20).hex(),
            "rpc": rng.choice(["http://localhost:8545", "https://sepolia.optimism.io"]), "key": "0x" + rng.randbytes(32).hex()}


def replay(rng, b):
    """A behaviour of the model."""
    ms, gen, keys, cur = {}, [], [], ""
    two = [message(rng), message(rng)]
    while two[0] == two[1]:
        two[1] = message(rng)
    if rng.random() < 0.4:              # close messages: one bit, one byte more
        t = list(two[0])
        i = rng.randrange(len(t))
        two[1] = rng.choice([t + [0], [0] + t, t[:i] + [t[i] ^ 1 << rng.randrange(8)] + t[i + 1:]])
    how = rng.choice([["", "neg"], ["", "add"], ["", "sub"], ["", ""], ["neg", "add"]])
    base = key(rng)
    for x in b["h"]:
        o, v = x
        if o in ("sign", "verify", "chain"):
            v = ms.setdefault(str(v), two[len(ms) % 2])
        if o == "gen":
            same = rng.random() < 0.6
            gen.append({"op": "plant", "version": v, "key": base if same else key(rng), "how": how[len(keys) % 2]})
            keys.append(v)
            cur = v
        elif o == "usepk":
            gen.append({"op": "usepk", "i": v - 1})
            cur = keys[v - 1]
        elif o == "usesk":
            gen.append({"op": "usesk", "i": v - 1})
        elif o == "put":
            gen.append({"op": "put", "of": v - 1})
        elif o == "sign":
            gen.append({"op": "sign", "m": v})
        elif o == "verify":
            gen.append({"op": "verify", "m": v})
        else:
            gen.append(onchain(rng, rng.choice(acts(cur)), v, CONT[cur][0]))
    return {"kind": "cli", "w": 3, "gen": gen}


def acts(v):
    return (["verifyonchain", "verifyonchain", "recoveronchain", "recoveronchainsend"] if v == "epervier"
            else ["verifyonchain", "verifyonchainsend"])


def forms(rng, v, bits):
    """Crafted signatures under keys made for them, whole or damaged."""
    mode = clidrv.MODE[v]
    xof = "shake" if v in ("falcon", "epervier") else "keccak"
    gen = []
    for _ in range(bits):
        sig, hn, m, _ = pydrv.crafted(rng, mode, 512, xof)
        while not m:
            sig, hn, m, _ = pydrv.crafted(rng, mode, 512, xof)
        pk = [int(x) for x in ring.intt(hn)] if mode == "falcon" else list(pydrv.address(mode, hn))
        gen.append({"op": "pkfile", "version": v, "pk": pk})
        gen.append({"op": "put", "sig": list(sig)})
        gen.append({"op": "verify", "m": list(m)})
        if v != "falconrec" and rng.random() < 0.6:
            gen.append(onchain(rng, rng.choice(acts(v)), list(m), CONT[v][0]))
        s2, _, m2 = pydrv.mutate(rng, mode, 512, sig, [0] * 512, m)
        gen.append({"op": "put", "sig": list(s2) or [0]})
        gen.append({"op": "verify", "m": list(m2) or [0]})
        if v != "falconrec" and rng.random() < 0.4:
            gen.append(onchain(rng, rng.choice(acts(v)), list(m2) or [0], CONT[v][0]))
    return {"kind": "cli", "w": 2, "gen": gen}


def fresh(rng, k):
    """Many signatures by bases that share a public key."""
    base, gen = key(rng), []
    vs = rng.sample(VERS, 2)
    for i, how in enumerate(["", "neg", "add"]):
        gen.append({"op": "plant", "version": rng.choice(vs), "key": base, "how": how})
    gen.append({"op": "plant", "version": vs[0], "key": base, "how": ""})
    gen.append({"op": "plant", "version": vs[1], "key": base, "how": ""})
    ms = [message(rng) for _ in range(3)]
    ms.append(ms[0] + [0])
    ms.append(ms[0][:-1] or [7])
    for _ in range(k):
        gen.append({"op": "usesk", "i": rng.randrange(5)})
        gen.append({"op": "sign", "m": rng.choice(ms)})
    return {"kind": "cli", "w": 4, "gen": gen}


def txs(rng, k):
    base, gen = key(rng), []
    v = rng.choice(["falcon", "ethfalcon"])
    gen.append({"op": "plant", "version": v, "key": base})

    def num(n):
        b = rng.choice([rng.randbytes(rng.randrange(1, n + 1)), b"\0", b"\1", b"\xff" * n, b"\x80" + bytes(n - 1), b"\0" * (n - 1) + b"\x7b"])
        return list(b)
    t = {"op": "tx", "nonce": num(32), "to": num(20), "m": message(rng), "value": num(32), "version": v}
    gen.append(t)
    for _ in range(k):
        t = dict(t)
        f = rng.choice(["nonce", "to", "m", "value", "swap"])
        if f == "m":
            t["m"] = message(rng)
        elif f == "swap":
            t["nonce"], t["value"] = t["value"], t["nonce"]
        else:
            t[f] = num(20 if f == "to" else 32)
        gen.append(t)
    return {"kind": "cli", "w": 2, "gen": gen}


# seeds whose first or second candidate makes a key (others can take minutes: the generator is slow)
SEEDS = [list(bytes.fromhex(x)) for x in (
    "0d723fa2bc1c5d7d3b4fa3db1a30aa4978ac8a863bec2b6a6eeb225bfea9e70b 0de9b2956a9e586b 194fccc2a325736e "
    "1c25d91c66bda217 2bb2cdeead1fd9542789acedceb6da1530de1ac64413ebed58a2dbcc5a317663 35f85be49dc2dc12 "
    "42af3c81d404ae4e 4be9fbd3e77224b8 50d963d6103d3aa0d8aa0571b50dd874d6e46d0d911180888a3fff087a827768 56 "
    "63b51e9a6a3330e3 65f0d2f644a5a357 6f61076a55a1ae73 6f6246c793baec13 71439e5799c1247f 82 "
    "8847ccf9793caf1bf27c8069e90dc6c6f1b505284f04e569a73ebb56106dc5bd 8f "
    "92b11a75d3e063fd3bce0b0debd428a710f786c98d474137fc72c8a239b00801 bb c9f8046a19847bc6 d3fb4185ad86f43d "
    "d441522c997c1acd d471729ed4a34958 d6 d791fc31e1a9db1c57abb2340f50605486d6b751ea671d12ddc4ed0ba70a77d3 da "
    "e5543028c90eaf82 e6 e99e144bfc65e8f855e5d5bf3c5af53b009cc7ec37c8a3d56efb184c0ac563c8 f4 ").split()]


def bridge(rng):
    s = rng.sample(SEEDS, 2)
    m = [list(rng.randbytes(rng.choice([0, 1, 32, 100]))), message(rng)]
    a = {"op": "bridge", "seed": s[0], "m": m[0], "mode": rng.choice(["ETH", "NIST"])}
    b = dict(a, m=m[1], mode=rng.choice(["ETH", "NIST"]))
    return {"kind": "cli", "w": 8, "gen": [a, b, rng.choice([a, dict(a, seed=s[1])])]}


def gens(rng, v):
    m = message(rng)
    gen = [{"op": "genkeys", "version": v}, {"op": "sign", "m": m}, {"op": "verify", "m": m},
           {"op": "verify", "m": m + [0]}]
    if v != "falconrec":
        gen += [onchain(rng, a, m, CONT[v][0]) for a in sorted(set(acts(v)))]
    return {"kind": "cli", "w": 5, "gen": gen}


def sessions(tier, seed, behav=None):
    rng = random.Random(seed)
    k = 1 if tier == "quick" else 10
    runs = [b for b in (behav or {}).get("runs", []) if any(x[0] == "sign" for x in b["h"])]
    # behaviours that end in acceptance are rare among them
    good = [b for b in runs if b["o"] == "valid"]
    bad = [b for b in runs if b["o"] != "valid"]
    out = [replay(rng, b) for b in rng.sample(good, min(len(good), 60 * k)) + rng.sample(bad, min(len(bad), 60 * k))]
    for v in VERS:
        out += [gens(rng, v) for _ in range(k)]
        out += [forms(rng, v, 6) for _ in range(4 * k)]
    out += [fresh(rng, 9) for _ in range(8 * k)]
    out += [txs(rng, 5) for _ in range(5 * k)]
    out += [bridge(rng) for _ in range(3 * k)]
    return out


_ = sd
