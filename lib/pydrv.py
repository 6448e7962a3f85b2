"""Drives the Python signature classes, and builds their inputs."""
import random

import capi
import keydrv
import ring
import signdrv

L2 = [101498, 208714, 428865, 892039, 1852696, 3842630, 7959734, 16468416, 34034726, 70265242]
BYTES = [44, 47, 52, 63, 82, 122, 200, 356, 666, 1280]
XOFS = ["keccak", "shake", "blake2s", "chain"]


def lg(n):
    return n.bit_length() - 1


def comp_pad(x, slen):
    bits = []
    for c in x:
        a = abs(c)
        bits.append(("1" if c < 0 else "0") + format(a % 128, "07b") + "0" * (a >> 7) + "1")
    b = "".join(bits)
    if len(b) > 8 * slen:
        return None
    b += "0" * (8 * slen - len(b))
    return int(b, 2).to_bytes(slen, "big") if slen else b""


def address(mode, hn):
    x = hn if mode == "epervier" else ring.intt(hn)
    return ring.keccak256(b"".join(int(v).to_bytes(32, "big") for v in x))[12:]


def assemble(mode, n, salt, s1, s2, hint=None):
    """A signature with the given parts; None if they do not fit."""
    k = BYTES[lg(n) - 1]
    if mode == "falcon":
        body = comp_pad(s2, k - 41)
        return None if body is None else bytes([0x20 + lg(n)]) + salt + body
    body = comp_pad(list(s1) + list(s2), 2 * k - 41)
    if body is None:
        return None
    if hint is None:
        hint = ring.inv(ring.ntt(s2))
    return bytes([0x30 + lg(n)]) + salt + body + b"".join(int(v).to_bytes(3, "big") for v in hint)


def crafted(rng, mode, n, xof, norm=None, m=None):
    """(signature, NTT(h), message) with s1 + s2 h the point of the message and a chosen norm."""
    bound = L2[lg(n) - 1]
    while True:
        nn = norm
        if nn is None:
            nn = rng.choice([bound, bound, bound + 1, bound + 1, bound - 1, bound + rng.randrange(1, 1000),
                             rng.randrange(1, bound), rng.randrange(1, 4 * n + 1), 1, 2, bound * 2])
        salt = rng.randbytes(40)
        mm = rng.randbytes(rng.choice([0, 1, 3, 32, 95, 96, 97, 300])) if m is None else m
        p = signdrv.short_pair(rng, n, nn, "std")
        if p is None:
            continue
        hn = ring.h_for(ring.point(xof, salt, mm, n), *p)
        if hn is None:
            continue
        sig = assemble(mode, n, salt, *p)
        if sig is None:
            continue
        return sig, hn, mm, p


def wrong_hint(rng, n, sig):
    """Multiplies hint words by constants: the products with s1 become those constants instead of ones."""
    o = len(sig) - 3 * n
    q = ring.Q
    a, b = rng.sample(range(n), 2)
    c = rng.randrange(2, q)
    f = rng.choice([{a: c, b: (2 - c) % q},                # same sum
                    {a: c, b: pow(c, -1, q)},              # same product
                    {a: q - 1, b: q - 1}, {a: 0}, {a: 0, b: 2}, {a: c},
                    {i: q - 1 for i in range(n)},          # all negated
                    {i: c for i in range(n)},
                    {n - 1: c}, {0: c}])
    out = bytearray(sig)
    for i, v in f.items():
        w = int.from_bytes(sig[o + 3 * i:o + 3 * i + 3], "big") * v % q
        out[o + 3 * i:o + 3 * i + 3] = w.to_bytes(3, "big")
    return out


def mutate(rng, mode, n, sig, h, m):
    """Damage to a signature, its key or its message."""
    sig, h, m = bytearray(sig), list(h), bytearray(m)
    hl = 0 if mode == "falcon" else 3 * n
    if hl and rng.random() < 0.25:     # several hint words changed together, so that the damage may cancel
        return bytes(wrong_hint(rng, n, sig)), h, bytes(m)
    k = rng.randrange(12)
    if k == 0:
        i = rng.choice([rng.randrange(len(sig)), 41, 0, rng.randrange(1, 41), len(sig) - 1, len(sig) - 1 - hl])
        sig[i] ^= 1 << rng.randrange(8)
    elif k == 1:
        sig = sig[:rng.choice([0, 1, 40, 41, 42, len(sig) - 1, len(sig) - 2, len(sig) - 3, hl, hl + 41,
                               rng.randrange(len(sig))])]
    elif k == 2:
        sig += rng.choice([b"\0", b"\1", b"\0\0\0", b"\x80"])
    elif k == 3:                       # inside the body: padding taken away or added before the hint
        e = len(sig) - hl
        if rng.random() < 0.5:
            sig[e:e] = rng.choice([b"\0", b"\x80"])
        else:
            del sig[e - rng.choice([1, 2, 5]):e]
    elif k == 4:
        sig[len(sig) - 1 - hl] |= rng.choice([1, 2, 128])
    elif k == 5 and hl:                # a hint word: add q, or change it
        i = len(sig) - hl + 3 * rng.choice([0, n - 1, rng.randrange(n)])
        w = int.from_bytes(sig[i:i + 3], "big")
        w = (w + rng.choice([ring.Q, ring.Q, 5 * ring.Q, 1, ring.Q - 1])) % (1 << 24)
        sig[i:i + 3] = w.to_bytes(3, "big")
    elif k == 6 and hl:                # hint of zeros
        i = len(sig) - hl
        sig[i:] = bytes(hl)
    elif k == 7:
        i = rng.choice([0, n - 1, rng.randrange(n)])
        h[i] = (h[i] + rng.choice([1, ring.Q - 1, 5])) % ring.Q
    elif k == 8 and m:
        m[rng.randrange(len(m))] ^= 1 << rng.randrange(8)
    elif k == 9:
        m = m + b"\0" if rng.random() < 0.5 else m[:-1]
    elif k == 10:
        sig[0] = rng.choice([0, 0x20 + lg(n), 0x30 + lg(n), 0x39, 0x29, 255])
    else:
        sig[1 + rng.randrange(40)] ^= 1 << rng.randrange(8)
    return bytes(sig), h, bytes(m)


def xofs():
    from blake2s_prng import Blake2sPRNG
    from keccak_prng import KeccakPRNG
    from keccaxof import KeccaXOF
    from shake import SHAKE
    return {"keccak": KeccakPRNG, "shake": SHAKE, "blake2s": Blake2sPRNG, "chain": KeccaXOF}


def classes():
    import falcon
    import falcon_epervier
    import falcon_recovery
    return {"falcon": (falcon.SecretKey, falcon.PublicKey),
            "recovery": (falcon_recovery.RecoveryModeSecretKey, falcon_recovery.RecoveryModePublicKey),
            "epervier": (falcon_epervier.EpervierSecretKey, falcon_epervier.EpervierPublicKey)}


class Tape:
    """Random bytes from a recorded tape; remembers the requests."""

    def __init__(self, tape):
        self.tape, self.pos, self.draws = bytes(tape), 0, []

    def __call__(self, k):
        self.draws.append(k)
        r = self.tape[self.pos:self.pos + k]
        self.pos += k
        if len(r) != k:
            raise RuntimeError("tape exhausted")
        return r


def secret(env, mode, n, seed):
    key = ("py", mode, n, bytes(seed))
    if key not in env.cache:
        k = keydrv.generate(capi.get(env), n, seed)
        sk = classes()[mode][0](n, polys=[k["f"], k["g"], k["F"], k["G"]])
        env.cache[key] = k, sk
    return env.cache[key]


def addr_bytes(x):
    return list(int(x).to_bytes(20, "big"))


def check(env, mode, n, h, pk, m, sig, xof):
    """verify (and recover) through the public-key classes."""
    X = xofs()[xof]
    P = classes()[mode][1]
    if mode == "falcon":
        def ver():
            try:
                r = P(n, list(h)).verify(bytes(m), bytes(sig), xof=X)
            except ValueError:
                r = False
            return {"ok": bool(r)}
        return env.call("verify", {"n": n, "h": [int(v) for v in h], "m": list(m), "sig": list(sig), "xof": xof}, ver)

    def rec():
        k = P(n, int.from_bytes(pk, "big"))
        try:
            r = k.recover(bytes(m), bytes(sig), xof=X)
        except ValueError:
            r = False
        try:
            ok = k.verify(bytes(m), bytes(sig), xof=X)
        except ValueError:
            ok = False
        return {"rec": [] if r is False else addr_bytes(r), "ok": bool(ok)}
    return env.call("recover", {"mode": mode, "n": n, "pk": list(pk), "m": list(m), "sig": list(sig), "xof": xof}, rec)


def run(env, sess):
    last = None
    for g in sess["gen"]:
        op = g["op"]
        if op == "compact":
            import common
            env.call("compact", {"x": g["x"]}, lambda: {
                "y": [list(int(v).to_bytes(32, "big")) for v in common.falcon_compact(list(g["x"]))]})
        elif op == "check":
            check(env, g["mode"], g["n"], g["h"], bytes(g["pk"]), g["m"], g["sig"], g["xof"])
        elif op == "sign":
            mode, n = g["mode"], g["n"]
            k, sk = secret(env, mode, n, g["key"])
            a = {"mode": mode, "n": n, "f": k["f"], "g": k["g"], "m": g["m"], "xof": g["xof"],
                 "seeded": g["seeded"], "tape": g["tape"]}

            def sign():
                X = xofs()[g["xof"]]
                if g["seeded"]:
                    t = Tape(g["tape"])
                    s = sk.sign(bytes(g["m"]), randombytes=t, xof=X)
                    d = t.draws
                else:
                    s, d = sk.sign(bytes(g["m"]), xof=X), []
                return {"sig": list(s), "draws": d, "h": [int(v) for v in sk.h],
                        "pk": [] if mode == "falcon" else addr_bytes(sk.pk)}
            r = env.call("sign", a, sign)
            last = (mode, n, bytes(r["sig"]), r["h"], bytes(r["pk"]), bytes(g["m"]), g["xof"])
        else:                           # the last signature, possibly damaged
            mode, n, sig, h, pk, m, xof = last
            for s in g["of"]:
                rng = random.Random(s)
                if rng.random() < 0.1:
                    xof = rng.choice(XOFS)
                sig, h, m = mutate(rng, mode, n, sig, h, m)
                if mode != "falcon" and rng.random() < 0.2:
                    pk = rng.choice([bytes(20), pk[:-1] + bytes([pk[-1] ^ 1]), bytes([pk[0] ^ 128]) + pk[1:]])
            check(env, mode, n, h, pk, m, sig, xof)
