"""Driver for the signed-message interface of the C code, and generators of its inputs."""
import random

import capi
import ring
from codecdrv import bits_pack, comp_bytes

BOUND = 34034726


def library(env, v, xof):
    return capi.get(env, "ceth" if xof == "keccak" else "c")


def esig(v, s1, s2):
    if v == "std":
        return b"\x29" + comp_bytes([int(x) for x in s2])
    w = b"\x29" + bits_pack([(int(x) % ring.Q, 16) for x in s2])
    if v == "zk":
        return w
    hint = 1
    for x in ring.ntt(s2):
        hint = hint * int(x) % ring.Q
    return b"\x29" + bits_pack([(int(x) % ring.Q, 16) for x in s1]) + w + pow(hint, -1, ring.Q).to_bytes(2, "big")


def pk_bytes(v, hn):
    if v == "std":
        return b"\x09" + bits_pack([(int(x), 14) for x in ring.intt(hn)])
    return b"\x09" + bits_pack([(int(x), 16) for x in hn])


def assemble(nonce, m, es, sl=None):
    return (len(es) if sl is None else sl).to_bytes(2, "big") + nonce + m + es


def craft(v, xof, nonce, m, s1, s2):
    """(sm, pk) such that s1 + s2 h is the point of the message."""
    hn = ring.h_for(ring.point(xof, nonce, m), s1, s2)
    if hn is None:
        return None
    return assemble(nonce, m, esig(v, s1, s2)), pk_bytes(v, hn)


def vec_norm(rng, n, norm, lim, style):
    """n integers of absolute value <= lim whose squares sum to norm."""
    x = [0] * n
    left = norm
    idx = list(range(n))
    rng.shuffle(idx)
    if style == "spike":
        i = rng.choice([0, 1, n // 2, n - 2, n - 1, rng.randrange(n)])
        idx.remove(i)
        idx.insert(0, i)
    if style == "flat":
        a = int((norm / n) ** 0.5)
        for i in idx:
            x[i] = min(lim, max(0, a + rng.randint(-3, 3)))
        left = norm - sum(v * v for v in x)
        while left < 0:
            i = rng.choice(idx)
            if x[i] > 0:
                left += 2 * x[i] - 1
                x[i] -= 1
    k = 0
    while left > 0:
        if style == "flat":
            # raise coefficients by one while that fits, then fix up on zeros
            i = idx[k % n]
            if 2 * x[i] + 1 <= left and x[i] < lim and (k < n - 4):
                left -= 2 * x[i] + 1
                x[i] += 1
                k += 1
                continue
            # the remainder: zero one coefficient and restart with squares
            style = "rest"
            rest = idx[-12:]
            for i in rest:
                left += x[i] ** 2
                x[i] = 0
            idx = rest
            k = 0
            continue
        i = idx[k]
        v = min(lim, int(left ** 0.5))
        while v * v > left:
            v -= 1
        if style == "noise" and k < n - 12:
            v = min(v, abs(int(rng.gauss(0, (norm / n) ** 0.5))))
        x[i] = v
        left -= v * v
        k += 1
        if k >= len(idx):
            break
    if left:
        return None
    return [v if rng.random() < 0.5 else -v for v in x]


def short_pair(rng, n, norm, v, style=None):
    for _ in range(200):
        st = style or rng.choice(["spike", "flat", "noise", "noise"])
        lim2 = 2047 if v == "std" else 6144
        share = rng.choice([0.5, 0.5, 0.5, 0.02, 0.9, rng.random()])
        n2 = max(1, min(int(norm * share), norm, lim2 * lim2 * n - 1))
        if st == "spike":
            n2 = min(n2, lim2 * lim2 + rng.randrange(0, 4000))
        n1 = norm - n2
        if n1 > 6144 * 6144 * n:
            continue
        s2 = vec_norm(rng, n, n2, lim2, st)
        if n1 == 0:
            s1 = [0] * n
        else:
            s1 = vec_norm(rng, n, n1, 6144, rng.choice(["spike", "flat", "noise"]))
        if s1 is None or s2 is None or not ring.invertible(s2):
            continue
        assert sum(x * x for x in s1) + sum(x * x for x in s2) == norm
        return s1, s2
    return None


def norms(rng):
    """Squared norms worth visiting: the bound, and values that look small modulo a power of two."""
    r = rng.random()
    if r < 0.45:
        return BOUND + rng.choice([0, 0, 1, 1, -1, 2, rng.randrange(-50, 50)])
    if r < 0.6:
        return rng.randrange(1, BOUND)
    if r < 0.7:
        return rng.choice([1, 2, 3, 100])
    if r < 0.8:
        return BOUND + rng.randrange(1, 400000000)
    b = rng.choice([1 << 26, 1 << 31, 1 << 32, (1 << 32) + (1 << 31), 1 << 33, 3 << 32, 1 << 34])
    return b + rng.choice([0, 1, 1000, BOUND, BOUND + 1, rng.randrange(BOUND)])


def crafted(rng, v, xof, m=None, norm=None, style=None, salt=40):
    while True:
        nonce = rng.randbytes(salt)
        mm = rng.randbytes(rng.choice([0, 1, 5, 32, 33, 56, 96, 97, 200])) if m is None else m
        nn = norms(rng) if norm is None else norm
        p = short_pair(rng, 512, nn, v, style)
        if p is None:
            continue
        r = craft(v, xof, nonce, mm, *p)
        if r is None:
            continue
        return r[0], r[1], nonce, mm, p


def mutate_sm(rng, v, sm, pk, msg_len):
    """Structural damage to a signed message or a public key."""
    sm, pk = bytearray(sm), bytearray(pk)
    sl = len(sm) - 42 - msg_len
    e = 42 + msg_len
    k = rng.randrange(15)
    if k == 0:                        # flip a bit anywhere
        i = rng.choice([rng.randrange(len(sm)), rng.randrange(2, 42), e, rng.randrange(e, len(sm)), len(sm) - 1,
                        rng.randrange(42, e) if msg_len else 41])
        sm[i] ^= 1 << rng.randrange(8)
    elif k == 1:                      # cut at the end, with or without adjusting the length
        c = rng.choice([1, 1, 2, 5, sl, len(sm) - 42, len(sm) - 41, len(sm) - 2, len(sm) - 1, len(sm)])
        sm = sm[:max(0, len(sm) - c)]
        if len(sm) >= 2 and rng.random() < 0.6:
            nl = max(0, sl - c)
            sm[0:2] = nl.to_bytes(2, "big")
    elif k == 2:                      # extend
        ext = rng.choice([b"\0", b"\x80", b"\0\0\0", rng.randbytes(3), b"\x01"])
        sm += ext
        if rng.random() < 0.7:
            sm[0:2] = (sl + len(ext)).to_bytes(2, "big")
    elif k == 3:                      # announced length
        nl = rng.choice([0, 1, sl - 1, sl + 1, len(sm) - 42, len(sm) - 41, len(sm), 65535, sl ^ 256, 41, 2, 1026, 1027])
        sm[0:2] = max(0, min(65535, nl)).to_bytes(2, "big")
    elif k == 4:                      # header byte
        sm[e] = rng.choice([0x28, 0x2A, 0x39, 0x30 + 9, 0, 0xFF, 0x09, 0x59])
    elif k == 5:
        pk[0] = rng.choice([0, 8, 10, 0x19, 0x29, 0x89, 255])
    elif k == 6:                      # public key coefficient
        i = rng.randrange(1, len(pk))
        pk[i] ^= 1 << rng.randrange(8)
    elif k == 7:                      # a coefficient out of range: add q where it fits
        w = 14 if v == "std" else 16
        top = int.from_bytes(pk[1:], "big")
        sh = w * rng.choice([0, 511, rng.randrange(512)])
        cur = (top >> sh) & ((1 << w) - 1)
        if cur + ring.Q < 1 << w:
            pk[1:] = (top + (ring.Q << sh)).to_bytes(len(pk) - 1, "big")
        else:
            pk[0] ^= 1
    elif k == 8:                      # move the boundary between nonce, message and signature
        i = rng.randrange(2, e)
        sm = sm[:i] + bytes([rng.randrange(256)]) + sm[i:]
    elif k == 9 and msg_len:
        i = rng.choice([42, e - 1, rng.randrange(42, e)])
        sm = sm[:i] + sm[i + 1:]
    elif k == 10:                     # -0 / padding bits / out of range words
        if v == "std":
            sm[-1] |= rng.choice([1, 2, 4])
        else:
            i = e + 1 + 2 * rng.choice([0, 511, rng.randrange(512)]) + (1025 if v == "epv" and rng.random() < 0.5 else 0)
            w = int.from_bytes(sm[i:i + 2], "big")
            if w + ring.Q < 65536:
                sm[i:i + 2] = (w + ring.Q).to_bytes(2, "big")
            else:
                sm[i] ^= 0x80
    elif k == 11 and v == "epv":
        i = rng.choice([e + 1025, len(sm) - 1, len(sm) - 2])
        sm[i] ^= 1 << rng.randrange(8)
    elif k == 12 and v != "std":      # swap two words of the signature
        i, j = (e + 1 + 2 * rng.randrange(512) for _ in range(2))
        sm[i:i + 2], sm[j:j + 2] = sm[j:j + 2], sm[i:i + 2]
    elif k == 13:                     # another message of the same length
        if msg_len:
            i = 42 + rng.randrange(msg_len)
            sm[i] ^= 1 << rng.randrange(8)
        else:
            sm[2 + rng.randrange(40)] ^= 1
    else:
        sm[2 + rng.randrange(40)] ^= 1 << rng.randrange(8)
    return bytes(sm), bytes(pk)


def keys(env, v, seed):
    """A real key pair, for use as an input."""
    k = ("key", v, seed)
    if k not in env.cache:
        lib = capi.get(env)
        rc, pk, sk, _ = capi.keypair(lib, v, seed=seed)
        assert rc == 0
        env.cache[k] = pk, sk
    return env.cache[k]


def bad_sk(rng, sk):
    sk = bytearray(sk)
    k = rng.randrange(6)
    if k == 0:
        sk[0] = rng.choice([0x58, 0x5A, 0x49, 0, 9, 0xD9])
    elif k == 1:                       # forbidden value in f or g (100000) or F (0x80)
        p = rng.choice([0, 1, 2])
        if p < 2:
            off, i = 1 + 384 * p, rng.choice([0, 511, rng.randrange(512)])
            x = int.from_bytes(sk[off:off + 384], "big")
            sh = 6 * (511 - i)
            x = (x & ~(63 << sh)) | (32 << sh)
            sk[off:off + 384] = x.to_bytes(384, "big")
        else:
            sk[769 + rng.choice([0, 511, rng.randrange(512)])] = 0x80
    elif k == 2:                       # F does not match f and g
        sk[769 + rng.randrange(512)] ^= 1 << rng.randrange(8)
    elif k == 3:
        sk[1 + rng.randrange(768)] ^= 1 << rng.randrange(8)
    elif k == 4:                       # f = 0: not invertible
        sk[1:385] = bytes(384)
    else:
        sk[1:] = rng.randbytes(1280)
    return bytes(sk)


def run(env, sess):
    last = None
    for g in sess["gen"]:
        op, v = g["op"], g["v"]
        xof = g.get("xof", "shake")
        lib = library(env, v, xof)
        if op == "open":
            if "of" in g:              # the last signed message, possibly damaged
                sm, pk, ml = last
                for s in g["of"]:
                    sm2, pk2 = mutate_sm(random.Random(s), v, sm, pk, ml)
                    sm, pk = sm2, pk2
            else:
                sm, pk = bytes(g["sm"]), bytes(g["pk"])
            env.call("open", {"v": v, "xof": xof, "sm": list(sm), "pk": list(pk)},
                     lambda: capi.sign_open(lib, v, sm, pk, g.get("alias", False)))
        elif op == "sign":
            pk, sk = keys(env, v, bytes(g["key"]))
            if "bad" in g:
                sk = bad_sk(random.Random(g["bad"]), sk)
            m, tape = bytes(g["m"]), bytes(g["tape"])
            r = env.call("sign", {"v": v, "xof": xof, "m": list(m), "sk": list(sk), "tape": list(tape)},
                         lambda: capi.sign(lib, v, m, sk, tape, g.get("alias", False)))
            if r["rc"] == 0:
                last = bytes(r["sm"]), pk, len(m)
        elif op == "keygen":
            def kg():
                if "seed" in g:
                    rc, pk, sk, d = capi.keypair(lib, v, seed=bytes(g["seed"]))
                else:
                    rc, pk, sk, d = capi.keypair(lib, v, tape=bytes(g["tape"]))
                return {"rc": rc, "pk": list(pk), "sk": list(sk), "draws": d, "bad": []}
            env.call("keygen", {"v": v, "seeded": "seed" in g, "seed": list(g.get("seed", [])),
                                "tape": list(g.get("tape", []))}, kg)
        elif op == "pkconv":
            pk = bytes(g["pk"])

            def conv():
                b = lib.inb("pk", pk)
                rc = lib.f("zknox_pk_epervier")(b.p)
                return {"rc": rc, "pk": list(b.get())}
            env.call("pkconv", {"pk": list(pk)}, conv)
