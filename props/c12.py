"""EPERVIER C interface: recovery of the public key."""
import random

import signdrv
from codecdrv import bits_pack
from props.c09 import NEEDS, SPEC, RULE, ASSUMPTIONS, models, opens, long_opens  # noqa: F401

run = signdrv.run


def sessions(tier, seed):
    rng = random.Random(seed)
    big = tier != "quick"
    k = 12 if big else 1
    out = opens(rng, "epv", "shake", 70 * k, 400 * k, big) + long_opens(rng, "epv", "shake", [4057, 66000])
    # s2 with zeros in the transformed domain, under a key that would make the equation hold
    ring = signdrv.ring
    for i in range(40 * k):
        nonce, m = rng.randbytes(40), rng.randbytes(7)
        c = ring.point("shake", nonce, m)
        # (x^2 - r) times something small is rarely short; instead aim s2 at a root by correcting two coefficients
        s2 = _with_zero(rng)
        if s2 is None:
            continue
        t = ring.ntt(s2)
        s1 = signdrv.vec_norm(rng, 512, rng.randrange(1, 20000000), 6144, "noise")
        if s1 is None:
            continue
        d = ring.ntt(c - signdrv.ring.np.array(s1))
        hn = d * ring._inv()[t] % ring.Q      # 0 where s2 vanishes
        sm = signdrv.assemble(nonce, m, b"\x29" + bits_pack([(int(x) % ring.Q, 16) for x in s1]) + b"\x29" +
                              bits_pack([(int(x) % ring.Q, 16) for x in s2]) + b"\0\0")
        out.append({"kind": "open", "gen": [{"op": "open", "v": "epv", "sm": list(sm),
                                             "pk": list(signdrv.pk_bytes("epv", hn))}]})
    # both equation parts zero where s2 vanishes: only invertibility can refuse it
    for i in range(10 * k):
        s2 = _with_zero(rng)
        nonce, m = rng.randbytes(40), rng.randbytes(7)
        c = ring.point("shake", nonce, m)
        t = ring.ntt(s2)
        s1 = _agree(rng, c, t)
        if s1 is None:
            continue
        hn = ring.ntt(c - ring.np.array(s1)) * ring._inv()[t] % ring.Q
        hn[t == 0] = rng.randrange(ring.Q)
        if rng.random() < 0.5:
            hn[t == 0] = 0
        sm = signdrv.assemble(nonce, m, b"\x29" + bits_pack([(int(x) % ring.Q, 16) for x in s1]) + b"\x29" +
                              bits_pack([(int(x) % ring.Q, 16) for x in s2]) + b"\0\0")
        out.append({"kind": "open", "gen": [{"op": "open", "v": "epv", "sm": list(sm),
                                             "pk": list(signdrv.pk_bytes("epv", hn))}]})
    for i in range(60 * k):
        sm, pk, nonce, m, p = signdrv.crafted(rng, "epv", "shake", norm=1000)
        if i % 2:
            sm, pk = signdrv.mutate_sm(random.Random(i), "epv", sm, pk, 0)
            b = bytearray(pk)
            b[rng.choice([0, rng.randrange(len(b))])] ^= 1 << rng.randrange(8)
            pk = bytes(b)
        out.append({"kind": "open", "gen": [{"op": "pkconv", "v": "epv", "pk": list(pk)}]})
    return out


def _root(rng):
    """A point w of the transform, with its index."""
    ring = signdrv.ring
    e1 = ring.ntt([0, 1] + [0] * 510)          # the values of x
    i = rng.choice([0, 511, rng.randrange(512)])
    return i, int(e1[i])


def _fit(rng, x, w, target):
    """Adjust small x so that x(w) = target, by changing a few coefficients by small amounts."""
    ring = signdrv.ring
    pw = [1]
    for _ in range(511):
        pw.append(pw[-1] * w % ring.Q)
    cur = sum(a * b for a, b in zip(x, pw)) % ring.Q
    d = (target - cur) % ring.Q
    # two coefficients, |change| <= 120 each
    for _ in range(200):
        i, j = rng.randrange(512), rng.randrange(512)
        if i == j:
            continue
        tab = {a * pw[i] % ring.Q: a for a in range(-120, 121)}
        for b in range(-120, 121):
            a = tab.get((d - b * pw[j]) % ring.Q)
            if a is not None:
                x = list(x)
                x[i] += a
                x[j] += b
                return x
    return None


def _with_zero(rng):
    i, w = _root(rng)
    return _fit(rng, [rng.randint(-150, 150) for _ in range(512)], w, 0)


def _agree(rng, c, t):
    ring = signdrv.ring
    z = [int(i) for i in ring.np.nonzero(t == 0)[0]]
    if len(z) != 1:
        return None
    w = int(ring.ntt([0, 1] + [0] * 510)[z[0]])
    return _fit(rng, [rng.randint(-150, 150) for _ in range(512)], w, int(ring.ntt(c)[z[0]]))
