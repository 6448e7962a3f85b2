"""Ring arithmetic of the C core at every degree."""
import random

import ringdrv
import signdrv
from signdrv import ring

NEEDS = ["c"]
SPEC = "RingTrace"
RULE = "an event is one call of a ring function; distinct by function, degree and arguments"
ASSUMPTIONS = ["arguments are within the documented ranges (residues, or integers below q in absolute value)"]
run = ringdrv.run
Q = ring.Q
BOUNDS = [None, 101498, 208714, 428865, 892039, 1852696, 3842630, 7959734, 16468416, 34034726, 70265242]


def models(tier):
    d = "{2, 4, 8, 16, 32, 64}" if tier == "quick" else "{2, 4, 8, 16, 32, 64, 128, 256}"
    return [{"module": "MC_Ring", "name": "basis", "workers": 8,
             "cfg": "INIT Init\nNEXT Next\nINVARIANT Product\nINVARIANT Transform\nINVARIANT Points\n"
                    "CHECK_DEADLOCK FALSE\nCONSTANT Degrees = %s\n" % d, "bounds": "all pairs of monomials, degrees " + d}]


def edgy(rng, n):
    return [rng.choice([0, 1, Q - 1, Q - 2, 6144, 6145]) if rng.random() < 0.3 else rng.randrange(Q) for _ in range(n)]


def sparse(rng, n, vals):
    x = [0] * n
    for _ in range(rng.choice([1, 1, 2, 3])):
        x[rng.choice([0, n - 1, n // 2, rng.randrange(n)])] = rng.choice(vals)
    return x


def small8(rng, n):
    k = rng.randrange(4)
    if k == 0:
        return sparse(rng, n, [1, -1, 127, -128, -127, 2])
    if k == 1:
        return [rng.choice([-128, 127, -127, 0, 1, -1]) for _ in range(n)]
    return [max(-128, min(127, int(rng.gauss(0, rng.choice([1, 4, 20, 60]))))) for _ in range(n)]


def zeros(rng, n, k):
    """A residue vector whose transform vanishes at k points."""
    t = ring.np.array([rng.randrange(1, Q) for _ in range(n)])
    for i in rng.sample(range(n), min(n, k)):
        t[i] = 0
    return ring.intt(t)


def cz(x):
    return [int(v) for v in ring.centre(x)]


def li(x):
    return [int(v) for v in x]


def sessions(tier, seed):
    rng = random.Random(seed)
    big = tier != "quick"
    evs = []

    def ev(op, **a):
        evs.append({"op": op, "a": a})
    for logn in range(1, 11):
        n = 1 << logn
        reps = (14 if n >= 256 else 24) * (12 if big else 2)
        for i in (range(n) if n <= 64 or big else rng.sample(range(n), 12)):
            x = [0] * n
            x[i] = rng.choice([1, Q - 1, rng.randrange(1, Q)])
            ev(rng.choice(["to_ntt", "to_ntt_monty"]), x=x)
        for _ in range(reps):
            ev("to_ntt", x=edgy(rng, n))
            ev("to_ntt_monty", x=edgy(rng, n))
            ev("to_ntt", x=li(zeros(rng, n, rng.choice([1, n // 2, n]))))
            # public keys; f with and without inverse
            f = small8(rng, n)
            if n >= 16 and rng.random() < 0.4:
                z = _root8(rng, n)
                f = z or f
            ev("compute_public", x=f, y=small8(rng, n))
            # last private key element: a chosen G, by choosing which of the others to derive
            ev("complete_private", **_complete(rng, n))
            # signatures
            c = edgy(rng, n)
            h = edgy(rng, n) if rng.random() < 0.7 else sparse(rng, n, [1, Q - 1, 5])
            b = BOUNDS[logn]
            if rng.random() < 0.5:
                norm = b + rng.choice([0, 0, 1, 1, -1, 2, 50, -50, -b // 2])
                p = _pair(rng, n, norm)
                if p:
                    s1, s2 = p
                    c = li((ring.mul(s2, h) + ring.np.array(s1)) % Q)
                    ev("verify_raw", x=c, y=s2, z=h)
                    ev(rng.choice(["recover", "recover_ntt"]), x=c, y=s1, z=s2)
            else:
                ev("verify_raw", x=c, y=cz(edgy(rng, n)), z=h)
            s2 = [rng.randint(-2, 2) for _ in range(n)]
            s1 = [rng.randint(-9, 9) for _ in range(n)]
            if rng.random() < 0.4 and n >= 8:
                s2 = _root16(rng, n) or s2
            ev("recover", x=c, y=s1, z=s2)
            ev("recover_ntt", x=c, y=s1, z=s2)
            # every divisor, through vectors chosen in the transformed domain (norm ignored: rc 0 expected)
            k = rng.choice([0, 0, 1, 2, n])
            z = cz(zeros(rng, n, k))
            ev("is_invertible", x=z)
            ev("count_nttzero", x=z)
            w = [v + (Q if v < 0 else -Q) if v and rng.random() < 0.2 else v for v in z]
            ev(rng.choice(["is_invertible", "count_nttzero"]), x=w)
            if logn <= 9:
                ev("hint", x=cz(zeros(rng, n, 0)))
                ev("hint", x=[rng.choice([-1, 1]) * rng.randrange(0, 2048) for _ in range(n)] if n > 4 else [1] + [0] * (n - 1))
    # all divisors: h = c / s2 with s2 a constant, so that its transform is that constant everywhere
    consts = list(range(1, 6145)) if big else rng.sample(range(1, 6145), 500) + [1, 2, 6143, 6144]
    for k in consts:
        s = rng.choice([1, -1])
        n = rng.choice([2, 4])
        b = {2: 318, 4: 456}[n]
        if k <= b - 10:
            ev("recover", x=edgy(rng, n), y=[0] * n, z=[s * k] + [0] * (n - 1))
    for _ in range(40 if not big else 400):      # larger ones at degree 512 and 1024
        n = rng.choice([512, 1024])
        k = rng.choice([1, -1]) * rng.randrange(300, 5800 if n == 512 else 6145)
        ev(rng.choice(["recover", "recover_ntt"]), x=edgy(rng, n), y=[0] * n, z=[k] + [0] * (n - 1))
    rng.shuffle(evs)
    return [{"kind": "ring", "gen": evs[i:i + 4]} for i in range(0, len(evs), 4)]


def _pair(rng, n, norm):
    for _ in range(40):
        n2 = int(norm * rng.choice([0.5, 0.1, 0.9, rng.random()]))
        st = [rng.choice(["spike", "noise", "noise", "flat"]) for _ in range(2)]
        s1 = signdrv.vec_norm(rng, n, norm - n2, 6144, st[0])
        s2 = signdrv.vec_norm(rng, n, n2, 6144, st[1])
        if s1 is not None and s2 is not None:
            return s1, s2
    return None


def _fit(rng, x, n, lim):
    """Change two coefficients of x so that it vanishes at a random point of the transform."""
    pts = [int(v) for v in ring.ntt([0, 1] + [0] * (n - 2))]
    w = rng.choice(pts)
    pw = [pow(w, i, Q) for i in range(n)]
    d = -sum(a * b for a, b in zip(x, pw)) % Q
    for _ in range(100):
        i, j = rng.sample(range(n), 2)
        tab = {a * pw[i] % Q: a for a in range(-lim, lim + 1)}
        for b in range(-lim, lim + 1):
            a = tab.get((d - b * pw[j]) % Q)
            if a is not None:
                y = list(x)
                y[i] += a
                y[j] += b
                return y
    return None


def _root8(rng, n):
    return _fit(rng, [rng.randint(-20, 20) for _ in range(n)], n, 100)


def _root16(rng, n):
    return _fit(rng, [rng.randint(-2, 2) for _ in range(n)], n, 100)


def _complete(rng, n):
    """f, g, F whose G is chosen (possibly at or past the limit), or arbitrary ones."""
    r = rng.random()
    if r < 0.2:
        return {"x": small8(rng, n), "y": small8(rng, n), "z": small8(rng, n)}
    G = [rng.choice([127, -127, 128, -128, 126, 0, 1]) if rng.random() < 0.1 else rng.randint(-126, 126) for _ in range(n)]
    if r < 0.4:         # f = +-x^i, so that G = g F / f is whatever g is up to a turn
        i, j = rng.randrange(n), rng.randrange(n)
        f, F = [0] * n, [0] * n
        f[i], F[j] = rng.choice([1, -1]), rng.choice([1, -1])
        return {"x": f, "y": [max(-128, min(127, v)) for v in G], "z": F}
    # f * G = g * F with f = a, g = a * m, F = k, G = m * k for monomial-ish m
    f = small8(rng, n)
    i, s = rng.randrange(n), rng.choice([1, -1])
    g = [0] * n
    for t, v in enumerate(f):
        p = t + i
        g[p % n] = s * v * (1 if p < n else -1)
    if any(v > 127 for v in g):
        g = [min(127, v) for v in g]
    k = rng.choice([1, 2, 3])
    F = [max(-128, min(127, v // k * k)) for v in G]
    return {"x": f, "y": g, "z": F}
