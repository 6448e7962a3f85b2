"""Drives key generation, C and Python."""
import ctypes as C
import hashlib

import numpy as np

import capi
import ring

TEMP = [0, 136, 272, 224, 448, 896, 1792, 3584, 7168, 14336, 28672]


FG_BITS = [8, 8, 8, 8, 8, 8, 7, 7, 6, 6, 5]


class Stream:
    """The SHAKE256 stream of a seed, as a source of random bytes."""

    def __init__(self, seed, pre=b""):
        self.seed = bytes(seed)
        self.pre = self.have = bytes(pre)
        self.pos = 0

    def __call__(self, n):
        if self.pos + n > len(self.have):
            self.have = self.pre + hashlib.shake_256(self.seed).digest(2 * (self.pos + n) + 65536)
        r = self.have[self.pos:self.pos + n]
        self.pos += n
        return r


def generate(lib, n, seed, need_G=True, pre=b""):
    """One run of the C key generator, its stream being pre and then that of the seed."""
    logn = n.bit_length() - 1
    ctx = C.create_string_buffer(lib.f("hx_sizeof_shake", C.c_size_t)())
    lib.f("hx_shake_init")(ctx)
    b = lib.inb("in", bytes(seed))
    lib.f("hx_shake_inject")(ctx, b.p, capi.size_t(len(seed)))
    lib.f("hx_shake_flip")(ctx)
    f, gg, F, G = (lib.buf("key" + c, n) for c in "fgFG")
    h, t = lib.buf("keyh", 2 * n), lib.buf("keytmp", TEMP[logn])
    lib.f("hx_force", None)(bytes(pre), capi.size_t(len(pre)))
    lib.f("keygen", None)(ctx, f.p, gg.p, F.p, G.p if need_G else None, h.p, C.c_uint(logn), t.p)
    left = lib.f("hx_forced_left", C.c_size_t)()
    lib.f("hx_force", None)(b"", capi.size_t(0))
    if left and left == len(pre):
        raise RuntimeError("the chosen draws were not used")
    o = lib.buf("out", 8)
    lib.f("hx_shake_extract")(ctx, o.p, capi.size_t(8))
    bad = ["wrote before a buffer"] if any(x.under() for x in (f, gg, F, G, h, t)) else []
    return {"f": capi.un_i8(f.get()), "g": capi.un_i8(gg.get()), "F": capi.un_i8(F.get()),
            "G": capi.un_i8(G.get()) if need_G else [], "h": capi.un_u16(h.get()), "next": list(o.get()),
            "bad": bad}


def ints(x):
    return [int(v) for v in x]


# what the table draws are made from
T63 = [1283868770400643928, 6416574995475331444, 4078260278032692663, 2353523259288686585, 1227179971273316331,
       575931623374121527, 242543240509105209, 91437049221049666, 30799446349977173, 9255276791179340, 2478152334826140,
       590642893610164, 125206034929641, 23590435911403, 3948334035941, 586753615614, 77391054539, 9056793210,
       940121950, 86539696, 7062824, 510971, 32764, 1862, 94, 4, 0]


def draws(rng, f):
    """Bytes from which the table sampler draws f."""
    n, out = len(f), bytearray()
    k = 1024 // n
    for v in f:
        d = [0] * k
        while sum(d) != v:
            i = rng.randrange(k)
            d[i] += max(-2, min(2, v - sum(d)))
        for x in d:
            a = rng.randrange(T63[0]) if x == 0 else rng.randrange(T63[0], 1 << 63)
            i = abs(x)
            r = rng.randrange(T63[i], T63[i - 1] if i > 1 else 1 << 63) if x else rng.getrandbits(63)
            out += ((a | (1 << 63 if x < 0 else 0)).to_bytes(8, "little") + r.to_bytes(8, "little"))
    return bytes(out)


def dual(f, g):
    """The squared norm of the orthogonalised second vector."""
    n = len(f)
    w = np.exp(1j * np.pi * np.arange(n) / n)
    F, G = (np.fft.fft(np.array(x) * w) for x in (f, g))
    return ring.Q ** 2 * float(np.sum(1 / (abs(F) ** 2 + abs(G) ** 2))) / n


def crafted(rng, n, kind, where=None):
    """A pair (f, g) that is refused, or accepted, for one reason only."""
    if kind.startswith("edge"):             # one coefficient, of f or g, at the limit or inside it
        lim = 1 << (FG_BITS[n.bit_length() - 1] - 1)
        v = lim - (kind == "edgein")
        while True:
            s = rng.uniform(0.9, 1.0) * max(2 * 8400 - v * v, 2000) ** 0.5 / (2 * n) ** 0.5
            f, g = ([max(1 - lim, min(lim - 1, round(rng.gauss(0, s)))) for _ in range(n)] for _ in range(2))
            which, sign = where or (rng.randrange(2), rng.choice([1, -1]))
            (f, g)[which][rng.choice([0, n - 1, rng.randrange(n)])] = sign * v
            if sum(f) % 2 and sum(g) % 2 and sum(y * y for y in f + g) <= 16822 and dual(f, g) < 16800 and ring.invertible(f):
                return f, g
    sd = 1.17 * (12289 / (2 * n)) ** 0.5
    w = [int(v) for v in ring.ntt([0, 1] + [0] * (n - 2))] if n > 1 else [1]
    while True:
        s = sd * rng.uniform(0.93, 1.0)
        f, g = ([round(rng.gauss(0, s)) for _ in range(n)] for _ in range(2))
        if dual(f, g) > 16700:
            continue
        if kind.startswith("zero"):         # f vanishes at one point of the transform
            i = {"zero0": 0, "zeroN": n - 1}.get(kind, rng.randrange(n))
            pw = [pow(w[i], j, ring.Q) for j in range(n)]
            v = sum(a * b for a, b in zip(f, pw)) % ring.Q
            inv = {}
            for j in range(n):
                for d in range(-4, 5):
                    inv.setdefault(d * pw[j] % ring.Q, []).append((j, d))
            hit = [(j, d, j2, d2) for j in range(n) for d in range(-4, 5)
                   for j2, d2 in inv.get((-v - d * pw[j]) % ring.Q, [])]
            if not hit:
                continue
            j, d, j2, d2 = rng.choice(hit)
            f[j] += d
            f[j2] += d2
        else:                               # the squared norm is a given number
            want = int(kind)
            for _ in range(4000):
                e = want - sum(x * x for x in f + g)
                if e == 0:
                    break
                x = rng.choice([f, g])
                j, d = rng.randrange(n), rng.choice([1, -1, 1, -1, 2, -2])
                if abs(e - 2 * d * x[j] - d * d) <= abs(e) + (3 if rng.random() < 0.1 else 0):
                    x[j] += d
            else:
                continue
        if sum(f) % 2 == 0 or sum(g) % 2 == 0 or sum(x * x for x in f + g) > (16822 if kind[0] == "z" else 99999):
            continue
        if dual(f, g) < 16800 and max(map(abs, f + g)) <= 127 and (kind[0] == "z" or ring.invertible(f)):
            return f, g


def run(env, sess):
    for g in sess["gen"]:
        op, a = g["op"], g["a"]
        if "hunt" in g:                      # a seed whose first f is singular
            import mkgauss
            i = 0
            while i < 4000:
                a = dict(a, seed=list(b"%d %d" % (g["hunt"], i)))
                f = mkgauss.poly_small_mkgauss(Stream(a["seed"]), a["n"], a["n"].bit_length() - 1)
                if not ring.invertible(f):
                    break
                i += 1
        if op == "extreme":                  # those of many keys with the longest F or G
            lib, made = capi.get(env), []
            for i in range(g["tries"]):
                b = dict(a, seed=list(b"%d %d" % (g["seed"], i)), pre=[])
                k = generate(lib, b["n"], b["seed"])
                made.append((-max(map(abs, k["F"] + k["G"])), i, b))
            for _, _, b in sorted(made, key=lambda t: t[:2])[:4]:
                env.call("core", b, lambda: generate(lib, b["n"], b["seed"]))
            continue
        if op == "core":
            lib = capi.get(env)
            a = dict({"pre": []}, **a)

            def core():
                return generate(lib, a["n"], a["seed"], g["G"], bytes(a["pre"]))
            env.call(op, a, core)
        elif op == "keypair":
            lib = capi.get(env, "ceth" if g.get("eth") else "c")

            def kg():
                if a["seeded"]:
                    rc, pk, sk, d = capi.keypair(lib, a["v"], seed=bytes(a["seed"]))
                else:
                    rc, pk, sk, d = capi.keypair(lib, a["v"], tape=bytes(a["tape"]))
                return {"rc": rc, "pk": list(pk), "sk": list(sk), "draws": d, "bad": []}
            env.call(op, a, kg)
        elif op == "pygen":
            import falcon
            import ntrugen

            def pg():
                s = Stream(a["seed"], bytes(a["pre"]))
                n = a["n"]
                if a["table"]:
                    f, gg, F, G = ntrugen.ntru_gen(n, randombytes=s, logn=n.bit_length() - 1)
                    sk = falcon.SecretKey(n, polys=[f, gg, F, G]) if n in falcon.Params else None
                    nxt = list(s(8))
                    from polyntt.poly import Poly
                    h = sk.h if sk else (Poly(gg, 12289) / Poly(f, 12289)).coeffs
                else:
                    sk = falcon.SecretKey(n, randombytes=s)
                    f, gg, F, G, h, nxt = sk.f, sk.g, sk.F, sk.G, sk.h, []
                return {"f": ints(f), "g": ints(gg), "F": ints(F), "G": ints(G), "h": ints(h), "next": nxt}
            env.call(op, a, pg)
        elif op == "solve":
            import ntrugen

            def sv():
                try:
                    F, G = ntrugen.ntru_solve(list(a["f"]), list(a["g"]))
                except ValueError:
                    return {"ok": False, "F": [], "G": []}
                return {"ok": True, "F": ints(F), "G": ints(G)}
            env.call(op, a, sv)
        else:
            import common
            import fft
            import ntrugen

            def po():
                x, y = list(a["x"]), list(a["y"])
                k = a["f"]
                if k in ("karamul",):
                    r = ntrugen.karamul(x, y)
                elif k == "conjugate":
                    r = ntrugen.galois_conjugate(x)
                elif k == "field_norm":
                    r = ntrugen.field_norm(x)
                elif k == "lift":
                    r = ntrugen.lift(x)
                elif k == "xgcd":
                    r = ntrugen.xgcd(x[0], x[1])
                elif k == "sqnorm":
                    m = len(x) // 2
                    r = [common.sqnorm([x[:m], x[m:]])]
                elif k in ("add", "sub"):
                    r = getattr(fft, k)(x, y)
                elif k == "neg":
                    r = fft.neg(x)
                return {"y": ints(r)}
            env.call(op, a, po)


# ---------------------------------------------------------------- signing without envelopes
def raw_sign(lib, n, k, hm, seed, tree=False):
    """s1, s2 from the signing engine, its randomness the SHAKE256 stream of the seed."""
    logn = n.bit_length() - 1
    ctx = C.create_string_buffer(lib.f("hx_sizeof_shake", C.c_size_t)())
    lib.f("hx_shake_init")(ctx)
    b = lib.inb("in", bytes(seed))
    lib.f("hx_shake_inject")(ctx, b.p, capi.size_t(len(seed)))
    lib.f("hx_shake_flip")(ctx)
    kk = [lib.inb("key" + c, capi.i8(k[c])) for c in "fgFG"]
    h, s = lib.inb("hm", capi.u16(hm)), lib.buf("sig", 2 * n)
    if tree:
        ek = lib.buf("ek", (8 * logn + 40) * n)
        t = lib.buf("keytmp", 48 * n)
        lib.f("expand_privkey", None)(ek.p, *[x.p for x in kk], C.c_uint(logn), t.p)
        bad = t.under() or ek.under()
        t = lib.buf("keytmp", 48 * n)
        lib.f("sign_tree", None)(s.p, ctx, ek.p, h.p, C.c_uint(logn), t.p)
    else:
        t = lib.buf("keytmp", 72 * n)
        lib.f("sign_dyn", None)(s.p, ctx, *[x.p for x in kk], h.p, C.c_uint(logn), t.p)
        bad = False
    o = lib.buf("out", 8)
    lib.f("hx_shake_extract")(ctx, o.p, capi.size_t(8))
    bad = ["wrote before a buffer"] if bad or any(x.under() for x in kk + [h, s, t]) else []
    return {"s1": capi.un_i16(t.get(2 * n)), "s2": capi.un_i16(s.get()), "next": list(o.get()), "bad": bad}
