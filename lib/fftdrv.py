"""Drives the Fourier-domain arithmetic of C and Python, and the number-field helpers of Python."""
import ctypes as C
import math

import numpy as np

import capi
import keydrv


def negmul(a, b):
    """Product modulo x^n + 1, exact for integers (object dtype) and plain for floats."""
    n = len(a)
    c = np.convolve(np.array(a), np.array(b))
    c = np.concatenate([c, np.zeros(2 * n - len(c), dtype=c.dtype)])
    return c[:n] - c[n:]


def adj(a):
    a = np.array(a)
    return np.concatenate([a[:1], -a[:0:-1]])


def rounded(polys):
    """Integers nearest to the coefficients, and the largest distance from them in units of 2^-20."""
    z, off = [], 0
    for p in polys:
        p = np.array(p, dtype=float)
        if not np.all(np.isfinite(p)):
            return {"z": [], "off": 1 << 20}
        r = np.rint(p)
        off = max(off, int(np.max(np.abs(p - r)) * 2**20))
        z.append([int(max(-2**31 + 1, min(2**31 - 1, v))) for v in r])
    return {"z": z, "off": off}


class CArr:
    """An array of numbers in the library's own buffers."""

    def __init__(self, lib, name, v):
        self.b = lib.buf("fp" + name, 8 * len(v), np.array(v, dtype="<f8").tobytes())
        self.n = len(v)

    @property
    def p(self):
        return self.b.p

    def get(self, k=None):
        return np.frombuffer(self.b.get(), dtype="<f8")[:k].copy()


def c_fft(lib, name, v):
    a = CArr(lib, name, v)
    lib.f("FFT", None)(a.p, C.c_uint(len(v).bit_length() - 1))
    return a


def c_ifft(lib, name, v):
    a = CArr(lib, name, v)
    lib.f("iFFT", None)(a.p, C.c_uint(len(v).bit_length() - 1))
    return a.get()


def back(lib, arrs):
    return rounded([c_ifft(lib, "inv", a) for a in arrs])


def c_op(lib, f, n, p, c):
    lg = C.c_uint(n.bit_length() - 1)
    F = [c_fft(lib, "p%d" % i, x) for i, x in enumerate(p)]
    fn = lambda name: lib.f(name, None)     # noqa: E731
    if f == "id":
        return back(lib, [F[0].get()])
    if f in ("add", "sub"):
        fn("poly_" + f)(F[0].p, F[1].p, lg)
    elif f == "neg":
        fn("poly_neg")(F[0].p, lg)
    elif f == "adj":
        fn("poly_adj_fft")(F[0].p, lg)
    elif f in ("mul", "muladj"):
        fn("poly_%s_fft" % f)(F[0].p, F[1].p, lg)
    elif f == "selfadj":
        fn("poly_mulselfadj_fft")(F[0].p, lg)
    elif f == "mulconst":
        fn("poly_mulconst")(F[0].p, C.c_uint64(int.from_bytes(np.float64(c).tobytes(), "little")), lg)
    elif f == "div":
        num = c_fft(lib, "num", negmul(p[0], p[1]))
        fn("poly_div_fft")(num.p, F[1].p, lg)
        return back(lib, [num.get()])
    elif f == "invnorm":
        d = CArr(lib, "d", [0.0] * (n // 2))
        fn("poly_invnorm2_fft")(d.p, F[1].p, F[2].p, lg)
        num = c_fft(lib, "num", negmul(p[0], negmul(p[1], adj(p[1])) + negmul(p[2], adj(p[2]))))
        v = num.get()
        return back(lib, [v * np.concatenate([d.get(), d.get()])])
    elif f == "addmuladj":
        d = CArr(lib, "d", [0.0] * n)
        fn("poly_add_muladj_fft")(d.p, F[0].p, F[1].p, F[2].p, F[3].p, lg)
        return back(lib, [d.get()])
    elif f in ("mulauto", "divauto"):
        sq = negmul(p[1], adj(p[1]))
        h = CArr(lib, "half", c_fft(lib, "sq", sq).get(n // 2))
        if f == "mulauto":
            fn("poly_mul_autoadj_fft")(F[0].p, h.p, lg)
        else:
            F[0] = c_fft(lib, "num", negmul(p[0], sq))
            fn("poly_div_autoadj_fft")(F[0].p, h.p, lg)
    elif f == "split":
        a, b = CArr(lib, "s0", [7.0] * (n // 2)), CArr(lib, "s1", [7.0] * (n // 2))
        fn("poly_split_fft")(a.p, b.p, F[0].p, lg)
        return back(lib, [a.get(), b.get()]) if n > 2 else rounded([a.get(), b.get()])
    elif f == "merge":
        if n == 2:
            F = [CArr(lib, "s0", p[0]), CArr(lib, "s1", p[1])]
        m = CArr(lib, "m", [7.0] * n)
        fn("poly_merge_fft")(m.p, F[0].p, F[1].p, lg)
        return back(lib, [m.get()])
    elif f in ("ldl", "ldlmv"):
        g00, g01, g11 = [np.array(x) for x in grams(p)]
        G = [c_fft(lib, "g%d" % i, x) for i, x in enumerate((g00, g01, g11))]
        before = [x.get() for x in G]
        if f == "ldl":
            fn("poly_LDL_fft")(G[0].p, G[1].p, G[2].p, lg)
            l10, d11 = G[1], G[2]
            kept = np.array_equal(before[0], G[0].get())
        else:
            d11, l10 = CArr(lib, "d11", [0.0] * n), CArr(lib, "l10", [0.0] * n)
            fn("poly_LDLmv_fft")(d11.p, l10.p, G[0].p, G[1].p, G[2].p, lg)
            kept = all(np.array_equal(a, b.get()) for a, b in zip(before, G))
        l10, d11 = c_ifft(lib, "l", l10.get()), c_ifft(lib, "e", d11.get())
        r = reduced(l10, d11, g00)
        if not kept:
            r["z"] = []
        return r
    else:
        raise KeyError(f)
    return back(lib, [F[0].get()])


def grams(p):
    """g00, g01, g11 of the rows (p0, p1) and (p2, p3)."""
    return (negmul(p[0], adj(p[0])) + negmul(p[1], adj(p[1])), negmul(p[0], adj(p[2])) + negmul(p[1], adj(p[3])),
            negmul(p[2], adj(p[2])) + negmul(p[3], adj(p[3])))


def reduced(l10, d11, g00):
    return rounded([negmul(l10, g00), d11 + negmul(negmul(l10, adj(l10)), g00)])


def py_op(f, n, p, c):
    import fft as T
    import ffsampling as S
    F = [T.fft(list(x)) if len(x) > 1 else list(x) for x in p]
    inv = lambda *v: rounded([T.ifft(x) if len(x) > 1 else [complex(x[0]).real] for x in v])     # noqa: E731
    if f == "id":
        return inv(F[0])
    if f in ("add", "sub"):
        return inv(getattr(T, f + "_fft")(F[0], F[1])) if c else rounded([getattr(T, f)(p[0], p[1])])
    if f == "neg":
        return rounded([T.neg(p[0])])
    if f == "adj":
        return inv(T.adj_fft(F[0])) if c else rounded([T.adj(p[0])])
    if f == "mul":
        return inv(T.mul_fft(F[0], F[1])) if c else rounded([T.mul(p[0], p[1])])
    if f == "div":
        num = [int(v) for v in negmul(p[0], p[1])]
        return inv(T.div_fft(T.fft(num), F[1])) if c else rounded([T.div(num, p[1])])
    if f == "split":
        return inv(*T.split_fft(F[0]))
    if f == "merge":
        return inv(T.merge_fft(F))
    g00, g01, g11 = [[int(v) for v in x] for x in grams(p)]
    if f == "ldl":
        G = S.gram([[list(p[0]), list(p[1])], [list(p[2]), list(p[3])]])
        if rounded([G[0][0], G[0][1], G[1][1], G[1][0]])["z"] != [g00, g01, g11, [int(v) for v in adj(g01)]]:
            return {"z": [], "off": 0}
        if c:
            L, D = S.ldl_fft([[T.fft(x) for x in row] for row in G])
            l10, d00, d11 = T.ifft(L[1][0]), T.ifft(D[0][0]), T.ifft(D[1][1])
        else:
            L, D = S.ldl(G)
            l10, d00, d11 = L[1][0], D[0][0], D[1][1]
        r = reduced(np.array(l10), np.array(d11), np.array(g00))
        r["off"] = max(r["off"], int(np.max(np.abs(np.array(d00) - g00)) * 2**20))
        return r
    raise KeyError(f)


# ---------------------------------------------------------------- trees
def leaves(T):
    """[(value, weight)] at the bottom of a tree whose leaves are arrays of numbers."""
    if isinstance(T[1], list) and isinstance(T[1][0], list):
        return leaves(T[1]) + leaves(T[2])
    return [T[1][0], T[2][0]]


def q20(x):
    return int(max(-2**31 + 1, min(2**31 - 1, round(x))))


def tree(n, k, rng):
    """The tree of an NTRU basis, and nearest-plane reductions along it."""
    import fft as T
    import ffsampling as S
    neg = lambda x: [-v for v in x]     # noqa: E731
    B = [[k["g"], neg(k["f"])], [k["G"], neg(k["F"])]]
    G = S.gram(B)
    Tc = S.ffldl(G)
    Tf = S.ffldl_fft([[T.fft(x) for x in row] for row in G])
    lc, lf = [complex(v).real for v in leaves(Tc)], [complex(v).real for v in leaves(Tf)]
    near = max(abs(a - b) / abs(b) for a, b in zip(lc, lf)) if len(lc) == len(lf) else 1.0
    z0 = [[rng.randrange(-500, 501) for _ in range(n)] for _ in range(2)]
    t0 = [[v + rng.uniform(-1e-6, 1e-6) for v in x] for x in z0]
    t1 = [[rng.uniform(-300, 300) for _ in range(n)] for _ in range(2)]
    out = {"count": len(lf), "near": q20(near * 2**30), "det": q20(sum(math.log2(v) for v in lf) * 2**10 / n)}
    ex, errs = [], []
    for t in (t0, t1):
        zf = [T.ifft(x) for x in S.ffnp_fft([T.fft(x) for x in t], Tf)]
        zc = S.ffnp(t, Tc) if n <= 64 else zf
        ex.append([rounded(zf), rounded(zc)])
        d = [np.array(a) - np.array(rounded(zf)["z"][i]) for i, a in enumerate(t)]
        e = [negmul(d[0], B[0][j]) + negmul(d[1], B[1][j]) for j in range(2)]
        errs.append(sum(float(np.sum(x * x)) for x in e))
    out["exact"] = ex[0][0]["z"] == z0 and ex[0][1]["z"] == z0
    # nearest up to rounding ties, which have no weight here
    out["agree"] = ex[1][0]["z"] == ex[1][1]["z"]
    out["whole"] = max(x["off"] for y in ex for x in y)
    out["err"] = q20(errs[1])
    out["bound"] = q20(math.floor(sum(lf) / 2) + 1)
    return out


# ---------------------------------------------------------------- number fields
def zn(x):
    m, d = abs(int(x)), []
    while m:
        d.append(m % 4096)
        m //= 4096
    return {"s": 1 if x < 0 else 0, "m": d}


def un(d):
    v = sum(x << 12 * i for i, x in enumerate(d["m"]))
    return -v if d["s"] else v


def zp(p):
    return [zn(x) for x in p]


def field(f, p):
    import ntrugen as N
    if f == "karamul":
        return [zp(N.karamul(list(p[0]), list(p[1])))]
    if f == "karatsuba":
        return [zp(N.karatsuba(list(p[0]), list(p[1]), len(p[0])))]
    if f == "galois":
        return [zp(N.galois_conjugate(list(p[0])))]
    if f == "norm":
        return [zp(N.field_norm(list(p[0])))]
    if f == "lift":
        return [zp(N.lift(list(p[0])))]
    if f == "bitsize":
        return [zp([N.bitsize(x) for x in p[0]])]
    if f == "xgcd":
        return [zp(N.xgcd(p[0][0], p[0][1]))]
    if f == "reduce":
        F, G = N.reduce(list(p[0]), list(p[1]), list(p[2]), list(p[3]))
        return [zp(F), zp(G)]
    if f == "solve":
        try:
            F, G = N.ntru_solve(list(p[0]), list(p[1]))
        except ValueError:
            return []
        return [zp(F), zp(G)]
    raise KeyError(f)


def shrunk(p, z):
    """Largest coefficient of (F f* + G g*) / (f f* + g g*), in units of 2^-20."""
    f, g, F, G = [np.array([float(v) for v in x]) for x in (p[0], p[1], [un(v) for v in z[0]], [un(v) for v in z[1]])]
    ev = lambda a: np.fft.fft(a * np.exp(-1j * np.pi * np.arange(len(a)) / len(a)))     # noqa: E731
    f, g, F, G = ev(f), ev(g), ev(F), ev(G)
    k = (F * f.conj() + G * g.conj()) / (f * f.conj() + g * g.conj())
    n = len(k)
    return q20(float(np.max(np.abs((np.fft.ifft(k) * np.exp(1j * np.pi * np.arange(n) / n)).real))) * 2**20)


def run(env, sess):
    import random
    for g in sess["gen"]:
        op = g["op"]
        if op == "ring":
            a = {"impl": g["impl"], "f": g["f"], "n": g["n"], "p": g["p"], "c": g["c"]}
            if g["impl"] == "c":
                env.call("ring", a, lambda: c_op(capi.get(env), g["f"], g["n"], g["p"], g["c"]))
            else:
                env.call("ring", a, lambda: py_op(g["f"], g["n"], g["p"], g["c"]))
        elif op == "map":
            def mp():
                n = g["n"]
                x = [0] * n
                x[1] = 1
                v = transform(env, g["impl"], x)
                return {"k": [int(round(n * math.atan2(c.imag, c.real) / math.pi)) % (2 * n) for c in v]}
            env.call("map", {"impl": g["impl"], "n": g["n"]}, mp)
        elif op == "value":
            def val():
                import fprdrv
                n = g["n"]
                x = [0] * n
                x[1] = 1
                r, v = transform(env, g["impl"], x)[g["j"]], transform(env, g["impl"], g["x"])[g["j"]]
                return {"k": int(round(n * math.atan2(r.imag, r.real) / math.pi)) % (2 * n),
                        "re": fprdrv.d8(v.real), "im": fprdrv.d8(v.imag)}
            env.call("value", {"impl": g["impl"], "n": g["n"], "x": g["x"]}, val)
        elif op == "tree":
            k = keydrv.generate(capi.get(env), g["n"], g["key"].to_bytes(8, "little"))
            env.call("tree", {"n": g["n"], "f": k["f"], "g": k["g"]}, lambda: tree(g["n"], k, random.Random(g["r"])))
        elif op == "leaf":
            def leaf():
                import falcon
                import fprdrv
                k = keydrv.generate(capi.get(env), g["n"], g["key"].to_bytes(8, "little"))
                sk = falcon.SecretKey(g["n"], polys=[k["f"], k["g"], k["F"], k["G"]])
                v = [complex(x).real for x in leaves(sk.T_fft)]
                # sigma / sqrt(leaf of the plain tree)
                return {"min": fprdrv.d8(min(v)), "max": fprdrv.d8(max(v)), "count": len(v),
                        "det": q20(sum(math.log2(falcon.Params[g["n"]]["sigma"] / x) for x in v) * 2**11 / g["n"])}
            env.call("leaf", {"n": g["n"]}, leaf)
        elif op == "field":
            p = [[int(v) for v in x] for x in g["p"]]

            def fld():
                z = field(g["f"], p)
                return {"z": z, "big": shrunk(p, z) if g["f"] == "reduce" else 0}
            env.call("field", {"f": g["f"], "p": [zp(x) for x in p]}, fld)
        elif op == "solve":
            # a pair the C key generation accepted
            k = keydrv.generate(capi.get(env), g["n"], g["key"].to_bytes(8, "little"))
            p = [k["f"], k["g"]]
            env.call("field", {"f": "solve", "p": [zp(x) for x in p]}, lambda: {"z": field("solve", p), "big": 0})
        elif op == "gs":
            def gs():
                import fprdrv
                import ntrugen
                return {"z": fprdrv.d8(float(ntrugen.gs_norm(list(g["f"]), list(g["g"]), g["q"])))}
            env.call("gs", {"f": g["f"], "g": g["g"], "q": g["q"]}, gs)


def transform(env, impl, x):
    n = len(x)
    if impl == "py":
        import fft
        return [complex(v) for v in fft.fft(list(x))]
    v = c_fft(capi.get(env), "t", x).get()
    return [complex(v[i], v[i + n // 2]) for i in range(n // 2)]
