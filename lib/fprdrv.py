"""Drives the emulated floating point of the C core."""
import ctypes as C

import capi

OPS = ["add", "sub", "mul", "sqr", "div", "inv", "sqrt", "half", "double", "neg", "lt", "rint", "trunc", "floor",
       "of", "scaled", "expm"]
CONSTS = ["q", "inverse_of_q", "inv_2sqrsigma0", "inv_sigma", "sigma_min", "log2", "inv_log2", "bnorm_max", "zero",
          "one", "two", "onehalf", "invsqrt2", "invsqrt8", "ptwo31", "ptwo31m1", "mtwo31m1", "ptwo63m1", "mtwo63m1",
          "p2_tab", "gm_tab"]


def b8(x):
    return list(int(x % 2**64).to_bytes(8, "little"))


def d8(x):
    import struct
    return list(struct.pack("<d", x))


def run(env, sess):
    lib = capi.get(env, "cfp").lib
    fp, cst = lib.hx_fp, lib.hx_const
    fp.restype = cst.restype = C.c_uint64
    for g in sess["gen"]:
        if g[0] == "fp":
            _, f, x, y, k = g
            call = lambda: {"z": b8(fp(OPS.index(f), C.c_uint64(x % 2**64), C.c_uint64(y % 2**64), C.c_int(k)))}  # noqa: E731
            if f == "expm":
                env.call("expm", {"x": b8(x), "y": b8(y)}, call)
            else:
                env.call("fp", {"f": f, "x": b8(x), "y": b8(y), "k": k}, call)
        elif g[0] == "root":
            env.call("root", {"i": g[1]}, lambda: {"re": b8(cst(20, 2 * g[1])), "im": b8(cst(20, 2 * g[1] + 1))})
        elif g[0] == "const":
            env.call("const", {"c": g[1], "i": g[2]}, lambda: {"z": b8(cst(CONSTS.index(g[1]), g[2]))})
        elif g[0] == "py":
            import falcon
            P = falcon.Params[1 << g[1]]
            env.call("const", {"c": "py_sigma", "i": g[1]}, lambda: {"z": d8(P["sigma"])})
            env.call("const", {"c": "py_sigmin", "i": g[1]}, lambda: {"z": d8(P["sigmin"])})
            env.call("bound", {"i": g[1]}, lambda: {"z": int(P["sig_bound"])})
