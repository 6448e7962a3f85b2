"""Drives the Gaussian samplers of C and Python on chosen random bytes."""
import ctypes as C

import capi


def c_ctx(lib, tape, smin=0.0):
    import numpy as np
    k = lambda f: lib.f(f, C.c_size_t)()     # noqa: E731
    size = k("hx_sizeof_sampler")
    off, mn, ptr, buf = k("hx_off_sampler_prng"), k("hx_off_sampler_min"), k("hx_off_prng_ptr"), k("hx_off_prng_buf")
    raw = bytearray(size)
    raw[mn:mn + 8] = np.float64(smin).tobytes()
    raw[off + buf:off + buf + len(tape)] = bytes(tape)
    raw[off + ptr:off + ptr + 8] = (0).to_bytes(8, "little")
    b = lib.buf("sampler", size, raw)
    return b, off, off + ptr, off + buf


def used(b, po, bo, tape):
    raw = b.get()
    if raw[bo:bo + len(tape)] != bytes(tape):
        return -1
    return int.from_bytes(raw[po:po + 8], "little")


def run(env, sess):
    for g in sess["gen"]:
        impl, tape = g["impl"], bytes(g["tape"])

        class Tape:
            pos = 0

        def rb(n):
            if Tape.pos + n > len(tape):
                raise EOFError("tape")
            Tape.pos += n
            return tape[Tape.pos - n:Tape.pos]
        if g["op"] == "base":
            def base():
                if impl == "c":
                    lib = capi.get(env)
                    b, o, po, bo = c_ctx(lib, tape + bytes(64))
                    z = lib.f("gaussian0_sampler", C.c_int)(C.c_void_p(b.addr + o))
                    return {"z": z, "used": used(b, po, bo, tape)}
                import samplerz
                return {"z": samplerz.basesampler(randombytes=rb), "used": Tape.pos}
            env.call("base", {"impl": impl, "u": list(tape[:9])}, base)
        else:
            import fprdrv
            a = {"impl": impl, "mu": fprdrv.d8(g["mu"]), "sg": fprdrv.d8(g["sg"]), "smin": fprdrv.d8(g["smin"]), "tape": list(tape)}

            def samp():
                if impl == "c":
                    lib = capi.get(env)
                    b, o, po, bo = c_ctx(lib, tape, g["smin"])
                    w = lambda v: C.c_uint64(int.from_bytes(bytes(fprdrv.d8(v)), "little"))     # noqa: E731
                    z = lib.f("sampler", C.c_int)(b.p, w(g["mu"]), w(g["sg"]))
                    return {"z": z, "used": used(b, po, bo, tape)}
                import samplerz
                try:
                    z = samplerz.samplerz(g["mu"], g["sg"], g["smin"], randombytes=rb)
                except EOFError:
                    return {"z": 0, "used": -1}
                return {"z": int(z), "used": Tape.pos}
            env.call("samp", a, samp)
