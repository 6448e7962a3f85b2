"""Drives the encoders and decoders of the C library and of pythonref."""
import ctypes as C
import random

import capi

Q = 12289
# name in C -> (format, width or None, element packer, unpacker)
CENC = {("modq", 14): "modq_encode", ("modq", 16): "modq_encode16", ("comp", 0): "comp_encode",
        ("comp16", 16): "comp_encode16"}
CDEC = {("modq", 14): "modq_decode", ("modq", 16): "modq_decode16", ("comp", 0): "comp_decode",
        ("comp16", 16): "comp_decode16"}


def pack(f, x, i8=False):
    if f == "modq":
        return capi.u16(x)
    return capi.i8(x) if i8 else capi.i16(x)


def unpack(f, b, i8=False):
    if f == "modq":
        return capi.un_u16(b)
    return capi.un_i8(b) if i8 else capi.un_i16(b)


def c_enc(env, f, w, logn, x, mx, i8=False):
    lib = capi.get(env)
    xb = lib.inb("x", pack(f, x, i8))
    o = lib.buf("o", max(mx, 0))
    ptr = C.c_void_p(0) if mx < 0 else o.p
    args = [ptr, capi.size_t(max(mx, 0)), xb.p, C.c_uint(logn)]
    if f == "trim":
        fn = lib.f("trim_i8_encode" if i8 else "trim_i16_encode", C.c_size_t)
        args.append(C.c_uint(w))
    else:
        fn = lib.f(CENC[(f, w)], C.c_size_t)
    n = fn(*args)
    bad = []
    if o.under():
        bad.append("before the output")
    if n and mx >= 0 and o.touched(n):
        bad.append("past the encoding")
    return {"n": int(n), "out": list(o.get(min(n, max(mx, 0)))) if n and mx >= 0 else [], "bad": bad}


def c_dec(env, f, w, logn, s, i8=False):
    lib = capi.get(env)
    n = 1 << logn
    sb = lib.inb("s", s)
    x = lib.buf("xo", n * (1 if i8 else 2))
    args = [x.p, C.c_uint(logn)]
    if f == "trim":
        fn = lib.f("trim_i8_decode" if i8 else "trim_i16_decode", C.c_size_t)
        args.append(C.c_uint(w))
    else:
        fn = lib.f(CDEC[(f, w)], C.c_size_t)
    k = fn(*(args + [sb.p, capi.size_t(len(s))]))
    return {"n": int(k), "x": unpack(f, x.get(), i8) if k else [], "bad": ["under"] if x.under() else []}


def py_try(fn):
    try:
        return fn()
    except ValueError:
        return None


def run(env, sess):
    import encoding
    import falcon
    import falcon_codec
    for ev in sess["gen"]:
        op = ev["op"]
        a = {k: v for k, v in ev.items() if k not in ("op", "i8", "logn")}
        i8 = ev.get("i8", False)
        if op == "enc":
            env.call(op, a, lambda: c_enc(env, ev["f"], ev["w"], ev["logn"], ev["x"], ev["max"], i8))
        elif op == "dec":
            a["n"] = 1 << ev["logn"]
            env.call(op, a, lambda: c_dec(env, ev["f"], ev["w"], ev["logn"], bytes(ev["s"]), i8))
        elif op == "pyenc":
            def f():
                n = len(ev["x"])
                o = py_try(lambda: falcon_codec.modq_encode(list(ev["x"]), n) if ev["f"] == "modq"
                           else falcon_codec.trim_i8_encode(list(ev["x"]), n, ev["w"]))
                return {"ok": o is not None, "out": list(o or b"")}
            env.call(op, a, f)
        elif op == "pydec":
            def f():
                o = py_try(lambda: falcon_codec.modq_decode(bytes(ev["s"]), ev["n"]) if ev["f"] == "modq"
                           else falcon_codec.trim_i8_decode(bytes(ev["s"]), ev["n"], ev["w"]))
                return {"ok": o is not None, "x": [int(v) for v in o or []]}
            env.call(op, a, f)
        elif op == "from_bytes":
            def f():
                o = py_try(lambda: falcon.PublicKey.from_bytes(bytes(ev["s"])))
                return {"ok": o is not None, "n": o.n if o else 0, "x": [int(v) for v in o.pk] if o else []}
            env.call(op, a, f)
        elif op == "compress":
            def f():
                o = encoding.compress(list(ev["x"]), ev["slen"])
                return {"ok": o is not False, "out": list(o) if o is not False else []}
            env.call(op, a, f)
        elif op == "decompress":
            def f():
                o = encoding.decompress(bytes(ev["s"]), ev["slen"], ev["n"])
                return {"ok": o is not False, "x": [int(v) for v in o] if o is not False else []}
            env.call(op, a, f)
        elif op == "decode16":
            def f():
                o = py_try(lambda: encoding.decode16(bytes(ev["s"]), ev["n"]))
                return {"ok": o is not None, "x": [int(v) for v in o or []]}
            env.call(op, a, f)


# ------------------------------------------------------------------ inputs
def bits_pack(fields):
    """[(value, width)] -> bytes, zero padded"""
    acc = nb = 0
    for v, w in fields:
        acc = (acc << w) | (v & ((1 << w) - 1))
        nb += w
    pad = -nb % 8
    return (acc << pad).to_bytes((nb + pad) // 8, "big")


def comp_bytes(xs, pad=0):
    f = []
    for v in xs:
        f += [(1 if v < 0 else 0, 1), (abs(v) & 127, 7), (1, (abs(v) >> 7) + 1)]
    b = bits_pack(f)
    return b + bytes(max(0, pad - len(b)))


def mutate(rng, b):
    """A string near a valid one."""
    b = bytearray(b)
    k = rng.randrange(9)
    if k == 0 and b:
        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
    elif k == 1 and b:
        b[-1] ^= 1 << rng.randrange(8)
    elif k == 2 and b:
        del b[-1]
    elif k == 3:
        b += rng.randbytes(rng.choice([1, 2, 5]))
    elif k == 4 and b:
        b[rng.randrange(len(b))] = rng.choice([0, 0x80, 0xFF, 0xC0])
    elif k == 5 and len(b) > 1:
        i = rng.randrange(len(b) - 1)
        b[i:i + 2] = rng.choice([12288, 12289, 12290, 32767, 32768, 65535, 16383]).to_bytes(2, "big")
    elif k == 6:
        b += bytes(rng.choice([1, 2, 8]))
    elif k == 7 and b:
        del b[rng.randrange(len(b)):]
    return bytes(b)


def chunks(evs, k=6):
    return [{"kind": "codec", "gen": evs[i:i + k]} for i in range(0, len(evs), k)]
