"""Driver for the random generators (C and Python)."""
import ctypes as C
import hashlib

import capi


def run(env, sess):
    obj = {}
    for g in sess["gen"]:
        op, c = g[0], g[1]
        if op in ("dr_init", "dr_gen", "sx_init", "sx", "dr_update"):
            impl = g[2]
            lib = capi.get(env, "kat")
            if op == "dr_init":
                ent, pers = bytes(g[3]), bytes(g[4])

                def do():
                    if impl == "c":
                        e = lib.inb("e", ent)
                        p = lib.inb("p", pers + bytes(48 - len(pers))) if g[5] else None
                        lib.f("randombytes_init", None)(e.p, p.p if p else None, C.c_int(256))
                        return {"ok": True}
                    from drbg.aes256_ctr_drbg import AES256_CTR_DRBG
                    try:
                        obj[c] = AES256_CTR_DRBG(ent, pers) if g[5] else AES256_CTR_DRBG(ent)
                    except ValueError:
                        return {"ok": False}
                    return {"ok": True}
                env.call(op, {"c": c, "entropy": list(ent), "pers": list(pers)}, do)
            elif op == "dr_gen":
                n, add = g[3], bytes(g[4])

                def do():
                    if impl == "c":
                        b = lib.buf("x", n)
                        rc = lib.f("randombytes")(b.p, C.c_ulonglong(n))
                        return {"ok": rc == 0, "out": list(b.get()), "bad": ["under"] if b.under() else []}
                    try:
                        o = obj[c].random_bytes(n, add) if add else obj[c].random_bytes(n)
                    except ValueError:
                        return {"ok": False, "out": [], "bad": []}
                    return {"ok": True, "out": list(o), "bad": []}
                env.call(op, {"c": c, "n": n, "add": list(add)}, do)
            elif op == "dr_update":
                key, v, data = bytes(g[3]), bytes(g[4]), bytes(g[5])

                def do():
                    k, vv = lib.inb("k", key), lib.inb("v", v)
                    d = lib.inb("d", data) if data else None
                    lib.f("AES256_CTR_DRBG_Update", None)(d.p if d else None, k.p, vv.p)
                    return {"key": list(k.get()), "v": list(vv.get())}
                env.call(op, {"c": c, "key": list(key), "v": list(v), "data": list(data)}, do)
            elif op == "sx_init":
                seed, div, ml = bytes(g[3]), bytes(g[4]), g[5]

                def do():
                    obj[c] = C.create_string_buffer(bytes([0x33]) * lib.f("hx_sizeof_xof", C.c_size_t)())
                    s, d = lib.inb("s", seed), lib.inb("d", div)
                    return {"rc": lib.f("seedexpander_init")(obj[c], s.p, d.p, C.c_ulong(ml))}
                env.call(op, {"c": c, "seed": list(seed), "div": list(div), "toolong": ml >= 1 << 32,
                              "maxlen": ml if ml < 1 << 31 else (1 << 31) - 1,
                              "be": list((ml & 0xffffffff).to_bytes(4, "big"))}, do)
            else:
                n = g[3]

                def do():
                    b = lib.buf("x", n)
                    rc = lib.f("seedexpander")(obj[c], b.p, C.c_ulong(n))
                    t = b.touched() if rc else 0
                    return {"rc": rc, "out": list(b.get()) if rc == 0 else [], "touched": t,
                            "bad": ["under"] if b.under() else []}
                env.call(op, {"c": c, "n": n}, do)
            continue
        lib = capi.get(env, "c")
        if op == "cc_init":
            seed = bytes(g[2])

            def do():
                ctx = C.create_string_buffer(lib.f("hx_sizeof_shake", C.c_size_t)())
                lib.f("hx_shake_init")(ctx)
                b = lib.inb("in", seed)
                lib.f("hx_shake_inject")(ctx, b.p, capi.size_t(len(seed)))
                lib.f("hx_shake_flip")(ctx)
                obj[c] = C.create_string_buffer(lib.f("hx_sizeof_prng", C.c_size_t)())
                lib.f("prng_init", None)(obj[c], ctx)
                return {}

            def raw():                       # the 56 bytes are given, not drawn
                ctx = C.create_string_buffer(lib.f("hx_sizeof_shake", C.c_size_t)())
                lib.f("hx_shake_init")(ctx)
                lib.f("hx_shake_flip")(ctx)
                obj[c] = C.create_string_buffer(lib.f("hx_sizeof_prng", C.c_size_t)())
                lib.f("hx_force", None)(seed, capi.size_t(56))
                lib.f("prng_init", None)(obj[c], ctx)
                left = lib.f("hx_forced_left", C.c_size_t)()
                lib.f("hx_force", None)(b"", capi.size_t(0))
                return {"left": left}
            if len(seed) == 56:
                r = env.call(op, {"c": c, "seed": list(seed)}, raw)
                if r.get("left"):            # seeded in some other way: choose nothing
                    return
                continue
            env.call(op, {"c": c, "seed": list(hashlib.shake_256(seed).digest(56))}, do)
        elif op == "pc_init":
            seed = bytes(g[2])

            def do():
                from rng import ChaCha20
                obj[c] = ChaCha20(seed)
                return {}
            env.call(op, {"c": c, "seed": list(seed)}, do)
        elif op == "u64":
            env.call(op, {"c": c}, lambda: {"out": list(int(lib.f("hx_prng_get_u64", C.c_uint64)(obj[c])).to_bytes(8, "little"))})
        elif op == "u8":
            env.call(op, {"c": c}, lambda: {"out": [lib.f("hx_prng_get_u8")(obj[c]) & 0xFFFFFFFF]})
        elif op == "bytes":
            def do():
                b = lib.buf("x", g[2])
                lib.f("prng_get_bytes", None)(obj[c], b.p, capi.size_t(g[2]))
                return {"out": list(b.get()), "bad": ["under"] if b.under() else []}
            env.call(op, {"c": c, "n": g[2]}, do)
        elif op == "pbytes":
            env.call(op, {"c": c, "n": g[2]}, lambda: {"out": list(obj[c].randombytes(g[2]))})
