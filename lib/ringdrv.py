"""Drives the ring and norm functions of the C core."""
import ctypes as C

import capi


def run(env, sess):
    lib = capi.get(env)
    for g in sess["gen"]:
        op, a = g["op"], g["a"]
        n = len(a["x"])
        logn = C.c_uint(n.bit_length() - 1)

        def call():
            ins, outs = [], []

            def inp(name, b):
                ins.append((lib.inb(name, b), b))
                return ins[-1][0]

            def out(name, k):
                outs.append(lib.buf(name, k))
                return outs[-1]
            rc, y = 1, []
            if op in ("to_ntt", "to_ntt_monty"):
                b = lib.inb("x", capi.u16(a["x"]))
                lib.f(op, None)(b.p, logn)
                outs.append(b)
                y = capi.un_u16(b.get())
            elif op == "compute_public":
                f, gg = inp("x", capi.i8(a["x"])), inp("y", capi.i8(a["y"]))
                h, t = out("h", 2 * n), out("tmp", 4 * n)
                rc = lib.f(op)(h.p, f.p, gg.p, logn, t.p)
                y = capi.un_u16(h.get())
            elif op == "complete_private":
                f, gg, F = inp("x", capi.i8(a["x"])), inp("y", capi.i8(a["y"])), inp("z", capi.i8(a["z"]))
                G, t = out("h", n), out("tmp", 4 * n)
                rc = lib.f(op)(G.p, f.p, gg.p, F.p, logn, t.p)
                y = capi.un_i8(G.get())
            elif op == "verify_raw":
                h = lib.inb("h", capi.u16(a["z"]))
                lib.f("to_ntt_monty", None)(h.p, logn)
                c, s2, t = inp("x", capi.u16(a["x"])), inp("y", capi.i16(a["y"])), out("tmp", 2 * n)
                hb = h.get()
                rc = lib.f(op)(c.p, s2.p, h.p, logn, t.p)
                ins.append((h, hb))
            elif op in ("recover", "recover_ntt"):
                c, s1, s2 = inp("x", capi.u16(a["x"])), inp("y", capi.i16(a["y"])), inp("z", capi.i16(a["z"]))
                h, t = out("h", 2 * n), out("tmp", 2 * n)
                rc = lib.f("verify_recover" if op == "recover" else "verify_recover_epervier")(
                    h.p, c.p, s1.p, s2.p, logn, t.p)
                y = capi.un_u16(h.get())
            elif op in ("is_invertible", "count_nttzero"):
                s, t = inp("x", capi.i16(a["x"])), out("tmp", 2 * n)
                rc = lib.f(op)(s.p, logn, t.p)
            elif op == "hint":
                s = inp("x", capi.i16(a["x"]))
                rc = lib.f("hint_epervier", C.c_uint16)(s.p, logn)
            elif op == "is_short":
                s1, s2 = inp("x", capi.i16(a["x"])), inp("y", capi.i16(a["y"]))
                rc = lib.f(op)(s1.p, s2.p, logn)
            elif op == "is_short_half":
                s2 = inp("x", capi.i16(a["x"]))
                rc = lib.f(op)(C.c_uint32(a["hi"] << 16 | a["lo"]), s2.p, logn)
            bad = []
            for b, d in ins:
                if b.get() != d:
                    bad.append("input modified")
            for b in [b for b, _ in ins] + outs:
                if b.under():
                    bad.append("wrote before a buffer")
            return {"rc": int(rc), "y": y, "bad": bad}
        env.call(op, a, call)
