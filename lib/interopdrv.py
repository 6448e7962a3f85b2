"""Drives the C and the Python implementation with the same inputs."""
import capi
import keydrv
import pydrv
import ring
from codecdrv import bits_pack


def sk_bytes(k):
    return b"\x59" + b"".join(bits_pack([(v % (1 << w), w) for v in k[c]]) for c, w in (("f", 6), ("g", 6), ("F", 8)))


def run(env, sess):
    lib = capi.get(env)
    key = sess.get("key")
    if key is not None:
        k, S = pydrv.secret(env, "falcon", 512, key)
        skb = sk_bytes(k)
        h = [int(v) for v in ring.mul(k["g"], ring.intt(ring.inv(ring.ntt(k["f"]))))]
        pk = b"\x09" + bits_pack([(v, 14) for v in h])
        pkz = b"\x09" + bits_pack([(int(v), 16) for v in ring.ntt(h)])
    for g in sess["gen"]:
        op = g["op"]
        if op == "keys":
            import ntrugen
            from polyntt.poly import Poly

            def both():
                n = g["n"]
                c = keydrv.generate(lib, n, g["seed"])
                f, gg, F, G = ntrugen.ntru_gen(n, randombytes=keydrv.Stream(g["seed"]), logn=n.bit_length() - 1)
                hh = (Poly(gg, ring.Q) / Poly(f, ring.Q)).coeffs
                return {"c": {x: c[x] for x in ("f", "g", "F", "G", "h")},
                        "p": {x: keydrv.ints(y) for x, y in (("f", f), ("g", gg), ("F", F), ("G", G), ("h", hh))}}
            env.call("keys", {"n": g["n"], "seed": g["seed"]}, both)
            continue
        if op == "sgn":
            retries(env, lib, g)
            continue
        xof, m, tape = g["xof"], bytes(g["m"]), bytes(g["tape"])
        cl = capi.get(env, "ceth" if xof == "keccak" else "c")
        X = pydrv.xofs()[xof]
        a = {"xof": xof, "f": k["f"], "g": k["g"], "m": list(m), "tape": list(tape)}
        if op == "csign":
            r = env.call("csign", dict(a, v=g["v"]), lambda: capi.sign(cl, g["v"], m, skb, tape))
            sm = bytes(r["sm"])
            if r["rc"] == 0 and g["v"] == "std":
                sig = b"\x29" + sm[2:42] + sm[42 + len(m) + 1:]
                if g.get("pad"):
                    sig += bytes(max(0, 666 - len(sig)))
                if g.get("flip") is not None:
                    i = g["flip"] % len(sig)
                    sig = sig[:i] + bytes([sig[i] ^ 4]) + sig[i + 1:]
                pydrv_check(env, h, m, sig, xof, X)
                import falcon

                def fb():
                    try:
                        return {"ok": True, "h": keydrv.ints(falcon.PublicKey.from_bytes(pk).pk)}
                    except ValueError:
                        return {"ok": False, "h": []}
                env.call("frombytes", {"pk": list(pk)}, fb)
        else:
            def ps():
                t = pydrv.Tape(tape)
                return {"sig": list(S.sign(m, randombytes=t, xof=X)), "draws": t.draws}
            r = env.call("psign", a, ps)
            sig = bytes(r["sig"])
            body = sig[41:].rstrip(b"\0")
            if g.get("flip") is not None:
                i = g["flip"] % len(body)
                body = body[:i] + bytes([body[i] ^ 4]) + body[i + 1:]
            for v, p in (("std", pk), ("zk", pkz)):
                if v == "std":
                    es = b"\x29" + body
                else:
                    import encoding
                    s2 = encoding.decompress(body, 625, 512)
                    if s2 is False:
                        continue
                    es = b"\x29" + bits_pack([(x % ring.Q, 16) for x in s2])
                sm = len(es).to_bytes(2, "big") + sig[1:41] + m + es
                env.call("copen", {"v": v, "xof": xof, "sm": list(sm), "pk": list(p)},
                         lambda: capi.sign_open(cl, v, sm, p))


def retries(env, lib, g):
    """The signing engines of C (two) and Python at a degree where many attempts are too long."""
    n, xof = g["n"], g["xof"]
    k, S = pydrv.secret(env, "falcon", n, g["key"])
    m, salt, seed = bytes(g["m"]), bytes(g["salt"]), bytes(g["seed"])
    X = pydrv.xofs()[xof]

    def both():
        hm = ring.point(xof, salt, m, n)
        # where a centre is an integer up to rounding, floor() may give either neighbour
        import ffsampling
        near, real = [], getattr(ffsampling, "samplerz", None)

        def watch(mu, *aa, **kw):
            near.append(abs(mu - round(mu)) < 1e-7)
            return real(mu, *aa, **kw)
        if real:
            ffsampling.samplerz = watch
        try:
            sig = S.sign(m, randombytes=pydrv.Tape(salt + seed), xof=X)
        finally:
            if real:
                ffsampling.samplerz = real
        return {"near": any(near), "c": keydrv.raw_sign(lib, n, k, hm, seed), "t": keydrv.raw_sign(lib, n, k, hm, seed, tree=True),
                "sig": list(sig)}
    env.call("sgn", {"n": n, "xof": xof, "f": k["f"], "g": k["g"], "m": list(m), "salt": list(salt),
                     "seed": list(seed)}, both)


def pydrv_check(env, h, m, sig, xof, X):
    import falcon

    def ver():
        try:
            r = falcon.PublicKey(512, list(h)).verify(m, sig, xof=X)
        except ValueError:
            r = False
        return {"ok": bool(r)}
    env.call("pverify", {"h": h, "m": list(m), "sig": list(sig), "xof": xof}, ver)
