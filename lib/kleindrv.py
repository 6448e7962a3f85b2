"""Drives the signing engines below the message layer."""
import capi
import keydrv
import pydrv


def shifted(k, c, i):
    """The same lattice with c x^i (f, g) added to (F, G)."""
    def add(F, f):
        n = len(F)
        out = list(F)
        for j, v in enumerate(f):
            p = (i + j) % (2 * n)
            out[p % n] += c * v if p < n else -c * v
        return out
    F, G = add(k["F"], k["f"]), add(k["G"], k["g"])
    if max(map(abs, F + G)) > 127:
        return k
    return dict(k, F=F, G=G)


def run(env, sess):
    n = sess["n"]
    key = tuple(sess["key"])
    if ("klein", key) not in env.cache:
        k = keydrv.generate(capi.get(env), n, bytes(key[2:]))
        k = shifted(k, key[0] - 3, key[1])
        env.cache["klein", key] = {x: keydrv.ints(k[x]) for x in "fgFG"}
    k = env.cache["klein", key]
    for g in sess["gen"]:
        a = dict(k, n=n, hm=g["hm"], seed=g["seed"])
        if g["op"] == "sign":
            lib = capi.get(env, g["lib"])
            env.call("sign", dict(a, impl=g["lib"], tree=g["tree"]),
                     lambda: keydrv.raw_sign(lib, n, k, g["hm"], g["seed"], tree=g["tree"]))
            continue

        def pre():
            S = env.cache.get(("kleinpy", key))
            if S is None:
                S = pydrv.classes()["falcon"][0](n, polys=[list(k[x]) for x in "fgFG"])
                env.cache["kleinpy", key] = S
            if g["how"] == "seed":
                s = S.sample_preimage(list(g["hm"]), seed=bytes(g["seed"]))
                used = 0
            else:
                t = pydrv.Tape(bytes(g["seed"]))
                s = S.sample_preimage_with_prng(list(g["hm"]), t)
                used = t.pos
            return {"s1": keydrv.ints(s[0]), "s2": keydrv.ints(s[1]), "used": used}
        env.call("pre", dict(a, how=g["how"]), pre)
