"""On-chain transforms, packing and table deployment."""
import random

import soldrv as sd

NEEDS = ["sol"]
SPEC = "EvmNttTrace"
RULE = "an event is one call of a function or of the contract; distinct by operation and arguments"
ASSUMPTIONS = ["no Solidity compiler is installed: the code is compiled to Python by lib/sol, which runs the "
               "repository's own 80 Solidity tests correctly", "vectors to invert or subtract are reduced, and products of "
               "unreduced values are taken only where the functions reduce them"]
EVENT_TIMEOUT = 120
run = sd.run
Q = 12289
#        modulus, root of -1 of the largest degree, that degree
FIELDS = [(12289, 49, 512), (7681, None, 256), (8380417, 1753, 256), (17, 3, 8), (257, 3, 128), (40961, None, 512),
          (3329, 17, 128), (97, None, 16)]


def models(tier):
    c = "INIT Init\nNEXT Next\nINVARIANT Root\nINVARIANT Evaluates\nINVARIANT Inverts\nINVARIANT Product\nCONSTANTS\n"
    f = "INIT Init\nNEXT Next\nINVARIANT InForce\nINVARIANT Frozen\nCONSTANTS\nCfgs = {1,2}\n"
    return [{"module": "MC_NttTree", "name": "n2", "cfg": c + "W = 1\nM = 17\nR = 4\n", "bounds": "all vectors of degree 2 modulo 17"},
            {"module": "MC_NttTree", "name": "n4", "cfg": c + "W = 2\nM = 17\nR = 2\n", "bounds": "all vectors of degree 4 modulo 17"},
            {"module": "MC_NttCfg", "name": "all", "cfg": f + "MaxOps = 8\nEmit = FALSE\n", "bounds": "two configurations, 8 operations"},
            {"module": "MC_NttCfg", "name": "emit", "emit": "cfg", "workers": 1,
             "cfg": f + "MaxOps = %d\nEmit = TRUE\n" % (5 if tier == "quick" else 6),
             "bounds": "two configurations, every behaviour replayed"}]


def root(q, n):
    for x in range(2, q):
        if pow(x, n, q) == q - 1:
            return x


def rev(k, w):
    return int(bin(k)[2:].zfill(w)[::-1], 2) if w else 0


def table(psi, w, q):
    return [pow(psi, rev(k, w), q) for k in range(1 << w)]


def field(rng, small=False):
    q, psi, top = rng.choice(FIELDS)
    psi = psi or root(q, top)
    w = rng.randrange(1, top.bit_length())
    if small:
        w = min(w, 3)
    if rng.random() < 0.2:
        w = top.bit_length() - 1
    if q == 8380417 and not small:
        w = 8
    psi = pow(psi, top >> w, q)
    if w and rng.random() < 0.5:
        psi = pow(psi, rng.randrange(1, 2 << w, 2), q)
    return q, w, table(psi, w, q), table(pow(psi, -1, q), w, q), pow(1 << w, -1, q)


def vec(rng, n, q):
    k = rng.randrange(6)
    if k == 0:
        return [q - 1] * n
    if k == 1:
        x = [0] * n
        x[rng.randrange(n)] = rng.choice([1, q - 1, rng.randrange(q)])
        return x
    if k == 2:
        return [rng.choice([0, 1, q - 1, q // 2, q // 2 + 1]) for _ in range(n)]
    return [rng.randrange(q) for _ in range(n)]


def salt(rng):
    return list(rng.choice([rng.randbytes(32), bytes(32), bytes(31) + b"\1"]))


def use(rng, c, n, q, tabs):
    """One call on the stored configuration."""
    g = rng.choice(["fw", "inv", "halfmul", "mul"])
    d = {"op": "st", "c": c, "g": g, "v": rng.randrange(2), "a": vec(rng, n, q), "b": vec(rng, n, q), "tab": 0}
    if g in ("fw", "inv"):
        d["b"], d["tab"] = [], tabs[g == "inv"]
    elif rng.random() < 0.1:
        d["b"] = rng.choice([d["b"][:-1], d["b"] + [0], []]) if g == "halfmul" else d["b"] + d["b"]
    return d


def configs(rng, ops):
    """Replays a behaviour of the configuration model: two configurations of small degree, which may share the
    modulus, the tables or the final factor."""
    cf, gen = [], []
    rel = rng.choice(["field", "field", "any", "any", "factor", "tables"])
    while True:
        two = [field(rng, True), field(rng, True)]
        if rel == "any" or two[0][0] == two[1][0]:
            break
    if rel == "tables":
        two[1] = two[0][:2] + (two[0][3], two[0][2], two[0][4])      # another root of the same degree
    if rel == "factor":
        two[1] = two[0][:4] + (rng.randrange(two[0][0]),)
    for q, w, T, TI, f in two:
        gen += [{"op": "poly", "salt": list(rng.randbytes(32)), "x": T}, {"op": "poly", "salt": list(rng.randbytes(32)), "x": TI}]
        cf.append((q, f, 1 << w))
    for o, k in ops:
        d = {"fw": 2 * k - 2, "inv": 2 * k - 1, "q": cf[k - 1][0], "nm1": cf[k - 1][1]} if k else {}
        if o == "new":
            gen.append(dict(d, op="new"))
        elif o == "update":
            gen.append(dict(d, op="update", c=1))
        elif o == "lock":
            gen.append({"op": "lock", "c": 1})
        else:
            gen.append({"op": "get", "c": 1})
            q, n = cf[k - 1][0], cf[k - 1][2]
            g = rng.choice(["halfmul", "mul", "inv"])
            gen.append({"op": "st", "c": 1, "g": g, "v": rng.randrange(2), "a": vec(rng, n, q),
                        "b": [] if g == "inv" else vec(rng, n, q), "tab": 2 * k - 1 if g == "inv" else 0})
    gen.append({"op": "get", "c": 1})
    n = cf[0][2]
    gen.append({"op": "sl", "c": 1, "g": "inv", "v": 0, "a": vec(rng, n, Q), "b": [], "q": Q})
    return {"kind": "ntt", "w": 1, "gen": gen}


def contract(rng):
    gen, cs, npoly = [], [], 0
    for _ in range(rng.choice([1, 1, 2])):
        q, w, T, TI, f = field(rng)
        if rng.random() < 0.1:
            T = [rng.randrange(q) for _ in T]
        gen += [{"op": "poly", "salt": salt(rng), "x": T + [7] * rng.choice([0, 0, 3])}, {"op": "poly", "salt": salt(rng), "x": TI}]
        gen.append({"op": "new", "fw": npoly, "inv": npoly + 1, "q": q, "nm1": f})
        cs.append((q, w, npoly))
        npoly += 2
    for _ in range(4):
        c = rng.randrange(len(cs))
        q, w, p = cs[c]
        gen.append(use(rng, c + 1, 1 << w, q, (p, p + 1)))
    return {"kind": "ntt", "w": 6, "gen": gen}


def packed(rng):
    T, TI = table(49, 9, Q), table(pow(49, -1, Q), 9, Q)
    gen = [{"op": "poly", "salt": salt(rng), "x": T}, {"op": "poly", "salt": salt(rng), "x": TI},
           {"op": "new", "fw": 0, "inv": 1, "q": Q, "nm1": 12265}]
    for _ in range(2):
        gen.append({"op": "stc", "c": 1, "a": vec(rng, 512, Q), "b": vec(rng, 512, Q)})
    return {"kind": "ntt", "w": 8, "gen": gen}


def stateless(rng):
    """The built-in tables serve every degree up to 512 with the stored final factor."""
    gen = []
    for c in (1, 2):
        n = 1 << rng.choice([9, 9, 8, 5, 3, 2, 1, 0, rng.randrange(10)])
        gen.append({"op": "new", "fw": -1, "inv": -1, "q": rng.choice([Q, 17]), "nm1": pow(n, -1, Q)})
        for _ in range(3):
            g = rng.choice(["fw", "inv", "halfmul", "mul", "vmul", "vadd", "vsub"])
            q = rng.choice([Q, Q, Q, 7681, 8380417, 2, 3])
            a, b = vec(rng, n, q), vec(rng, n, q)
            if g[0] == "v":
                k = rng.choice([n, 0, 1, 3, 17])
                a, b = vec(rng, k, q) if k else [], vec(rng, k, q) if k else []
                if g != "vsub" and rng.random() < 0.4:
                    a = [rng.randrange(1 << 30) for _ in a]
                    b = [rng.randrange(1 << 30) for _ in b]
            d = {"op": "sl", "c": c, "g": g, "v": rng.randrange(2), "q": q, "a": a, "b": b}
            if g in ("fw", "inv"):
                d["b"] = []
            elif rng.random() < 0.15:
                d["b"] = rng.choice([b + [0], b[:-1] if b else [1]])
            gen.append(d)
    return {"kind": "ntt", "w": 6, "gen": gen}


def functions(rng):
    gen = []
    w16 = lambda: rng.choice([0, 65535, 1, 32768, rng.randrange(65536), rng.randrange(65536)])
    lim = lambda k: [rng.choice([0, Q - 1, Q, Q + 1, 65535, rng.randrange(Q)]) if rng.random() < 0.01 else rng.randrange(Q) for _ in range(k)]
    for _ in range(14):
        o = rng.choice(["fw", "fw", "inv", "inv", "vmul", "halfmul", "compact", "expand", "swap", "range", "range", "packsig",
                        "packarr", "memcpy", "swap16", "dcompact"])
        d = {"op": "f_" + o, "a": vec(rng, 512, Q)}
        if o == "vmul":
            d["a"], d["b"] = [w16() for _ in range(512)], [w16() for _ in range(512)]
        elif o == "halfmul":
            d["b"] = vec(rng, 512, Q)
        elif o in ("compact", "expand", "packarr", "memcpy", "dcompact", "swap"):
            d["a"] = [w16() for _ in range(512)]
        elif o == "swap16":
            d["a"] = [w16() for _ in range(16)]
        elif o == "packsig":
            d["a"] = [w16() for _ in range(512)]
            d["salt"] = list(rng.randbytes(rng.choice([40, 40, 40, 39, 0, 32])))
        elif o == "range":
            d["packed"] = rng.random() < 0.6
            d["a"] = vec(rng, 512, Q)
            if rng.random() < 0.7:
                d["a"][rng.choice([0, 511, 15, 16, rng.randrange(512)])] = rng.choice([Q - 1, Q, Q + 1, 65535, 2 * Q, 2 * Q + 1])
            if not d["packed"] and rng.random() < 0.5:
                d["a"] = d["a"][:rng.choice([0, 1, 33, 511])]
        gen.append(d)
    return {"kind": "ntt", "w": 6, "gen": gen}


def deploy(rng):
    gen = []
    s1, s2 = list(rng.randbytes(32)), list(rng.randbytes(32))
    x = [rng.randrange(1 << 16) for _ in range(rng.choice([0, 1, 2, 31, 32, 512]))]
    for s, p in ((s1, x), (s2, x), (s1, x), (s1, x + [1]), (s1, [5] * rng.choice([767, 768, 769]))):
        gen.append({"op": "poly", "salt": s, "x": p})
    gen += [{"op": "tables", "salt": s1}, {"op": "tables", "salt": rng.choice([s1, s2])}]
    return {"kind": "ntt", "w": 3, "gen": gen}


def sessions(tier, seed, behav):
    rng = random.Random(seed)
    k = 3 if tier == "quick" else 30
    out = []
    for n, b in enumerate(behav["cfg"]):
        if tier != "quick" or n % 4 == seed % 4:
            out.append(configs(rng, b))
    for f, c in ((contract, 24), (packed, 4), (stateless, 30), (functions, 40), (deploy, 4)):
        out += [f(rng) for _ in range(c * k)]
    return out
