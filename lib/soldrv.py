"""Drives the contracts and the Solidity functions, and builds their inputs."""
import copy
import sys

import numpy as np

import ring
import signdrv

sys.setrecursionlimit(20000)
U = ("u", 256)
ARR = ("arr", U, None)
A32 = ("arr", U, 32)
MAGIC = "024ad318"
BOUND = 34034726
N = 512


def rt(env):
    m = env.cache.get("sol")
    if m is None:
        from sol import rt as m
        m.FILES[0] = env.ctx["repo"]
        exec(compile(open(env.ctx["sol"]).read(), "contracts", "exec"), m.__dict__)
        env.cache["sol"] = m
        m._F = {}
        for k, v in m.__dict__.items():
            if k.startswith("F_") and k.rsplit("_", 1)[1].isdigit():
                m._F[k[2:].rsplit("_", 1)[0]] = v
    return m


def words(lanes):
    return [sum(v << (16 * j) for j, v in enumerate(lanes[i:i + 16])) for i in range(0, len(lanes), 16)]


def lanes(ws):
    return [(w >> (16 * j)) & 65535 for w in ws for j in range(16)]


def be32(lane):
    return sum(v << (16 * j) for j, v in enumerate(lane)).to_bytes(32, "big")


def abi_words(ws):
    return b"".join(x.to_bytes(32, "big") for x in [32, len(ws)] + list(ws))


class World:
    def __init__(self, env):
        self.env = env
        self.m = rt(env)
        self.m.fresh()
        self.at = {}
        self.addrs = []                 # what setKey and deployments returned, by number
        self.ctx = {}
        self.insts = []                 # transform contracts
        self.m.MEM, self.m.SELF, self.m.CD = self.m.newmem(), None, b""

    def contract(self, c, args=()):
        k = (c,) + tuple(args)
        if k not in self.at:
            self.at[k] = self.m.new_contract(self.m.CONTRACTS[c], list(args))
        return self.at[k]

    def send(self, addr, c, name, args, types=None, n=None, rollback=False):
        """Returns the output, or None if the call reverted."""
        for sel, ts in self.m.CONTRACTS[c].METHODS[name]:
            if (types is None or list(ts) == types) and (n is None or len(ts) == n):
                break
        else:
            raise KeyError(name)
        o = self.m.ACCOUNTS[addr]
        old = copy.deepcopy((o.st, o.raw)) if rollback else None
        try:
            return self.m.message(addr, sel + self.m.enc_tuple(ts, args))
        except self.m.Revert:
            if rollback:
                o.st, o.raw = old
            return None

    def fn(self, name, *args):
        """A file-level function on memory pointers or values; None if it reverted."""
        m = self.m
        try:
            return (m._F[name](*args),)
        except m.Revert:
            return None

    def bytes_args(self, *bs):
        return [self.m.mem_bytes(bytes(b)) for b in bs]

    def ml(self, T, v):
        return self.m.to_mem(T, v)


CON = {"falcon": "ZKNOX_falcon", "ethfalcon": "ZKNOX_ethfalcon",
       "epervier": "ZKNOX_epervier", "ethepervier": "ZKNOX_ethepervier"}
XOF = {"falcon": "shake", "ethfalcon": "keccak", "epervier": "shake", "ethepervier": "keccak"}


def o_verify4(w, a):
    out = w.send(w.contract(CON[a["c"]]), CON[a["c"]], "verify",
                 [bytes(a["m"]), bytes(a["salt"]), words(a["s2"]), words(a["pk"])], n=4)
    if out is None:
        return {"ok": False}
    if out not in (bytes(32), bytes(31) + b"\1"):
        raise ValueError("not a boolean")
    return {"ok": out[31] == 1}


def o_setkey(w, a):
    out = w.send(w.contract(CON[a["c"]]), CON[a["c"]], "setKey", [bytes(a["blob"])], rollback=True)
    if out is None:
        return {"ptr": []}
    ptr = w.m.dec_tuple([("bytes",)], out, 0)[0]
    w.addrs.append(list(ptr))
    return {"ptr": list(ptr)}


def o_verify3(w, a):
    out = w.send(w.contract(CON[a["c"]]), CON[a["c"]], "verify",
                 [bytes(a["ptr"]), int.from_bytes(bytes(a["digest"]), "big"), bytes(a["sig"])], n=3)
    if out is not None and (len(out) != 32 or out[:4].hex() not in (MAGIC, "ffffffff") or any(out[4:])):
        raise ValueError("not an answer")
    return {"ok": out is not None and out[:4].hex() == MAGIC}


def o_recover(w, a):
    out = w.send(w.contract(CON[a["c"]]), CON[a["c"]], "recover",
                 [bytes(a["m"]), bytes(a["salt"]), words(a["s1"]), words(a["s2"]), words(a["hint"])[0]])
    if out is None:
        return {"addr": []}
    if len(out) != 32 or any(out[:12]):
        raise ValueError("not an address")
    return {"addr": list(out[12:])}


def o_h2p(w, a):
    r = w.fn("hashToPoint" + a["f"], *w.bytes_args(a["salt"], a["m"]))
    return {"x": [] if r is None else w.m.from_mem(ARR, r[0])}


F1600 = ("arr", ("u", 64), 25)


def o_f1600(w, a):
    p = w.ml(F1600, [int.from_bytes(bytes(a["st"][8 * i:8 * i + 8]), "little") for i in range(25)])
    r = w.fn("f1600", p)
    return {"st": [b for v in w.m.from_mem(F1600, r[0]) for b in int(v).to_bytes(8, "little")]}


def o_split(w, a):
    r = w.fn("splitToHex", int.from_bytes(bytes(a["x"]), "big"))
    return {"x": w.m.from_mem(("arr", ("u", 16), 16), r[0])}


def o_init(w, a):
    w.ctx[a["c"]] = w.fn("shakeInit")[0] if a["named"] else w.m.zero(("struct", "CtxShake"))
    if a["m"]:
        o_inject(w, a)
    return {"st": "ok"}


def o_inject(w, a):
    w.ctx[a["c"]] = w.fn("shakeUpdate", w.ctx[a["c"]], *w.bytes_args(a["m"]))[0]
    return {"st": "ok"}


def o_flip(w, a):
    w.ctx[a["c"]] = w.fn("shakePad", w.ctx[a["c"]])[0]
    return {"st": "ok"}


def o_extract(w, a):
    w.ctx[a["c"]], p = w.fn("shakeSqueeze", w.ctx[a["c"]], a["n"])[0]
    return {"st": "ok", "out": list(w.m.get_bytes(p)), "bad": []}


def o_digest(w, a):
    return {"out": list(w.m.get_bytes(w.fn("shakeDigest", w.ctx[a["c"]], a["n"])[0]))}


ST = {"fw": (["ZKNOX_NTTFW", "_ZKNOX_NTTFW"], [ARR, ("addr",)]), "inv": (["ZKNOX_NTTINV", "_ZKNOX_NTTINV"], [ARR, ("addr",)]),
      "halfmul": (["ZKNOX_NTT_HALFMUL"], [ARR, ARR]), "mul": (["ZKNOX_NTT_MUL"], [ARR, ARR])}
SL = {"fw": (["ZKNOX_NTTFW"], [ARR, U]), "inv": (["ZKNOX_NTTINV"], [ARR, U]), "halfmul": (["ZKNOX_NTT_HALFMUL"], [ARR, ARR, U]),
      "mul": (["mul_NTTPoly"], [ARR, ARR, U]), "vmul": (["ZKNOX_VECMULMOD", "_ZKNOX_VECMULMOD"], [ARR, ARR, U]),
      "vadd": (["ZKNOX_VECADDMOD"], [ARR, ARR, U]), "vsub": (["ZKNOX_VECSUBMOD"], [ARR, ARR, U])}
NT = "ZKNOX_NTT"


def adr(x):
    return int.from_bytes(bytes(x), "big")


def b20(v):
    return list(int(v).to_bytes(20, "big"))


def o_poly(w, a):
    r = w.fn("DeployPolynomial", adr(a["salt"]), w.ml(ARR, a["x"]))
    w.addrs.append(b20(r[0]) if r else [])
    return {"adr": b20(r[0]), "code": list(w.m.code_of(r[0]))} if r else {"adr": [], "code": []}


def o_tables(w, a):
    r = w.fn("Deploy", adr(a["salt"]))
    return {"fw": list(w.m.code_of(r[0][0])), "inv": list(w.m.code_of(r[0][1]))} if r else {"fw": [], "inv": []}


def o_new(w, a):
    w.insts.append(w.m.new_contract(w.m.CONTRACTS[NT], [adr(a["fw"]), adr(a["inv"]), a["q"], a["nm1"]]))
    return {}


def o_update(w, a):
    w.send(w.insts[a["c"] - 1], NT, "update", [adr(a["fw"]), adr(a["inv"]), a["q"], a["nm1"]], rollback=True)
    return {}


def o_lock(w, a):
    w.send(w.insts[a["c"] - 1], NT, "make_immutable", [], rollback=True)
    return {}


def o_get(w, a):
    return {k: list(w.send(w.insts[a["c"] - 1], NT, f, []))[12:] for k, f in (("fw", "o_psirev"), ("inv", "o_psi_inv_rev"))}


def arr_out(w, out):
    return {"ok": False, "x": []} if out is None else {"ok": True, "x": w.m.dec_tuple([ARR], out, 0)[0]}


def o_st(w, a):
    names, ts = ST[a["g"]]
    args = [a["a"], a["b"]] if ts[1] == ARR else [a["a"], adr(a["tab"])]
    return arr_out(w, w.send(w.insts[a["c"] - 1], NT, names[a["v"] % len(names)], args, types=ts))


def o_sl(w, a):
    names, ts = SL[a["g"]]
    args = [a["a"], a["b"], a["q"]] if len(ts) == 3 else [a["a"], a["q"]]
    return arr_out(w, w.send(w.insts[a["c"] - 1], NT, names[a["v"] % len(names)], args, types=ts))


def o_stc(w, a):
    r = arr_out(w, w.send(w.insts[a["c"] - 1], NT, "ZKNOX_NTT_HALFMUL_Compact", [words(a["a"]), words(a["b"])]))
    return {"ok": r["ok"], "x": lanes(r["x"])}


def f_(name, ins, out):
    def f(w, a):
        r = w.fn(name, *[i(w, a[k]) for k, i in ins])
        return {"ok": r is not None, "x": [] if r is None else out(w, r[0])}
    return f


def i_arr(w, x):
    return w.ml(ARR, x)


def i_words(w, x):
    return w.ml(ARR, words(x))


def i_32(w, x):
    return w.ml(A32, words(x))


def o_arr(w, p):
    return w.m.from_mem(ARR, p)


def o_lanes(w, p):
    return lanes(w.m.from_mem(ARR, p))


def o_bytes(w, p):
    return list(w.m.get_bytes(p))


FNS = {
    "f_fw": f_("_ZKNOX_NTTFW_vectorized", [("a", i_arr)], o_arr),
    "f_inv": f_("_ZKNOX_NTTINV_vectorized", [("a", i_arr)], o_arr),
    "f_vmul": f_("_ZKNOX_VECMULMOD", [("a", i_arr), ("b", i_arr)], o_arr),
    "f_halfmul": f_("_ZKNOX_NTT_HALFMUL_Compact", [("a", i_words), ("b", i_words)], o_lanes),
    "f_compact": f_("_ZKNOX_NTT_Compact", [("a", i_arr)], o_lanes),
    "f_expand": f_("_ZKNOX_NTT_Expand", [("a", i_words)], o_arr),
    "f_swap": f_("Swap", [("a", i_arr)], o_arr),
    "f_packarr": f_("_packUint256Array", [("a", i_32)], o_bytes),
    "f_memcpy": f_("ZKNOX_memcpy32", [("a", i_32)], o_lanes),
    "f_packsig": f_("_packSignature", [("salt", lambda w, x: w.m.mem_bytes(bytes(x))), ("a", i_32)], o_bytes),
    "f_dcompact": f_("_Compact", [("a", i_arr)], o_lanes),
    "f_swap16": f_("_Swap16", [("a", lambda w, x: words(x)[0])], lambda w, v: lanes([v])),
}


def o_f_range(w, a):
    r = w.fn("falcon_checkPolynomialRange", w.ml(ARR, words(a["a"]) if a["packed"] else a["a"]), a["packed"])
    return {"x": bool(r[0])}


def o_d_sig(w, a):
    r = w.fn("_decompress_sig", *w.bytes_args(a["b"]), a["o"])
    return {"ok": r is not None, "x": [] if r is None else w.m.from_mem(ARR, r[0])}


def o_d_key(w, a):
    r = w.fn("_ZKNOX_NTT_Decompress", *w.bytes_args(a["b"]), a["o"])
    return {"ok": r is not None, "x": [] if r is None else w.m.from_mem(ARR, r[0])}


def o_d_kat(w, a):
    """Decodes a signed message and, as its users do, verifies it."""
    ml = a["mlen"] if a["mlen"] >= 0 else (1 << 256) + a["mlen"]
    r = w.fn("decompress_KAT", *w.bytes_args(a["pk"], a["sm"]), ml)
    if r is None:
        return {"ok": False, "ver": False}
    h, s2, salt, m = r[0]
    h, s2 = w.m.from_mem(ARR, h), w.m.from_mem(ARR, s2)
    salt, m = w.m.get_bytes(salt), w.m.get_bytes(m)
    nh = w.m.from_mem(ARR, w.fn("_ZKNOX_NTTFW_vectorized", w.ml(ARR, h))[0])
    pk = w.m.from_mem(ARR, w.fn("_ZKNOX_NTT_Compact", w.ml(ARR, nh))[0])
    cs = w.m.from_mem(ARR, w.fn("_ZKNOX_NTT_Compact", w.ml(ARR, s2))[0])
    v = w.send(w.contract(CON[a["c"]]), CON[a["c"]], "verify", [m, salt, cs, pk], n=4)
    return {"ok": True, "h": h, "s2": s2, "salt": list(salt), "m": list(m), "ver": v is not None and v[31] == 1}


OPS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("o_")}
OPS.update(FNS)


def run(env, sess):
    w = World(env)
    made = {}
    for op in sess["gen"]:
        o = op["op"]
        a = {k: v for k, v in op.items() if k not in ("op", "keep")}
        if o == "verify3" and isinstance(a["ptr"], int):
            a["ptr"] = (w.addrs[a["ptr"]] if a["ptr"] < len(w.addrs) else [9] * 20) + a.pop("more", [])
        a.pop("more", None)
        for k in ("fw", "inv", "tab"):       # deployed polynomials by number
            if isinstance(a.get(k), int):
                a[k] = w.addrs[a[k]] if 0 <= a[k] < len(w.addrs) else [0] * 19 + [a[k] % 250]
        env.call(o, a, lambda: OPS[o](w, a))
    env.cache["made"] = made


# ------------------------------------------------ inputs
def crafted(rng, xof, norm=None, salt=None, m=None, last=False):
    """A signature of a chosen norm for a chosen message, under a key made for it."""
    while True:
        nn = norm
        if nn is None:
            nn = rng.choice([BOUND, BOUND, BOUND + 1, BOUND + 1, BOUND - 1, BOUND + rng.randrange(1, 1000),
                             rng.randrange(1, BOUND), 1, 2, rng.randrange(1, 4 * N), BOUND * 2, BOUND * 4])
        sl = rng.randbytes(40) if salt is None else salt
        mm = rng.randbytes(rng.choice([0, 1, 31, 32, 32, 33, 56, 95, 96, 97, 300])) if m is None else m
        p = signdrv.short_pair(rng, N, nn, rng.choice(["std", "eth"]))
        if p is None:
            continue
        if last or rng.random() < 0.3:          # put the large coefficients last (or first)
            p = [sorted(v, key=abs, reverse=rng.random() < 0.2) for v in p]
            if not ring.invertible(p[1]):
                continue
        hn = ring.h_for(ring.point(xof, sl, mm, N), *p)
        if hn is None:
            continue
        return {"salt": sl, "m": mm, "s1": p[0], "s2": p[1], "hn": [int(v) for v in hn]}


def np_(x):
    return np.array(x)


def nonneg(x):
    return [int(v) % ring.Q for v in x]


def damage(rng, x):
    """A vector of 16-bit lanes changed in one place: sometimes only in its encoding."""
    y = list(x)
    i = rng.choice([0, len(y) - 1, rng.randrange(len(y))]) if y else 0
    k = rng.randrange(6)
    if not y:
        return [1] * 16
    if k == 0:
        y[i] = y[i] + ring.Q
    elif k == 1:
        y[i] = (y[i] + rng.choice([1, -1, 100])) % ring.Q
    elif k == 2:
        y[i] = min(65535, y[i] + ring.Q * rng.randrange(1, 5))
    elif k == 3:
        y = y[:-16] if rng.random() < 0.5 else y + [0] * 16
    elif k == 4:
        j = rng.randrange(len(y))
        y[i], y[j] = y[j], y[i]
    else:
        y[i] = rng.choice([ring.Q - 1, ring.Q, 65535, 6144, 6145])
    return y
