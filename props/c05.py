"""Hash-to-point: every C and Python entry point, every generator and degree."""
import hashlib
import random

import capi

NEEDS = ["c", "py"]
SPEC = "HashPoint"
RULE = "an event is one hash-to-point call; distinct by generator, degree, nonce and message"
ASSUMPTIONS = ["Keccak.tla and Blake2s.tla agree with the standards (checked by setup)",
               "the constant-time variant keeps enough samples as long as the documented number beyond the degree is rejected"]
OVER = [0, 65, 67, 71, 77, 86, 100, 122, 154, 205, 287]        # H2p!Oversampling
EDGE = [0, 12288, 12289, 24577, 24578, 36866, 36867, 49155, 49156, 61444, 61445, 61446, 65535]


def models(tier):
    cfg = "INIT Init\nNEXT Next\nINVARIANT Refines\nINVARIANT NothingLost\nINVARIANT Permutation\nCONSTANTS\n"
    ms = [{"module": "MC_Squeeze", "name": "%d+%d" % (n, o), "cfg": cfg + "N = %d\nOver = %d\n" % (n, o),
           "bounds": "%d samples kept or rejected in every pattern" % (n + o)}
          for n, o in ((2, 7), (4, 7), (8, 3)) + (((4, 9), (2, 12)) if tier != "quick" else ())]
    return ms


def keccak(b):
    from Crypto.Hash import keccak as k
    h = k.new(digest_bits=256)
    h.update(b)
    return h.digest()


def stream(xof, data, n):
    if xof == "shake":
        return hashlib.shake_256(data).digest(n)
    key = keccak(data)
    if xof == "chain":
        out = b""
        while len(out) < n:
            out, key = out + key, keccak(key)
        return out[:n]
    return b"".join(keccak(key + i.to_bytes(8, "big")) for i in range(n // 32 + 1))[:n]


def search(rng, xof, n, tries, want):
    """Messages whose stream visits the edge values, and those with most rejections early."""
    cand = []
    for _ in range(tries):
        m = rng.getrandbits(128).to_bytes(16, "big")
        s = stream(xof, m, 2 * (n + n // 8 + 8))
        w = [(s[i] << 8) | s[i + 1] for i in range(0, len(s), 2)]
        kept, used, first = 0, [], 0
        for x in w:
            used.append(x)
            if x < 61445:
                kept += 1
                if kept == n:
                    break
        cand.append((m, set(used) & set(EDGE), len(used) - n))
    cand.sort(key=lambda c: -c[2])
    out = [c[0] for c in cand[:3]]
    left = set(EDGE)
    for m, e, _ in sorted(cand, key=lambda c: -len(c[1])):
        if e & left:
            out.append(m)
            left -= e
    return out[:want]


def sessions(tier, seed):
    rng = random.Random(seed)
    out = []
    big = tier != "quick"
    evs = []
    for logn in range(1, 11):
        n = 1 << logn
        t = {1: 20000, 2: 20000, 3: 10000}.get(logn, 2000 if n < 256 else 1000) * (4 if big else 1)
        for m in search(rng, "shake", n, t, 8 if not big else 16):
            evs.append(["vartime", "shake", logn, m[:7], m[7:]])
            evs.append(["ct", "shake", logn, m[:7], m[7:]])
            if rng.random() < 0.3:
                evs.append(["py", "shake", logn, m[:7], m[7:]])
        if logn in (3, 9, 10) or big:
            for m in search(rng, "keccak", n, t // 10, 4 if not big else 12):
                evs.append(["keccak", "keccak", logn, m[:7], m[7:]])
                evs.append(["py", "keccak", logn, m[:7], m[7:]])
    lens = [0, 1, 33, 95, 96, 97, 135, 136, 200, 1000]
    for i in range(60 if not big else 900):
        logn = rng.choice([9, 9, 9, 10, rng.randrange(1, 11)])
        nonce, m = rng.randbytes(rng.choice([40, 40, 40, 0, 33])), rng.randbytes(rng.choice(lens))
        for k, x in (("vartime", "shake"), ("ct", "shake"), ("keccak", "keccak")):
            evs.append([k, x, logn, nonce, m])
        evs.append(["py", rng.choice(["shake", "keccak", "blake2s", "chain"]), logn, nonce, m])
    for x, cap in (("keccak", 4096), ("blake2s", 1024)):
        for d in (0, 1):
            nl = 40 if x == "keccak" else 32
            evs.append(["py", x, 3, rng.randbytes(40), rng.randbytes(cap - nl + d)])
            if x == "keccak":
                evs.append(["keccak", x, 3, rng.randbytes(40), rng.randbytes(cap - nl + d)])
    # streams with as many rejected samples as the constant-time variant allows for, in every arrangement
    for logn in range(1, 11):
        n, over = 1 << logn, OVER[logn]
        for k in range(14 if not big else 60):
            how = k % 7
            rej = over if how != 6 else rng.randrange(over + 1)
            pat = [0] * n + [1] * rej
            if how == 0:
                pat = pat[::-1]
            elif how == 1:                                 # all but the last kept one first
                pat = pat[1:] + [0]
            elif how == 2:
                j = rng.randrange(n)
                pat = [0] * j + [1] * rej + [0] * (n - j)
            elif how == 3:
                pat = [x for i in range(max(n, rej)) for x in [0] * (i < n) + [1] * (i < rej)]
            elif how in (4, 6):
                rng.shuffle(pat)
            w = [rng.choice([61445, 65535, rng.randrange(61445, 65536)]) if x else
                 rng.choice([0, 12288, 12289, 61444, rng.randrange(61445), rng.randrange(61445)]) for x in pat]
            w += [rng.choice([7, 65535]) for _ in range(over - rej)]
            for who in ("vartime", "ct"):
                evs.append(["forced " + who, "shake", logn, w, b""])
            # the others take as many as it needs
            w = list(w)
            for _ in range(rng.choice([0, 0, 1, 2]) * n):
                w.insert(rng.randrange(len(w)), rng.choice([61445, 65535, rng.randrange(61445, 65536)]))
            for who in ("vartime", "py"):
                evs.append(["forced " + who, "shake", logn, w, b""])
    rng.shuffle(evs)
    for k in range(0, len(evs), 3):
        out.append({"kind": "h2p", "gen": [[a, b, c, list(d), list(e)] for a, b, c, d, e in evs[k:k + 3]]})
    return out


def run(env, sess):
    lib = capi.get(env)
    import ctypes as C
    for who, xof, logn, nonce, m in sess["gen"]:
        n = 1 << logn
        a = {"xof": xof, "n": n, "nonce": nonce, "m": m}

        def forced():
            ctx = C.create_string_buffer(lib.f("hx_sizeof_shake", C.c_size_t)())
            lib.f("hx_shake_init")(ctx)
            lib.f("hx_shake_flip")(ctx)
            b = b"".join(v.to_bytes(2, "big") for v in nonce)
            x, t = lib.buf("x", 2 * n), lib.buf("tmp", 2 * n)
            lib.f("hx_force", None)(b, capi.size_t(len(b)))
            try:
                if who == "forced ct":
                    lib.f("hash_to_point_ct", None)(ctx, x.p, C.c_uint(logn), t.p)
                else:
                    lib.f("hash_to_point_vartime", None)(ctx, x.p, C.c_uint(logn))
            finally:
                lib.f("hx_force", None)(b"", capi.size_t(0))
            return {"x": capi.un_u16(x.get()), "bad": ["under"] if x.under() or t.under() else []}

        def given():
            import falcon
            b = b"".join(v.to_bytes(2, "big") for v in nonce) + bytes(1 << 16)

            class Given:
                at = 0
                new = classmethod(lambda cls: cls())

                def update(self, data):
                    pass

                def flip(self):
                    pass

                def read(self, k):
                    self.at += k
                    return b[self.at - k:self.at]
            return {"x": [int(v) for v in falcon.hash_to_point(n, b"", b"", xof=Given)], "bad": []}
        if who == "forced py":
            env.call("forced", {"w": nonce, "n": n, "who": "py"}, given)
            continue
        if who.startswith("forced"):
            env.call("forced", {"w": nonce, "n": n, "who": who[7:]}, forced)
            continue

        def cshake():
            ctx = C.create_string_buffer(lib.f("hx_sizeof_shake", C.c_size_t)())
            lib.f("hx_shake_init")(ctx)
            for part in (nonce, m):
                b = lib.inb("in", bytes(part))
                lib.f("hx_shake_inject")(ctx, b.p, capi.size_t(len(part)))
            lib.f("hx_shake_flip")(ctx)
            x = lib.buf("x", 2 * n)
            nxt = []
            if who == "ct":
                t = lib.buf("tmp", 2 * n)
                lib.f("hash_to_point_ct", None)(ctx, x.p, C.c_uint(logn), t.p)
                bad = t.under()
            else:
                lib.f("hash_to_point_vartime", None)(ctx, x.p, C.c_uint(logn))
                bad = False
                o = lib.buf("out", 2)
                lib.f("hx_shake_extract")(ctx, o.p, capi.size_t(2))
                nxt = list(o.get())
            return {"x": capi.un_u16(x.get()), "bad": ["under"] if bad or x.under() else [], "next": nxt,
                    "refused": False}

        def ckeccak():
            ctx = C.create_string_buffer(lib.f("hx_sizeof_keccak", C.c_size_t)())
            lib.f("hx_kp_init")(ctx)
            for part in (nonce, m):
                b = lib.inb("in", bytes(part))
                if lib.f("hx_kp_inject")(ctx, b.p, capi.size_t(len(part))):
                    return {"x": [], "bad": [], "next": [], "refused": True}
            lib.f("hx_kp_flip")(ctx)
            x = lib.buf("x", 2 * n)
            lib.f("keccak_hash_to_point_vartime", None)(ctx, x.p, C.c_uint(logn))
            return {"x": capi.un_u16(x.get()), "bad": ["under"] if x.under() else [], "next": [], "refused": False}

        def py():
            import falcon
            from keccaxof import KeccaXOF
            cls = {"shake": falcon.SHAKE, "keccak": falcon.KeccakPRNG, "blake2s": falcon.Blake2sPRNG,
                   "chain": KeccaXOF}[xof]
            try:
                x = falcon.hash_to_point(n, bytes(m), bytes(nonce), xof=cls)
            except ValueError:
                return {"x": [], "bad": [], "next": [], "refused": True}
            return {"x": [int(v) for v in x], "bad": [], "next": [], "refused": False}
        env.call(who, a, py if who == "py" else ckeccak if who == "keccak" else cshake)
