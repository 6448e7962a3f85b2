"""Drivers: one object per extendable-output implementation, same interface."""
import ctypes as C

import capi

RC = {0: "ok", -1: "null", -2: "late", -3: "full"}


class CShake:
    def __init__(self, env):
        self.l = capi.get(env)
        self.ctx = C.create_string_buffer(self.l.f("hx_sizeof_shake", C.c_size_t)())

    def init(self, m=b"", rate=136, ds=31):
        self.l.f("hx_shake_init")(self.ctx)
        return "ok"

    def inject(self, m):
        b = self.l.inb("in", m)
        self.l.f("hx_shake_inject")(self.ctx, b.p, capi.size_t(len(m)))
        return "ok"

    def flip(self):
        self.l.f("hx_shake_flip")(self.ctx)
        return "ok"

    def extract(self, n):
        o = self.l.buf("out", n)
        self.l.f("hx_shake_extract")(self.ctx, o.p, capi.size_t(n))
        return "ok", o.get(), ["wrote before the output"] if o.under() else []


class CKprng:
    def __init__(self, env):
        self.l = capi.get(env)
        self.ctx = C.create_string_buffer(self.l.f("hx_sizeof_keccak", C.c_size_t)())

    def init(self, m=b"", rate=0, ds=0):
        return RC.get(self.l.f("hx_kp_init")(self.ctx), "?")

    def inject(self, m):
        b = self.l.inb("in", m)
        return RC.get(self.l.f("hx_kp_inject")(self.ctx, b.p, capi.size_t(len(m))), "?")

    def flip(self):
        return RC.get(self.l.f("hx_kp_flip")(self.ctx), "?")

    def extract(self, n):
        o = self.l.buf("out", n)
        rc = self.l.f("hx_kp_extract")(self.ctx, o.p, capi.size_t(n))
        if rc == -2:
            return "early", b"", ["output written"] if o.touched() else []
        return RC.get(rc, "?"), o.get(), ["wrote before the output"] if o.under() else []


class PyShake:
    def __init__(self, env):
        pass

    def init(self, m=b"", rate=136, ds=31):
        from shake import SHAKE
        k = {} if rate == 136 and ds == 31 else {"rate": rate, "dsbyte": ds}
        form = (len(m) + sum(m[:4])) % 4         # the ways to make one
        self.o = [lambda: SHAKE.new(m, **k), lambda: SHAKE(m, **k), lambda: SHAKE(**k), lambda: SHAKE.new(**k)][form]()
        if form > 1:
            self.o.update(m)
        return "ok"

    def inject(self, m):
        self.o.update(m)
        return "ok"

    def flip(self):
        self.o.flip()
        return "ok"

    def extract(self, n):
        return "ok", self.o.read(n), []


class PyCtr:
    mod, cls = "keccak_prng", "KeccakPRNG"

    def __init__(self, env):
        self.alt = False

    def init(self, m=b"", rate=0, ds=0):
        cls = getattr(__import__(self.mod), self.cls)
        self.made = getattr(self, "made", 0) + 1
        self.o = cls.new() if self.made % 2 else cls()
        self.fl = False
        return "ok"

    def inject(self, m):
        self.alt = not self.alt          # two names for the same operation
        try:
            (self.o.update if self.alt else self.o.inject)(m)
            return "ok"
        except ValueError:
            return "late" if self.fl else "full"

    def flip(self):
        try:
            self.o.flip()
        except ValueError:
            return "late"
        self.fl = True
        return "ok"

    def extract(self, n):
        self.alt = not self.alt
        try:
            return "ok", (self.o.read if self.alt else self.o.extract)(n), []
        except ValueError:
            return "early", b"", []


class PyB2(PyCtr):
    mod, cls = "blake2s_prng", "Blake2sPRNG"


class PyChain:
    def __init__(self, env):
        pass

    def init(self, m=b"", rate=0, ds=0):
        from keccaxof import KeccaXOF
        self.made = getattr(self, "made", 0) + 1
        self.o = KeccaXOF.new() if self.made % 2 else KeccaXOF()
        return "ok"

    def inject(self, m):
        try:
            self.o.update(m)
            return "ok"
        except ValueError:
            return "late"

    def flip(self):
        self.o.flip()
        return "ok"

    def extract(self, n):
        return "ok", self.o.read(n), []


IMPL = {"cshake": CShake, "ckprng": CKprng, "pyshake": PyShake, "pykprng": PyCtr, "pyb2": PyB2, "pychain": PyChain}


def stream_bytes(rng, n):
    return bytes(rng.getrandbits(8) for _ in range(n))


def run(env, sess):
    """ops: [op, instance, size or [rate, ds, size]]"""
    import random
    rng = random.Random(sess["seed"])
    inst = {}
    for op, c, v in sess["gen"]:
        if op == "init":
            rate, ds, k = v
            m = stream_bytes(rng, k)
            if c not in inst:
                inst[c] = IMPL[sess["impl"]](env)
            env.call("init", {"c": c, "m": list(m), "rate": rate, "ds": ds},
                     lambda: {"st": inst[c].init(m, rate, ds)})
        elif op == "inject":
            m = stream_bytes(rng, v)
            env.call("inject", {"c": c, "m": list(m)}, lambda: {"st": inst[c].inject(m)})
        elif op == "flip":
            env.call("flip", {"c": c}, lambda: {"st": inst[c].flip()})
        elif op == "extract":
            def f():
                s, o, bad = inst[c].extract(v)
                return {"st": s, "out": list(o), "bad": bad}
            env.call("extract", {"c": c, "n": v}, f)
        elif op == "skip":
            n, k = v

            def f():
                s, o, bad = inst[c].extract(n)
                return {"st": s, "out": list(o[n - k:]), "bad": bad + ([] if len(o) == n else ["wrong length"])}
            env.call("skip", {"c": c, "n": n, "k": k}, f)
