"""ctypes access to the C code, every buffer ending at an inaccessible page."""
import ctypes as C
import mmap
import os

PAGE = 4096
FILL = 0xA5
libc = C.CDLL(None, use_errno=True)
libc.mmap.restype = C.c_void_p
libc.mmap.argtypes = [C.c_void_p, C.c_size_t, C.c_int, C.c_int, C.c_int, C.c_long]
libc.mprotect.argtypes = [C.c_void_p, C.c_size_t, C.c_int]
libc.munmap.argtypes = [C.c_void_p, C.c_size_t]


class Arena:
    """[guard | pages | guard]; allocations are flush against the upper guard."""

    def __init__(self, size):
        self.pages = max(1, (size + 64 + PAGE - 1) // PAGE)
        tot = (self.pages + 2) * PAGE
        self.raw = libc.mmap(None, tot, mmap.PROT_READ | mmap.PROT_WRITE,
                             mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS, -1, 0)
        if self.raw in (None, C.c_void_p(-1).value):
            raise MemoryError
        libc.mprotect(self.raw, PAGE, 0)
        libc.mprotect(self.raw + (self.pages + 1) * PAGE, PAGE, 0)
        self.lo = self.raw + PAGE
        self.end = self.lo + self.pages * PAGE
        self.size = self.pages * PAGE


class Buf:
    """A buffer of n bytes; the byte after it is inaccessible, the bytes before are canaries."""

    def __init__(self, pool, name, n, data=None, fill=FILL):
        a = pool.get(name)
        if a is None or a.size < n + 64:
            if a is not None:
                libc.munmap(a.raw, (a.pages + 2) * PAGE)
            a = Arena(max(n, 8192))
            pool[name] = a
        self.n = n
        self.addr = a.end - n
        self.can = min(64, self.addr - a.lo)
        C.memset(self.addr - self.can, 0x5C, self.can)
        if data is not None:
            C.memmove(self.addr, bytes(data), n)
        elif n:
            C.memset(self.addr, fill, n)
        self.init = bytes(data) if data is not None else bytes([fill]) * n

    @property
    def p(self):
        return C.c_void_p(self.addr)

    def get(self, k=None):
        return C.string_at(self.addr, self.n if k is None else k)

    def under(self):
        return C.string_at(self.addr - self.can, self.can) != b"\x5c" * self.can

    def touched(self, start=0):
        """number of bytes from start on that no longer hold their initial value"""
        b = self.get()
        return sum(1 for i in range(start, self.n) if b[i] != self.init[i])


def i16(xs):
    return b"".join(int(x).to_bytes(2, "little", signed=True) for x in xs)


def u16(xs):
    return b"".join(int(x).to_bytes(2, "little") for x in xs)


def i8(xs):
    return b"".join(int(x).to_bytes(1, "little", signed=True) for x in xs)


def un_i16(b):
    return [int.from_bytes(b[i:i + 2], "little", signed=True) for i in range(0, len(b), 2)]


def un_u16(b):
    return [int.from_bytes(b[i:i + 2], "little") for i in range(0, len(b), 2)]


def un_i8(b):
    return [x - 256 if x > 127 else x for x in b]


class CLib:
    P = "falcon_inner_"

    def __init__(self, path):
        self.lib = C.CDLL(path)
        self.pool = {}
        self.fn = {}

    def f(self, name, res=C.c_int):
        k = name
        if k not in self.fn:
            try:
                g = getattr(self.lib, name)
            except AttributeError:
                g = getattr(self.lib, self.P + name)
            g.restype = res
            self.fn[k] = g
        return self.fn[k]

    def buf(self, name, n, data=None, fill=FILL):
        return Buf(self.pool, name, n, data, fill)

    def inb(self, name, data):
        return Buf(self.pool, name, len(data), data)

    # ---- randomness tape
    def tape(self, b):
        self.lib.hx_tape(bytes(b), C.c_size_t(len(b)))

    def draws(self):
        self.f("hx_ndraws", C.c_size_t)
        self.f("hx_draw", C.c_ulonglong)
        n = self.f("hx_ndraws", C.c_size_t)()
        return [int(self.f("hx_draw", C.c_ulonglong)(C.c_size_t(i))) for i in range(n)]


def size_t(x):
    return C.c_size_t(x)


def get(env, key="c"):
    k = "lib:" + key
    if k not in env.cache:
        env.cache[k] = CLib(env.ctx[key])
    return env.cache[k]


# ---------------------------------------------------------------- signed messages
VAR = {
    "std": ("crypto_sign_keypair", "crypto_sign_keypair_from_seed", "crypto_sign", "crypto_sign_open", 897, 690),
    "zk": ("zknox_crypto_sign_keypair", "zknox_crypto_sign_keypair_from_seed", "zknox_crypto_sign",
           "zknox_crypto_sign_open", 1025, 1067),
    "epv": ("zknox_crypto_sign_keypair", "zknox_crypto_sign_keypair_from_seed", "zknox_crypto_sign_epervier",
            "zknox_crypto_sign_open_epervier", 1025, 2094),
}
SKLEN = 1281


def keypair(lib, v, seed=None, tape=None):
    pk, sk = lib.buf("pk", VAR[v][4]), lib.buf("sk", SKLEN)
    if seed is not None:
        s = lib.inb("seed", seed)
        rc = lib.f(VAR[v][1])(pk.p, sk.p, s.p, size_t(len(seed)))
        return rc, pk.get(), sk.get(), []
    lib.tape(tape)
    rc = lib.f(VAR[v][0])(pk.p, sk.p)
    return rc, pk.get(), sk.get(), lib.draws()


def sign(lib, v, m, sk, tape, alias=False):
    """alias: where in the output buffer the message is, if it is there."""
    lib.tape(tape)
    cap = VAR[v][5] + len(m)
    sm = lib.buf("sm", cap)
    skb = lib.inb("sk", sk)
    n = C.c_ulonglong(0)
    if alias is not False:
        mb = None
        C.memmove(sm.addr + alias, bytes(m), len(m))
        mp = C.c_void_p(sm.addr + alias)
    else:
        mb = lib.inb("m", m)
        mp = mb.p
    rc = lib.f(VAR[v][2])(sm.p, C.byref(n), mp, C.c_ulonglong(len(m)), skb.p)
    ln = n.value
    bad = []
    if sm.under():
        bad.append("wrote before the output")
    if skb.get() != bytes(sk):
        bad.append("private key modified")
    if mb is not None and mb.get() != bytes(m):
        bad.append("message modified")
    out = sm.get(min(ln, cap)) if rc == 0 else b""
    if rc == 0 and ln > cap:
        bad.append("length exceeds the buffer")
    return {"rc": rc, "sm": list(out), "draws": lib.draws(), "bad": bad}


def sign_open(lib, v, sm, pk, alias=False):
    """alias: the message is written over the signed message itself."""
    smb = lib.inb("sm", sm)
    pkb = lib.inb("pk", pk)
    n = C.c_ulonglong(0x7777)
    bad = []
    if alias:
        rc = lib.f(VAR[v][3])(smb.p, C.byref(n), smb.p, C.c_ulonglong(len(sm)), pkb.p)
        out = smb.get(min(n.value, len(sm))) if rc == 0 else b""
        if rc != 0 and smb.get() != bytes(sm):
            bad.append("released on rejection")
    else:
        m = lib.buf("m", max(0, len(sm) - 42))
        rc = lib.f(VAR[v][3])(m.p, C.byref(n), smb.p, C.c_ulonglong(len(sm)), pkb.p)
        out = m.get(min(n.value, m.n)) if rc == 0 else b""
        if rc == 0 and n.value > m.n:
            bad.append("length exceeds the buffer")
        if m.touched(0 if rc != 0 else n.value):
            bad.append("released on rejection" if rc != 0 else "wrote past the message")
        if smb.get() != bytes(sm):
            bad.append("input modified")
        if m.under():
            bad.append("wrote before the output")
    if pkb.get() != bytes(pk):
        bad.append("public key modified")
    if rc != 0 and n.value != 0x7777:
        bad.append("length written on rejection")
    return {"rc": rc, "m": list(out), "bad": bad}
