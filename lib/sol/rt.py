"""What compiled Solidity runs on: EVM memory, accounts, calls, ABI coding."""
import copy
import hashlib

from Crypto.Hash import keccak as _k

M = (1 << 256) - 1
GAS = 1 << 24                 # memory addresses beyond this run out of gas
MEM = bytearray(1 << 16)
CD = b""
SELF = None
CALLER = 0xCA11E4
ACCOUNTS = {}
STRUCTS = {}
NEXT = [0x1000]


class Revert(Exception):
    def __init__(self, data=b"", why=""):
        Exception.__init__(self, why or data[:40])
        self.data = data


class YulReturn(Exception):
    def __init__(self, data):
        self.data = data


class Unsupported(Exception):
    pass


def keccak(b):
    h = _k.new(digest_bits=256)
    h.update(b)
    return h.digest()


def kint(b):
    return int.from_bytes(keccak(b), "big")


# ------------------------------------------------ memory
def grow(n):
    if n > GAS:
        raise Revert(why="out of gas")
    while len(MEM) < n:
        MEM.extend(bytes(len(MEM)))


def mload(p):
    q = p + 32
    if q > len(MEM):
        grow(q)
    return int.from_bytes(MEM[p:q], "big")


def mstore(p, v):
    q = p + 32
    if q > len(MEM):
        grow(q)
    MEM[p:q] = v.to_bytes(32, "big")


def mstore8(p, v):
    if p >= len(MEM):
        grow(p + 1)
    MEM[p] = v & 255


def mread(p, n):
    if n == 0:
        return b""
    if p + n > len(MEM):
        grow(p + n)
    return bytes(MEM[p:p + n])


def mwrite(p, b):
    if p + len(b) > len(MEM):
        grow(p + len(b))
    MEM[p:p + len(b)] = b


def alloc(n):
    p = mload(64)
    mstore(64, p + n)
    if p + n > len(MEM):
        grow(p + n)
    return p


def zalloc(n):
    p = alloc(n)
    mwrite(p, bytes(n))
    return p


def pad32(n):
    return (n + 31) & ~31


def mem_bytes(b):
    if len(b) > GAS:
        raise Revert(why="out of gas")
    p = alloc(32 + pad32(len(b)))
    mstore(p, len(b))
    mwrite(p + 32, b + bytes(pad32(len(b)) - len(b)))
    return p


def get_bytes(p):
    return mread(p + 32, mload(p))


def new_arr(n, words=1):
    if n > GAS:
        panic(0x41)
    p = alloc(32 + 32 * n)
    mstore(p, n)
    mwrite(p + 32, bytes(32 * n))
    return p


def new_ref_arr(n, T):
    p = new_arr(n)
    for i in range(n):
        mstore(p + 32 + 32 * i, zero(T))
    return p


def new_bytes(n):
    if n > GAS:
        panic(0x41)
    return mem_bytes(bytes(n))


def panic(c):
    raise Revert(bytes.fromhex("4e487b71") + c.to_bytes(32, "big"), "panic %x" % c)


def fail(b=None):
    if b is None:
        raise Revert(b"", "revert")
    raise Revert(bytes.fromhex("08c379a0") + (32).to_bytes(32, "big") + len(b).to_bytes(32, "big") + b
                 + bytes(-len(b) % 32), "revert: " + b.decode("latin1"))


def ix(p, i):
    """address of element i of a dynamic memory array"""
    if not 0 <= i < mload(p):
        panic(0x32)
    return p + 32 + 32 * i


def ixs(p, i, n):
    if not 0 <= i < n:
        panic(0x32)
    return p + 32 * i


def bget(p, i):
    if not 0 <= i < mload(p):
        panic(0x32)
    return MEM[p + 32 + i] << 248


def bset(p, i, v):
    if not 0 <= i < mload(p):
        panic(0x32)
    mstore8(p + 32 + i, v >> 248)
    return v


def wset(a, v):
    mstore(a, v)
    return v


# ------------------------------------------------ arithmetic
def cku(x, m):
    if 0 <= x <= m:
        return x
    panic(0x11)


def cks(x, b):
    if -(1 << (b - 1)) <= x < 1 << (b - 1):
        return x
    panic(0x11)


def wrs(x, b):
    x &= (1 << b) - 1
    return x - (1 << b) if x >> (b - 1) else x


def s256(x):
    return x - (1 << 256) if x >> 255 else x


def sdiv_(a, b):
    if b == 0:
        panic(0x12)
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def smod_(a, b):
    if b == 0:
        panic(0x12)
    r = abs(a) % abs(b)
    return -r if a < 0 else r


def udiv(a, b):
    if b == 0:
        panic(0x12)
    return a // b


def umod(a, b):
    if b == 0:
        panic(0x12)
    return a % b


def upow(a, b, m, checked):
    if a in (0, 1):
        return a if b else 1
    if b > 256 and checked:
        panic(0x11)
    if not checked:
        return pow(a, b, m + 1)
    return cku(a ** b, m)


def shl_(a, s, m):
    return 0 if s > 255 else (a << s) & m


def shr_(a, s):
    return a >> min(s, 300)


def s_addmod(a, b, m):
    if m == 0:
        panic(0x12)
    return (a + b) % m


def s_mulmod(a, b, m):
    if m == 0:
        panic(0x12)
    return a * b % m


# ------------------------------------------------ Yul
def y_div(a, b):
    return a // b if b else 0


def y_mod(a, b):
    return a % b if b else 0


def y_sdiv(a, b):
    a, b = s256(a), s256(b)
    return (abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)) & M if b else 0


def y_smod(a, b):
    a, b = s256(a), s256(b)
    return (abs(a) % abs(b) * (-1 if a < 0 else 1)) & M if b else 0


def y_addmod(a, b, m):
    return (a + b) % m if m else 0


def y_mulmod(a, b, m):
    return a * b % m if m else 0


def y_exp(a, b):
    return pow(a, b, 1 << 256)


def y_slt(a, b):
    return int(s256(a) < s256(b))


def y_sgt(a, b):
    return int(s256(a) > s256(b))


def y_shl(s, v):
    return 0 if s > 255 else (v << s) & M


def y_shr(s, v):
    return 0 if s > 255 else v >> s


def y_sar(s, v):
    return (s256(v) >> min(s, 256)) & M


def y_byte(i, x):
    return (x >> (248 - 8 * i)) & 255 if i < 32 else 0


def y_signextend(b, x):
    return x if b > 30 else wrs(x, 8 * b + 8) & M


def y_keccak256(p, n):
    return kint(mread(p, n))


def y_mcopy(d, s, n):
    mwrite(d, mread(s, n))


def y_calldataload(p):
    return int.from_bytes(CD[p:p + 32].ljust(32, b"\0"), "big")


def y_calldatasize():
    return len(CD)


def y_calldatacopy(d, s, n):
    if n > GAS:
        raise Revert(why="out of gas")
    mwrite(d, CD[s:s + n].ljust(n, b"\0"))


def y_codecopy(d, s, n):
    raise Unsupported("codecopy")


def code_of(a):
    x = ACCOUNTS.get(a & ((1 << 160) - 1))
    return b"" if x is None else x if isinstance(x, bytes) else b"\xfe"


def y_extcodesize(a):
    return len(code_of(a))


def y_extcodehash(a):
    c = code_of(a)
    return kint(c) if c else 0


def y_extcodecopy(a, d, s, n):
    if n > GAS:
        raise Revert(why="out of gas")
    mwrite(d, code_of(a)[s:s + n].ljust(n, b"\0"))


def y_return(p, n):
    raise YulReturn(mread(p, n))


def y_revert(p, n):
    raise Revert(mread(p, n), "revert")


def y_invalid():
    raise Revert(why="invalid")


def y_stop():
    raise YulReturn(b"")


def y_pop(x):
    pass


def y_gas():
    return 1 << 40


def y_gaslimit():
    return 1 << 50


def y_msize():
    return len(MEM)


def y_address():
    return SELF.addr


def y_caller():
    return CALLER


def y_callvalue():
    return 0


def y_returndatasize():
    return len(RD)


def y_returndatacopy(d, s, n):
    if s + n > len(RD):
        raise Revert(why="return data out of bounds")
    mwrite(d, RD[s:s + n])


RD = b""


def y_sload(k):
    return SELF.raw.get(k, 0)


def y_sstore(k, v):
    SELF.raw[k] = v


def y_tload(k):
    return SELF.raw.get(("t", k), 0)


def y_tstore(k, v):
    SELF.raw[("t", k)] = v


def initcode(code):
    """Runs creation code: the few instructions deployers consist of."""
    st, mem, pc, steps = [], bytearray(1 << 16), 0, 0
    while pc < len(code):
        o = code[pc]
        pc += 1
        steps += 1
        if steps > 10000:
            return None
        if o == 0x5F:
            st.append(0)
        elif 0x60 <= o <= 0x7F:
            n = o - 0x5F
            st.append(int.from_bytes(code[pc:pc + n].ljust(n, b"\0"), "big"))
            pc += n
        elif 0x80 <= o <= 0x8F:
            st.append(st[-(o - 0x7F)])
        elif 0x90 <= o <= 0x9F:
            i = -(o - 0x8F) - 1
            st[-1], st[i] = st[i], st[-1]
        elif o == 0x50:
            st.pop()
        elif o == 0x01:
            st.append((st.pop() + st.pop()) & M)
        elif o == 0x03:
            a = st.pop()
            st.append((a - st.pop()) & M)
        elif o == 0x38:
            st.append(len(code))
        elif o == 0x52:
            p = st.pop()
            mem[p:p + 32] = st.pop().to_bytes(32, "big")
        elif o == 0x39:
            d, s, n = st.pop(), st.pop(), st.pop()
            mem[d:d + n] = code[s:s + n].ljust(n, b"\0")
        elif o == 0xF3:
            p, n = st.pop(), st.pop()
            return bytes(mem[p:p + n])
        elif o == 0x00:
            return b""
        else:
            return None
    return b""


def create_at(a, code):
    r = initcode(code)
    if r is None or a in ACCOUNTS or len(r) > 24576 or r[:1] == b"\xef":
        return 0
    ACCOUNTS[a] = r
    return a


def y_create(v, p, n):
    NEXT[0] += 1
    return create_at(kint(b"create%d" % NEXT[0]) & ((1 << 160) - 1), mread(p, n))


def y_create2(v, p, n, salt):
    c = mread(p, n)
    me = SELF.addr if SELF is not None else 0
    return create_at(kint(b"\xff" + me.to_bytes(20, "big") + salt.to_bytes(32, "big") + keccak(c)) & ((1 << 160) - 1), c)


def y_call_(a, p, n, op, on, static=False):
    global RD
    if a == 2:
        RD = hashlib.sha256(mread(p, n)).digest()
    elif a == 4:
        RD = mread(p, n)
    else:
        try:
            d = mread(p, n)
            RD = message(a, d) if static else guarded(lambda: message(a, d))
        except Revert as e:
            RD = e.data
            return 0
    mwrite(op, RD[:on])
    return 1


def y_staticcall(g, a, p, n, op, on):
    return y_call_(a, p, n, op, on, True)


def y_call(g, a, v, p, n, op, on):
    return y_call_(a, p, n, op, on)


# ------------------------------------------------ types: ("u",b) ("i",b) ("b",n) ("bool",) ("addr",) ("bytes",)
# ("string",) ("arr",T,n) ("struct",name)
def is_dyn(T):
    k = T[0]
    if k in ("bytes", "string"):
        return True
    if k == "arr":
        return T[2] is None or is_dyn(T[1])
    if k == "struct":
        return any(is_dyn(t) for _, t in STRUCTS[T[1]])
    return False


def is_val(T):
    return T[0] in ("u", "i", "b", "bool", "addr")


def zero(T):
    """the default value of a memory variable"""
    k = T[0]
    if k in ("bytes", "string") or (k == "arr" and T[2] is None):
        return 0x60
    if k == "arr":
        p = zalloc(32 * T[2])
        if not is_val(T[1]):
            for i in range(T[2]):
                mstore(p + 32 * i, zero(T[1]))
        return p
    if k == "struct":
        fs = STRUCTS[T[1]]
        p = zalloc(32 * len(fs))
        for i, (_, t) in enumerate(fs):
            if not is_val(t):
                mstore(p + 32 * i, zero(t))
        return p
    return 0


def szero(T):
    """the default value in storage"""
    k = T[0]
    if k in ("bytes", "string"):
        return bytearray()
    if k == "map":
        return {}
    if k == "arr":
        return [szero(T[1]) for _ in range(T[2] or 0)]
    if k == "struct":
        return {f: szero(t) for f, t in STRUCTS[T[1]]}
    return False if k == "bool" else 0


def tow(T, v):
    return v & M if T[0] == "i" else int(v)


def fromw(T, w):
    k = T[0]
    if k == "u":
        return w & ((1 << T[1]) - 1)
    if k == "i":
        return wrs(w, T[1])
    if k == "bool":
        return w != 0
    if k == "addr":
        return w & ((1 << 160) - 1)
    if k == "b":
        return w & (M ^ ((1 << (256 - 8 * T[1])) - 1))
    return w


def to_mem(T, o):
    """a storage (or plain Python) value, in memory"""
    k = T[0]
    if is_val(T):
        return tow(T, o)
    if k in ("bytes", "string"):
        return mem_bytes(bytes(o))
    if k == "arr":
        if T[2] is None:
            p = new_arr(len(o))
            b = p + 32
        else:
            p = b = zalloc(32 * T[2])
        for i, x in enumerate(o):
            mstore(b + 32 * i, to_mem(T[1], x))
        return p
    if k == "struct":
        fs = STRUCTS[T[1]]
        p = zalloc(32 * len(fs))
        for i, (f, t) in enumerate(fs):
            mstore(p + 32 * i, to_mem(t, o[f]))
        return p
    raise Unsupported(str(T))


def from_mem(T, p):
    """a memory value as a plain Python value"""
    k = T[0]
    if is_val(T):
        return fromw(T, p)
    if k in ("bytes", "string"):
        return bytearray(get_bytes(p))
    if k == "arr":
        n, b = (mload(p), p + 32) if T[2] is None else (T[2], p)
        return [from_mem(T[1], mload(b + 32 * i)) for i in range(n)]
    if k == "struct":
        return {f: from_mem(t, mload(p + 32 * i)) for i, (f, t) in enumerate(STRUCTS[T[1]])}
    raise Unsupported(str(T))


def sig_of(T):
    k = T[0]
    if k == "u":
        return "uint%d" % T[1]
    if k == "i":
        return "int%d" % T[1]
    if k == "b":
        return "bytes%d" % T[1]
    if k == "arr":
        return sig_of(T[1]) + "[%s]" % ("" if T[2] is None else T[2])
    if k == "struct":
        return "(" + ",".join(sig_of(t) for _, t in STRUCTS[T[1]]) + ")"
    return {"bool": "bool", "addr": "address", "bytes": "bytes", "string": "string"}[k]


# ------------------------------------------------ ABI, between plain Python values and bytes
def hsize(T):
    if is_dyn(T) or is_val(T):
        return 32
    if T[0] == "arr":
        return T[2] * hsize(T[1])
    return sum(hsize(t) for _, t in STRUCTS[T[1]])


def enc(T, v):
    k = T[0]
    if is_val(T):
        return tow(T, v).to_bytes(32, "big")
    if k in ("bytes", "string"):
        b = bytes(v)
        return len(b).to_bytes(32, "big") + b + bytes(-len(b) % 32)
    if k == "arr":
        if is_val(T[1]):
            r = b"".join(tow(T[1], x).to_bytes(32, "big") for x in v)
        else:
            r = enc_tuple([T[1]] * len(v), v)
        return (len(v).to_bytes(32, "big") if T[2] is None else b"") + r
    fs = STRUCTS[T[1]]
    return enc_tuple([t for _, t in fs], [v[f] for f, _ in fs])


def enc_tuple(Ts, vs):
    head, tail = b"", b""
    hl = sum(hsize(t) for t in Ts)
    for t, v in zip(Ts, vs):
        e = enc(t, v)
        if is_dyn(t):
            head += (hl + len(tail)).to_bytes(32, "big")
            tail += e
        else:
            head += e
    return head + tail


def rd(b, p):
    if p < 0 or p + 32 > len(b):
        raise Revert(why="calldata too short")
    return int.from_bytes(b[p:p + 32], "big")


def dec(T, b, p):
    k = T[0]
    if is_val(T):
        w = rd(b, p)
        v = fromw(T, w)
        if tow(T, v) != w:
            raise Revert(why="dirty value")
        return v
    if k in ("bytes", "string"):
        n = rd(b, p)
        if n > 1 << 64 or p + 32 + n > len(b):
            raise Revert(why="calldata too short")
        return b[p + 32:p + 32 + n]
    if k == "arr":
        if T[2] is None:
            n = rd(b, p)
            p += 32
            if n > 1 << 64 or p + n * hsize(T[1]) > len(b):
                raise Revert(why="calldata too short")
        else:
            n = T[2]
        return dec_tuple([T[1]] * n, b, p)
    fs = STRUCTS[T[1]]
    return dict(zip([f for f, _ in fs], dec_tuple([t for _, t in fs], b, p)))


def dec_tuple(Ts, b, base):
    out, p = [], base
    for t in Ts:
        if is_dyn(t):
            o = rd(b, p)
            if o > 1 << 64:
                raise Revert(why="offset too large")
            out.append(dec(t, b, base + o))
            p += 32
        else:
            out.append(dec(t, b, p))
            p += hsize(t)
    return out


def packed(T, v, inarr=False):
    k = T[0]
    if k == "u" or k == "addr" or k == "i" or k == "bool":
        n = 32 if inarr else {"addr": 20, "bool": 1}.get(k) or T[1] // 8
        return (tow(T, v) & ((1 << (8 * n)) - 1)).to_bytes(n, "big")
    if k == "b":
        return v.to_bytes(32, "big")[:32 if inarr else T[1]]
    if k in ("bytes", "string"):
        return bytes(v)
    if k == "arr":
        return b"".join(packed(T[1], x, True) for x in v)
    raise Unsupported("encodePacked")


def abi_encode(Ts, vs, sel=b""):
    return mem_bytes(sel + enc_tuple(Ts, vs))


def abi_packed(Ts, vs):
    return mem_bytes(b"".join(packed(t, v) for t, v in zip(Ts, vs)))


def to_locals(Ts, vs):
    """decoded values, reference types put in memory"""
    return [fromw(t, tow(t, v)) if is_val(t) else to_mem(t, v) for t, v in zip(Ts, vs)]


def abi_decode(b, Ts):
    r = to_locals(Ts, dec_tuple(Ts, b, 0))
    return r[0] if len(r) == 1 else tuple(r)


# ------------------------------------------------ calldata references
def cd_ref(T, base, p):
    """the reference of a calldata parameter"""
    k = T[0]
    if is_val(T):
        return dec(T, CD, p)
    if is_dyn(T):
        o = rd(CD, p)
        if o > 1 << 64:
            raise Revert(why="offset too large")
        p = base + o
    if k in ("bytes", "string") or (k == "arr" and T[2] is None):
        n = rd(CD, p)
        sz = 1 if k != "arr" else hsize(T[1])
        if n > 1 << 64 or p + 32 + n * sz > len(CD):
            raise Revert(why="calldata too short")
        return (p + 32, n)
    return (p, None)


def cd_val(T, ref):
    """the plain value of a calldata reference"""
    k = T[0]
    if k in ("bytes", "string"):
        return CD[ref[0]:ref[0] + ref[1]]
    if k == "arr":
        n = ref[1] if T[2] is None else T[2]
        return dec_tuple([T[1]] * n, CD, ref[0])
    return dec(T, CD, ref[0])


def cd_to_mem(T, ref):
    return to_mem(T, cd_val(T, ref))


def cd_at(T, ref, i):
    n = ref[1] if T[0] in ("bytes", "string") or T[2] is None else T[2]
    if not 0 <= i < n:
        panic(0x32)
    if T[0] in ("bytes", "string"):
        return CD[ref[0] + i] << 248
    if is_val(T[1]):
        return dec(T[1], CD, ref[0] + 32 * i)
    return cd_ref(T[1], ref[0], ref[0] + i * hsize(T[1]))


def cd_slice(T, ref, i, j):
    j = ref[1] if j is None else j
    if not 0 <= i <= j <= ref[1]:
        raise Revert(why="slice out of bounds")
    sz = 1 if T[0] in ("bytes", "string") else hsize(T[1])
    return (ref[0] + i * sz, j - i)


# ------------------------------------------------ contracts
class Contract:
    ABI = {}
    FALLBACK = None

    def __init__(self):
        self.st, self.raw, self.addr = {}, {}, 0


def fresh():
    """a clean world"""
    global MEM, CD, SELF
    ACCOUNTS.clear()
    NEXT[0] = 0x1000
    MEM, CD, SELF = newmem(), b"", None


def newmem():
    m = bytearray(1 << 17)
    m[64:96] = (128).to_bytes(32, "big")
    return m


def new_contract(cls, args):
    global MEM, SELF, CD
    c = cls()
    NEXT[0] += 1
    c.addr = kint(b"new%d" % NEXT[0]) & ((1 << 160) - 1)
    old = MEM, SELF, CD
    MEM, SELF, CD = newmem(), c, b""
    try:
        for k in reversed(cls.__mro__):
            f = k.__dict__.get("sol_state")
            if f:
                f(c)
        f = getattr(c, "sol_ctor", None)
        if f:
            Ts = cls.CTOR
            f(*to_locals(Ts, args))
    finally:
        MEM, SELF, CD = old
    ACCOUNTS[c.addr] = c
    return c.addr


def message(addr, data):
    """An external call; returns the output bytes."""
    global MEM, SELF, CD, CALLER
    c = ACCOUNTS.get(addr)
    if c is None or isinstance(c, bytes):
        raise Revert(why="no contract there")
    old = MEM, SELF, CD, CALLER
    CALLER = SELF.addr if SELF is not None else CALLER
    MEM, SELF, CD = newmem(), c, bytes(data)
    try:
        e = c.ABI.get(bytes(data[:4])) if len(data) >= 4 else None
        if e is None:
            raise Revert(why="no such function")
        name, pts, locs, rts = e
        vals, p = [], 4
        base = 4
        dv = None
        for i, t in enumerate(pts):
            if locs[i] == "calldata":
                vals.append(cd_ref(t, base, p))
            elif is_dyn(t):
                o = rd(CD, p)
                if o > 1 << 64:
                    raise Revert(why="offset too large")
                vals.append(to_mem(t, dec(t, CD, base + o)))
            else:
                v = dec(t, CD, p)
                vals.append(v if is_val(t) else to_mem(t, v))
            p += 32 if is_dyn(t) else hsize(t)
        try:
            r = getattr(c, name)(*vals)
        except YulReturn as y:
            return y.data
        except RecursionError:
            raise Revert(why="stack overflow")
        if len(rts) == 0:
            return b""
        r = [r] if len(rts) == 1 else list(r)
        return enc_tuple(rts, [v if is_val(t) else from_mem(t, v) for t, v in zip(rts, r)])
    finally:
        MEM, SELF, CD, CALLER = old


def extcall(addr, sel, Ts, vs, rts):
    out = message(addr, sel + enc_tuple(Ts, vs))
    if not rts:
        return None
    r = to_locals(rts, dec_tuple(rts, out, 0))
    return r[0] if len(r) == 1 else tuple(r)


def sstore2_write(p):
    NEXT[0] += 1
    a = kint(b"sstore2%d" % NEXT[0]) & ((1 << 160) - 1)
    ACCOUNTS[a] = b"\0" + get_bytes(p)
    return a


def sstore2_read(a):
    c = code_of(a)
    if len(c) == 0:
        raise Revert(why="no data there")
    return mem_bytes(c[1:])


# ------------------------------------------------ storage access
def sx(o, i):
    if not 0 <= i < len(o):
        panic(0x32)
    return o[i]


def sxset(o, i, v):
    if isinstance(o, dict):
        o[i] = v
        return v
    if not 0 <= i < len(o):
        panic(0x32)
    o[i] = v >> 248 if isinstance(o, bytearray) else v
    return v


def mapget(o, k, T):
    if k not in o:
        if is_val(T):
            return szero(T)
        o[k] = szero(T)
    return o[k]


def clone(v):
    return copy.deepcopy(v)


# ------------------------------------------------ tests
def t_assert(name, a, b=None, *rest):
    ok = {"assertTrue": lambda: bool(a), "assertFalse": lambda: not a, "assertEq": lambda: a == b,
          "assertNotEq": lambda: a != b, "assertGt": lambda: a > b, "assertLt": lambda: a < b,
          "assertGe": lambda: a >= b, "assertLe": lambda: a <= b}[name]()
    if not ok:
        raise Revert(why="%s failed: %r %r" % (name, a, b))


# ------------------------------------------------ used by compiled code
CONTRACTS = {}
FILES = [""]


def wst(v, a):
    mstore(a, v)
    return v


def wsti(v, a):
    mstore(a, v & M)
    return v


def bst(v, p, i):
    return bset(p, i, v)


def dst(v, o, k):
    o[k] = v
    return v


def sxst(v, o, i):
    return sxset(o, i, v)


def aget(p, i):
    if 0 <= i < mload(p):
        return mload(p + 32 + 32 * i)
    panic(0x32)


def agets(p, i, n):
    if 0 <= i < n:
        return mload(p + 32 * i)
    panic(0x32)


def fixed_at(v, i, n):
    if not 0 <= i < n:
        panic(0x32)
    return ((v >> (248 - 8 * i)) & 255) << 248


def to_fixed(b, n):
    return int.from_bytes(bytes(b[:n]).ljust(32, b"\0"), "big")


def mem_list(T, vs):
    p = zalloc(32 * len(vs))
    for i, v in enumerate(vs):
        mstore(p + 32 * i, v & M if T[0] == "i" else int(v))
    return p


def mem_words(ws):
    p = zalloc(32 * len(ws))
    for i, w in enumerate(ws):
        mstore(p + 32 * i, w)
    return p


def enum_(v, n):
    if not 0 <= v < n:
        panic(0x21)
    return v


def sha256_(b):
    return int.from_bytes(hashlib.sha256(bytes(b)).digest(), "big")


def tob4(v):
    return (v >> 224).to_bytes(4, "big")


def spop(o):
    if not o:
        panic(0x31)
    o.pop()


def spush(o, v):
    o.append(v >> 248 if isinstance(o, bytearray) else v)


def cd_field(T, r, j):
    fs = STRUCTS[T[1]]
    p = r[0] + sum(hsize(t) for _, t in fs[:j])
    t = fs[j][1]
    return dec(t, CD, p) if is_val(t) else cd_ref(t, r[0], p)


def guarded(f):
    """an inner call: what it did is undone if it reverts"""
    acc = dict(ACCOUNTS)
    old = {a: copy.deepcopy((c.st, c.raw)) for a, c in acc.items() if isinstance(c, Contract)}
    try:
        return f()
    except Revert:
        ACCOUNTS.clear()
        ACCOUNTS.update(acc)
        for a, (st, raw) in old.items():
            acc[a].st, acc[a].raw = st, raw
        raise


def lowcall(a, data):
    try:
        return True, mem_bytes(guarded(lambda: message(a, bytes(data))))
    except Revert as e:
        return False, mem_bytes(e.data)


def try_ext(addr, sel, Ts, vs, rts):
    if not isinstance(ACCOUNTS.get(addr), Contract):
        raise Revert(why="no contract there")
    data = sel + enc_tuple(Ts, vs)
    try:
        out = guarded(lambda: message(addr, data))
    except Revert as e:
        return False, e.data
    if not rts:
        return True, None
    r = to_locals(rts, dec_tuple(rts, out, 0))
    return True, r[0] if len(r) == 1 else tuple(r)


def try_new(cls, args):
    try:
        return True, guarded(lambda: new_contract(cls, args))
    except Revert as e:
        return False, e.data


def caught(kind, data):
    try:
        if kind == "Error" and data[:4] == b"\x08\xc3\x79\xa0":
            return dec_tuple([("string",)], data[4:], 0)[0]
        if kind == "Panic" and data[:4] == b"\x4e\x48\x7b\x71" and len(data) >= 36:
            return int.from_bytes(data[4:36], "big")
    except Revert:
        pass
    return None


def fail_err(sel, Ts, vs):
    raise Revert(sel + enc_tuple(Ts, vs), "error")


def vm_readFile(p):
    with open(FILES[0] + "/" + bytes(p).decode(), "rb") as h:
        return mem_bytes(h.read())


def vm_etch(a, code):
    ACCOUNTS[a] = bytes(code)
