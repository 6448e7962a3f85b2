"""Compiles Solidity sources to a Python module running on rt."""
import os
from fractions import Fraction

from .parse import N, Parser, SolError
from .rt import kint

M = (1 << 256) - 1
STUBS = {
    "forge-std/Test.sol": """
library console { }
contract Test { bool public IS_TEST = true; }
""",
    "InterfaceVerifier/IVerifier.sol": """
interface ISigVerifier {
    function setKey(bytes memory pubkey) external returns (bytes memory);
    function verify(bytes calldata _pubkey, bytes32 _digest, bytes calldata _sig) external view returns (bytes4);
}
""",
}
U256, BOOL, ADDR = ("u", 256), ("bool",), ("addr",)
BYTES_M, STR_M = ("bytes", "memory"), ("string", "memory")
YB = {"add": "((%s+%s)&M)", "sub": "((%s-%s)&M)", "mul": "((%s*%s)&M)", "and": "(%s&%s)", "or": "(%s|%s)",
      "xor": "(%s^%s)", "not": "(%s^M)", "lt": "(%s<%s)", "gt": "(%s>%s)", "eq": "(%s==%s)", "iszero": "(%s==0)",
      "mload": "mload(%s)", "mstore": "mstore(%s,%s)", "mstore8": "mstore8(%s,%s)"}
YF = """div mod sdiv smod addmod mulmod exp slt sgt shl shr sar byte signextend keccak256 mcopy calldataload calldatasize
calldatacopy codecopy extcodesize extcodehash extcodecopy return revert invalid stop pop gas gaslimit msize address caller
callvalue returndatasize returndatacopy sload sstore tload tstore create create2 staticcall call""".split()


def strip(T):
    """the type without data locations"""
    k = T[0]
    if k in ("bytes", "string"):
        return (k,)
    if k == "arr":
        return (k, strip(T[1]), T[2])
    if k == "struct":
        return (k, T[1])
    if k == "contract":
        return ADDR
    if k == "enum":
        return ("u", 8)
    return T


def ref(T):
    return T[0] in ("bytes", "string", "arr", "struct", "map")


def loc(T):
    return {"bytes": 1, "string": 1, "arr": 3, "struct": 2}.get(T[0]) and T[-1]


def with_loc(T, l):
    k = T[0]
    if k in ("bytes", "string"):
        return (k, l)
    if k == "arr":
        return (k, with_loc(T[1], l), T[2], l)
    if k == "struct":
        return (k, T[1], l)
    return T


def mobile(T):
    """the type of a literal"""
    if T[0] == "lit":
        v = T[1]
        if v.denominator != 1:
            raise SolError("fractional literal")
        v = int(v)
        for b in range(8, 257, 8):
            if v >= 0 and v < 1 << b:
                return ("u", b)
            if v < 0 and v >= -(1 << (b - 1)):
                return ("i", b)
        raise SolError("literal too large")
    if T[0] == "strlit":
        return STR_M
    return T


def mask(T):
    return (1 << T[1]) - 1


class Scope:
    def __init__(self, up=None):
        self.up, self.d = up, {}

    def find(self, n):
        s = self
        while s is not None:
            if n in s.d:
                return s.d[n]
            s = s.up
        return None


class File:
    def __init__(self, path):
        self.path = path
        self.names = {}          # name -> list of declarations


class Compiler:
    def __init__(self, root):
        self.root = root
        self.files = {}
        self.out = []
        self.uid = 0
        self.structs = {}
        self.contracts = {}
        self.fnames = {}

    # ------------------------------------------------ loading
    def resolve(self, frm, path):
        if path in STUBS:
            return path
        if path.startswith("."):
            return os.path.normpath(os.path.join(os.path.dirname(frm), path))
        for pre, to in (("sstore2/", "lib/sstore2/contracts/"), ("src/", "src/"), ("", "")):
            if path.startswith(pre):
                p = os.path.join(self.root, to + path[len(pre):])
                if os.path.exists(p):
                    return p
        raise SolError("cannot find %s" % path)

    def load(self, path):
        if path in self.files:
            return self.files[path]
        f = self.files[path] = File(path)
        if path in STUBS:
            src = STUBS[path]
        else:
            with open(path) as h:
                src = h.read()
        f.units = Parser(src, path).unit()
        f.usings = [u for u in f.units if u.k == "using"]
        for u in f.units:
            if u.k in ("import", "using"):
                continue
            u.file = f
            f.names.setdefault(u.name, []).append(u)
            self.register(u, None)
        for u in f.units:
            if u.k != "import":
                continue
            g = self.load(self.resolve(path, u.path))
            f.__dict__.setdefault("imports", []).append((g, u))
        return f

    def exported(self, f, seen=None):
        """every name visible in f"""
        if getattr(f, "vis", None) is not None:
            return f.vis
        seen = (seen or set()) | {f.path}
        r = {k: list(v) for k, v in f.names.items()}

        def put(n, ds):
            for d in ds:
                if d not in r.setdefault(n, []):
                    r[n].append(d)
        for g, u in getattr(f, "imports", []):
            if g.path in seen:
                continue
            e = self.exported(g, seen)
            if u.names is not None:
                for a, b in u.names:
                    if a not in e:
                        raise SolError("%s: no %s in %s" % (f.path, a, g.path))
                    put(b, e[a])
            elif u.alias is None:
                for n, ds in e.items():
                    put(n, ds)
        if len(seen) == 1:
            f.vis = r
        return r

    def register(self, u, c):
        if u.k == "contract":
            key = u.name
            i = 2
            while key in self.contracts:
                key = "%s_%d" % (u.name, i)
                i += 1
            u.key = key
            self.contracts[key] = u
            u.usings = [m for m in u.members if m.k == "using"]
            for m in u.members:
                if m.k != "using":
                    m.file = u.file
                    m.contract = u
                    self.register(m, u)
        elif u.k == "struct":
            key = u.name if c is None else c.key + "_" + u.name
            i = 2
            while key in self.structs:
                key = "%s%d" % (u.name, i)
                i += 1
            u.key = key
            self.structs[key] = u
        elif u.k == "function":
            self.uid += 1
            u.py = "%s_%s_%d" % ("F" if c is None else c.key, u.name, self.uid)
        u.contract = c if u.k != "contract" else None

    # ------------------------------------------------ contracts
    def bases(self, c):
        """linearisation, most derived first"""
        if getattr(c, "lin", None):
            return c.lin
        direct = [self.find_contract(b, c) for b, _ in c.bases]
        seqs = [list(self.bases(b)) for b in reversed(direct)] + [list(reversed(direct))]
        r = [c]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise SolError("cannot linearise " + c.name)
            r.append(h)
            seqs = [[x for x in t if x is not h] if t and t[0] is h else t for t in seqs]
        c.lin = r
        return r

    def find_contract(self, name, c):
        for d in self.exported(c.file).get(name.split(".")[-1], []):
            if d.k == "contract":
                return d
        raise SolError("no contract " + name)

    def members(self, c, name):
        """declarations of that name visible in contract c, most derived first"""
        r = []
        for b in self.bases(c):
            for m in b.members:
                if m.k != "using" and m.name == name and m.k != "modifier":
                    r.append(m)
        return r

    # ------------------------------------------------ types
    def type(self, t, file, contract, l=None):
        k = t.k
        if k == "telem":
            n = t.name
            if n == "bool":
                return BOOL
            if n == "address":
                return ADDR
            if n in ("bytes", "string"):
                return (n, l)
            if n.startswith("uint"):
                return ("u", int(n[4:] or 256))
            if n.startswith("int"):
                return ("i", int(n[3:] or 256))
            if n.startswith("bytes"):
                return ("b", int(n[5:]))
            raise SolError("type " + n)
        if k == "tarr":
            b = self.type(t.base, file, contract, l)
            cnt = None
            if t.n is not None:
                cnt = int(self.const(t.n, file, contract))
            return ("arr", b, cnt, l)
        if k == "tmap":
            return ("map", self.type(t.key, file, contract, "memory"), self.type(t.val, file, contract, "storage"))
        d = self.lookup_type(t.name, file, contract)
        if d.k == "struct":
            return ("struct", d.key, l)
        if d.k == "contract":
            return ("contract", d.key)
        if d.k == "enum":
            return ("enum", d.name)
        if d.k == "udvt":
            return self.type(d.type, file, contract, l)
        raise SolError("%s is no type" % t.name)

    def lookup_type(self, name, file, contract):
        p = name.split(".")
        ds = None
        if contract is not None:
            ds = [m for m in self.members(contract, p[0]) if m.k in ("struct", "enum", "udvt")]
        if not ds:
            ds = [d for d in self.exported(file).get(p[0], []) if d.k in ("struct", "enum", "udvt", "contract")]
        if not ds:
            raise SolError("unknown type " + name)
        d = ds[0]
        for x in p[1:]:
            d = [m for m in self.members(d, x) if m.k in ("struct", "enum", "udvt")][0]
        return d

    def const(self, e, file, contract):
        f = Fn(self, file, contract, None)
        c, T = f.expr(e)
        if T[0] != "lit":
            try:
                return eval(c, {"M": M})
            except Exception:
                raise SolError("not a constant")
        return T[1]

    def ptypes(self, fn):
        if not hasattr(fn, "pts"):
            fn.pts = [self.type(p.type, fn.file, fn.contract, p.loc or "memory") for p in fn.params]
            fn.rts = [self.type(p.type, fn.file, fn.contract, p.loc or "memory") for p in fn.rets]
        return fn.pts

    def rtypes(self, fn):
        self.ptypes(fn)
        return fn.rts

    def sig(self, T):
        k = T[0]
        if k == "struct":
            s = self.structs[T[1]]
            return "(" + ",".join(self.sig(self.type(t, s.file, s.contract)) for _, t in s.fields) + ")"
        if k == "arr":
            return self.sig(T[1]) + "[%s]" % ("" if T[2] is None else T[2])
        return {"u": "uint%s", "i": "int%s", "b": "bytes%s"}[k] % T[1] if k in "uib" else \
            {"bool": "bool", "addr": "address", "bytes": "bytes", "string": "string", "contract": "address",
             "enum": "uint8"}[k]

    def selector(self, fn):
        if fn.k == "var":
            s = fn.name + "(" + ",".join(self.sig(t) for t in self.getter(fn)[0]) + ")"
        else:
            s = fn.name + "(" + ",".join(self.sig(t) for t in self.ptypes(fn)) + ")"
        return (kint(s.encode()) >> 224).to_bytes(4, "big")

    def getter(self, v):
        """parameter types and result type of a public state variable"""
        T = self.type(v.type, v.file, v.contract, "storage")
        ps = []
        while T[0] in ("map", "arr"):
            if T[0] == "map":
                ps.append(with_loc(T[1], "memory"))
                T = T[2]
            else:
                ps.append(U256)
                T = T[1]
        return ps, T

    def mangled(self, fn):
        """methods of the same signature override one another"""
        return "m_%s_%s" % (fn.name, (kint(repr([strip(t) for t in self.ptypes(fn)]).encode()) >> 224))

    # ------------------------------------------------ output
    def emit(self, s):
        self.out.append(s)

    def compile(self, paths):
        for p in paths:
            self.load(p)
        for key, s in self.structs.items():
            fs = [(n, strip(self.type(t, s.file, s.contract, "memory"))) for n, t in s.fields]
            self.emit("STRUCTS[%r] = %r" % (key, fs))
        done = set()
        for f in list(self.files.values()):
            for u in f.units:
                if u.k == "function":
                    self.function(u, u.py, "")
                elif u.k == "contract":
                    self.contract(u, done)
        return "\n".join(self.out) + "\n"

    def contract(self, c, done):
        if c.key in done:
            return
        done.add(c.key)
        for b in self.bases(c)[1:]:
            self.contract(b, done)
        bs = ", ".join("K_" + b.key for b in [self.find_contract(b, c) for b, _ in reversed(c.bases)]) or "Contract"
        self.emit("class K_%s(%s):" % (c.key, bs))
        self.emit("    NAME = %r" % c.name)
        for m in c.members:
            if m.k == "function" and m.kind == "function" and m.body is not None:
                if c.kind == "library":
                    continue
                self.function(m, self.mangled(m), "    ")
            if m.k == "var" and m.vis == "public":
                self.getter_code(m)
        sv = [m for m in c.members if m.k == "var" and not m.const]
        self.emit("    def sol_state(self):")
        f = Fn(self, c.file, c, None)
        f.ind = "        "
        f.line("pass")
        for m in sv:
            T = self.type(m.type, c.file, c, "storage")
            if m.init is None:
                f.line("SELF.st[%r] = szero(%r)" % (m.name, strip(T) if T[0] != "map" else T))
            else:
                e, t = f.expr(m.init)
                f.line("SELF.st[%r] = %s" % (m.name, f.conv(e, t, T)))
        self.out += f.lines
        ct = [m for m in c.members if m.k == "function" and m.kind == "constructor"]
        basecalls = [(self.find_contract(b, c), a) for b, a in c.bases]
        if ct:
            fn = ct[0]
            self.emit("    CTOR = %r" % ([strip(t) for t in self.ptypes(fn)],))
            self.function(fn, "sol_ctor", "    ", bases=basecalls)
        else:
            self.emit("    CTOR = []")
            self.emit("    def sol_ctor(self):")
            f = Fn(self, c.file, c, None)
            f.ind = "        "
            f.line("pass")
            f.bases(basecalls, [])
            self.out += f.lines
        abi = {}
        for b in reversed(self.bases(c)):
            for m in b.members:
                if m.k == "function" and m.kind == "function" and m.vis in ("public", "external") and \
                        b.kind != "library":
                    abi[self.selector(m)] = (self.mangled(m), [strip(t) for t in self.ptypes(m)],
                                             [loc(t) for t in self.ptypes(m)], [strip(t) for t in self.rtypes(m)],
                                             m.name)
                if m.k == "var" and m.vis == "public" and b.kind != "library":
                    ps, T = self.getter(m)
                    abi[self.selector(m)] = ("g_" + m.name, [strip(t) for t in ps], [None] * len(ps), [strip(T)],
                                             m.name)
        self.emit("    ABI = {%s}" % ",\n           ".join("%r: %r" % (k, v[:4]) for k, v in abi.items()))
        names = {}
        for k, v in abi.items():
            names.setdefault(v[4], []).append((k, v[1]))
        self.emit("    METHODS = %r" % names)
        self.emit("CONTRACTS[%r] = K_%s" % (c.name, c.key))
        if c.kind == "library":
            for m in c.members:
                if m.k == "function" and m.body is not None:
                    self.function(m, m.py, "")

    def getter_code(self, m):
        ps, T = self.getter(m)
        self.emit("    def g_%s(%s):" % (m.name, ", ".join(["self"] + ["p%d" % i for i in range(len(ps))])))
        if m.const:
            self.emit("        return " + Fn(self, m.file, m.contract, None).variable(m)[0])
            return
        t = self.type(m.type, m.file, m.contract, "storage")
        s = "SELF.st[%r]" % m.name
        for i in range(len(ps)):
            if t[0] == "map":
                s = "mapget(%s, %s, %r)" % (s, "p%d" % i, t[2])
                t = t[2]
            else:
                s = "sx(%s, p%d)" % (s, i)
                t = t[1]
        if ref(T):
            s = "to_mem(%r, %s)" % (strip(T), s)
        self.emit("        return " + s)

    def function(self, fn, py, ind, bases=()):
        if fn.body is None:
            return
        method = bool(ind)
        mods = []
        for nm, a in fn.mods:
            ms = [m for b in self.bases(fn.contract) for m in b.members if m.k == "function" and
                  m.kind == "modifier" and m.name == nm.split(".")[-1]] if fn.contract is not None else []
            if ms:
                mods.append((ms[0], a))
            elif fn.kind != "constructor":
                raise SolError("no modifier %s" % nm)
        f = Fn(self, fn.file, fn.contract, fn)
        f.ind = ind + "    "
        pts, rts = self.ptypes(fn), self.rtypes(fn)
        args = []
        for p, t in zip(fn.params, pts):
            args.append(f.declare(p.name, t) if p.name else "u%d" % f.new())
        head = "%sdef %s(%s):" % (ind, py, ", ".join((["self"] if method else []) + args))
        f.bases(bases, fn.mods)
        for i, (p, t) in enumerate(zip(fn.rets, rts)):
            v = f.declare(p.name, t) if p.name else "r%d" % f.new()
            f.line("%s = %s" % (v, f.default(t)))
            f.rets.append((v, t, p.name))
        f.yul_assigned(fn.body)
        for m, _ in mods:
            f.yul_assigned(m.body)
        f.wrapped(fn.body, mods, args)
        f.line("return " + f.retval())
        self.emit(head)
        self.out += f.lines


class Fn:
    """the code of one function"""

    def __init__(self, comp, file, contract, fn):
        self.c, self.file, self.contract, self.fn = comp, file, contract, fn
        self.scope = Scope()
        self.lines, self.ind = [], ""
        self.unchecked = False
        self.rets = []
        self.loops = []
        self.place, self.inmod = None, False
        self.dirty = set()
        self.n = 0

    def new(self):
        self.n += 1
        return self.n

    def bases(self, bs, mods):
        for b, a in bs:
            k = [m for m in b.members if m.k == "function" and m.kind == "constructor"]
            a = a or next((x for n, x in mods if n == b.name), [])
            if k:
                a = [a[p.name] for p in k[0].params] if isinstance(a, dict) else a
                cs = [self.conv(*self.expr(x), t) for x, t in zip(a, self.c.ptypes(k[0]))]
                self.line("K_%s.sol_ctor(%s)" % (b.key, ", ".join(["self"] + cs)))
            elif b.kind == "contract":
                self.line("K_%s.sol_ctor(self)" % b.key)

    def wrapped(self, body, mods, args):
        """a body inside its modifiers"""
        if not mods:
            self.block(body.body)
            return
        m, a = mods[0]
        inner = "body%d" % self.new()
        self.line("def %s():" % inner)
        self.ind += "    "
        vs = args + [v for v, _, _ in self.rets]
        if vs:
            self.line("nonlocal " + ", ".join(vs))
        old, self.inmod = self.inmod, len(mods) == 1
        self.wrapped(body, mods[1:], args)
        self.inmod = old
        self.ind = self.ind[:-4]
        pts = self.c.ptypes(m)
        if isinstance(a, dict):
            a = [a[p.name] for p in m.params]
        cs = [self.val(x, t) for x, t in zip(a, pts)]
        keep = self.scope, self.contract, self.file, self.rets, self.place, self.inmod
        self.scope, self.contract, self.file = Scope(), m.contract, m.file
        ps = [self.declare(p.name, t) if p.name else "u%d" % self.new() for p, t in zip(m.params, pts)]
        self.rets, self.place, self.inmod = [], inner, False
        name = "mod%d" % self.new()
        self.line("def %s(%s):" % (name, ", ".join(ps)))
        self.ind += "    "
        self.block(m.body.body)
        self.ind = self.ind[:-4]
        self.scope, self.contract, self.file, self.rets, self.place, self.inmod = keep
        self.line("%s(%s)" % (name, ", ".join(cs)))

    def s_placeholder(self, s):
        self.line(self.place + "()")

    def s_try(self, s):
        e = s.e
        code, rt = self.expr(e)
        if code.startswith("extcall("):
            code = "try_ext(" + code[8:]
        elif code.startswith("new_contract("):
            code = "try_new(" + code[13:]
        else:
            self.err("try needs an external call or a creation")
        t = "t%d" % self.new()
        self.line("%s = %s" % (t, code))
        self.line("if %s[0]:" % t)
        self.ind += "    "
        self.scope = Scope(self.scope)
        self.line("pass")
        ts = rt[1] if rt[0] == "tuple" else [rt]
        for i, (p, a) in enumerate(zip(s.rets, ts)):
            if p.name:
                T = self.c.type(p.type, self.file, self.contract, p.loc)
                src = "%s[1]" % t if len(ts) == 1 else "%s[1][%d]" % (t, i)
                self.line("%s = %s" % (self.declare(p.name, T), self.conv(src, a, T)))
        self.block(s.body.body)
        self.scope = self.scope.up
        self.ind = self.ind[:-4]
        rest = True
        for nm, ps, b in sorted(s.catches, key=lambda c: c[0] is None):
            self.line("else:" if nm is None else "elif caught(%r, %s[1]) is not None:" % (nm, t))
            rest = rest and nm is not None
            self.ind += "    "
            self.scope = Scope(self.scope)
            if ps and ps[0].name:
                T = self.c.type(ps[0].type, self.file, self.contract, ps[0].loc)
                v = "mem_bytes(%s[1])" % t if nm is None else "caught(%r, %s[1])" % (nm, t)
                if nm == "Error":
                    v = "mem_bytes(%s)" % v
                self.line("%s = %s" % (self.declare(ps[0].name, T), v))
            self.block(b.body)
            self.scope = self.scope.up
            self.ind = self.ind[:-4]
        if rest:
            self.line("else: raise Revert(%s[1])" % t)

    def line(self, s):
        self.lines.append(self.ind + s)

    def err(self, s):
        raise SolError("%s: %s: %s" % (os.path.basename(self.file.path), self.fn and self.fn.name, s))

    def declare(self, name, T):
        v = "v_%s_%d" % (name, self.new())
        self.scope.d[name] = (v, T)
        return v

    def default(self, T):
        if ref(T):
            if loc(T) == "storage" or T[0] == "map":
                return "None"
            if loc(T) == "calldata":
                return "(0, 0)"
            return "zero(%r)" % (strip(T),)
        return "False" if T[0] == "bool" else "0"

    def retval(self):
        rv = [self.clean(v, t, nm) for v, t, nm in self.rets]
        if not rv:
            return "None"
        return rv[0] if len(rv) == 1 else "(" + ", ".join(rv) + ")"

    # ------------------------------------------------ assembly-modified locals are cleaned when read
    def yul_assigned(self, node):
        if isinstance(node, list):
            for x in node:
                self.yul_assigned(x)
        elif isinstance(node, tuple):
            for x in node:
                self.yul_assigned(x)
        elif isinstance(node, dict):
            for x in node.values():
                self.yul_assigned(x)
        elif isinstance(node, N):
            if node.k == "yassign":
                self.dirty |= set(node.names)
            for v in list(node.__dict__.values()):
                if isinstance(v, (list, tuple, dict, N)) and not (isinstance(v, N) and v.k in ("contract",)):
                    self.yul_assigned(v)

    def clean(self, v, T, name):
        if name in self.dirty:
            k = T[0]
            if k == "u" and T[1] < 256:
                return "(%s & %d)" % (v, mask(T))
            if k == "bool":
                return "(%s != 0)" % v
            if k in ("addr", "contract"):
                return "(%s & %d)" % (v, (1 << 160) - 1)
            if k in ("b", "i"):
                return "fromw(%r, %s & M)" % (T, v)
        return v

    # ------------------------------------------------ conversions
    def can(self, a, b):
        """implicit conversion"""
        if a == b:
            return True
        k, j = a[0], b[0]
        if k == "lit":
            if j == "u":
                return a[1].denominator == 1 and 0 <= a[1] <= mask(b)
            if j == "i":
                return a[1].denominator == 1 and -(1 << (b[1] - 1)) <= a[1] < 1 << (b[1] - 1)
            if j == "b":
                return a[1] == 0 or a[2] == 2 * b[1]
            return j == "addr" and a[2] == 40
        if k == "strlit":
            return j in ("bytes", "string") or (j == "b" and len(a[1]) <= b[1])
        if k == "u" and j == "u":
            return a[1] <= b[1]
        if k == "i" and j == "i":
            return a[1] <= b[1]
        if k == "u" and j == "i":
            return a[1] < b[1]
        if k == "b" and j == "b":
            return a[1] <= b[1]
        if k == "contract" and j == "contract":
            return b[1] in [x.key for x in self.c.bases(self.c.contracts[a[1]])]
        if k == "tuple" and j == "tuple":
            return len(a[1]) == len(b[1]) and all(self.can(x, y) for x, y in zip(a[1], b[1]))
        if ref(a) and ref(b):
            if strip(a) == strip(b):
                return not (loc(b) == "calldata" and loc(a) != "calldata")
            if k == "arr" and j == "arr" and loc(b) == "storage":
                return self.can(a[1], b[1]) and (b[2] is None or a[2] is not None and a[2] <= b[2])
        return False

    def conv(self, code, a, b):
        if a == b:
            return code
        if not self.can(a, b):
            self.err("cannot convert %r to %r" % (a, b))
        k, j = a[0], b[0]
        if k == "lit":
            v = int(a[1])
            return str(v << (256 - 8 * b[1]) if j == "b" else v)
        if k == "strlit":
            if j == "b":
                return str(int.from_bytes(a[1].ljust(32, b"\0"), "big"))
            if loc(b) == "storage":
                return "bytearray(%r)" % a[1]
            return "mem_bytes(%r)" % a[1]
        if ref(a) and ref(b):
            la, lb = loc(a), loc(b)
            if la == lb:
                return code if lb != "storage" else "clone(%s)" % code
            if lb == "memory":
                return "%s(%r, %s)" % ("to_mem" if la == "storage" else "cd_to_mem", strip(a), code)
            if lb == "storage":
                r = "%s(%r, %s)" % ("from_mem" if la == "memory" else "cd_val", strip(a), code)
                if a[0] == "bytes" or a[0] == "string":
                    r = "bytearray(%s)" % r
                if a[0] == "arr" and b[2] is not None and a[2] != b[2]:
                    self.err("array sizes")
                return r
            self.err("cannot convert to calldata")
        return code

    def plain(self, code, T):
        """a plain Python value, and its runtime type"""
        if T[0] in ("lit", "strlit"):
            m = mobile(T)
            return (repr(T[1]), ("bytes",)) if T[0] == "strlit" else (str(int(T[1])), m)
        if ref(T):
            l = loc(T)
            if l == "memory":
                return "from_mem(%r, %s)" % (strip(T), code), strip(T)
            if l == "calldata":
                return "cd_val(%r, %s)" % (strip(T), code), strip(T)
            return code, strip(T)
        return code, strip(T)

    def explicit(self, code, a, b):
        k, j = a[0], b[0]
        if k == "contract":
            k, a = "addr", ADDR
        if j == "contract":
            j, b2 = "addr", ADDR
            return self.explicit(code, a, b2)
        if j == "enum":
            return code
        if k == "enum":
            return code
        if k == "lit":
            v = a[1]
            if v.denominator != 1:
                self.err("fractional")
            v = int(v)
            if j == "u":
                return str(v & mask(b))
            if j == "i":
                return "wrs(%d, %d)" % (v, b[1])
            if j == "b":
                return str((v & ((1 << (8 * b[1])) - 1)) << (256 - 8 * b[1]))
            if j == "addr":
                return str(v & ((1 << 160) - 1))
            self.err("conversion of a literal")
        if k == "strlit":
            return self.conv(code, a, b if j == "b" else with_loc(b, "memory"))
        if k == j and a == b:
            return code
        if k == "addr":
            k, a = "u", ("u", 160)
        if j == "addr":
            if k == "b":
                return "(%s >> 96)" % code
            return "(%s & %d)" % (code, (1 << 160) - 1)
        if k in "ui" and j == "u":
            return code if k == "u" and a[1] <= b[1] else "(%s & %d)" % (code, mask(b))
        if k in "ui" and j == "i":
            return "wrs(%s, %d)" % (code, b[1])
        if k in "ui" and j == "b":
            return "((%s & %d) << %d)" % (code, (1 << (8 * b[1])) - 1, 256 - 8 * b[1])
        if k == "b" and j == "u":
            return "(%s >> %d)" % (code, 256 - 8 * a[1]) if 8 * a[1] <= b[1] else \
                "((%s >> %d) & %d)" % (code, 256 - 8 * a[1], mask(b))
        if k == "b" and j == "b":
            return code if a[1] <= b[1] else "(%s & %d)" % (code, M ^ ((1 << (256 - 8 * b[1])) - 1))
        if k in ("bytes", "string") and j in ("bytes", "string"):
            return code
        if k == "bytes" and j == "b":
            if loc(a) == "memory":
                return "to_fixed(get_bytes(%s), %d)" % (code, b[1])
            return "to_fixed(%s, %d)" % (self.plain(code, a)[0], b[1])
        if ref(a) and ref(b):
            return self.conv(code, a, b)
        self.err("conversion %r to %r" % (a, b))

    # ------------------------------------------------ lookup
    def decls(self, name):
        if self.contract is not None:
            ms = self.c.members(self.contract, name)
            if ms:
                return ms
        return self.c.exported(self.file).get(name, [])

    def ident(self, name):
        v = self.scope.find(name)
        if v is not None:
            return self.clean(v[0], v[1], name), v[1]
        ds = self.decls(name)
        if ds:
            d = ds[0]
            if d.k == "var":
                return self.variable(d)
            if d.k == "function":
                return "", ("fn", ds, None)
            if d.k == "contract":
                return "", ("type", ("contract", d.key))
            if d.k == "struct":
                return "", ("type", ("struct", d.key, "memory"))
            if d.k == "enum":
                return "", ("enumt", d)
            if d.k in ("event", "error"):
                return "", (d.k, d)
            if d.k == "udvt":
                return "", ("type", self.c.type(d.type, d.file, d.contract, "memory"))
        if name == "this":
            return "SELF.addr", ("contract", self.contract.key)
        if name == "now":
            return "1", U256
        return "", ("magic", name)

    def variable(self, d):
        T = self.c.type(d.type, d.file, d.contract, "storage")
        if d.const:
            T = with_loc(T, "memory")
            if not hasattr(d, "cc"):
                f = Fn(self.c, d.file, d.contract, None)
                e, t = f.expr(d.init)
                if ref(T):
                    return f.conv(e, t, T), T
                d.cc = f.conv(e, t, T)
            return d.cc, T
        return "SELF.st[%r]" % d.name, T

    # ------------------------------------------------ expressions: (code, type)
    def expr(self, e):
        return getattr(self, "x_" + e.k)(e)

    def val(self, e, T):
        c, t = self.expr(e)
        return self.conv(c, t, T)

    def x_num(self, e):
        if e.hexlen == 40 and e.addr:
            return str(e.v), ("lit", Fraction(e.v), 40)
        return str(e.v), ("lit", Fraction(e.v), e.hexlen)

    def x_str(self, e):
        return repr(e.v), ("strlit", e.v)

    def x_bool(self, e):
        return str(e.v), BOOL

    def x_paren(self, e):
        c, t = self.expr(e.e)
        return "(%s)" % c, t

    def x_id(self, e):
        return self.ident(e.name)

    def x_telem(self, e):
        return "", ("type", self.c.type(e, self.file, self.contract, "memory"))

    def x_typeof(self, e):
        return "", ("typeinfo", self.c.type(e.type, self.file, self.contract, "memory"))

    def x_new(self, e):
        return "", ("new", self.c.type(e.type, self.file, self.contract, "memory"))

    def x_arrlit(self, e):
        es = [self.expr(x) for x in e.es]
        T = None
        for _, t in es:
            m = mobile(t)
            if T is None or (not self.can(m, T) and self.can(T, m)):
                T = m
        if es and es[0][1][0] != "lit":
            T = es[0][1]
        cs = [self.conv(c, t, T) for c, t in es]
        return "mem_list(%r, [%s])" % (strip(T), ", ".join(cs)), ("arr", T, len(cs), "memory")

    def x_tuple(self, e):
        cs = [(None, None) if x is None else self.expr(x) for x in e.es]
        return "(%s,)" % ", ".join("None" if c is None else c for c, _ in cs), ("tuple", [t for _, t in cs])

    def x_cond(self, e):
        c = self.val(e.c, BOOL)
        (a, ta), (b, tb) = self.expr(e.a), self.expr(e.b)
        T = self.common(mobile(ta), mobile(tb))
        return "(%s if %s else %s)" % (self.conv(a, ta, T), c, self.conv(b, tb, T)), T

    def common(self, a, b):
        if a == b:
            return a
        if ref(a) and ref(b):
            return with_loc(a, "memory")
        if self.can(a, b):
            return b
        if self.can(b, a):
            return a
        self.err("no common type for %r and %r" % (a, b))

    def x_un(self, e):
        op = e.op
        if op in ("++", "--"):
            return self.incdec(e.e, op, True)
        c, t = self.expr(e.e)
        if op == "!":
            return "(not %s)" % c, BOOL
        if t[0] == "lit":
            v = -t[1] if op == "-" else Fraction(~int(t[1]))
            return "(%s)" % v, ("lit", v, None)
        if op == "~":
            if t[0] == "u":
                return "(%s ^ %d)" % (c, mask(t)), t
            if t[0] == "b":
                return "(%s ^ %d)" % (c, M ^ ((1 << (256 - 8 * t[1])) - 1)), t
            return "(~%s)" % c, t
        if self.unchecked:
            return ("wrs(-%s, %d)" % (c, t[1]) if t[0] == "i" else "(-%s & %d)" % (c, mask(t))), t
        return "cks(-%s, %d)" % (c, t[1]), t

    def x_post(self, e):
        return self.incdec(e.e, e.op, False)

    def incdec(self, e, op, pre):
        lv = self.lvalue(e)
        T = lv[-1]
        s, ld, st = self.rmw(lv)
        new = self.arith("+" if op == "++" else "-", ld, "1", T)
        if pre:
            return self.seq(s, st(new)), T
        if lv[0] == "local":
            v = lv[1]
            if self.unchecked and T[0] == "u":
                return "((%s := (%s %s 1) & %d), (%s %s 1) & %d)[1]" % (
                    v, ld, op[0], mask(T), v, "-" if op == "++" else "+", mask(T)), T
            t = "t%d" % self.new()
            return "((%s := %s), %s)[0]" % (t, ld, st(self.arith(op[0], t, "1", T))), T
        t = "t%d" % self.new()
        return self.seq(s + ["(%s := %s)" % (t, ld)], "(%s, %s)[0]" % (t, st(self.arith(op[0], t, "1", T)))), T

    def seq(self, pre, last):
        return last if not pre else "(%s, %s)[-1]" % (", ".join(pre), last)

    def arith(self, op, a, b, T):
        k = T[0]
        if k == "b":
            if op in "&|^":
                return "(%s %s %s)" % (a, op, b)
            self.err("operator %s on bytes" % op)
        if k == "bool":
            self.err("operator %s on bool" % op)
        if op in "&|^":
            return "(%s %s %s)" % (a, op, b)
        if k == "u":
            m = mask(T)
            ms = "M" if T[1] == 256 else str(m)
            if op in "+-*":
                if self.unchecked:
                    return "((%s %s %s) & %s)" % (a, op, b, ms)
                return "cku(%s %s %s, %s)" % (a, op, b, ms)
            if op in "/%":
                if b.isdigit() and int(b):
                    return "(%s %s %s)" % (a, "//" if op == "/" else "%", b)
                return "%s(%s, %s)" % ("udiv" if op == "/" else "umod", a, b)
            if op == "**":
                return "upow(%s, %s, %s, %s)" % (a, b, ms, not self.unchecked)
        else:
            f = "wrs" if self.unchecked else "cks"
            if op in "+-*":
                return "%s(%s %s %s, %d)" % (f, a, op, b, T[1])
            if op == "/":
                return "%s(sdiv_(%s, %s), %d)" % (f, a, b, T[1])
            if op == "%":
                return "smod_(%s, %s)" % (a, b)
            if op == "**":
                return "%s(%s ** min(%s, 300), %d)" % (f, a, b, T[1])
        self.err("operator " + op)

    def shift(self, op, a, ta, b):
        if ta[0] == "b":
            full = M ^ ((1 << (256 - 8 * ta[1])) - 1)
            if op == "<<":
                return "(shl_(%s, %s, M) & %d)" % (a, b, full)
            return "(shr_(%s, %s) & %d)" % (a, b, full)
        if ta[0] == "u":
            m = mask(ta)
            if op == "<<":
                if b.isdigit() and int(b) < 300:
                    return "((%s << %s) & %d)" % (a, b, m)
                return "shl_(%s, %s, %d)" % (a, b, m)
            if b.isdigit():
                return "(%s >> %s)" % (a, b)
            return "shr_(%s, %s)" % (a, b)
        if op == "<<":
            return "wrs(%s << min(%s, 300), %d)" % (a, b, ta[1])
        return "(%s >> min(%s, 300))" % (a, b)

    def x_bin(self, e):
        op = e.op
        if op in ("&&", "||"):
            return "(%s %s %s)" % (self.val(e.a, BOOL), "and" if op == "&&" else "or", self.val(e.b, BOOL)), BOOL
        (a, ta), (b, tb) = self.expr(e.a), self.expr(e.b)
        if ta[0] == "lit" and tb[0] == "lit":
            return self.fold(op, ta, tb)
        if op in ("<<", ">>", ">>>"):
            if ta[0] == "lit":
                ta = ("u", 256) if ta[1] >= 0 else ("i", 256)
                a = str(int(self.lit(a, ta)))
            if tb[0] == "lit":
                b = str(int(tb[1]))
            return self.shift(op, a, ta, b), ta
        if op == "**":
            if ta[0] == "lit":
                ta = ("u", 256) if ta[1] >= 0 else ("i", 256)
            if tb[0] == "lit":
                b = str(int(tb[1]))
            return self.arith("**", a, b, ta), ta
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if ta[0] == "strlit" and tb[0] == "b":
                T = tb
            elif tb[0] == "strlit" and ta[0] == "b":
                T = ta
            else:
                T = self.two(ta, tb)
            return "(%s %s %s)" % (self.conv(a, ta, T), op, self.conv(b, tb, T)), BOOL
        T = self.two(ta, tb)
        return self.arith(op, self.conv(a, ta, T), self.conv(b, tb, T), T), T

    def lit(self, a, t):
        return Fraction(a.strip("()"))

    def two(self, ta, tb):
        if ta[0] == "lit":
            return tb if self.can(ta, tb) else self.common(mobile(ta), tb)
        if tb[0] == "lit":
            return ta if self.can(tb, ta) else self.common(ta, mobile(tb))
        if ta[0] == "contract" or tb[0] == "contract":
            if {ta[0], tb[0]} <= {"contract", "addr"}:
                return ta if ta == tb else ADDR if ta[0] != tb[0] else ta
        return self.common(ta, tb)

    def fold(self, op, ta, tb):
        a, b = ta[1], tb[1]
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return str(eval("a %s b" % op)), BOOL
        if op == "/":
            v = a / b
        elif op == "**":
            v = a ** int(b)
        elif op in ("+", "-", "*", "%"):
            v = eval("a %s b" % op)
        else:
            v = Fraction(eval("int(a) %s int(b)" % op.replace(">>>", ">>")))
        v = Fraction(v)
        return "(%s)" % v, ("lit", v, None)

    # ------------------------------------------------ lvalues
    def lvalue(self, e):
        """("local", name, T) ("mem", address, T) ("memb", pointer, index, T) ("sto", object, key, T)"""
        k = e.k
        if k == "paren":
            return self.lvalue(e.e)
        if k == "id":
            v = self.scope.find(e.name)
            if v is not None:
                return "local", v[0], e.name, v[1]
            d = self.decls(e.name)[0]
            if d.k != "var" or d.const:
                self.err("cannot assign to " + e.name)
            return "sto", "SELF.st", repr(d.name), self.variable(d)[1]
        if k == "idx":
            b, t = self.expr(e.e)
            if t[0] == "map":
                return "sto", b, self.plain(self.val(e.i, with_loc(t[1], "memory")), with_loc(t[1], "memory"))[0], t[2]
            i = self.val(e.i, U256)
            if t[0] == "bytes":
                if loc(t) == "memory":
                    return "memb", b, i, ("b", 1)
                return "sto", b, i, ("b", 1)
            if t[0] == "arr":
                if loc(t) == "memory":
                    return "mem", ("ix(%s, %s)" % (b, i) if t[2] is None else "ixs(%s, %s, %d)" % (b, i, t[2])), t[1]
                return "sto", b, i, t[1]
        if k == "mem":
            b, t = self.expr(e.e)
            if t[0] == "struct":
                s = self.c.structs[t[1]]
                for j, (n, ft) in enumerate(s.fields):
                    if n == e.name:
                        T = self.c.type(ft, s.file, s.contract, loc(t))
                        if loc(t) == "memory":
                            return "mem", "(%s + %d)" % (b, 32 * j), T
                        return "sto", b, repr(n), T
            if t[0] == "fnmod":
                pass
        if k == "call":
            c, t = self.expr(e)
            self.err("cannot assign to a call")
        self.err("cannot assign to %s" % k)

    def load(self, lv):
        T = lv[-1]
        if lv[0] == "local":
            return self.clean(lv[1], T, lv[2])
        if lv[0] == "mem":
            return self.memval("mload(%s)" % lv[1], T)
        if lv[0] == "memb":
            return "bget(%s, %s)" % (lv[1], lv[2])
        return self.stoval(lv[1], lv[2], T)

    def stoval(self, o, key, T):
        if key.startswith("'"):
            return "%s[%s]" % (o, key)
        return "sx(%s, %s)" % (o, key)

    def memval(self, c, T):
        k = T[0]
        if ref(T) or (k == "u" and T[1] == 256) or (k == "b" and T[1] == 32):
            return c
        if k == "u":
            return "(%s & %d)" % (c, mask(T))
        if k == "bool":
            return "(%s != 0)" % c
        if k in ("addr", "contract"):
            return "(%s & %d)" % (c, (1 << 160) - 1)
        if k == "enum":
            return "(%s & 255)" % c
        return "fromw(%r, %s)" % (T, c)

    def store(self, lv, code):
        """an expression storing code; its value is the stored value"""
        T = lv[-1]
        if lv[0] == "local":
            return "(%s := %s)" % (lv[1], code)
        if lv[0] == "mem":
            if T[0] == "i":
                return "wsti(%s, %s)" % (code, lv[1])
            return "wst(%s, %s)" % (code, lv[1])
        if lv[0] == "memb":
            return "bst(%s, %s, %s)" % (code, lv[1], lv[2])
        if lv[2].startswith("'"):
            return "dst(%s, %s, %s)" % (code, lv[1], lv[2])
        return "sxst(%s, %s, %s)" % (code, lv[1], lv[2])

    def rmw(self, lv):
        """prologue, load code, store function, with the address computed once"""
        if lv[0] == "local":
            return [], self.load(lv), lambda c: self.store(lv, c)
        if lv[0] == "mem":
            t = "t%d" % self.new()
            l2 = ("mem", t, lv[-1])
            return ["(%s := %s)" % (t, lv[1])], self.load(l2), lambda c: self.store(l2, c)
        t, u = "t%d" % self.new(), "t%d" % self.new()
        if lv[0] == "sto" and lv[2].startswith("'"):
            l2 = ("sto", t, lv[2], lv[-1])
            return ["(%s := %s)" % (t, lv[1])], self.load(l2), lambda c: self.store(l2, c)
        l2 = (lv[0], t, u, lv[-1])
        ld = self.load(l2)
        return ["(%s := %s)" % (t, lv[1]), "(%s := %s)" % (u, lv[2])], ld, lambda c: self.store(l2, c)

    def x_assign(self, e):
        if e.l.k == "tuple" and e.op == "=":
            return self.tuple_assign(e)
        lv = self.lvalue(e.l)
        T = lv[-1]
        if e.op == "=":
            return self.store(lv, self.val(e.r, T)), T
        op = e.op[:-1]
        s, ld, st = self.rmw(lv)
        r, tr = self.expr(e.r)
        if op in ("<<", ">>", ">>>"):
            r = str(int(tr[1])) if tr[0] == "lit" else r
            c = self.shift(op, ld, T, r)
        else:
            c = self.arith(op, ld, self.conv(r, tr, T), T)
        return self.seq(s, st(c)), T

    def tuple_assign(self, e):
        c, t = self.expr(e.r)
        if t[0] != "tuple":
            self.err("tuple assignment of %r" % (t,))
        tmp = "t%d" % self.new()
        parts = ["(%s := %s)" % (tmp, c)]
        for i, (x, tt) in enumerate(zip(e.l.es, t[1])):
            if x is None:
                continue
            lv = self.lvalue(x)
            parts.append(self.store(lv, self.conv("%s[%d]" % (tmp, i), tt, lv[-1])))
        return "(%s)" % ", ".join(parts), ("tuple", [])

    def x_delete(self, e):
        lv = self.lvalue(e.e)
        T = lv[-1]
        if lv[0] == "sto":
            return self.store(lv, "szero(%r)" % (strip(T),)), ("tuple", [])
        return self.store(lv, self.default(T)), ("tuple", [])

    # ------------------------------------------------ access
    def x_idx(self, e):
        b, t = self.expr(e.e)
        if t[0] == "type" or t[0] == "enumt":
            n = None if e.i is None else int(self.c.const(e.i, self.file, self.contract))
            return "", ("type", ("arr", t[1], n, "memory"))
        if t[0] == "map":
            kt = with_loc(t[1], "memory")
            return "mapget(%s, %s, %r)" % (b, self.plain(self.val(e.i, kt), kt)[0], t[2]), t[2]
        i = self.val(e.i, U256)
        if t[0] == "b":
            return "fixed_at(%s, %s, %d)" % (b, i, t[1]), ("b", 1)
        l = loc(t)
        if t[0] == "bytes":
            if l == "memory":
                return "bget(%s, %s)" % (b, i), ("b", 1)
            if l == "calldata":
                return "cd_at(%r, %s, %s)" % (strip(t), b, i), ("b", 1)
            return "(sx(%s, %s) << 248)" % (b, i), ("b", 1)
        if t[0] == "arr":
            if l == "memory":
                a = "aget(%s, %s)" % (b, i) if t[2] is None else "agets(%s, %s, %d)" % (b, i, t[2])
                return self.memval(a, t[1]), t[1]
            if l == "calldata":
                return "cd_at(%r, %s, %s)" % (strip(t), b, i), t[1]
            return "sx(%s, %s)" % (b, i), t[1]
        self.err("index of %r" % (t,))

    def x_slice(self, e):
        b, t = self.expr(e.e)
        if loc(t) != "calldata":
            self.err("slice of %r" % (t,))
        i = "0" if e.i is None else self.val(e.i, U256)
        j = "None" if e.j is None else self.val(e.j, U256)
        return "cd_slice(%r, %s, %s, %s)" % (strip(t), b, i, j), t if t[0] != "arr" else ("arr", t[1], None, t[3])

    def x_mem(self, e):
        n = e.name
        if e.e.k == "id" and e.e.name in ("msg", "block", "tx", "abi", "super", "vm", "console") and \
                self.scope.find(e.e.name) is None:
            o = e.e.name
            if o == "super":
                r = []
                for b in self.c.bases(self.contract)[1:]:
                    r += [m for m in b.members if m.k == "function" and m.name == n]
                return "", ("fn", r, "super")
            if o in ("abi", "vm", "console"):
                return "", ("magicfn", o, n)
            x = {"msg.sender": ("CALLER", ADDR), "msg.value": ("0", U256), "msg.data": ("(0, len(CD))", ("bytes", "calldata")),
                 "msg.sig": ("(y_calldataload(0) & (0xffffffff << 224))", ("b", 4)), "tx.origin": ("CALLER", ADDR)}
            if o + "." + n in x:
                return x[o + "." + n]
            return "1", (ADDR if n == "coinbase" else U256)
        b, t = self.expr(e.e)
        k = t[0]
        if k == "typeinfo":
            T = t[1]
            if n == "max":
                v = mask(T) if T[0] == "u" else (1 << (T[1] - 1)) - 1
                return str(v), T
            if n == "min":
                return str(0 if T[0] == "u" else -(1 << (T[1] - 1))), T
            if n == "name":
                return repr(self.c.contracts[T[1]].name.encode()), ("strlit", self.c.contracts[T[1]].name.encode())
            self.err("type()." + n)
        if k == "enumt":
            return str(t[1].values.index(n)), ("enum", t[1].name)
        if k == "type":
            T = t[1]
            if T[0] == "contract":
                d = self.c.contracts[T[1]]
                ms = self.c.members(d, n)
                if not ms:
                    self.err("no member %s in %s" % (n, d.name))
                if ms[0].k == "function":
                    return "", ("fn", ms, "lib" if d.kind == "library" else "typed")
                if ms[0].k == "var":
                    return self.variable(ms[0])
                if ms[0].k == "struct":
                    return "", ("type", ("struct", ms[0].key, "memory"))
                if ms[0].k == "enum":
                    return "", ("enumt", ms[0])
                return "", (ms[0].k, ms[0])
            if T[0] in ("bytes", "string") and n == "concat":
                return "", ("magicfn", T[0], "concat")
            if n in ("wrap", "unwrap"):
                return "", t
            self.err("member %s of a type" % n)
        if k == "fn" and n == "selector":
            f = t[1]
            if len(f) > 1:
                fs = [x for x in f if x.vis in ("external", "public")]
                f = fs if len({self.c.selector(x) for x in fs}) == 1 else self.err("ambiguous selector")
            return str(int.from_bytes(self.c.selector(f[0]), "big") << 224), ("b", 4)
        if k in ("error", "event") and n == "selector":
            return str(int.from_bytes(self.errsel(t[1]), "big") << 224), ("b", 4)
        if k == "struct":
            s = self.c.structs[t[1]]
            for j, (fnm, ft) in enumerate(s.fields):
                if fnm == n:
                    T = self.c.type(ft, s.file, s.contract, loc(t))
                    if loc(t) == "memory":
                        return self.memval("mload(%s + %d)" % (b, 32 * j), T), T
                    if loc(t) == "calldata":
                        return "cd_field(%r, %s, %d)" % (strip(t), b, j), T
                    return "%s[%r]" % (b, n), T
        if n == "length":
            if k == "b":
                return str(t[1]), ("u", 8)
            if k == "arr" and t[2] is not None:
                return str(t[2]), U256
            l = loc(t)
            if l == "memory":
                return "mload(%s)" % b, U256
            return ("len(%s)" % b if l == "storage" else "%s[1]" % b), U256
        if n in ("push", "pop") and loc(t) == "storage":
            return b, ("magicfn", "push", n, t)
        if k == "contract":
            d = self.c.contracts[t[1]]
            ms = [m for m in self.c.members(d, n) if (m.k == "function" and m.vis in ("external", "public")) or
                  (m.k == "var" and m.vis == "public")]
            if ms:
                return b, ("fn", ms, "ext")
        if k in ("addr", "contract"):
            if n in ("call", "staticcall", "delegatecall"):
                return b, ("magicfn", "addr", n)
            if n == "balance":
                return "0", U256
            if n == "code":
                return "mem_bytes(code_of(%s))" % b, BYTES_M
            if n == "codehash":
                return "y_extcodehash(%s)" % b, ("b", 32)
        if k == "fn" and n in ("address",):
            return "0", ADDR
        bound = self.using(n, t)
        if bound:
            return b, ("fn", bound, ("bound", t))
        self.err("no member %s of %r" % (n, t))

    def using(self, n, t):
        us = list(self.file.usings)
        if self.contract is not None:
            us += [u for b in self.c.bases(self.contract) for u in b.usings]
        r = []
        for u in us:
            if u.type is not None:
                T = self.c.type(u.type, self.file, self.contract, "memory")
                if not (self.can(t, T) or strip(T) == strip(t)):
                    continue
            if u.lib is not None:
                d = self.find_lib(u.lib)
                r += [m for m in d.members if m.k == "function" and m.name == n]
            else:
                for nm in u.names:
                    p = nm.split(".")
                    if p[-1] == n:
                        r += [m for m in (self.decls(n) if len(p) == 1 else self.find_lib(p[0]).members)
                              if m.k == "function" and m.name == n]
        return r

    def find_lib(self, name):
        for d in self.c.exported(self.file).get(name, []):
            if d.k == "contract":
                return d
        self.err("no library " + name)

    def errsel(self, d):
        s = d.name + "(" + ",".join(self.c.sig(self.c.type(p.type, d.file, d.contract, "memory")) for p in d.params) + ")"
        return (kint(s.encode()) >> 224).to_bytes(4, "big")

    # ------------------------------------------------ calls
    def x_call(self, e):
        f, t = self.expr(e.f)
        k = t[0]
        if k == "type":
            T = t[1]
            if T[0] == "struct":
                return self.struct_ctor(T, e.args)
            c, a = self.expr(e.args[0])
            if T[0] == "u" and a[0] == "lit" and a[1].denominator == 1:
                return self.explicit(c, a, T), T
            if ref(T) and ref(a):
                T = with_loc(T, loc(a))
            return self.explicit(c, a, T), T
        if k == "enumt":
            c, a = self.expr(e.args[0])
            return "enum_(%s, %d)" % (c, len(t[1].values)), ("enum", t[1].name)
        if k == "new":
            return self.new_expr(t[1], e.args)
        if k == "fn":
            return self.call_fn(f, t, e)
        if k == "magic":
            return self.builtin(t[1], e)
        if k == "magicfn":
            return self.magicfn(f, t, e)
        if k in ("error", "event"):
            return "None", ("tuple", [])
        self.err("call of %r" % (t,))

    def struct_ctor(self, T, args):
        s = self.c.structs[T[1]]
        fs = [(n, self.c.type(ft, s.file, s.contract, "memory")) for n, ft in s.fields]
        if isinstance(args, dict):
            args = [args[n] for n, _ in fs]
        cs = [self.val(a, t) for a, (n, t) in zip(args, fs)]
        return "mem_words([%s])" % ", ".join("tow(%r, %s)" % (strip(t), c) if not ref(t) else c
                                             for c, (n, t) in zip(cs, fs)), ("struct", T[1], "memory")

    def new_expr(self, T, args):
        if T[0] in ("bytes", "string"):
            return "new_bytes(%s)" % self.val(args[0], U256), with_loc(T, "memory")
        if T[0] == "arr":
            n = self.val(args[0], U256)
            if ref(T[1]):
                return "new_ref_arr(%s, %r)" % (n, strip(T[1])), T
            return "new_arr(%s)" % n, T
        d = self.c.contracts[T[1]]
        ct = [m for m in d.members if m.k == "function" and m.kind == "constructor"]
        pts = self.c.ptypes(ct[0]) if ct else []
        vs = [self.plain(self.val(a, with_loc(t, "memory")), with_loc(t, "memory"))[0] for a, t in zip(args, pts)]
        return "new_contract(K_%s, [%s])" % (d.key, ", ".join(vs)), T

    def pick(self, fns, ats):
        """overload resolution"""
        ok = []
        for f in fns:
            pts = self.c.getter(f)[0] if f.k == "var" else self.c.ptypes(f)
            if len(pts) == len(ats) and all(self.can(a, p) for a, p in zip(ats, pts)):
                ok.append((f, pts))
        if not ok:
            self.err("no function %s for %r" % (fns[0].name, ats))
        first = [strip(p) for p in ok[0][1]]
        if any([strip(p) for p in q] != first for _, q in ok[1:]):
            ex = [o for o in ok if all(strip(mobile(a)) == strip(p) for a, p in zip(ats, o[1]))]
            if len(ex) != 1:
                self.err("ambiguous call of " + fns[0].name)
            ok = ex
        return ok[0]

    def result(self, rts):
        if len(rts) == 1:
            return rts[0]
        return ("tuple", list(rts))

    def call_fn(self, b, t, e):
        how = t[2]
        args = e.args
        if isinstance(args, dict):
            for f in t[1]:
                if {p.name for p in f.params} == set(args):
                    args = [args[p.name] for p in f.params]
                    break
        ex = [self.expr(a) for a in args]
        ats = [x[1] for x in ex]
        codes = [x[0] for x in ex]
        if isinstance(how, tuple):
            ats = [how[1]] + ats
            codes = [b] + codes
        fns = t[1]
        if how == "ext":
            f, pts = self.pick([self.memloc(x) for x in fns], ats) if False else self.pick_ext(fns, ats)
            vs = []
            for c, a, p in zip(codes, ats, pts):
                m = with_loc(p, "memory")
                if loc(a) in ("calldata", "storage") and ref(p):
                    vs.append(self.plain(c, a)[0])
                else:
                    vs.append(self.plain(self.conv(c, a, m), m)[0])
            rts = [self.c.getter(f)[1]] if f.k == "var" else self.c.rtypes(f)
            rts = [with_loc(r, "memory") for r in rts]
            return "extcall(%s, %r, %r, [%s], %r)" % (b, self.c.selector(f), [strip(p) for p in pts], ", ".join(vs),
                                                      [strip(r) for r in rts]), self.result(rts)
        f, pts = self.pick(fns, ats)
        cs = [self.conv(c, a, p) for c, a, p in zip(codes, ats, pts)]
        rts = self.c.rtypes(f)
        if f.contract is None or f.contract.kind == "library":
            return "%s(%s)" % (f.py, ", ".join(cs)), self.result(rts)
        if how in ("super", "typed"):
            return "K_%s.%s(%s)" % (f.contract.key, self.c.mangled(f), ", ".join(["SELF"] + cs)), self.result(rts)
        return "SELF.%s(%s)" % (self.c.mangled(f), ", ".join(cs)), self.result(rts)

    def pick_ext(self, fns, ats):
        ok = []
        for f in fns:
            pts = self.c.getter(f)[0] if f.k == "var" else self.c.ptypes(f)
            if len(pts) == len(ats) and all(self.can(a, with_loc(p, "memory")) for a, p in zip(ats, pts)):
                ok.append((f, pts))
        if not ok:
            self.err("no function %s for %r" % (fns[0].name, ats))
        sels = {self.c.selector(f) for f, _ in ok}
        if len(sels) > 1:
            ex = [o for o in ok if all(strip(mobile(a)) == strip(p) for a, p in zip(ats, o[1]))]
            if len({self.c.selector(f) for f, _ in ex}) != 1:
                self.err("ambiguous call of " + fns[0].name)
            ok = ex
        return ok[0]

    def builtin(self, n, e):
        a = e.args
        none = ("tuple", [])
        if n == "keccak256" or n == "sha256":
            c, t = self.expr(a[0])
            p = self.plain(c, t)[0]
            return "%s(%s)" % ("kint" if n == "keccak256" else "sha256_", p), ("b", 32)
        if n in ("addmod", "mulmod"):
            x = [self.val(y, U256) for y in a]
            return "s_%s(%s)" % (n, ", ".join(x)), U256
        if n == "require" or n == "assert":
            c = self.val(a[0], BOOL)
            if n == "assert":
                return "(None if %s else panic(1))" % c, none
            if len(a) > 1:
                if a[1].k == "call" and self.expr(a[1].f)[1][0] == "error":
                    return "(None if %s else %s)" % (c, self.errcall(a[1])), none
                m, t = self.expr(a[1])
                return "(None if %s else fail(bytes(%s)))" % (c, self.plain(m, t)[0]), none
            return "(None if %s else fail())" % c, none
        if n == "revert":
            if a:
                m, t = self.expr(a[0])
                return "fail(bytes(%s))" % self.plain(m, t)[0], none
            return "fail()", none
        if n == "gasleft":
            return "y_gas()", U256
        if n == "blockhash":
            return "0", ("b", 32)
        if n.startswith("assert"):
            x = [self.expr(y) for y in a]
            T = None
            if len(x) > 1 and x[1][1][0] != "strlit" or n in ("assertEq", "assertNotEq"):
                T = self.two(x[0][1], x[1][1]) if not (x[0][1][0] == "lit" and x[1][1][0] == "lit") else U256
                p = [self.plain(self.conv(c, t, with_loc(T, "memory") if ref(T) else T),
                                with_loc(T, "memory") if ref(T) else T)[0] for c, t in x[:2]]
            else:
                p = [self.plain(*x[0])[0]]
            return "t_assert(%r, %s)" % (n, ", ".join(p)), none
        if n == "selfdestruct":
            return "None", none
        self.err("unknown function " + n)

    def magicfn(self, b, t, e):
        o, n = t[1], t[2]
        a = e.args
        if o == "console":
            return "None", ("tuple", [])
        if o == "abi":
            if n == "decode":
                ts = a[1]
                ts = ts.es if ts.k == "tuple" else [ts.e] if ts.k == "paren" else [ts]
                Ts = [self.expr(x)[1][1] for x in ts]
                c, ct = self.expr(a[0])
                return "abi_decode(%s, %r)" % (self.plain(c, ct)[0], [strip(x) for x in Ts]), self.result(
                    [with_loc(x, "memory") for x in Ts])
            x = [self.plain(*self.expr(y)) for y in a]
            if n == "encodePacked":
                return "abi_packed(%r, [%s])" % ([y[1] for y in x], ", ".join(y[0] for y in x)), BYTES_M
            if n == "encode":
                return "abi_encode(%r, [%s])" % ([self.enct(y[1]) for y in x], ", ".join(y[0] for y in x)), BYTES_M
            if n == "encodeWithSelector":
                return "abi_encode(%r, [%s], tob4(%s))" % ([self.enct(y[1]) for y in x[1:]],
                                                           ", ".join(y[0] for y in x[1:]), x[0][0]), BYTES_M
            if n == "encodeCall":
                f = self.expr(a[0])[1][1][0]
                args = a[1].es if a[1].k == "tuple" else [a[1].e]
                x = []
                for y, p in zip(args, self.c.ptypes(f)):
                    m = with_loc(p, "memory")
                    x.append((self.plain(self.val(y, m), m)[0], strip(p)))
                return "abi_encode(%r, [%s], %r)" % ([y[1] for y in x], ", ".join(y[0] for y in x),
                                                     self.c.selector(f)), BYTES_M
            self.err("abi." + n)
        if o in ("bytes", "string"):
            x = [self.plain(*self.expr(y)) for y in a]
            return "abi_packed(%r, [%s])" % ([y[1] for y in x], ", ".join(y[0] for y in x)), (o, "memory")
        if o == "vm":
            if n == "readFile":
                return "vm_readFile(%s)" % self.plain(*self.expr(a[0]))[0], STR_M
            if n == "etch":
                return "vm_etch(%s, %s)" % (self.expr(a[0])[0], self.plain(*self.expr(a[1]))[0]), ("tuple", [])
            if n == "ffi":
                return "vm_ffi()", BYTES_M
            return "vm_%s(%s)" % (n, ", ".join(self.plain(*self.expr(y))[0] for y in a)), ("tuple", [])
        if o == "push":
            T = t[3]
            et = ("b", 1) if T[0] == "bytes" else T[1]
            if n == "pop":
                return "spop(%s)" % b, ("tuple", [])
            v = self.val(a[0], et) if a else "szero(%r)" % (strip(et),)
            return "spush(%s, %s)" % (b, v), ("tuple", [])
        if o == "addr":
            c, ct = self.expr(a[0])
            return "lowcall(%s, %s)" % (b, self.plain(c, ct)[0]), ("tuple", [BOOL, BYTES_M])
        self.err("%s.%s" % (o, n))

    def enct(self, T):
        return ("string",) if T == ("bytes",) else T

    # ------------------------------------------------ statements
    def block(self, stmts):
        self.scope = Scope(self.scope)
        n = len(self.lines)
        for s in stmts:
            self.stmt(s)
        if len(self.lines) == n:
            self.line("pass")
        self.scope = self.scope.up

    def body(self, s):
        """an indented statement"""
        self.ind += "    "
        self.block(s.body if s.k == "block" else [s])
        self.ind = self.ind[:-4]

    def stmt(self, s):
        getattr(self, "s_" + s.k)(s)

    def s_block(self, s):
        self.block(s.body)

    def s_unchecked(self, s):
        old, self.unchecked = self.unchecked, True
        self.block(s.body)
        self.unchecked = old

    def s_decl(self, s):
        T = self.c.type(s.d.type, self.file, self.contract, s.d.loc)
        if ref(T) and T[0] != "map" and s.d.loc is None:
            self.err("no data location for " + s.d.name)
        if s.e is None:
            code = self.default(T)
        elif ref(T) and loc(T) == "storage":
            code, t = self.expr(s.e)
        else:
            code = self.val(s.e, T)
        self.line("%s = %s" % (self.declare(s.d.name, T), code))

    def s_tdecl(self, s):
        c, t = self.expr(s.e)
        if t[0] != "tuple" or len(t[1]) != len(s.ds):
            self.err("tuple sizes")
        tmp = "t%d" % self.new()
        self.line("%s = %s" % (tmp, c))
        for i, (d, tt) in enumerate(zip(s.ds, t[1])):
            if d is not None:
                T = self.c.type(d.type, self.file, self.contract, d.loc)
                code = self.conv("%s[%d]" % (tmp, i), tt, T)
                self.line("%s = %s" % (self.declare(d.name, T), code))

    def s_expr(self, s):
        c, t = self.expr(s.e)
        if s.e.k == "assign" and c.startswith("(v_") and s.e.l.k == "id" and c.endswith(")") and s.e.op == "=":
            v, r = c[1:-1].split(" := ", 1)
            self.line("%s = %s" % (v, r))
            return
        if c:
            self.line(c)

    def s_emit(self, s):
        pass

    def s_reverterr(self, s):
        self.line(self.errcall(s.e))

    def errcall(self, e):
        f, t = self.expr(e.f if e.k == "call" else e)
        d = t[1]
        pts = [self.c.type(p.type, d.file, d.contract, "memory") for p in d.params]
        args = e.args if e.k == "call" else []
        if isinstance(args, dict):
            args = [args[p.name] for p in d.params]
        vs = [self.plain(self.val(a, p), p)[0] for a, p in zip(args, pts)]
        return "fail_err(%r, %r, [%s])" % (self.errsel(d), [strip(p) for p in pts], ", ".join(vs))

    def s_if(self, s):
        self.line("if %s:" % self.val(s.cond, BOOL))
        self.body(s.then)
        if s.els is not None:
            self.line("else:")
            self.body(s.els)

    def has_continue(self, node):
        if isinstance(node, list):
            return any(self.has_continue(x) for x in node)
        if isinstance(node, tuple):
            return any(self.has_continue(x) for x in node)
        if isinstance(node, N):
            if node.k in ("continue", "ycontinue"):
                return True
            if node.k in ("for", "while", "dowhile", "yfor"):
                return False
            return any(self.has_continue(v) for v in node.__dict__.values())
        return False

    def s_while(self, s):
        self.line("while %s:" % self.val(s.cond, BOOL))
        self.body(s.body)

    def s_dowhile(self, s):
        f = "w%d" % self.new()
        self.line("%s = True" % f)
        self.line("while True:")
        self.ind += "    "
        self.line("if %s: %s = False" % (f, f))
        self.line("elif not %s: break" % self.val(s.cond, BOOL))
        self.ind = self.ind[:-4]
        self.body(s.body)

    def s_for(self, s):
        self.scope = Scope(self.scope)
        if s.init is not None:
            self.stmt(s.init)
        cond = "True" if s.cond is None else self.val(s.cond, BOOL)
        if s.post is not None and self.has_continue(s.body.body if s.body.k == "block" else s.body):
            f = "w%d" % self.new()
            self.line("%s = True" % f)
            self.line("while True:")
            self.ind += "    "
            self.line("if %s: %s = False" % (f, f))
            self.line("else:")
            self.ind += "    "
            self.s_expr(N("expr", e=s.post))
            self.ind = self.ind[:-4]
            self.line("if not %s: break" % cond)
            self.ind = self.ind[:-4]
            self.body(s.body)
        else:
            self.line("while %s:" % cond)
            self.body(s.body)
            if s.post is not None:
                self.ind += "    "
                self.s_expr(N("expr", e=s.post))
                self.ind = self.ind[:-4]
        self.scope = self.scope.up

    def s_continue(self, s):
        self.line("continue")

    def s_break(self, s):
        self.line("break")

    def s_return(self, s):
        if self.inmod:
            n = len(self.lines)
            self.inmod = False
            self.s_return(s)
            self.inmod = True
            last = self.lines.pop().strip()
            assert len(self.lines) >= n and last.startswith("return ")
            if self.rets:
                self.line("%s = %s" % (", ".join(v for v, _, _ in self.rets), last[7:]))
            elif s.e is not None:
                self.line(last[7:])
            self.line("return")
            return
        if s.e is None:
            self.line("return " + self.retval())
            return
        c, t = self.expr(s.e)
        if len(self.rets) == 1:
            self.line("return " + self.conv(c, t, self.rets[0][1]))
            return
        if s.e.k == "tuple":
            cs = []
            for x, (_, T, _) in zip(s.e.es, self.rets):
                cs.append(self.val(x, T))
            self.line("return (%s)" % ", ".join(cs))
            return
        if t[0] == "tuple" and len(t[1]) == len(self.rets) and self.rets:
            tmp = "t%d" % self.new()
            self.line("%s = %s" % (tmp, c))
            self.line("return (%s,)" % ", ".join(self.conv("%s[%d]" % (tmp, i), a, r[1])
                                                 for i, (a, r) in enumerate(zip(t[1], self.rets))))
            return
        self.line("return " + c)

    # ------------------------------------------------ Yul
    def s_asm(self, s):
        self.yscope = Scope()
        self.yblock(s.body)

    def yblock(self, stmts):
        self.yscope = Scope(self.yscope)
        for s in stmts:
            if s.k == "yfun":
                self.yscope.d["()" + s.name] = ("yf_%s_%d" % (s.name, self.new()), s)
        n = len(self.lines)
        for s in stmts:
            if s.k == "yfun":
                self.y_fun(s)
        for s in stmts:
            if s.k != "yfun":
                getattr(self, "y_" + s.k[1:])(s)
        if len(self.lines) == n:
            self.line("pass")
        self.yscope = self.yscope.up

    def ybody(self, b):
        self.ind += "    "
        self.yblock(b)
        self.ind = self.ind[:-4]

    def y_fun(self, s):
        py = self.yscope.find("()" + s.name)[0]
        old, oldret = self.yscope, getattr(self, "yret", None)
        self.yscope = Scope(Scope())
        sc = old
        while sc is not None:
            for k, v in sc.d.items():
                if k.startswith("()"):
                    self.yscope.up.d.setdefault(k, v)
            sc = sc.up
        ps = []
        for p in s.params:
            v = "z_%s_%d" % (p, self.new())
            self.yscope.d[p] = v
            ps.append(v)
        self.line("def %s(%s):" % (py, ", ".join(ps)))
        self.ind += "    "
        rs = []
        for r in s.rets:
            v = "z_%s_%d" % (r, self.new())
            self.yscope.d[r] = v
            self.line("%s = 0" % v)
            rs.append(v)
        self.yret = "None" if not rs else rs[0] if len(rs) == 1 else "(" + ", ".join(rs) + ")"
        hide, self.scope = self.scope, Scope()
        self.yblock(s.body)
        self.scope = hide
        self.line("return " + self.yret)
        self.ind = self.ind[:-4]
        self.yscope, self.yret = old, oldret

    def y_block(self, s):
        self.yblock(s.body)

    def y_let(self, s):
        e = None if s.e is None else self.yx(s.e)
        vs = []
        for n in s.names:
            v = "z_%s_%d" % (n, self.new())
            self.yscope.d[n] = v
            vs.append(v)
        if e is None:
            for v in vs:
                self.line("%s = 0" % v)
        else:
            self.line("%s = %s" % (", ".join(vs), e))

    def y_assign(self, s):
        e = self.yx(s.e)
        ts, post = [], []
        for n in s.names:
            v = self.yscope.find(n)
            if v is not None:
                ts.append(v)
                continue
            b = n.split(".")[0]
            v = self.scope.find(b)
            if v is None:
                self.err("unknown assembly variable " + n)
            T = v[1]
            if n.endswith((".offset", ".length")):
                t = "t%d" % self.new()
                ts.append(t)
                post.append("%s = (%s, %s[1])" % (v[0], t, v[0]) if n.endswith("offset") else
                            "%s = (%s[0], %s)" % (v[0], v[0], t))
            elif T[0] == "i":
                ts.append(v[0])
                post.append("%s = s256(%s)" % (v[0], v[0]))
            else:
                ts.append(v[0])
        self.line("%s = %s" % (", ".join(ts), e))
        for p in post:
            self.line(p)

    def y_expr(self, s):
        self.line(self.yx(s.e))

    def ycond(self, e):
        c = self.yx(e)
        return c

    def y_if(self, s):
        self.line("if %s:" % self.ycond(s.cond))
        self.ybody(s.body)

    def y_for(self, s):
        self.yscope = Scope(self.yscope)
        for i in s.init:
            getattr(self, "y_" + i.k[1:])(i)
        cond = self.ycond(s.cond)
        if self.has_continue(s.body) and s.post:
            f = "w%d" % self.new()
            self.line("%s = True" % f)
            self.line("while True:")
            self.ind += "    "
            self.line("if %s: %s = False" % (f, f))
            self.line("else:")
            self.ybody(s.post)
            self.line("if not %s: break" % cond)
            self.yblock(s.body)
            self.ind = self.ind[:-4]
        else:
            self.line("while %s:" % cond)
            self.ybody(s.body)
            if s.post:
                self.ybody(s.post)
        self.yscope = self.yscope.up

    def y_switch(self, s):
        t = "t%d" % self.new()
        self.line("%s = %s" % (t, self.yx(s.e)))
        kw = "if"
        for v, b in s.cases:
            self.line("%s %s == %s:" % (kw, t, self.yx(v)))
            self.ybody(b)
            kw = "elif"
        if s.default is not None:
            if kw == "if":
                self.line("if True:")
            else:
                self.line("else:")
            self.ybody(s.default)

    def y_break(self, s):
        self.line("break")

    def y_continue(self, s):
        self.line("continue")

    def y_leave(self, s):
        self.line("return " + self.yret)

    def yx(self, e):
        k = e.k
        if k == "ynum":
            return str(e.v)
        if k == "yid":
            v = self.yscope.find(e.name)
            if v is not None:
                return v
            n = e.name
            b = n.split(".")[0]
            v = self.scope.find(b)
            if v is not None:
                if n.endswith(".offset"):
                    return v[0] + "[0]"
                if n.endswith(".length"):
                    return v[0] + "[1]"
                if n != b:
                    self.err("assembly access to " + n)
                if v[1][0] == "i":
                    return "(%s & M)" % v[0]
                return v[0]
            ds = self.decls(b)
            if ds and ds[0].k == "var" and ds[0].const:
                c, T = self.variable(ds[0])
                return c if T[0] != "i" else "(%s & M)" % c
            self.err("unknown assembly name " + n)
        f = e.f
        v = self.yscope.find("()" + f)
        a = [self.yx(x) for x in e.args]
        if v is not None:
            return "%s(%s)" % (v[0], ", ".join(a))
        if f in ("shl", "shr") and a[0].isdigit():
            if int(a[0]) > 255:
                return "0"
            return "((%s<<%s)&M)" % (a[1], a[0]) if f == "shl" else "(%s>>%s)" % (a[1], a[0])
        if f in ("addmod", "mulmod") and a[2].isdigit() and int(a[2]):
            return "((%s%s%s)%%%s)" % (a[0], "+" if f == "addmod" else "*", a[1], a[2])
        if f in ("div", "mod") and a[1].isdigit() and int(a[1]):
            return "(%s%s%s)" % (a[0], "//" if f == "div" else "%", a[1])
        if f in YB:
            return YB[f] % tuple(a)
        if f in YF:
            return "y_%s(%s)" % (f, ", ".join(a))
        if f in ("timestamp", "number", "origin", "gasprice", "chainid", "coinbase", "prevrandao", "basefee",
                 "selfbalance", "codesize"):
            return "1"
        if f in ("log0", "log1", "log2", "log3", "log4"):
            return "None"
        self.err("assembly function " + f)


def build(root, paths):
    return Compiler(root).compile(paths)
