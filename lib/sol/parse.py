"""Solidity and Yul parser."""
import re


class SolError(Exception):
    pass


class N:
    def __init__(self, k, **a):
        self.k = k
        self.__dict__.update(a)

    def __repr__(self):
        return "N(%s)" % ", ".join("%s=%r" % x for x in self.__dict__.items())


TOK = re.compile(r"""
  (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
 |(?P<hexs>hex(?:"[0-9a-fA-F_]*"|'[0-9a-fA-F_]*'))
 |(?P<str>(?:unicode)?(?:"(?:[^"\\\n]|\\.)*"|'(?:[^'\\\n]|\\.)*'))
 |(?P<num>0[xX][0-9a-fA-F_]+|(?:[0-9][0-9_]*)?\.?[0-9][0-9_]*(?:[eE]-?[0-9_]+)?)
 |(?P<id>[A-Za-z_$][A-Za-z0-9_$]*)
 |(?P<op>>>>=|>>>|<<=|>>=|\*\*|:=|=>|->|==|!=|<=|>=|&&|\|\||\+\+|--|\+=|-=|\*=|/=|%=|\|=|&=|\^=|<<|>>|[-+*/%&|^~!<>=?:;,.(){}\[\]])
""", re.X | re.S)


def lex(src, name):
    out = []
    p = 0
    while p < len(src):
        m = TOK.match(src, p)
        if not m:
            raise SolError("%s: cannot read %r" % (name, src[p:p + 30]))
        k = m.lastgroup
        if k != "ws":
            out.append((k, m.group(), p))
        p = m.end()
    out.append(("eof", "", p))
    return out


ELEM = re.compile(r"^(u?int(\d*)|bytes(\d+)|bytes|string|bool|address|u?fixed\w*)$")
ESC = {"n": 10, "r": 13, "t": 9, "\\": 92, "'": 39, '"': 34, "b": 8, "f": 12, "v": 11, "0": 0}
BIN = [("||",), ("&&",), ("==", "!="), ("<", ">", "<=", ">="), ("|",), ("^",), ("&",), ("<<", ">>", ">>>"),
       ("+", "-"), ("*", "/", "%")]
ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>=", ">>>="}
LOC = {"memory", "storage", "calldata"}
UNITS = {"wei": 1, "gwei": 10 ** 9, "ether": 10 ** 18, "seconds": 1, "minutes": 60, "hours": 3600, "days": 86400,
         "weeks": 604800}


def unescape(s):
    b = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c != "\\":
            b += c.encode()
            i += 1
            continue
        e = s[i + 1]
        if e == "x":
            b.append(int(s[i + 2:i + 4], 16))
            i += 4
        elif e == "u":
            b += chr(int(s[i + 2:i + 6], 16)).encode()
            i += 6
        elif e == "\n":
            i += 2
        else:
            b.append(ESC[e])
            i += 2
    return bytes(b)


class Parser:
    def __init__(self, src, name):
        self.name, self.src = name, src
        self.t = lex(src, name)
        self.p = 0

    # ------------------------------------------------ tokens
    def err(self, what):
        k, v, o = self.t[self.p]
        raise SolError("%s:%d: %s at %r" % (self.name, self.src.count("\n", 0, o) + 1, what, v))

    def at(self, *v):
        k, x, _ = self.t[self.p]
        return x in v and k not in ("str", "hexs")

    def la(self, i=1):
        return self.t[min(self.p + i, len(self.t) - 1)][1]

    def eat(self, v):
        if self.at(v):
            self.p += 1
            return True
        return False

    def need(self, v):
        if not self.eat(v):
            self.err("expected %r" % v)

    def ident(self):
        k, v, _ = self.t[self.p]
        if k != "id":
            self.err("expected a name")
        self.p += 1
        return v

    # ------------------------------------------------ source units
    def unit(self):
        out = []
        while self.t[self.p][0] != "eof":
            out.append(self.top())
        return [x for x in out if x is not None]

    def top(self):
        if self.at("pragma", "using"):
            if self.at("using"):
                return self.using()
            while not self.eat(";"):
                self.p += 1
            return None
        if self.at("import"):
            return self.imp()
        if self.at("contract", "interface", "library", "abstract"):
            return self.contract()
        return self.member(None)

    def using(self):
        self.need("using")
        names = []
        if self.eat("{"):
            while not self.eat("}"):
                names.append(self.path())
                if self.eat("as"):
                    self.err("user-defined operators are not supported")
                self.eat(",")
            lib = None
        else:
            lib = self.path()
        self.need("for")
        t = None if self.eat("*") else self.type()
        self.eat("global")
        self.need(";")
        return N("using", lib=lib, names=names, type=t)

    def path(self):
        s = self.ident()
        while self.eat("."):
            s += "." + self.ident()
        return s

    def imp(self):
        self.need("import")
        names, alias = None, None
        if self.eat("{"):
            names = []
            while not self.eat("}"):
                a = self.ident()
                names.append((a, self.ident() if self.eat("as") else a))
                self.eat(",")
            self.need("from")
        elif self.eat("*"):
            self.need("as")
            alias = self.ident()
            self.need("from")
        path = self.strlit().decode()
        if self.eat("as"):
            alias = self.ident()
        self.need(";")
        return N("import", path=path, names=names, alias=alias)

    def strlit(self):
        k, v, _ = self.t[self.p]
        if k == "str":
            self.p += 1
            v = v[7:] if v.startswith("unicode") else v
            r = unescape(v[1:-1])
        elif k == "hexs":
            self.p += 1
            r = bytes.fromhex(v[4:-1].replace("_", ""))
        else:
            self.err("expected a string")
        if self.t[self.p][0] == k:
            return r + self.strlit()
        return r

    def contract(self):
        self.eat("abstract")
        kind = self.ident()
        c = N("contract", kind=kind, name=self.ident(), bases=[], members=[])
        if self.eat("is"):
            while True:
                b = self.path()
                args = self.args() if self.at("(") else None
                c.bases.append((b, args))
                if not self.eat(","):
                    break
        self.need("{")
        while not self.eat("}"):
            m = self.member(c)
            if m is not None:
                c.members.append(m)
        return c

    def params(self):
        self.need("(")
        out = []
        while not self.eat(")"):
            t = self.type()
            loc = None
            while self.at("memory", "storage", "calldata", "indexed", "payable"):
                x = self.ident()
                loc = x if x in LOC else loc
            nm = self.ident() if self.t[self.p][0] == "id" else None
            out.append(N("param", type=t, loc=loc, name=nm))
            if not self.at(")"):
                self.need(",")
        return out

    def member(self, c):
        if self.at("using"):
            return self.using()
        if self.at("function", "constructor", "modifier", "fallback", "receive"):
            return self.function()
        if self.at("struct"):
            self.p += 1
            s = N("struct", name=self.ident(), fields=[])
            self.need("{")
            while not self.eat("}"):
                t = self.type()
                s.fields.append((self.ident(), t))
                self.need(";")
            return s
        if self.at("enum"):
            self.p += 1
            s = N("enum", name=self.ident(), values=[])
            self.need("{")
            while not self.eat("}"):
                s.values.append(self.ident())
                self.eat(",")
            return s
        if self.at("event") or (self.at("error") and self.t[self.p + 1][0] == "id" and self.la(2) == "("):
            k = self.ident()
            s = N(k, name=self.ident(), params=self.params())
            self.eat("anonymous")
            self.need(";")
            return s
        if self.at("type") and self.la(2) == "is":
            self.p += 1
            nm = self.ident()
            self.need("is")
            t = self.type()
            self.need(";")
            return N("udvt", name=nm, type=t)
        t = self.type()
        v = N("var", type=t, const=False, vis="internal", init=None, name=None, imm=False)
        while True:
            if self.eat("constant"):
                v.const = True
            elif self.eat("immutable"):
                v.imm = True
            elif self.at("public", "private", "internal"):
                v.vis = self.ident()
            elif self.at("transient") and self.t[self.p + 1][0] == "id":
                self.p += 1
            elif self.eat("override"):
                if self.at("("):
                    self.skip_paren()
            else:
                break
        v.name = self.ident()
        if self.eat("="):
            v.init = self.expr()
        self.need(";")
        return v

    def skip_paren(self):
        self.need("(")
        while not self.eat(")"):
            self.p += 1

    def function(self):
        kind = self.ident()
        f = N("function", kind=kind, name=kind, params=[], rets=[], mods=[], vis=None, mut=None, body=None)
        if kind in ("function", "modifier"):
            f.name = self.ident()
        if self.at("("):
            f.params = self.params()
        while True:
            if self.at("public", "external", "internal", "private"):
                f.vis = self.ident()
            elif self.at("pure", "view", "payable", "nonpayable"):
                f.mut = self.ident()
            elif self.eat("virtual"):
                pass
            elif self.eat("override"):
                if self.at("("):
                    self.skip_paren()
            elif self.eat("returns"):
                f.rets = self.params()
            elif self.t[self.p][0] == "id":
                nm = self.path()
                f.mods.append((nm, self.args() if self.at("(") else []))
            else:
                break
        if not self.eat(";"):
            f.body = self.block()
        return f

    # ------------------------------------------------ types
    def type(self):
        k, v, _ = self.t[self.p]
        if k != "id":
            self.err("expected a type")
        if v == "mapping":
            self.p += 1
            self.need("(")
            a = self.type()
            if self.t[self.p][0] == "id":
                self.p += 1
            self.need("=>")
            b = self.type()
            if self.t[self.p][0] == "id":
                self.p += 1
            self.need(")")
            t = N("tmap", key=a, val=b)
        elif v == "function":
            self.err("function types are not supported")
        elif ELEM.match(v):
            self.p += 1
            if v == "address":
                self.eat("payable")
            t = N("telem", name=v)
        else:
            t = N("tuser", name=self.path())
        while self.at("["):
            self.p += 1
            if self.eat("]"):
                t = N("tarr", base=t, n=None)
            else:
                e = self.expr()
                self.need("]")
                t = N("tarr", base=t, n=e)
        return t

    # ------------------------------------------------ statements
    def block(self):
        self.need("{")
        out = []
        while not self.eat("}"):
            out.append(self.stmt())
        return N("block", body=out)

    def vardecl(self):
        """type [location] name, or None (nothing consumed)"""
        s = self.p
        if self.t[s][0] != "id":
            return None
        try:
            t = self.type()
            loc = self.ident() if self.at("memory", "storage", "calldata") else None
            if self.t[self.p][0] != "id":
                raise SolError
            nm = self.ident()
            if not self.at("=", ";", ",", ")"):
                raise SolError
            return N("param", type=t, loc=loc, name=nm)
        except SolError:
            self.p = s
            return None

    def tupledecl(self):
        s = self.p
        if not self.at("("):
            return None
        self.p += 1
        out = []
        while True:
            if self.at(","):
                out.append(None)
            elif self.at(")"):
                out.append(None)
            else:
                d = self.vardecl()
                if d is None:
                    self.p = s
                    return None
                out.append(d)
            if self.eat(")"):
                break
            if not self.eat(","):
                self.p = s
                return None
        if not any(out) or not self.eat("="):
            self.p = s
            return None
        return out

    def stmt(self):
        if self.at("{"):
            return self.block()
        if self.at("unchecked") and self.la() == "{":
            self.p += 1
            b = self.block()
            return N("unchecked", body=b.body)
        if self.eat("if"):
            self.need("(")
            c = self.expr()
            self.need(")")
            a = self.stmt()
            b = self.stmt() if self.eat("else") else None
            return N("if", cond=c, then=a, els=b)
        if self.eat("while"):
            self.need("(")
            c = self.expr()
            self.need(")")
            return N("while", cond=c, body=self.stmt())
        if self.eat("do"):
            b = self.stmt()
            self.need("while")
            self.need("(")
            c = self.expr()
            self.need(")")
            self.need(";")
            return N("dowhile", cond=c, body=b)
        if self.eat("for"):
            self.need("(")
            i = None if self.eat(";") else self.simple()
            c = None if self.at(";") else self.expr()
            self.need(";")
            p = None if self.at(")") else self.expr()
            self.need(")")
            return N("for", init=i, cond=c, post=p, body=self.stmt())
        if self.at("continue", "break") and self.la() == ";":
            k = self.ident()
            self.need(";")
            return N(k)
        if self.eat("return"):
            e = None if self.at(";") else self.expr()
            self.need(";")
            return N("return", e=e)
        if self.at("assembly"):
            self.p += 1
            if self.t[self.p][0] == "str":
                self.p += 1
            if self.at("("):
                self.skip_paren()
            return N("asm", body=self.yblock())
        if self.at("emit"):
            self.p += 1
            e = self.expr()
            self.need(";")
            return N("emit", e=e)
        if self.at("revert") and self.t[self.p + 1][0] == "id":
            self.p += 1
            e = self.expr()
            self.need(";")
            return N("reverterr", e=e)
        if self.at("_") and self.la() == ";":
            self.p += 2
            return N("placeholder")
        if self.eat("try"):
            e = self.expr()
            rets = self.params() if self.eat("returns") else []
            b = self.block()
            cs = []
            while self.eat("catch"):
                nm = self.ident() if self.t[self.p][0] == "id" else None
                ps = self.params() if self.at("(") else []
                cs.append((nm, ps, self.block()))
            return N("try", e=e, rets=rets, body=b, catches=cs)
        return self.simple()

    def simple(self):
        d = self.vardecl()
        if d is not None:
            e = self.expr() if self.eat("=") else None
            self.need(";")
            return N("decl", d=d, e=e)
        td = self.tupledecl()
        if td is not None:
            e = self.expr()
            self.need(";")
            return N("tdecl", ds=td, e=e)
        e = self.expr()
        self.need(";")
        return N("expr", e=e)

    # ------------------------------------------------ expressions
    def expr(self):
        a = self.ternary()
        if self.t[self.p][0] == "op" and self.t[self.p][1] in ASSIGN:
            op = self.t[self.p][1]
            self.p += 1
            return N("assign", op=op, l=a, r=self.expr())
        return a

    def ternary(self):
        c = self.binary(0)
        if self.eat("?"):
            a = self.expr()
            self.need(":")
            return N("cond", c=c, a=a, b=self.expr())
        return c

    def binary(self, lv):
        if lv == len(BIN):
            return self.power()
        a = self.binary(lv + 1)
        while self.t[self.p][0] == "op" and self.t[self.p][1] in BIN[lv]:
            op = self.t[self.p][1]
            self.p += 1
            a = N("bin", op=op, a=a, b=self.binary(lv + 1))
        return a

    def power(self):
        a = self.unary()
        if self.at("**"):
            self.p += 1
            return N("bin", op="**", a=a, b=self.power())
        return a

    def unary(self):
        if self.t[self.p][0] == "op" and self.at("-", "!", "~", "++", "--"):
            op = self.t[self.p][1]
            self.p += 1
            return N("un", op=op, e=self.unary())
        if self.at("delete"):
            self.p += 1
            return N("delete", e=self.unary())
        return self.postfix()

    def args(self):
        self.need("(")
        out = []
        if self.at("{"):
            self.p += 1
            d = {}
            while not self.eat("}"):
                k = self.ident()
                self.need(":")
                d[k] = self.expr()
                self.eat(",")
            self.need(")")
            return d
        while not self.eat(")"):
            out.append(self.expr())
            if not self.at(")"):
                self.need(",")
        return out

    def postfix(self):
        a = self.primary()
        while True:
            if self.eat("."):
                a = N("mem", e=a, name=self.ident())
            elif self.at("["):
                self.p += 1
                if self.at("]"):
                    self.p += 1
                    a = N("idx", e=a, i=None)
                    continue
                i = None if self.at(":") else self.expr()
                if self.eat(":"):
                    j = None if self.at("]") else self.expr()
                    self.need("]")
                    a = N("slice", e=a, i=i, j=j)
                else:
                    self.need("]")
                    a = N("idx", e=a, i=i)
            elif self.at("("):
                a = N("call", f=a, args=self.args(), opts={})
            elif self.at("{") and self.t[self.p + 1][0] == "id" and self.la(2) == ":" and a.k in ("mem", "new"):
                self.p += 1
                o = {}
                while not self.eat("}"):
                    k = self.ident()
                    self.need(":")
                    o[k] = self.expr()
                    self.eat(",")
                x = self.args()
                a = N("call", f=a, args=x, opts=o)
            elif self.at("++", "--"):
                a = N("post", op=self.t[self.p][1], e=a)
                self.p += 1
            else:
                return a

    def primary(self):
        k, v, o = self.t[self.p]
        if k == "num":
            self.p += 1
            v = v.replace("_", "")
            if v[:2] in ("0x", "0X"):
                n = N("num", v=int(v, 16), hexlen=len(v) - 2)
                n.addr = len(v) == 42
            else:
                from fractions import Fraction
                n = N("num", v=Fraction(v), hexlen=None)
                n.addr = False
            if self.t[self.p][1] in UNITS and self.t[self.p][0] == "id":
                n.v *= UNITS[self.ident()]
            return n
        if k in ("str", "hexs"):
            return N("str", v=self.strlit())
        if k == "op" and v == "(":
            self.p += 1
            out = []
            comma = False
            while True:
                if self.at(",") or self.at(")"):
                    out.append(None)
                else:
                    out.append(self.expr())
                if self.eat(")"):
                    break
                self.need(",")
                comma = True
            if not comma and out[0] is not None:
                return N("paren", e=out[0])
            if not comma:
                out = []
            return N("tuple", es=out)
        if k == "op" and v == "[":
            self.p += 1
            out = []
            while not self.eat("]"):
                out.append(self.expr())
                if not self.at("]"):
                    self.need(",")
            return N("arrlit", es=out)
        if k == "id":
            if v in ("true", "false"):
                self.p += 1
                return N("bool", v=v == "true")
            if v == "new":
                self.p += 1
                return N("new", type=self.type())
            if v == "type" and self.la() == "(":
                self.p += 2
                t = self.type()
                self.need(")")
                return N("typeof", type=t)
            if v == "payable" and self.la() == "(":
                self.p += 1
                return N("telem", name="address")
            if ELEM.match(v):
                self.p += 1
                return N("telem", name=v)
            self.p += 1
            return N("id", name=v, pos=o)
        self.err("expected an expression")

    # ------------------------------------------------ Yul
    def yblock(self):
        self.need("{")
        out = []
        while not self.eat("}"):
            out.append(self.ystmt())
        return out

    def yname(self):
        s = self.ident()
        while self.at(".") and self.t[self.p + 1][0] == "id":
            self.p += 1
            s += "." + self.ident()
        return s

    def ystmt(self):
        if self.at("{"):
            return N("yblock", body=self.yblock())
        if self.eat("let"):
            ns = [self.yname()]
            while self.eat(","):
                ns.append(self.yname())
            return N("ylet", names=ns, e=self.yexpr() if self.eat(":=") else None)
        if self.eat("if"):
            return N("yif", cond=self.yexpr(), body=self.yblock())
        if self.eat("for"):
            i = self.yblock()
            c = self.yexpr()
            p = self.yblock()
            return N("yfor", init=i, cond=c, post=p, body=self.yblock())
        if self.eat("switch"):
            s = N("yswitch", e=self.yexpr(), cases=[], default=None)
            while self.at("case", "default"):
                if self.eat("case"):
                    v = self.yexpr()
                    s.cases.append((v, self.yblock()))
                else:
                    self.p += 1
                    s.default = self.yblock()
            return s
        if self.at("break", "continue", "leave"):
            return N("y" + self.ident())
        if self.eat("function"):
            nm = self.ident()
            self.need("(")
            ps = []
            while not self.eat(")"):
                ps.append(self.ident())
                self.eat(",")
            rs = []
            if self.eat("->"):
                rs.append(self.ident())
                while self.eat(","):
                    rs.append(self.ident())
            return N("yfun", name=nm, params=ps, rets=rs, body=self.yblock())
        # assignment or call
        s = self.p
        if self.t[s][0] == "id":
            ns = [self.yname()]
            while self.eat(","):
                ns.append(self.yname())
            if self.eat(":="):
                return N("yassign", names=ns, e=self.yexpr())
            self.p = s
        return N("yexpr", e=self.yexpr())

    def yexpr(self):
        k, v, _ = self.t[self.p]
        if k == "num":
            self.p += 1
            return N("ynum", v=int(v.replace("_", ""), 0))
        if k in ("str", "hexs"):
            b = self.strlit()
            return N("ynum", v=int.from_bytes(b.ljust(32, b"\0"), "big"))
        if v in ("true", "false"):
            self.p += 1
            return N("ynum", v=int(v == "true"))
        nm = self.yname()
        if self.eat("("):
            a = []
            while not self.eat(")"):
                a.append(self.yexpr())
                if not self.at(")"):
                    self.need(",")
            return N("ycall", f=nm, args=a)
        return N("yid", name=nm)
