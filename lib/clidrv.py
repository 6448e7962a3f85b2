"""Drives the command line tool and the signer bridge, with a stand-in for the chain.

The tool runs in a scratch directory.  `cast` is a stub on PATH that hands its
arguments to this process, which plays the node: it encodes the call as cast
does and runs the contract."""
import contextlib
import io
import json
import os
import random
import re
import runpy
import shutil
import socket
import sys
import tempfile
import threading

import capi
import keydrv
import pydrv
import ring
import soldrv as sd

MODE = {"falcon": "falcon", "ethfalcon": "falcon", "falconrec": "recovery", "epervier": "epervier"}
STUB = """#!%s -SE
import json, socket, sys
s = socket.socket(socket.AF_UNIX)
s.connect(%r)
s.sendall(json.dumps(sys.argv[1:]).encode() + b"\\n")
r = json.loads(s.makefile().readline())
sys.stdout.write(r[0])
sys.stderr.write(r[1])
sys.exit(r[2])
"""


def types_of(s):
    m = re.fullmatch(r"(\w+)\((.*)\)", re.sub(r"\s", "", s))
    if not m:
        raise ValueError("not a signature")
    return m[1], [t for t in m[2].split(",") if t]


SOLT = {"bytes": ("bytes",), "uint256[]": sd.ARR, "uint256": sd.U}


def value(t, v):
    if t == "bytes":
        if not v.startswith("0x"):
            raise ValueError("bytes without 0x")
        return bytes.fromhex(v[2:])
    if t == "uint256[]":
        v = v.strip()
        if v[0] != "[" or v[-1] != "]":
            raise ValueError("not an array")
        return [value("uint256", x) for x in v[1:-1].split(",")] if v[1:-1].strip() else []
    n = int(v.strip(), 0)
    if not 0 <= n < 1 << 256:
        raise ValueError("not a word")
    return n


class Chain:
    """The node behind the stub: one contract at one address."""

    def __init__(self, env, where):
        self.env, self.calls, self.at, self.c = env, [], "", "falcon"
        self.w = sd.World(env)
        path = os.path.join(where, "s")
        self.sock = socket.socket(socket.AF_UNIX)
        self.sock.bind(path)
        self.sock.listen(8)
        d = os.path.join(where, "bin")
        os.mkdir(d)
        with open(os.path.join(d, "cast"), "w") as f:
            f.write(STUB % (sys.executable, path))
        os.chmod(os.path.join(d, "cast"), 0o755)
        self.path = d
        threading.Thread(target=self.serve, daemon=True).start()

    def serve(self):
        while True:
            try:
                k, _ = self.sock.accept()
            except OSError:
                return
            with k:
                argv = json.loads(k.makefile().readline())
                try:
                    r = self.answer(argv)
                except Exception as ex:
                    r = ["", "Error: %s\n" % ex, 1]
                k.sendall(json.dumps(r).encode() + b"\n")

    def answer(self, argv):
        call = {"kind": argv[0] if argv else "", "to": "", "rpc": "", "key": "", "fn": "", "args": [], "out": []}
        self.calls.append(call)
        pos, i, flags = [], 1, {}
        while i < len(argv):
            if argv[i].startswith("--"):
                flags[argv[i]] = argv[i + 1]
                i += 2
            else:
                pos.append(argv[i])
                i += 1
        call["rpc"], call["key"] = flags.get("--rpc-url", ""), flags.get("--private-key", "")
        call["to"] = pos[0]
        name, ts = types_of(pos[1])
        call["fn"] = "%s(%s)" % (name, ",".join(ts))
        if len(ts) != len(pos) - 2:
            raise ValueError("encode length mismatch")
        vals = [value(t, v) for t, v in zip(ts, pos[2:])]
        call["args"] = [list(v) if t == "bytes" else sd.lanes(v if t == "uint256[]" else [v])
                        for t, v in zip(ts, vals)]
        if call["to"] != self.at:
            return ["0x\n", "", 0]
        try:
            out = self.w.send(self.w.contract(sd.CON[self.c]), sd.CON[self.c], name, vals, types=[SOLT[t] for t in ts])
        except KeyError:
            out = None
        if out is None:
            return ["", "Error: execution reverted\n", 1]
        call["out"] = list(out)
        if call["kind"] == "send":
            return ["status 1 (success)\n", "", 0]
        return ["0x" + out.hex() + "\n", "", 0]


class Tool:
    def __init__(self, env, chain=True):
        self.env = env
        self.dir = tempfile.mkdtemp(dir="/tmp")
        self.work = os.path.join(self.dir, "w")
        os.mkdir(self.work)
        self.chain = Chain(env, self.dir) if chain else None
        self.made = []                  # signatures, by number
        self.pks, self.sks = [], []     # key files, by number

    def close(self):
        if self.chain:
            self.chain.sock.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def cli(self, *argv):
        """One run of the tool; what it printed."""
        return self.script("sign_cli.py", argv)

    def script(self, name, argv):
        old, argv0, path = os.getcwd(), sys.argv, os.environ["PATH"]
        out = io.StringIO()
        sys.argv = [name] + list(argv)
        os.chdir(self.work)
        if self.chain:
            os.environ["PATH"] = self.chain.path + ":" + path
        try:
            with contextlib.redirect_stdout(out):
                try:
                    runpy.run_path(os.path.join(self.env.ctx["pythonref"], name), run_name="__main__")
                except SystemExit as ex:
                    if ex.code not in (None, 0):
                        raise RuntimeError("exit status")
        finally:
            os.chdir(old)
            sys.argv = argv0
            os.environ["PATH"] = path
        return out.getvalue()

    def read(self, name):
        with open(os.path.join(self.work, name)) as f:
            return f.read()

    def write(self, name, s):
        with open(os.path.join(self.work, name), "w") as f:
            f.write(s)

    def keyfiles(self):
        """What the key files say."""
        r = {}
        for name, ks in (("private_key.pem", ("n", "f", "g", "F", "G", "version")),
                         ("public_key.pem", ("n", "pk", "version"))):
            d = {}
            for line in self.read(name).splitlines():
                if "=" in line and not line.startswith("#"):
                    k, v = line.split("=", 1)
                    d[k.strip()] = v.strip()
            if sorted(d) != sorted(ks):
                raise ValueError("unexpected fields")
            for k in ks:
                if k != "version":
                    d[k] = json.loads(d[k])
            r["sk" if "f" in d else "pk"] = d
        v = r["pk"]["pk"]
        r["pk"]["pk"] = list(int(v).to_bytes(20, "big")) if isinstance(v, int) else v
        self.sks.append(self.read("private_key.pem"))
        self.pks.append(self.read("public_key.pem"))
        return r


def variant(k, how):
    """Another basis with the same public key."""
    f, g, F, G = (list(k[c]) for c in "fgFG")
    if how == "neg":
        return [[-v for v in x] for x in (f, g, F, G)]
    if how == "add":                    # (F, G) + (f, g)
        return [f, g, [a + b for a, b in zip(F, f)], [a + b for a, b in zip(G, g)]]
    if how == "sub":
        return [f, g, [a - b for a, b in zip(F, f)], [a - b for a, b in zip(G, g)]]
    return [f, g, F, G]


def o_genkeys(t, g):
    def do():
        t.cli("genkeys", "--version=" + g["version"])
        return t.keyfiles()
    t.env.call("genkeys", {"version": g["version"], "basis": []}, do)


def o_plant(t, g):
    """Key files for a known basis, written by the tool's own functions."""
    import sign_cli
    k = keydrv.generate(capi.get(t.env), 512, bytes(g["key"]))
    b = variant(k, g.get("how", ""))
    _, P = pydrv.classes()[MODE[g["version"]]]
    S = pydrv.classes()[MODE[g["version"]]][0]

    def do():
        sk = S(512, polys=[list(x) for x in b])
        pk = P(512, sk.h if MODE[g["version"]] == "falcon" else sk.pk)
        old = os.getcwd()
        os.chdir(t.work)
        try:
            sign_cli.save_pk(pk, "public_key.pem", g["version"])
            sign_cli.save_sk(sk, "private_key.pem", g["version"])
        finally:
            os.chdir(old)
        return t.keyfiles()
    t.env.call("genkeys", {"version": g["version"], "basis": b}, do)


def o_usesk(t, g):
    i = g["i"] % len(t.sks)
    t.write("private_key.pem", t.sks[i])
    t.env.call("usesk", {"i": i + 1}, dict)


def o_usepk(t, g):
    i = g["i"] % len(t.pks)
    t.write("public_key.pem", t.pks[i])
    t.env.call("usepk", {"i": i + 1}, dict)


def o_sign(t, g):
    def do():
        with contextlib.suppress(FileNotFoundError):
            os.remove(os.path.join(t.work, "sig"))
        t.cli("sign", "--privkey=private_key.pem", "--data=" + bytes(g["m"]).hex())
        s = bytes.fromhex(t.read("sig").strip())
        return {"sig": list(s)}
    r = t.env.call("sign", {"m": g["m"]}, do)
    t.made.append(bytes(r["sig"]))


def o_put(t, g):
    """Replaces the signature file: an earlier signature, perhaps damaged, or given bytes."""
    if "sig" in g:
        s = bytes(g["sig"])
    else:
        s = t.made[g["of"] % len(t.made)]
        if g.get("damage") is not None:
            rng = random.Random(g["damage"])
            s, _, _ = pydrv.mutate(rng, g["mode"], 512, s, [0] * 512, b"")
    if len(s) == 0:
        s = b"\0"
    t.write("sig", s.hex())
    t.env.call("put", {"sig": list(s)}, dict)


def o_pkfile(t, g):
    """A public key file for a key whose private part is unknown."""
    t.write("public_key.pem", "# public key\nn = 512\npk = %s\nversion = %s\n" % (
        int.from_bytes(bytes(g["pk"]), "big") if MODE[g["version"]] != "falcon" else g["pk"], g["version"]))
    t.env.call("pkfile", {"version": g["version"], "pk": g["pk"]}, dict)


def o_verify(t, g):
    def do():
        out = t.cli("verify", "--pubkey=public_key.pem", "--signature=sig", "--data=" + bytes(g["m"]).hex())
        ok, no = "Signature is valid." in out, "Invalid signature." in out
        if ok == no:
            raise ValueError("no verdict")
        return {"ok": ok}
    t.env.call("verify", {"m": g["m"]}, do)


def o_tx(t, g):
    hx = lambda b: bytes(b).hex()          # noqa: E731

    def do():
        out = t.cli("sign_tx", "--privkey=private_key.pem", "--version=" + g["version"], "--data=" + hx(g["m"]),
                    "--nonce=" + hx(g["nonce"]), "--to=" + hx(g["to"]), "--value=" + hx(g["value"]))
        d = dict(x.split(" = ", 1) for x in out.splitlines() if re.match(r"[A-Z0-9_]+ = ", x))
        return {"hash": list(value("bytes", d["TX_HASH"])), "salt": list(value("bytes", d["SALT"])),
                "s2": sd.lanes(value("uint256[]", d["S2"])), "pk": sd.lanes(value("uint256[]", d["PK"]))}
    t.env.call("tx", {k: g[k] for k in ("nonce", "to", "m", "value")}, do)


def o_chain(t, g):
    """verifyonchain, verifyonchainsend, recoveronchain, recoveronchainsend"""
    t.chain.calls, t.chain.at, t.chain.c = [], g["at"], g["c"]

    def do():
        args = [g["act"], "--pubkey=public_key.pem", "--signature=sig", "--data=" + bytes(g["m"]).hex(),
                "--contractaddress=" + g["at"], "--rpc=" + g["rpc"]]
        if g["act"].endswith("send"):
            args.append("--privatekey=" + g["key"])
        try:
            out = t.cli(*args)
        except Exception:
            out = ""                    # nothing was shown
        shown = re.findall(r"0x[0-9a-fA-F]{64}\b", out)
        return {"shown": list(bytes.fromhex(shown[-1][2:])) if shown else [], "calls": t.chain.calls}
    t.env.call("chain", {k: g[k] for k in ("act", "m", "at", "rpc", "key", "c")}, do)


def o_bridge(t, g):
    def do():
        b = bytes.fromhex(t.script("sig_sol.py", ["0x" + bytes(g["m"]).hex(), g["mode"], bytes(g["seed"]).hex()]).strip())
        ws = [int.from_bytes(b[i:i + 32], "big") for i in range(0, len(b), 32)]
        o = ws[32]
        n = int.from_bytes(b[o:o + 32], "big")
        if o != 65 * 32 or len(b) != o + 32 + (n + 31) // 32 * 32 or any(b[o + 32 + n:]):
            raise ValueError("not an ABI encoding")
        return {"pk": sd.lanes(ws[:32]), "salt": list(b[o + 32:o + 32 + n]), "s2": sd.lanes(ws[33:65])}
    t.env.call("bridge", {k: g[k] for k in ("m", "mode", "seed")}, do)


OPS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("o_")}


def run(env, sess):
    t = Tool(env, any(g["op"] == "chain" for g in sess["gen"]))
    try:
        for g in sess["gen"]:
            OPS[g["op"]](t, g)
    finally:
        t.close()


_ = ring
