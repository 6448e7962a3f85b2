"""Drives the tools that write known-answer files and test contracts."""
import contextlib
import io
import os
import re
import shutil
import subprocess
import sys
import tempfile

import capi
import keydrv
import pydrv
import ring
import signdrv


def module():
    import scripts.generate_kat_rsp as m
    return m


def key(env, seed):
    """(pk, sk) of the C key generator, in the forms of the files."""
    k = ("rspkey", bytes(seed))
    if k not in env.cache:
        g = keydrv.generate(capi.get(env), 512, bytes(seed))
        sk = bytes([0x59]) + bits(g["f"], 6) + bits(g["g"], 6) + bits(g["F"], 8)
        env.cache[k] = bytes([9]) + bits(g["h"], 14), sk
    return env.cache[k]


def bits(xs, w):
    v = 0
    for x in xs:
        v = v << w | (int(x) & (1 << w) - 1)
    n = len(xs) * w
    return (v << -n % 8).to_bytes((n + 7) // 8, "big")


def block(fields, eol="\n"):
    return "".join("%s = %s%s" % (k, v, eol) for k, v in fields)


def texts(g, keys):
    """The request and response files of the vectors g["vecs"]."""
    eol, gap = g["eol"], g["eol"] * g["gap"]
    req, rsp = "", "# Falcon-512" + eol + eol
    for i, v in enumerate(g["vecs"]):
        pk, sk = keys[i]
        m = bytes(v["m"]).hex()
        m = m.upper() if g["upper"] else m
        head = [("count", v["count"]), ("seed", bytes(v["seed"]).hex().upper()), ("mlen", len(v["m"])), ("msg", m)]
        last = i == len(g["vecs"]) - 1 and g["end"]
        req += block(head + [("pk", ""), ("sk", ""), ("smlen", ""), ("sm", "")], eol) + ("" if last else gap)
        other = v["count"]
        if g["bad"] == "counts" and i == len(g["vecs"]) - 1:
            other = [other + 1, other + 10, 10 * other + 10, int("1%d" % other)][v["seed"][0] % 4]
        rsp += block([("count", other)] + head[1:] + [("pk", pk.hex().upper()), ("sk", sk.hex().upper()), ("smlen", "0"), ("sm", "00")], eol)
        rsp += "" if last else gap
    return req, rsp


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def rsp(env, g):
    keys = [list(key(env, v["key"])) for v in g["vecs"]]
    if g["bad"] == "key":
        keys[-1][1] = bytes(g["sk"])
    elif g["bad"] == "pair":              # a public key of another private key
        keys[-1][0] = key(env, [9, 9, 9])[0]
    req, old = texts(g, keys)
    a = {"bad": g["bad"], "text": list(req.encode()),
         "keys": [{"pk": list(p), "sk": list(s)} for p, s in keys]}

    def go():
        m = module()
        d = tempfile.mkdtemp(dir=env.ctx["scratch"])
        try:
            p = os.path.join(d, "x-KAT")
            with open(p + ".req", "w", newline="") as f:
                f.write(req)
            with open(p + ".rsp", "w", newline="") as f:
                f.write(old)
            outs = []
            for i in range(1 if g["bad"] else 2):
                o = os.path.join(d, "out%d" % i)
                try:
                    quiet(lambda: m.generate_rsp(p + ".req", o))
                    with open(o, "rb") as f:
                        outs.append(list(f.read()))
                except Exception as e:
                    return {"ok": False, "err": repr(e)[:200], "text": [], "again": []}
            return {"ok": True, "err": "", "text": outs[0], "again": outs[-1]}
        finally:
            shutil.rmtree(d)
    env.call("rsp", a, go)


def parse(env, g):
    def go():
        m = module()
        with tempfile.NamedTemporaryFile(dir=env.ctx["scratch"], suffix=".txt") as f:
            f.write(bytes(g["text"]))
            f.flush()
            v = (m.parse_kat_req if g["how"] == "req" else m.parse_kat_rsp)(f.name)
        return {"vecs": [[[list(k.encode()), list(str(x).encode())] for k, x in b.items()] for b in v]}
    env.call("parse", {"how": g["how"], "text": g["text"]}, go)


def skdec(env, g):
    sk = bytes(g["sk"]) if g["sk"] else key(env, g["key"])[1]

    def go():
        try:
            r = quiet(lambda: module().decode_secret_key_nist(sk.hex().upper() if g["upper"] else sk.hex()))
        except Exception:
            return {"ok": False}
        return dict({"ok": True}, **{x: keydrv.ints(p) for x, p in zip("fgFG", r)})
    env.call("skdec", {"sk": list(sk)}, go)


def words(s):
    """The coefficients of packed 256-bit words."""
    return [int(w) >> 16 * i & 0xFFFF for w in s.split(",") for i in range(16)]


def unescape(s):
    return list(bytes.fromhex(re.sub(r"\\x", "", s))) if s.startswith("\\x") else list(s.encode())


def field(body, rx, fn):
    m = re.search(rx, body, re.S)
    return fn(m[1]) if m else []


SUITES = {"falcon": ("generate_falcon_test_vectors", ("ethfalcon.t.sol", "falcon.t.sol")),
          "core": ("generate_falcon_core_test_vectors", ("ethfalcon_core.t.sol", "falcon_core.t.sol")),
          "hash": ("generate_hashtopoint_test_vectors", ("HashToPointEVMVectors.t.sol", "HashToPointNISTVectors.t.sol")),
          "epervier": ("generate_epervier_test_vectors", ("ethepervier.t.sol", "epervier.t.sol"))}


def suite(env, g):
    """Runs a generator beside an empty test directory and reads what it wrote."""
    mod, files = SUITES[g["suite"]]
    d = tempfile.mkdtemp(dir=env.ctx["scratch"])
    err, got = "", {}
    try:
        os.mkdir(os.path.join(d, "test"))
        os.mkdir(os.path.join(d, "pythonref"))
        p = subprocess.run([sys.executable, "-m", mod], cwd=os.path.join(d, "pythonref"), capture_output=True, text=True,
                           env=dict(os.environ, PYTHONPATH=":".join([env.ctx["pythonref"]] + sys.path)))
        if p.returncode:
            err = p.stderr[-200:]
        for f in files:
            p = os.path.join(d, "test", f)
            got[f] = open(p).read() if os.path.exists(p) else ""
    finally:
        shutil.rmtree(d)
    for f in files:
        def go():
            if err:
                raise RuntimeError(err)
            out = []
            for body in got[f].split("function testVector")[1:]:
                v = {"m": field(body, r'memory message\s*= "([^"]*)"', unescape) or field(body, r'// message = "([^"]*)"', unescape),
                     "salt": field(body, r'memory salt = "([^"]*)"', unescape) or field(body, r'// salt = "([^"]*)"', unescape)}
                for x, rx in (("pk", r"tmp_pkc = \[([^\]]*)\]"), ("s1", r"tmp_s1 = \[([^\]]*)\]"), ("s2", r"tmp_s2 = \[([^\]]*)\]")):
                    v[x] = field(body, rx, words)
                v["hash"] = field(body, r"(?:expected_hash|_hashed) = \[uint256\(([^\]]*)\]",
                                  lambda s: [int(x) for x in s.replace(")", "").split(",")])
                v["hint"] = field(body, r"uint256 hint = (\d+)", int) or 0
                v["address"] = field(body, r"pk = address\((\w+)\)", lambda s: list((int(s, 0)).to_bytes(20, "big")))
                out.append(v)
            return {"vecs": out}
        env.call("suite", {"kind": g["suite"], "eth": f == files[0]}, go)


def run(env, sess):
    for g in sess["gen"]:
        if g["op"] == "rsp":
            rsp(env, g)
        elif g["op"] == "parse":
            parse(env, g)
        elif g["op"] == "skdec":
            skdec(env, g)
        elif g["op"] == "pkenc":
            env.call("pkenc", {"h": g["h"]}, lambda: {"pk": list(module().encode_public_key(g["h"], len(g["h"])))})
        else:
            suite(env, g)
