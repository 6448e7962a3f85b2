"""Driver for the Go binding and the precompile: processes, rounds of concurrent calls."""
import base64
import json
import os
import random
import select
import subprocess

import signdrv

b64 = lambda b: base64.b64encode(bytes(b)).decode()     # noqa: E731


class Died(Exception):
    pass


class Proc:
    def __init__(self, path, scratch):
        r, w = os.pipe()
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99", GOTRACEBACK="none", GOMAXPROCS="4")
        self.err = open(os.path.join(scratch, "goerr.%d" % os.getpid()), "ab")

        def fd3():
            os.dup2(w, 3)
        self.p = subprocess.Popen([path], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=self.err,
                                  pass_fds=(w, 3) if w != 3 else (3,), preexec_fn=fd3)
        os.close(w)
        self.r = os.fdopen(r, "rb")

    def round(self, calls, lock, rep=1):
        d = {"Lock": lock, "Rep": rep, "Calls": [{"Op": c["op"], "M": b64(c["m"]), "K": b64(c["k"]), "S": b64(c["s"]),
                                      "Input": b64(c["input"])} for c in calls]}
        try:
            self.p.stdin.write(json.dumps(d).encode() + b"\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        if not select.select([self.r], [], [], 25)[0]:
            self.stop()
            raise TimeoutError
        line = self.r.readline()
        if not line:
            raise Died("exit %d" % self.p.wait())
        return {"out": [{"x": o["X"], "err": o["Err"], "ok": o["Ok"], "a": list(base64.b64decode(o["A"] or "")),
                         "b": list(base64.b64decode(o["B"] or ""))} for o in json.loads(line)]}

    def stop(self):
        self.p.kill()
        self.p.wait()
        self.p.stdin.close()
        self.r.close()
        self.err.close()


def abi(parts, rng=None, damage=False):
    """Encoding of several byte strings, possibly damaged or unusual."""
    head, tail, k = b"", b"", len(parts)
    order = list(range(k))
    if rng and rng.random() < 0.2:
        rng.shuffle(order)
    offs = {}
    for i in order:
        offs[i] = 32 * k + len(tail)
        p = parts[i]
        tail += len(p).to_bytes(32, "big") + p + (b"" if rng and rng.random() < 0.1 else bytes(-len(p) % 32))
    head = b"".join(offs[i].to_bytes(32, "big") for i in range(k))
    x = bytearray(head + tail)
    if not damage:
        return bytes(x)
    for _ in range(rng.choice([1, 1, 2])):
        c = rng.randrange(6)
        i = rng.randrange(k)
        if c == 0:
            x = x[:rng.choice([0, 1, 31, 32, 64, 95, 96, len(x) - 1, len(x) - 32, rng.randrange(len(x) + 1)])]
        elif c == 1 and len(x) >= 32 * k:
            x[32 * i:32 * i + 32] = rng.choice([0, 1, 32, 96, len(x), len(x) - 31, len(x) - 32, 1 << 63, (1 << 63) - 33, 1 << 64, (1 << 64) - 32,
                                                (1 << 256) - 1, (1 << 255), 1 << 31, rng.randrange(len(x))]).to_bytes(32, "big")
        elif c == 2 and len(x) >= offs[i] + 32:
            n = len(parts[i])
            x[offs[i]:offs[i] + 32] = rng.choice([0, n - 1 if n else 1, n + 1, len(x), 1 << 63, (1 << 64) - 1, (1 << 256) - 1, 1 << 32,
                                                  len(x) - offs[i] - 32, len(x) - offs[i] - 31]).to_bytes(32, "big")
        elif c == 3:
            x += rng.randbytes(rng.choice([1, 31, 32, 64]))
        elif c == 4 and x:
            x[rng.randrange(len(x))] ^= 1 << rng.randrange(8)
        else:
            x = bytearray(rng.randbytes(rng.choice([0, 3, 32, 96, 128, 200])))
        if len(x) < 32 * k:
            break
    return bytes(x)


def run(env, sess):
    procs, keys, sigs = [], [], []
    try:
        for g in sess["gen"]:
            if g["op"] == "start":
                env.call("start", {}, lambda: procs.append(Proc(env.ctx["go"], env.ctx["scratch"])) or {})
                continue
            rng = random.Random(g.get("seed", 0))
            calls = [resolve(rng, c, keys, sigs) for c in g["calls"]]
            r = env.call("round", {"calls": calls}, lambda: procs[-1].round(calls, g.get("lock", False), g.get("rep", 1)))
            for c, o in zip(calls, r["out"]):
                if o["x"] or o["err"]:
                    continue
                if c["op"] == "keygen":
                    keys.append((bytes(o["a"]), bytes(o["b"])))
                elif c["op"] == "sign":
                    pk = [k for k in keys if k[1] == bytes(c["k"])]
                    if pk:
                        sigs.append((bytes(o["a"]), bytes(c["m"]), pk[0][0]))
    finally:
        for p in procs:
            p.stop()


def resolve(rng, c, keys, sigs):
    """Fills in what a call takes from earlier rounds."""
    d = {"op": c["op"], "m": [], "k": [], "s": [], "input": []}
    for f in ("m", "k", "s", "input"):
        if f in c:
            d[f] = list(c[f])
    if c["op"] == "sign" and "k" not in c:
        sk = rng.choice(keys)[1] if keys else bytes(1281)
        if "bad" in c:
            sk = damaged_key(rng, sk, True)
        d["k"] = list(sk)
    if c["op"] in ("verify", "run") and "k" not in c and "input" not in c:
        sm, m, pk = rng.choice(sigs) if sigs else (bytes(700), b"", bytes(897))
        for _ in range(c.get("bad", 0)):
            x = rng.randrange(6)
            if x < 3 and len(sm) > 42 + len(m) and len(pk) == 897:
                sm, pk = signdrv.mutate_sm(rng, "std", sm, pk, len(m))
                break
            if x == 3:
                m = rng.choice([m + b"\0", m[:-1], m[::-1], b"", bytes([m[0] ^ 1]) + m[1:] if m else b"\1"])
            elif x == 4:
                pk = damaged_key(rng, pk, False)
            else:
                pk = rng.choice(keys)[0] if keys else bytes([9]) + bytes(896)
        if c["op"] == "verify":
            d.update(s=list(sm), m=list(m), k=list(pk))
        else:
            d["input"] = list(abi([sm, m, pk], rng, c.get("abi", False)))
    return d


def damaged_key(rng, k, secret):
    x = rng.randrange(4)
    if x == 0:
        return k[:rng.choice([0, 1, len(k) - 1, rng.randrange(len(k))])]
    if x == 1:
        return k + rng.randbytes(rng.choice([1, 32]))
    if secret:
        return signdrv.bad_sk(rng, k)
    b = bytearray(k)
    b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
    return bytes(b)
