#!/usr/bin/env python3
"""Checks the primitives of the specification against independent implementations.

Writes an MC_Crypto module of known-answer ASSUMEs (answers from hashlib and
pycryptodome, computed here) and lets TLC evaluate it, together with the
algebraic identities of Poly.tla.
"""
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.abspath(__file__))
GEN = r'''
import hashlib, random, sys
from Crypto.Hash import keccak
from Crypto.Cipher import AES, ChaCha20
rng = random.Random(1)
def t(b): return "<<" + ",".join(str(x) for x in b) + ">>"
out = ["---- MODULE MC_Crypto ----", "EXTENDS Keccak, Blake2s, Aes, ChaCha, Poly, Gauss, RealN, TLC", "VARIABLE z"]
for n in (0, 1, 31, 135, 136, 137, 300):
    m = rng.randbytes(n)
    out.append("ASSUME Shake256(%s, 200) = %s" % (t(m), t(hashlib.shake_256(m).digest(200))))
    k = keccak.new(digest_bits=256); k.update(m)
    out.append("ASSUME Keccak256(%s) = %s" % (t(m), t(k.digest())))
for n in (0, 1, 63, 64, 65, 128, 200):
    m = rng.randbytes(n)
    out.append("ASSUME Blake2sN(%s, 32) = %s" % (t(m), t(hashlib.blake2s(m).digest())))
for i in range(3):
    k, b = rng.randbytes(32), rng.randbytes(16)
    out.append("ASSUME AesEnc(KeyExp(%s), %s) = %s" % (t(k), t(b), t(AES.new(k, AES.MODE_ECB).encrypt(b))))
    c = ChaCha20.new(key=k, nonce=b[:8]).encrypt(bytes(64))
    out.append(r"ASSUME Concat([i \in 1..16 |-> WToLE(CBlock(SeedWords(%s), <<<<0,0>>,<<0,0>>>>)[i])]) = %s"
               % (t(k + bytes(8) + b[:8] + bytes(8)), t(c)))
    out.append("ASSUME AesCtr(%s, %s, 3) = %s" % (t(k), t(b[:13] + b"\xff\xff\xfe"), t(b"".join(
        AES.new(k, AES.MODE_ECB).encrypt(((int.from_bytes(b[:13] + b"\xff\xff\xfe", "big") + j) % 2**128).to_bytes(16, "big"))
        for j in (1, 2, 3)))))
    # the 64-bit block counter is xored into the last two words, which here hold an eight-byte nonce
    blks = [ChaCha20.new(key=k, nonce=(int.from_bytes(b[:8], "little") ^ (7 * 2**32 + 2**32 - 3 + j)).to_bytes(8, "little"))
            .encrypt(bytes(64)) for j in range(8)]
    inter = b"".join(blks[j][4 * v:4 * v + 4] for v in range(16) for j in range(8))
    out.append("ASSUME CRefillBuf(SeedWords(%s), <<<<65535,65533>>,<<0,7>>>>) = %s"
               % (t(k + bytes(8) + b[:8] + bytes(8)), t(inter)))
# secret polynomials, against a direct transcription of the distribution
import decimal
D = decimal.Decimal
decimal.getcontext().prec = 60
s2 = D("1.17") ** 2 * D(12289) / D(2048)
rho = [(-(D(k * k)) / (2 * s2)).exp() for k in range(60)]
tail = sum(rho[1:])
tab = [round(rho[0] / (rho[0] + 2 * tail) * 2**63)] + [round(sum(rho[k + 1:]) / tail * 2**63) for k in range(1, 27)]
def draw(b):
    r, s = int.from_bytes(b[:8], "little"), int.from_bytes(b[8:16], "little") % 2**63
    if r % 2**63 < tab[0]:
        return 0
    v = next(k for k in range(1, 27) if s >= tab[k])
    return -v if r >> 63 else v
def edge():
    k = rng.randrange(27)
    a, b = tab[0] + rng.choice([-1, 0, 1]), tab[k] + rng.choice([-1, 0, 1])
    return (max(a, 0) + rng.choice([0, 2**63])).to_bytes(8, "little") + max(b, 0).to_bytes(8, "little")
for n in (1024, 512, 256, 2):
    b = b"".join(edge() if rng.random() < 0.4 else rng.randbytes(16) for _ in range(1280 if n > 2 else 8000))
    f, p, par, g = [], 0, 0, 1024 // n
    while len(f) < n:
        s = sum(draw(b[p + 16 * i:p + 16 * i + 16]) for i in range(g))
        p += 16 * g
        if abs(s) > 127 or (len(f) == n - 1 and (par + s) % 2 == 0):
            continue
        par += s
        f.append(s)
    out.append("ASSUME GaussPoly(%s, 0, %d) = [f |-> %s, pos |-> %d]" % (t(b), n, t(f), p))
# big numbers and reals
def bg(n):
    d = []
    while n:
        d.append(n % 4096)
        n //= 4096
    return t(d)
def some():
    b = rng.choice([0, 1, 11, 12, 13, 24, 47, 48, 59, 60, 61, 72, 73, 107, 200, 401])
    return rng.choice([rng.getrandbits(b), 2**b, 2**b - 1, max(0, 2**b - 4096 ** rng.randrange(3))])
for i in range(60):
    a, b, k = some(), some(), rng.choice([0, 1, 11, 12, 13, 30, 64, 150])
    lo, hi = min(a, b), max(a, b)
    out.append("ASSUME BAdd(%s, %s) = %s" % (bg(a), bg(b), bg(a + b)))
    out.append("ASSUME BSub(%s, %s) = %s" % (bg(hi), bg(lo), bg(hi - lo)))
    out.append("ASSUME BMul(%s, %s) = %s" % (bg(a), bg(b), bg(a * b)))
    out.append("ASSUME BCmp(%s, %s) = %d" % (bg(a), bg(b), (a > b) - (a < b)))
    out.append("ASSUME BShl(%s, %d) = %s /\\ BShr(%s, %d) = %s /\\ BLow(%s, %d) = %s" % (
        bg(a), k, bg(a << k), bg(a), k, bg(a >> k), bg(a), k, bg(a % 2**k)))
    out.append("ASSUME BBits(%s) = %d /\\ BSqrt(%s) = %s" % (bg(a), a.bit_length(), bg(a), bg(__import__("math").isqrt(a))))
    if b:
        out.append("ASSUME BDivMod(%s, %s) = [q |-> %s, r |-> %s]" % (bg(a), bg(b), bg(a // b), bg(a % b)))
    x = rng.randbytes(rng.choice([1, 2, 3, 8, 31]))
    out.append("ASSUME BByte(%s) = %s" % (t(x), bg(int.from_bytes(x, "little"))))
    out.append("ASSUME ZShr([s |-> %d, m |-> %s], %d) = ZShl(ZInt(%d), 0)" % (1, bg(1 + i * 77), 4, -(1 + i * 77) >> 4))
def near(e, v):
    v = int((v * D(2)**200).to_integral_value())
    out.append("ASSUME RNear(%s, [s |-> %d, m |-> %s], 16)" % (e, v < 0, bg(abs(v))))
decimal.getcontext().prec = 90
near("RLn2", D(2).ln())
near("RPi", D("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534"))
near("RExp(RRat(-7, 10))", (D(-7) / 10).exp())
near("RLnB(%s)" % bg(3**200 + 5), D(3**200 + 5).ln())
near("RSqrt(RRat(3, 7))", (D(3) / 7).sqrt())
near("RCosSin(RDivI(RPi, 3)).c", D(1) / 2)
near("RCosSin(RDivI(RPi, 4)).s", (D(1) / 2).sqrt())
near("RCosSin(RDivI(ZMul(ZInt(5), RPi), 6)).c", -(D(3) / 4).sqrt())
open(sys.argv[1], "w").write("\n".join(out) + r"""
PX == [i \in 1..16 |-> (i * i * 977) % Q]
PY == [i \in 1..16 |-> (i * 3571 + 11) % Q]
ASSUME Mul(PX, PY) = MulDef(PX, PY)
ASSUME Ntt(PX) = NttDef(PX)
ASSUME MulZ(PX, [i \in 1..16 |-> 50 - PY[i]])[1] = 50 * PX[1] - PX[1] * PY[1]
         - FoldLeft(LAMBDA s, i : s + PX[i] * (50 - PY[18 - i]), 0, [i \in 1..15 |-> i + 1])
ASSUME PolyModQ(MulZ(PX, PY)) = MulDef(PX, PY)
ASSUME Intt(Ntt(PX)) = PX
ASSUME \A n \in {2, 4, 8, 32, 128} : LET a == [i \in 1..n |-> (i * 7919 + i * i) % Q]  b == [i \in 1..n |-> (i * i * i + 5) % Q] IN
          Ntt(a) = NttDef(a) /\ Intt(Ntt(b)) = b /\ Mul(a, b) = MulDef(a, b)
ASSUME \A n \in {512, 1024} : LET a == [i \in 1..n |-> (i * 7919 + i * i) % Q]  b == [i \in 1..n |-> (i * 31 + 5) % Q] IN
          Mul(a, b) = MulDef(a, b) /\ Ntt(b) = NttDef(b)
Init == z = 0
Next == UNCHANGED z
====
""")
'''


def main():
    sys.path.insert(0, os.path.join(ROOT, "lib"))
    import tlc
    d = tempfile.mkdtemp(prefix="verif.setup.")
    try:
        mod = os.path.join(d, "MC_Crypto.tla")
        subprocess.run(["/opt/venv/bin/python", "-c", GEN, mod], check=True)
        for fast in (False, True):
            r = tlc.run_tlc("MC_Crypto", "INIT Init\nNEXT Next\n", d, fast=fast, timeout=800, more=[mod])
            if not r.completed:
                print(r.out[-2000:])
                return 1
        print("the specification's primitives agree with the reference answers, plain and accelerated")
        return 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


sys.exit(main())
