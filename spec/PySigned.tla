------------------------------ MODULE PySigned ------------------------------
(***************************************************************************)
(* Signatures of the Python implementation, any degree n = 2 .. 1024.      *)
(* falcon:               head | salt (40) | s2 in slen bytes, zero padded  *)
(* recovery, epervier:   head | salt (40) | s1, s2 | NTT(s2)^-1 (3n)       *)
(* The first byte is written by the signer and not read by the verifier;   *)
(* zero padding may be missing.                                            *)
(* An address is the last 20 bytes of the Keccak-256 of n 32-byte words:   *)
(* the coefficients of h (recovery) or of NTT(h) (epervier).               *)
(***************************************************************************)
EXTENDS Codec, H2p
SigBytes == <<44, 47, 52, 63, 82, 122, 200, 356, 666, 1280>>
SaltLen == 40
SigLen(n) == SigBytes[Log2(n)]
BodyLen(mode, n) == IF mode = "falcon" THEN SigLen(n) - 41 ELSE 2 * SigLen(n) - 41
HintLen(mode, n) == IF mode = "falcon" THEN 0 ELSE 3 * n
HeadByte(mode, n) == (IF mode = "falcon" THEN 32 ELSE 48) + Log2(n)
NoPy == [ok |-> FALSE]
\* the parts of a signature
PyParse(mode, n, sig) ==
  LET hl == HintLen(mode, n) IN
  IF Len(sig) <= 41 + hl THEN NoPy ELSE
  LET d == TLCEval(PadDecode(Slice(sig, 41, Len(sig) - 41 - hl), BodyLen(mode, n), IF mode = "falcon" THEN n ELSE 2 * n))
      o == Len(sig) - hl IN
  IF ~d.ok THEN NoPy
  ELSE [ok |-> TRUE, salt |-> Slice(sig, 1, SaltLen),
        s1 |-> IF mode = "falcon" THEN <<>> ELSE Slice(d.x, 0, n),
        s2 |-> IF mode = "falcon" THEN d.x ELSE Slice(d.x, n, n),
        hint |-> TLCEval([i \in 1..(hl \div 3) |-> 65536 * sig[o + 3 * i - 2] + 256 * sig[o + 3 * i - 1] + sig[o + 3 * i]])]
Point2(xof, salt, m, n) == TLCEval(PointOf(xof, salt, m, n).x)
FalconValid(n, h, m, sig, xof) ==
  LET g == TLCEval(PyParse("falcon", n, sig)) IN
  IF ~g.ok THEN FALSE ELSE
  IF TooLong(xof, g.salt, m) THEN FALSE ELSE
  IsShort(S1Of(Point2(xof, g.salt, m, n), g.s2, h), g.s2)
Words256(x) == Concat([i \in 1..Len(x) |-> Zeros(30) \o <<x[i] \div 256, x[i] % 256>>])
\* hn is NTT(h)
Address(mode, hn) == Slice(Keccak256(TLCEval(Words256(IF mode = "recovery" THEN Intt(hn) ELSE hn))), 12, 20)
\* the public key in the transformed domain that a signature determines
Recover(mode, n, m, sig, xof) ==
  LET g == TLCEval(PyParse(mode, n, sig)) IN
  IF ~g.ok THEN NoPy ELSE
  IF TooLong(xof, g.salt, m) \/ ~IsShort(g.s1, g.s2) THEN NoPy ELSE
  LET t == TLCEval(Ntt(g.s2)) IN
  IF \E i \in 1..n : g.hint[i] >= Q \/ (g.hint[i] * t[i]) % Q # 1 THEN NoPy
  ELSE [ok |-> TRUE, hn |-> PointMul(TLCEval(Ntt(PolySub(Point2(xof, g.salt, m, n), g.s1))), g.hint)]
RecoverAddr(mode, n, m, sig, xof) ==
  LET r == TLCEval(Recover(mode, n, m, sig, xof)) IN IF r.ok THEN Address(mode, r.hn) ELSE <<>>
=============================================================================
