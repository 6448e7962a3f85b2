-------------------------------- MODULE EvmXof --------------------------------
(***************************************************************************)
(* Recorded calls to the Solidity hash functions: streaming SHAKE256 on    *)
(* several contexts, the permutation, and the three hash-to-point          *)
(* functions.                                                              *)
(***************************************************************************)
EXTENDS H2p, Sponge, TraceCheck
InitSt(sess) == <<SpInit, SpInit, SpInit>>
SolPoint(f, salt, m) ==
  CASE f = "NIST" -> PointOf("shake", salt, m, 512).x
    [] f = "EVM" -> PointOf("keccak", salt, m, 512).x
    [] f = "TETRATION" -> PointOf("chain", m, salt, 512).x
\* the 16 sixteen-bit parts of a 32-byte word, first one first
Parts(b) == [i \in 1..16 |-> 256 * b[2 * i - 1] + b[2 * i]]
Step1(s0, e) ==
  LET a == e.a  r == e.r IN
  IF e.op = "f1600" THEN Chk(s0, r.st = StateBytes(KeccakF(XorIn(KZero, a.st)), 0, 200), "wrong permutation")
  ELSE IF e.op = "h2p" THEN Chk(s0, r.x = TLCEval(SolPoint(a.f, a.salt, a.m)), "wrong point")
  ELSE IF e.op = "split" THEN Chk(s0, r.x = Parts(a.x), "wrong 16-bit parts")
  ELSE IF e.op = "digest" THEN          \* pads and squeezes
    LET s1 == s0[a.c]
        d == SqueezeR(136, Absorb(s1.msg, 136, 31), 0, a.n, <<>>) IN
    Chk(s0, r.out = d.out, "wrong digest")
  ELSE LET t == SpongeStep(s0[a.c], e) IN [st |-> [s0 EXCEPT ![a.c] = t.st], why |-> t.why]
Step(sess, s0, e) ==
  IF e.op = "harness" THEN Bad(s0, "the harness could not drive the code: " \o e.x)
  ELSE IF e.x # "" THEN Bad(s0, e.op \o " did not return: " \o e.x)
  ELSE Step1(s0, e)
Init == TInit(InitSt)
Next == TNext(Step)
=============================================================================
