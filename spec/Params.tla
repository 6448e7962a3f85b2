------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* The parameter sets, from the definition of the scheme: of degree n and   *)
(* an aimed level of bits, with 2^64 signatures and q = 12289.              *)
(***************************************************************************)
EXTENDS Doubles
RLnI(n) == RLnB(BOf(n))
\* of a real
RLnR(x) == ZSub(RLnB(x.m), ZMul(ZInt(RS), RLn2))
RLe(a, b) == ZSub(b, a).s = 0
RECURSIVE IntOf(_)
IntOf(b) == IF b = <<>> THEN 0 ELSE b[1] + BB * IntOf(Tail(b))
FloorOf(x) == IF x.s = 1 THEN 0 - IntOf(BShr(BAdd(x.m, BSub(ROne, BOf(1))), RS)) ELSE IntOf(BShr(x.m, RS))
IsWhole(x) == BShl(BShr(x.m, RS), RS) = x.m
\* eps = 1 / sqrt(bits 2^64); smoothing parameter of Z^m
InvEps(bits) == ZOf(BSqrt(BShl(BOf(bits), 64 + 2 * RS)))
SmoothLn(m, bits) == RLnR(ZMul(ZInt(2 * m), ZAdd(RInt(1), InvEps(bits))))
SmoothOf(m, bits) == RDiv(RSqrt(RDivI(SmoothLn(m, bits), 2)), RPi)
GsNorm == RMul(RRat(117, 100), RSqrt(RInt(12289)))
MaxLeaf == RRat(18205, 10000)
\* a variance above the largest the integer sampler takes
LeafOf(smin) == RMul(smin, RRat(13689, 10000))
\* 1.1 sigma sqrt(2n), its square
TailSq(n, smin) == RMul(RMul(RRat(121, 100), RInt(2 * n)), RMul(RMul(GsNorm, GsNorm), RMul(smin, smin)))
TailOf(n, smin) == RSqrt(TailSq(n, smin))
SqBound(n, smin) == FloorOf(TailSq(n, smin))
\* 1.1^m exp(m (1 - 1.1^2) / 2), m = 2n
RejectOf(n) == RExp(ZSub(ZMul(ZInt(2 * n), ZSub(RLnI(11), RLnI(10))), RRat(21 * n, 100)))
(* lattice reduction: ln of B / (2 pi e) *)
Ln2Pi == TLCEval(RLnR(ZMul(ZInt(2), RPi)))
LnB(b) == ZSub(ZSub(RLnI(b), Ln2Pi), RInt(1))
LnQ == TLCEval(RLnI(12289))
\* (B / 2 pi e)^(1 - n/B) sqrt q > sqrt(3B/4) 1.17 sqrt(q / 2n)
KeyFound(n, b) ==
  RLe(ZMul(ZInt(b), ZAdd(ZSub(RLnI(3 * b), RLnI(8 * n)), ZMul(ZInt(2), ZSub(RLnI(117), RLnI(100))))), ZMul(ZInt(2 * (b - n)), LnB(b)))
\* (B / 2 pi e)^(n/B) sqrt q <= bound
ForgeFound(n, bound, b) ==
  RLe(ZAdd(ZMul(ZInt(2 * n), LnB(b)), ZMul(ZInt(b), LnQ)), ZMul(ZInt(2 * b), RLnI(bound)))
\* the smallest from 100 on: at b, and neither just before nor on a grid below
Before(b) == {x \in 100..(b - 1) : x > b - 6 \/ x % 41 = 0}
\* B ln(4/3) / ln(B / 2 pi e), rounded
ForFree(b) == FloorOf(ZAdd(RDiv(ZMul(ZInt(b), ZSub(RLnI(4), RLnI(3))), LnB(b)), RRat(1, 2)))
=============================================================================
