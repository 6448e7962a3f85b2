------------------------------ MODULE Sampler -------------------------------
(***************************************************************************)
(* The integer Gaussian sampler: a 72-bit draw from a table for deviation   *)
(* 1.8205, a sign bit, and acceptance with an exact probability decided     *)
(* byte by byte.  Randomness is a sequence of bytes.                        *)
(***************************************************************************)
EXTENDS Doubles
S0Sq == TLCEval(RMul(RRat(18205, 10000), RRat(18205, 10000)))
InvTwoS0 == TLCEval(RDiv(RInt(1), RMul(RInt(2), S0Sq)))
\* exp(-k^2 / (2 * 1.8205^2)) for k = 0..40
Rho0s == With(RDiv(RInt(1), RMul(RInt(2), RMul(RRat(18205, 10000), RRat(18205, 10000)))), LAMBDA v :
  [i \in 1..41 |-> RExp(ZNeg(ZMul(ZInt((i - 1) * (i - 1)), v)))])
\* probability of k, in units of 2^-72, rounded down; Upper[i]: probability of i or more, i = 1..18
Upper == TLCEval(With(Rho0s, LAMBDA rho :
  With(FoldLeft(LAMBDA s, r : TLCEval(ZAdd(s, r)), Zero, rho), LAMBDA sum :
  With([k \in 1..18 |-> BDiv(BShl(rho[k + 1].m, 72), sum.m)], LAMBDA p :
    [i \in 1..18 |-> FoldLeft(LAMBDA s, k : BAdd(s, p[k]), <<>>, [k \in 1..(19 - i) |-> i + k - 1])]))))
\* u: 9 bytes, least significant first
Base(u) == LET v == TLCEval(BByte(u)) IN
           FoldLeft(LAMBDA z, i : IF BCmp(v, Upper[i]) < 0 THEN z + 1 ELSE z, 0, [i \in 1..18 |-> i])
\* 64-bit threshold as 8 bytes, most significant first
Bytes8(v) == TLCEval([i \in 1..8 |-> LET d == BLow(BShr(v, 64 - 8 * i), 8) IN IF d = <<>> THEN 0 ELSE d[1]])
\* bytes are compared from the top and only as far as needed
RECURSIVE LessFrom(_, _, _, _)
LessFrom(z, tape, pos, i) ==
  IF tape[pos + i] # z[i] \/ i = 8 THEN [acc |-> tape[pos + i] < z[i], n |-> i]
  ELSE LessFrom(z, tape, pos, i + 1)
Less(v, tape, pos) == LessFrom(Bytes8(v), tape, pos, 1)
\* exact thresholds are known up to this relative error
TolBits(impl) == IF impl = "c" THEN 43 ELSE 37
Cap64(v) == IF BBits(v) > 64 THEN BSub(BPow2(64), <<1>>) ELSE v
(***************************************************************************)
(* One draw: from position pos of the tape (bytes used so far).             *)
(* r: fraction of the centre; d = 1/(2 sigma^2); ccs = sigma_min / sigma.   *)
(* blk: a generator with a buffer of that size does not take the nine bytes *)
(* of a table draw from its last nine; 0 for a plain stream.                *)
(***************************************************************************)
Threshold(z0, z, r, d, ccs) ==
  LET t == TLCEval(ZSub(RInt(z), r))
      x == TLCEval(ZSub(RMul(RMul(t, t), d), RMul(RInt(z0 * z0), InvTwoS0)))
  IN RMul(ccs, RExp(ZNeg(x)))
Aligned(pos, blk) == IF blk > 0 /\ (pos % blk) >= blk - 9 THEN ((pos \div blk) + 1) * blk ELSE pos
RECURSIVE DrawAt(_, _, _, _, _, _, _, _)
DrawAt(tape, at, blk, s, r, d, ccs, tb) ==
  LET pos == Aligned(at, blk) IN
  IF pos + 18 > Len(tape) THEN [how |-> "short", z |-> 0, n |-> pos]
  ELSE
  LET z0 == Base(SubSeq(tape, pos + 1, pos + 9))
      b == tape[pos + 10] % 2
      z == b + (2 * b - 1) * z0
      p == TLCEval(Threshold(z0, z, r, d, ccs).m)
      e == TLCEval(BAdd(BShr(p, tb), BShl(<<2>>, RS - 64)))
      lo == IF BCmp(p, e) < 0 THEN <<>> ELSE BShr(BSub(p, e), RS - 64)
      hi == Cap64(BShr(BAdd(p, e), RS - 64))
      a == TLCEval(Less(Cap64(lo), tape, pos + 10))
      c == TLCEval(Less(hi, tape, pos + 10))
  IN IF a # c THEN [how |-> "open", z |-> 0, n |-> pos]
     ELSE IF a.acc THEN [how |-> "done", z |-> s + z, n |-> pos + 10 + a.n]
     ELSE DrawAt(tape, pos + 10 + a.n, blk, s, r, d, ccs, tb)
Draw(tape, pos, s, r, d, ccs, tb) == DrawAt(tape, pos, 0, s, r, d, ccs, tb)
=============================================================================
