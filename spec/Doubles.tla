------------------------------ MODULE Doubles -------------------------------
(***************************************************************************)
(* Binary64 values as exact numbers and as reals, and the real constants    *)
(* of the scheme.                                                           *)
(***************************************************************************)
EXTENDS RealN
\* 8 bytes, least significant first
Dec(b) ==
  LET v == TLCEval(BByte(b))
      s == b[8] \div 128
      e == (b[8] % 128) * 16 + b[7] \div 16
      f == TLCEval(BLow(v, 52))
  IN IF e = 0 THEN [s |-> s, m |-> f, e |-> 0] ELSE [s |-> s, m |-> BAdd(f, BPow2(52)), e |-> e - 1075]
I64(b) == LET v == TLCEval(BByte(b)) IN
          IF b[8] >= 128 THEN [s |-> 1, m |-> BSub(BPow2(64), v)] ELSE ZOf(v)
U64(b) == BByte(b)
IsFinite(b) == (b[8] % 128) * 16 + b[7] \div 16 # 2047
\* a double as a real
Real(x) == LET k == x.e + RS IN
           IF x.m = <<>> THEN Zero
           ELSE LET m == TLCEval(IF k >= 0 THEN BShl(x.m, k) ELSE BShr(x.m, 0 - k)) IN [s |-> IF m = <<>> THEN 0 ELSE x.s, m |-> m]
\* relative error at most 2^-k
RelR(x, v, k) == LET d == TLCEval(ZSub(x, v)) IN BCmp(BShl(d.m, k), v.m) <= 0
Rel(z, v, k) == RelR(Real(z), v, k)
Lam(n) == IF n < 8 THEN 2 ELSE n \div 4
\* smoothing parameter of Z^n: sqrt(ln(4n(1 + sqrt(2^64 Lam))) / 2) / pi
SigMin(n) ==
  LET u == TLCEval(BMul(BOf(4 * n), BAdd(ROne, BSqrt(BShl(BOf(Lam(n)), 64 + 2 * RS)))))   \* scaled by 2^RS
      ln == TLCEval(ZSub(RLnB(u), ZMul(ZInt(RS), RLn2)))
  IN RDiv(RSqrt(RDivI(ln, 2)), RPi)
SigmaOf(n) == RMul(RMul(RRat(117, 100), RSqrt(RInt(12289))), SigMin(n))
\* complex numbers
CMul(a, b) == [c |-> ZSub(RMul(a.c, b.c), RMul(a.s, b.s)), s |-> ZAdd(RMul(a.c, b.s), RMul(a.s, b.c))]
CAbs2(a) == ZAdd(RMul(a.c, a.c), RMul(a.s, a.s))
\* value of the polynomial a (integers) at w
CEval(a, w) ==
  FoldLeft(LAMBDA v, i : TLCEval(LET t == CMul(v, w) IN [c |-> ZAdd(t.c, RInt(a[Len(a) + 1 - i])), s |-> t.s]),
           [c |-> Zero, s |-> Zero], [i \in 1..Len(a) |-> i])
\* exp(i pi k / n)
CRoot(k, n) == TLCEval(RCosSin(ZMul(ZInt(k), RDivI(RPi, n))))
=============================================================================
