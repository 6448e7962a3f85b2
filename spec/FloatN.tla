------------------------------- MODULE FloatN -------------------------------
(***************************************************************************)
(* Floating point with P-bit mantissas and no subnormals: a value is       *)
(* [s, m, e], meaning (-1)^s * m * 2^e, with m = <<>> for the zeros (and    *)
(* then e = 0) and 2^(P-1) <= m < 2^P otherwise.  The smallest magnitude    *)
(* is 2^EMIN, EMIN = -EBIAS; what is exactly below it is flushed to a zero.                *)
(***************************************************************************)
EXTENDS Big
CONSTANTS P, EBIAS
EMIN == 0 - EBIAS
FZero(s) == [s |-> s, m |-> <<>>, e |-> 0]
FIsZero(x) == x.m = <<>>
FWell(x) == /\ x.s \in {0, 1}
            /\ IF FIsZero(x) THEN x.e = 0 ELSE BBits(x.m) = P /\ x.e >= EMIN - (P - 1)
\* (n/d)*2^k against (m)*2^e
RCmp(n, d, k, m, e) ==
  LET r == TLCEval(BMul(m, d)) IN
  IF k >= e THEN BCmp(BShl(n, k - e), r) ELSE BCmp(n, BShl(r, e - k))
(***************************************************************************)
(* z is the value nearest to (-1)^s * (n/d) * 2^k, ties to even: the exact  *)
(* value lies between the midpoints to z's neighbours.                      *)
(***************************************************************************)
FIsNear(z, s, n, d, k) ==
  IF n = <<>> THEN z = FZero(s)
  ELSE IF RCmp(n, d, k, <<1>>, EMIN) < 0 THEN z = FZero(s)
  ELSE /\ z.s = s /\ z.m # <<>> /\ FWell(z)
       /\ LET pow == z.m = BPow2(P - 1)
              lo == TLCEval(IF pow THEN BSub(BShl(z.m, 2), <<1>>) ELSE BSub(BShl(z.m, 2), <<2>>))
              hi == TLCEval(BAdd(BShl(z.m, 2), <<2>>))
              a == RCmp(n, d, k, lo, z.e - 2)
              b == RCmp(n, d, k, hi, z.e - 2)
          IN IF BIsOdd(z.m) THEN a > 0 /\ b < 0
             ELSE (a >= 0 \/ (pow /\ z.e = EMIN - (P - 1))) /\ b <= 0
\* the same for the square root of (n/d) * 2^k
FIsNearSqrt(z, n, d, k) ==
  IF n = <<>> THEN z = FZero(0)
  ELSE /\ z.s = 0 /\ z.m # <<>> /\ FWell(z)
       /\ LET pow == z.m = BPow2(P - 1)
              lo == TLCEval(IF pow THEN BSub(BShl(z.m, 2), <<1>>) ELSE BSub(BShl(z.m, 2), <<2>>))
              hi == TLCEval(BAdd(BShl(z.m, 2), <<2>>))
              a == RCmp(n, d, k, BMul(lo, lo), 2 * z.e - 4)
              b == RCmp(n, d, k, BMul(hi, hi), 2 * z.e - 4)
          IN IF BIsOdd(z.m) THEN a > 0 /\ b < 0 ELSE a >= 0 /\ b <= 0
(***************************************************************************)
(* The nearest value itself                                                *)
(***************************************************************************)
FRound(s, n, d, k) ==
  IF n = <<>> THEN FZero(s)
  ELSE IF RCmp(n, d, k, <<1>>, EMIN) < 0 THEN FZero(s)
  ELSE LET sh == P + 2 + BBits(d) - BBits(n)            \* quotient of P+1 to P+3 bits
           nn == TLCEval(IF sh >= 0 THEN BShl(n, sh) ELSE n)
           dd == TLCEval(IF sh >= 0 THEN d ELSE BShl(d, 0 - sh))
           qr == TLCEval(BDivMod(nn, dd))
           x == BBits(qr.q) - P
           m == TLCEval(BShr(qr.q, x))
           cut == TLCEval(BLow(qr.q, x))
           c == BCmp(cut, BPow2(x - 1))
           up == \/ c > 0 \/ (c = 0 /\ qr.r # <<>>) \/ (c = 0 /\ qr.r = <<>> /\ BIsOdd(m))
           m2 == TLCEval(IF up THEN BAdd(m, <<1>>) ELSE m)
           e2 == k - sh + x
       IN IF BBits(m2) > P THEN [s |-> s, m |-> BShr(m2, 1), e |-> e2 + 1] ELSE [s |-> s, m |-> m2, e |-> e2]
(***************************************************************************)
(* Exact results of the operations, as [s, n, d, k]                         *)
(***************************************************************************)
FXor(a, b) == (a + b) % 2
FNeg(x) == [x EXCEPT !.s = 1 - x.s]
ExMul(x, y) == [s |-> FXor(x.s, y.s), n |-> BMul(x.m, y.m), d |-> <<1>>, k |-> x.e + y.e]
ExDiv(x, y) == [s |-> IF FIsZero(x) THEN 0 ELSE FXor(x.s, y.s), n |-> x.m, d |-> y.m, k |-> x.e - y.e]
\* a zero sum is +0 unless both terms are -0
ExAdd(x, y) ==
  LET k == IF FIsZero(x) THEN y.e ELSE IF FIsZero(y) THEN x.e ELSE IF x.e < y.e THEN x.e ELSE y.e
      t == TLCEval(ZAdd([s |-> x.s, m |-> IF FIsZero(x) THEN <<>> ELSE BShl(x.m, x.e - k)],
                        [s |-> y.s, m |-> IF FIsZero(y) THEN <<>> ELSE BShl(y.m, y.e - k)]))
  IN IF t.m = <<>> THEN [s |-> IF x.s = 1 /\ y.s = 1 THEN 1 ELSE 0, n |-> <<>>, d |-> <<1>>, k |-> 0]
     ELSE [s |-> t.s, n |-> t.m, d |-> <<1>>, k |-> k]
FAdd(x, y) == LET v == TLCEval(ExAdd(x, y)) IN FRound(v.s, v.n, v.d, v.k)
FSub(x, y) == FAdd(x, FNeg(y))
FMul(x, y) == LET v == TLCEval(ExMul(x, y)) IN FRound(v.s, v.n, v.d, v.k)
FDiv(x, y) == LET v == TLCEval(ExDiv(x, y)) IN FRound(v.s, v.n, v.d, v.k)
\* an integer times a power of two
FScaled(z, k) == FRound(z.s, z.m, <<1>>, k)
(***************************************************************************)
(* To integers                                                             *)
(***************************************************************************)
FTrunc(x) == LET m == TLCEval(IF x.e >= 0 THEN BShl(x.m, x.e) ELSE BShr(x.m, 0 - x.e)) IN
             [s |-> IF m = <<>> THEN 0 ELSE x.s, m |-> m]
FFrac(x) == IF x.e >= 0 THEN <<>> ELSE BLow(x.m, 0 - x.e)
FFloor(x) == LET t == TLCEval(FTrunc(x)) IN
             IF x.s = 1 /\ FFrac(x) # <<>> THEN [s |-> 1, m |-> BAdd(t.m, <<1>>)] ELSE t
FRint(x) == LET t == TLCEval(FTrunc(x))
                c == IF x.e >= 0 THEN -1 ELSE BCmp(FFrac(x), BPow2(0 - x.e - 1))
                m == IF c > 0 \/ (c = 0 /\ BIsOdd(t.m)) THEN BAdd(t.m, <<1>>) ELSE t.m
            IN [s |-> IF m = <<>> THEN 0 ELSE x.s, m |-> m]
\* comparison of the numbers; the zeros are equal
FCmp(x, y) == IF FIsZero(x) /\ FIsZero(y) THEN 0
              ELSE IF FIsZero(x) THEN IF y.s = 1 THEN 1 ELSE -1
              ELSE IF x.s # y.s THEN IF x.s = 1 THEN -1 ELSE 1
              ELSE LET c == IF FIsZero(y) THEN 1 ELSE RCmp(x.m, <<1>>, x.e, y.m, y.e) IN IF x.s = 1 THEN 0 - c ELSE c
=============================================================================
