------------------------------- MODULE MC_Fpr -------------------------------
(***************************************************************************)
(* Emulated floating point at a small precision, exhaustively: the integer  *)
(* algorithms (guard and sticky bits, one rounding) give the representable  *)
(* value nearest to the exact result, and FIsNear / FRound say the same.    *)
(***************************************************************************)
EXTENDS FloatN, FiniteSets
CONSTANTS EMAX
VARIABLES x, y
B(i) == BOf(i)
Abs(n) == IF n < 0 THEN 0 - n ELSE n
EXP == (EMIN - (P - 1))..EMAX
Mant == (2 ^ (P - 1))..(2 ^ P - 1)
Vals == {FZero(0), FZero(1)} \cup {[s |-> s, m |-> B(m), e |-> e] : s \in {0, 1}, m \in Mant, e \in EXP}
I(b) == FoldLeft(LAMBDA u, i : u * BB + b[Len(b) + 1 - i], 0, [i \in 1..Len(b) |-> i])
Stick(m, k) == LET q == m \div 2 ^ k IN IF m % 2 ^ k # 0 /\ q % 2 = 0 THEN q + 1 ELSE q
\* assembles m * 2^e, 2^(P+1) <= m < 2^(P+2), bottom bit sticky
Pack(s, e, m) ==
  IF m = 0 \/ e + P + 1 < EMIN THEN FZero(s)
  ELSE LET up == IF m % 8 \in {3, 6, 7} THEN 1 ELSE 0
           r == m \div 4 + up
       IN IF r = 2 ^ P THEN [s |-> s, m |-> B(r \div 2), e |-> e + 3] ELSE [s |-> s, m |-> B(r), e |-> e + 2]
RECURSIVE Norm(_, _, _)
Norm(m, e, w) == IF m = 0 \/ m >= 2 ^ (w - 1) THEN [m |-> m, e |-> e] ELSE Norm(2 * m, e - 1, w)
AlgAdd(a, b) ==
  LET mag(v) == IF FIsZero(v) THEN <<0, 0>> ELSE <<v.e + 100, I(v.m)>>
      lt == LET p == mag(a)  q == mag(b) IN p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
      sw == lt \/ (mag(a) = mag(b) /\ a.s = 1)
      u == IF sw THEN b ELSE a
      v == IF sw THEN a ELSE b
      eu == IF FIsZero(u) THEN EMIN - P ELSE u.e
      ev == IF FIsZero(v) THEN EMIN - P ELSE v.e
      cc == eu - ev
      yu == IF cc > P + 6 THEN 0 ELSE Stick(8 * I(v.m), cc)
      z == IF u.s = v.s THEN 8 * I(u.m) + yu ELSE 8 * I(u.m) - yu
      n == TLCEval(Norm(z, eu - 3, P + 11))
  IN Pack(u.s, n.e + 9, Stick(n.m, 9))
AlgMul(a, b) ==
  IF FIsZero(a) \/ FIsZero(b) THEN FZero(FXor(a.s, b.s)) ELSE
  LET zu == Stick(I(a.m) * I(b.m), P - 3)
  IN IF zu >= 2 ^ (P + 2) THEN Pack(FXor(a.s, b.s), a.e + b.e + P - 2, Stick(zu, 1))
     ELSE Pack(FXor(a.s, b.s), a.e + b.e + P - 3, zu)
AlgDiv(a, b) ==
  IF FIsZero(a) THEN FZero(0) ELSE
  LET t == I(a.m) * 2 ^ (P + 2)
      q == IF t % I(b.m) # 0 /\ (t \div I(b.m)) % 2 = 0 THEN t \div I(b.m) + 1 ELSE t \div I(b.m)
  IN IF q >= 2 ^ (P + 2) THEN Pack(FXor(a.s, b.s), a.e - b.e - P - 1, Stick(q, 1))
     ELSE Pack(FXor(a.s, b.s), a.e - b.e - P - 2, q)
\* nearest by definition: no other representable value is nearer, and ties are even
DPos == {[s |-> 0, m |-> B(m), e |-> e] : m \in Mant, e \in (EMIN - (P - 1))..(2 * EMAX + P)}
Dist(w, n, d, k) == LET a == IF k >= w.e THEN I(w.m) * d ELSE I(w.m) * d * 2 ^ (w.e - k)
                        b == IF k >= w.e THEN n * 2 ^ (k - w.e) ELSE n
                        u == IF k >= w.e THEN 0 ELSE w.e - k
                    IN [v |-> Abs(a - b), u |-> w.e - u]
Def(z, s, n, d, k) ==
  IF n = 0 \/ (IF k >= EMIN THEN n * 2 ^ (k - EMIN) < d ELSE n < d * 2 ^ (EMIN - k)) THEN z = FZero(s)
  ELSE /\ z.s = s /\ z.m # <<>>
       /\ \A w \in {v \in DPos : v.e \in (z.e - 2)..(z.e + 2)} :
            LET p == Dist(z, n, d, k)  q == Dist(w, n, d, k)
                c == IF p.u >= q.u THEN p.v * 2 ^ (p.u - q.u) - q.v ELSE p.v - q.v * 2 ^ (q.u - p.u)
            IN (w.m = z.m /\ w.e = z.e) \/ c < 0 \/ (c = 0 /\ I(z.m) % 2 = 0)
Good(z, v) == /\ FIsNear(z, v.s, v.n, v.d, v.k)
              /\ FRound(v.s, v.n, v.d, v.k) = z
AddOk == Good(AlgAdd(x, y), ExAdd(x, y))
MulOk == Good(AlgMul(x, y), ExMul(x, y))
DivOk == FIsZero(y) \/ Good(AlgDiv(x, y), ExDiv(x, y))
DefOk == /\ LET v == ExMul(x, y) IN Def(AlgMul(x, y), v.s, I(v.n), I(v.d), v.k)
         /\ FIsZero(y) \/ LET v == ExDiv(x, y) IN Def(AlgDiv(x, y), v.s, I(v.n), I(v.d), v.k)
         /\ (~FIsZero(x) /\ ~FIsZero(y)) => LET v == ExAdd(x, y) IN Def(AlgAdd(x, y), v.s, I(v.n), I(v.d), v.k)
\* comparison is that of the numbers: the sign of the difference
CmpOk == FCmp(x, y) = LET d == ExAdd(x, FNeg(y)) IN IF d.n = <<>> THEN 0 ELSE IF d.s = 1 THEN -1 ELSE 1
\* the nearest integer, and its bounds
IntOk == LET f == FFloor(x)  t == FTrunc(x)  r == FRint(x)
             c(z, h) == LET w == TLCEval(ZShl(z, 8))                    \* 256 * z against 256 * x
                            v == [s |-> IF FIsZero(x) THEN 0 ELSE x.s, m |-> IF x.e >= -8 THEN BShl(x.m, x.e + 8) ELSE BShr(x.m, 0 - x.e - 8)]
                        IN ZCmp(ZAdd(w, ZInt(h)), v)
         IN x.e < -8 \/ /\ c(f, 0) <= 0 /\ c(f, 256) > 0
                        /\ IF x.s = 1 THEN c(t, 0) >= 0 /\ c(t, -256) < 0 ELSE c(t, 0) <= 0 /\ c(t, 256) > 0
                        /\ c(r, 128) >= 0 /\ c(r, -128) <= 0
                        /\ (c(r, 128) = 0 \/ c(r, -128) = 0) => ~BIsOdd(r.m)
\* some value is nearest to the square root
SqrtOk == FIsZero(x) \/ x.s = 1 \/ Cardinality({z \in Vals : FIsNearSqrt(z, x.m, <<1>>, x.e)}) = 1
Init == x \in Vals /\ y \in Vals
InitX == x \in Vals /\ y = FZero(0)
Next == UNCHANGED <<x, y>>
=============================================================================
