------------------------------ MODULE FftTrace ------------------------------
(***************************************************************************)
(* Arithmetic in R[x]/(x^n+1) through its complex embeddings, the LDL* tree *)
(* built on it, and the exact number-field helpers of the NTRU solver.      *)
(* The specification computes with integers and 200-bit reals only.         *)
(***************************************************************************)
EXTENDS Poly, Doubles, TraceCheck
\* a(1/x)
Adj(a) == TLCEval([i \in 1..Len(a) |-> IF i = 1 THEN a[1] ELSE 0 - a[Len(a) + 2 - i]])
Add(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] + b[i]])
Neg(a) == TLCEval([i \in 1..Len(a) |-> 0 - a[i]])
Even(a) == TLCEval([i \in 1..(Len(a) \div 2) |-> a[2 * i - 1]])
Odd(a) == TLCEval([i \in 1..(Len(a) \div 2) |-> a[2 * i]])
Zip2(a, b) == TLCEval([i \in 1..(2 * Len(a)) |-> IF i % 2 = 1 THEN a[(i + 1) \div 2] ELSE b[i \div 2]])
\* what an operation on polynomials with integer coefficients yields
Expected(f, p, c) ==
  CASE f = "id" -> << p[1] >>
    [] f = "add" -> << Add(p[1], p[2]) >>
    [] f = "sub" -> << Add(p[1], Neg(p[2])) >>
    [] f = "neg" -> << Neg(p[1]) >>
    [] f = "adj" -> << Adj(p[1]) >>
    [] f = "mul" -> << MulZ(p[1], p[2]) >>
    [] f = "muladj" -> << MulZ(p[1], Adj(p[2])) >>
    [] f = "selfadj" -> << MulZ(p[1], Adj(p[1])) >>
    [] f = "mulconst" -> << TLCEval([i \in 1..Len(p[1]) |-> c * p[1][i]]) >>
    \* of a multiple of p[2], |p[2]|^2 + |p[3]|^2, |p[2]|^2
    [] f \in {"div", "invnorm", "divauto"} -> << p[1] >>
    [] f = "addmuladj" -> << Add(MulZ(p[1], Adj(p[3])), MulZ(p[2], Adj(p[4]))) >>
    [] f = "mulauto" -> << MulZ(p[1], MulZ(p[2], Adj(p[2]))) >>
    [] f = "split" -> << Even(p[1]), Odd(p[1]) >>
    [] f = "merge" -> << Zip2(p[1], p[2]) >>
    \* l10 g00 = g10 and d11 + |l10|^2 g00 = g11
    [] f \in {"ldl", "ldlmv"} -> << Add(MulZ(p[3], Adj(p[1])), MulZ(p[4], Adj(p[2]))),
                                    Add(MulZ(p[3], Adj(p[3])), MulZ(p[4], Adj(p[4]))) >>
Tol == 64                       \* 2^-14, in units of 2^-20
RingWhy(a, r) == IF r.z = Expected(a.f, a.p, a.c) /\ r.off <= Tol THEN ""
                 ELSE a.impl \o " " \o a.f \o ": another ring element"
\* the evaluation points: the primitive 2n-th roots of unity, one of each conjugate pair or all
Upto(n) == {2 * i - 1 : i \in 1..n}
MapWhy(a, r) ==
  LET ks == {r.k[i] : i \in 1..Len(r.k)} IN
  IF a.impl = "py" THEN IF Len(r.k) = a.n /\ ks = Upto(a.n) THEN "" ELSE "not the primitive roots"
  ELSE IF Len(r.k) = a.n \div 2 /\ ks \cup {2 * a.n - k : k \in ks} = Upto(a.n) THEN "" ELSE "not one root of each pair"
AbsSum(x) == FoldLeft(LAMBDA s, v : s + Abs(v), 1, x)
ValueWhy(a, r) ==
  LET v == CEval(a.x, CRoot(r.k, a.n))
      tol == TLCEval(BShr(RInt(AbsSum(a.x)).m, 42))
      ok(z, y) == IsFinite(z) /\ BCmp(ZSub(Real(Dec(z)), y).m, tol) <= 0
  IN IF r.k % 2 = 1 /\ ok(r.re, v.c) /\ ok(r.im, v.s) THEN "" ELSE "not the value at a root"
(***************************************************************************)
(* Trees                                                                   *)
(***************************************************************************)
\* log2(q) in units of 2^-10, rounded down
Log2Q == LET t == TLCEval(RDiv(RLnB(BShl(BOf(Q), 0)), RLn2)) IN BShr(t.m, RS - 10)
DetOk(d) == \E i \in 0..2 : BOf(d + i - 1) = Log2Q
TreeWhy(a, r) ==
  IF r.count # a.n THEN "wrong number of leaves"
  ELSE IF r.near > 1024 THEN "the two trees differ"
  ELSE IF ~DetOk(r.det) THEN "the leaves do not multiply to the volume"
  ELSE IF ~r.exact THEN "a lattice point is not its own nearest plane point"
  ELSE IF ~r.agree THEN "the two reductions differ"
  ELSE IF r.whole > Tol THEN "coordinates are not whole"
  ELSE IF r.err > r.bound THEN "farther than half the tree" ELSE ""
LeafWhy(a, r) ==
  LET lo == TLCEval(SigMin(a.n))  hi == RRat(18205, 10000)
      mn == TLCEval(Real(Dec(r.min)))  mx == TLCEval(Real(Dec(r.max)))
      eps == BPow2(RS - 30)
  IN IF r.count # a.n THEN "wrong number of leaves"
     ELSE IF ~DetOk(r.det) THEN "the leaves do not multiply to the volume"
     ELSE IF ~IsFinite(r.min) \/ ~IsFinite(r.max) \/ ZCmp(ZAdd(mn, ZOf(eps)), lo) < 0 \/ ZCmp(mx, ZAdd(hi, ZOf(eps))) > 0
          THEN "a leaf outside what the sampler takes" ELSE ""
(***************************************************************************)
(* Integers of any size                                                    *)
(***************************************************************************)
Z0 == ZInt(0)
ZSum(a) == FoldLeft(LAMBDA s, x : TLCEval(ZAdd(s, x)), Z0, a)
BigMul(a, b) ==
  LET n == Len(a) IN
  TLCEval([k \in 1..n |->
     FoldLeft(LAMBDA s, i : TLCEval(IF i <= k THEN ZAdd(s, ZMul(a[i], b[k - i + 1])) ELSE ZSub(s, ZMul(a[i], b[n + k - i + 1]))),
              Z0, [i \in 1..n |-> i])])
\* the product not reduced, with 2n coefficients
Plain(a, b) ==
  LET n == Len(a) IN
  TLCEval([k \in 1..(2 * n) |->
     FoldLeft(LAMBDA s, i : IF k - i + 1 \in 1..n THEN TLCEval(ZAdd(s, ZMul(a[i], b[k - i + 1]))) ELSE s, Z0, [i \in 1..n |-> i])])
BigSub(a, b) == TLCEval([i \in 1..Len(a) |-> ZSub(a[i], b[i])])
\* a(-x)
Flip(a) == TLCEval([i \in 1..Len(a) |-> IF i % 2 = 0 THEN ZNeg(a[i]) ELSE a[i]])
Norm(a) == Even(BigMul(a, Flip(a)))
RECURSIVE FullNorm(_)
FullNorm(a) == IF Len(a) = 1 THEN a[1] ELSE FullNorm(Norm(a))
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = <<>> THEN a ELSE Gcd(b, TLCEval(BMod(a, b)))
Small(x) == x.m = <<>> \/ (Len(x.m) <= 2 /\ BCmp(x.m, BPow2(18)) < 0)
SmallInt(x) == LET v == FoldLeft(LAMBDA s, i : s * BB + x.m[Len(x.m) + 1 - i], 0, [i \in 1..Len(x.m) |-> i])
               IN IF x.s = 1 THEN 0 - v ELSE v
Ints(a) == TLCEval([i \in 1..Len(a) |-> SmallInt(a[i])])
AllSmall(a) == \A i \in 1..Len(a) : Small(a[i])
\* f G - g F
NtruDet(f, g, F, G) == BigSub(BigMul(f, G), BigMul(g, F))
IsQ(p) == Len(p) > 0 /\ \A i \in 1..Len(p) : p[i] = ZInt(IF i = 1 THEN Q ELSE 0)
SolveWhy(p, z) ==
  LET f == p[1]  g == p[2] IN
  IF z = <<>> THEN IF Gcd(FullNorm(f).m, FullNorm(g).m) = <<1>> THEN "the equation is solvable" ELSE ""
  ELSE IF Len(f) > 16 THEN
       IF ~AllSmall(z[1]) \/ ~AllSmall(z[2]) THEN "the solution is large"
       ELSE LET d == Add(MulZ(Ints(f), Ints(z[2])), Neg(MulZ(Ints(g), Ints(z[1])))) IN
            IF d = TLCEval([i \in 1..Len(f) |-> IF i = 1 THEN Q ELSE 0]) THEN "" ELSE "the NTRU equation does not hold"
  ELSE IF ~IsQ(NtruDet(f, g, z[1], z[2])) THEN "the NTRU equation does not hold"
  ELSE IF Gcd(FullNorm(f).m, FullNorm(g).m) # <<1>> THEN "solved although the norms share a factor" ELSE ""
BitSize(x) == ((BBits(x.m) + 7) \div 8) * 8
FieldWhy(a, r) ==
  LET p == a.p  z == r.z  f == a.f
      bad(c) == IF c THEN "" ELSE f \o ": wrong result"
  IN CASE f = "karamul" -> bad(z = << BigMul(p[1], p[2]) >>)
       [] f = "karatsuba" -> bad(z = << Plain(p[1], p[2]) >>)
       [] f = "galois" -> bad(z = << Flip(p[1]) >>)
       [] f = "norm" -> bad(z = << Norm(p[1]) >>)
       [] f = "lift" -> bad(z = << TLCEval([i \in 1..(2 * Len(p[1])) |-> IF i % 2 = 1 THEN p[1][(i + 1) \div 2] ELSE Z0]) >>)
       [] f = "bitsize" -> bad(z = << TLCEval([i \in 1..Len(p[1]) |-> ZInt(BitSize(p[1][i]))]) >>)
       [] f = "xgcd" -> bad(Len(z) = 1 /\ Len(z[1]) = 3 /\ z[1][1].m = Gcd(p[1][1].m, p[1][2].m)
                            /\ ZAdd(ZMul(z[1][2], p[1][1]), ZMul(z[1][3], p[1][2])) = z[1][1])
       [] f = "reduce" -> IF NtruDet(p[1], p[2], z[1], z[2]) # NtruDet(p[1], p[2], p[3], p[4]) THEN "reduction leaves the lattice"
                          ELSE IF r.big > 534774 THEN "not reduced" ELSE ""
       [] f = "solve" -> SolveWhy(p, z)
\* the longer of (f, g) and of the dual vector q (f*, g*) / (f f* + g g*)
SumSq(x) == FoldLeft(LAMBDA s, v : s + v * v, 0, x)
GsWhy(a, r) ==
  LET first == RInt(SumSq(a.f) + SumSq(a.g))
      inv(k) == LET w == CRoot(2 * k - 1, Len(a.f)) IN RDiv(RInt(1), ZAdd(CAbs2(CEval(a.f, w)), CAbs2(CEval(a.g, w))))
      tot == FoldLeft(LAMBDA s, k : TLCEval(ZAdd(s, inv(k))), Zero, [k \in 1..(Len(a.f) \div 2) |-> k])
      second == TLCEval(RDivI(ZMul(ZInt(a.q), ZMul(ZInt(2 * a.q), tot)), Len(a.f)))
      v == IF ZCmp(first, second) < 0 THEN second ELSE first
  IN IF IsFinite(r.z) /\ RelR(Real(Dec(r.z)), v, 30) THEN "" ELSE "wrong Gram-Schmidt norm"
Verdict(s, e) ==
  IF e.op = "harness" THEN "the harness could not drive the code: " \o e.x
  ELSE IF e.x # "" THEN e.op \o " did not return: " \o e.x
  ELSE CASE e.op = "ring" -> RingWhy(e.a, e.r)
         [] e.op = "map" -> MapWhy(e.a, e.r)
         [] e.op = "value" -> ValueWhy(e.a, e.r)
         [] e.op = "tree" -> TreeWhy(e.a, e.r)
         [] e.op = "leaf" -> LeafWhy(e.a, e.r)
         [] e.op = "field" -> FieldWhy(e.a, e.r)
         [] e.op = "gs" -> GsWhy(e.a, e.r)
Step(sess, s, e) == [st |-> s, why |-> Verdict(s, e)]
InitSt(sess) == [k |-> 0]
Init == TInit(InitSt)
Next == TNext(Step)
=============================================================================
