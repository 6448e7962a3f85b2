-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* The ring Z_q[x]/(x^n+1), q = 12289, n a power of two up to 1024.        *)
(* Polynomials are sequences of n integers, constant coefficient first.    *)
(***************************************************************************)
EXTENDS Bytes
Q == 12289
ModQ(x) == x % Q                       \* TLA+ % is always in 0..Q-1
PolyModQ(a) == TLCEval([i \in 1..Len(a) |-> a[i] % Q])
\* the representative in -(q-1)/2 .. (q-1)/2
Centre(x) == LET r == x % Q IN IF r > 6144 THEN r - Q ELSE r
PolyCentre(a) == TLCEval([i \in 1..Len(a) |-> Centre(a[i])])
PolyAdd(a, b) == TLCEval([i \in 1..Len(a) |-> (a[i] + b[i]) % Q])
PolySub(a, b) == TLCEval([i \in 1..Len(a) |-> (a[i] - b[i]) % Q])
PolyNeg(a) == TLCEval([i \in 1..Len(a) |-> (Q - (a[i] % Q)) % Q])
PointMul(a, b) == TLCEval([i \in 1..Len(a) |-> (a[i] * b[i]) % Q])
ZeroPoly(n) == [i \in 1..n |-> 0]
OnePoly(n) == [i \in 1..n |-> IF i = 1 THEN 1 ELSE 0]

RECURSIVE PowQ(_, _)
PowQ(x, e) == IF e = 0 THEN 1
              ELSE LET h == PowQ(TLCEval((x * x) % Q), e \div 2) IN
                   IF e % 2 = 1 THEN (h * x) % Q ELSE h
InvQ(x) == PowQ(x % Q, Q - 2)

(* Definition of the product: schoolbook, reduced by x^n = -1. *)
MulDef(a, b) ==
  LET n == Len(a) IN
  TLCEval([k \in 1..n |->
     FoldLeft(LAMBDA s, i :
        IF i <= k THEN (s + ((a[i] * b[k - i + 1]) % Q)) % Q
        ELSE (s - ((a[i] * b[n + k - i + 1]) % Q)) % Q, 0, [i \in 1..n |-> i])])

(* The product over the integers, reduced by x^n = -1 only. *)
MulZ(a, b) ==
  LET n == Len(a) IN
  TLCEval([k \in 1..n |->
     FoldLeft(LAMBDA s, i : IF i <= k THEN s + a[i] * b[k - i + 1] ELSE s - a[i] * b[n + k - i + 1],
              0, [i \in 1..n |-> i])])

(* The transform: value of the polynomial at n points.  7 has order 2048. *)
Log2(n) == CHOOSE k \in 0..10 : 2^k = n
Pow7 == FoldLeft(LAMBDA s, i : Append(s, (s[Len(s)] * 7) % Q), <<1>>, [i \in 1..2047 |-> i])
Rev10(x) == FoldLeft(LAMBDA r, i : 2 * r + ((x \div 2^i) % 2), 0, <<0,1,2,3,4,5,6,7,8,9>>)
\* Tw[m] = 7^rev(m)
Tw == LET p == TLCEval(Pow7) IN TLCEval([m \in 1..1023 |-> p[Rev10(m) + 1]])
TwInv == LET p == TLCEval(Pow7) IN TLCEval([m \in 1..1023 |-> p[((2048 - Rev10(m)) % 2048) + 1]])
\* j-th evaluation point, j zero-based
Point(n, j) == LET w == PowQ(7, Rev10((n \div 2) + (j \div 2))) IN IF j % 2 = 0 THEN w ELSE Q - w
NttDef(a) == LET n == Len(a) IN
  IF n = 1 THEN PolyModQ(a) ELSE
  TLCEval([j \in 1..n |-> LET w == TLCEval(Point(n, j - 1)) IN
     FoldLeft(LAMBDA s, i : (s * w + a[n + 1 - i]) % Q, 0, [i \in 1..n |-> i])])

Stages(n) == [k \in 1..Log2(n) |-> 2^(k - 1)]            \* m = 1, 2, .., n/2
NttStage(a, m) ==
  LET n == Len(a)  ht == n \div (2 * m)  t == 2 * ht IN
  TLCEval([p \in 1..n |->
    LET z == p - 1  w == Tw[m + (z \div t)] IN
    IF z % t < ht THEN (a[p] + a[p + ht] * w) % Q
    ELSE (a[p - ht] - a[p] * w) % Q])
Ntt(a) == FoldLeft(NttStage, PolyModQ(a), Stages(Len(a)))
InttStage(a, m) ==
  LET n == Len(a)  ht == n \div (2 * m)  t == 2 * ht IN
  TLCEval([p \in 1..n |->
    LET z == p - 1 IN
    IF z % t < ht THEN a[p] + a[p + ht]
    ELSE ((a[p - ht] - a[p]) % Q) * TwInv[m + (z \div t)]])
Intt(a) ==
  LET n == Len(a)
      r == FoldLeft(LAMBDA x, m : PolyModQ(InttStage(x, m)), a, Reverse(Stages(n)))
      ni == InvQ(n)
  IN TLCEval([i \in 1..n |-> (r[i] * ni) % Q])
Mul(a, b) == Intt(PointMul(Ntt(a), Ntt(b)))

(* squared norm, stopped once it exceeds the largest bound *)
NormCap == 100000000
SqAdd(s, x) == IF s > NormCap THEN s ELSE IF Abs(x) > 16384 THEN NormCap + 1 ELSE s + x * x
NormSq(a, s0) == FoldLeft(SqAdd, s0, a)
L2Bound == << 101498, 208714, 428865, 892039, 1852696, 3842630, 7959734,
              16468416, 34034726, 70265242 >>
IsShort(s1, s2) == NormSq(s2, NormSq(s1, 0)) <= L2Bound[Log2(Len(s1))]
Invertible(a) == LET t == Ntt(a) IN \A i \in 1..Len(t) : t[i] # 0
\* quotient in the ring: the element whose product with b is a
DivNtt(a, b) == LET x == Ntt(a)  y == Ntt(b) IN
                TLCEval([i \in 1..Len(x) |-> (x[i] * InvQ(y[i])) % Q])
Quot(a, b) == Intt(DivNtt(a, b))
(* s1 = c - s2 * h, centred *)
S1Of(c, s2, h) == PolyCentre(PolySub(c, Mul(s2, h)))
RawValid(c, s2, h) == IsShort(S1Of(c, s2, h), s2)
=============================================================================
