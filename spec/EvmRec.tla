------------------------------- MODULE EvmRec -------------------------------
(***************************************************************************)
(* The recursive transform over a root P[2] of order 2N modulo M: level n  *)
(* holds n points in pairs, the smaller root of a point of level n/2 first. *)
(* P[k + 1] is the k-th power of the root.                                 *)
(***************************************************************************)
EXTENDS Evm
RECURSIVE Exps(_, _, _)
\* exponents of the points of level n
Exps(n, N, P) ==
  IF n = 1 THEN <<N>> ELSE
  LET e == TLCEval(Exps(n \div 2, N, P)) IN
  TLCEval([j \in 1..n |->
    LET c == e[(j + 1) \div 2] \div 2
        d == c + N
        lo == IF P[c + 1] < P[d + 1] THEN c ELSE d
    IN IF j % 2 = 1 THEN lo ELSE c + d - lo])
Points(n, N, P) == LET e == TLCEval(Exps(n, N, P)) IN TLCEval([j \in 1..n |-> P[e[j] + 1]])
RECURSIVE PowR(_, _, _)
PowR(x, e, M) == IF e = 0 THEN 1 ELSE LET h == TLCEval(PowR(TLCEval((x * x) % M), e \div 2, M)) IN
                 IF e % 2 = 1 THEN (h * x) % M ELSE h
RMerge(p0, p1, w, M) == TLCEval([j \in 1..2 * Len(p0) |->
  LET i == (j + 1) \div 2 IN
  IF j % 2 = 1 THEN (p0[i] + ((w[j] * p1[i]) % M)) % M ELSE (p0[i] - ((w[j - 1] * p1[i]) % M)) % M])
\* the halves of a transformed vector; wi: the inverses of the points
RSplit(p, wi, M) ==
  LET h == (M + 1) \div 2 IN
  [lo |-> TLCEval([i \in 1..Len(p) \div 2 |-> (h * ((p[2 * i - 1] + p[2 * i]) % M)) % M]),
   hi |-> TLCEval([i \in 1..Len(p) \div 2 |->
             (((h * ((p[2 * i - 1] - p[2 * i]) % M)) % M) * wi[2 * i - 1]) % M])]
Even(a) == TLCEval([i \in 1..Len(a) \div 2 |-> a[2 * i - 1]])
Odd(a) == TLCEval([i \in 1..Len(a) \div 2 |-> a[2 * i]])
\* W[k]: the points of level 2^k
RECURSIVE RFw(_, _, _, _)
RFw(a, k, W, M) ==
  IF k = 0 THEN TLCEval([i \in 1..1 |-> a[i] % M])
  ELSE LET x == TLCEval(RFw(Even(a), k - 1, W, M))
           y == TLCEval(RFw(Odd(a), k - 1, W, M)) IN RMerge(x, y, W[k], M)
RECURSIVE RInv(_, _, _, _)
RInv(p, k, WI, M) ==
  IF k = 0 THEN p
  ELSE LET s == TLCEval(RSplit(p, WI[k], M))
           x == TLCEval(RInv(s.lo, k - 1, WI, M))
           y == TLCEval(RInv(s.hi, k - 1, WI, M)) IN
       TLCEval([j \in 1..Len(p) |-> IF j % 2 = 1 THEN x[(j + 1) \div 2] ELSE y[j \div 2]])
\* this ring
RecTab == LET p == TLCEval(Pow7) IN TLCEval([k \in 1..10 |-> Points(2 ^ k, 1024, p)])
RecTabInv == LET t == TLCEval(RecTab) IN
             TLCEval([k \in 1..10 |-> TLCEval([j \in 1..2 ^ k |-> InvQ(t[k][j])])])
RecFw(a) == RFw(a, Log2(Len(a)), RecTab, Q)
RecInv(a) == RInv(a, Log2(Len(a)), RecTabInv, Q)
\* acceptance: coefficients in signed or in reduced form, a public key in either domain
RecPoint(salt, m) == TLCEval(PointOf("chain", m, salt, SolN).x)
RecValid(salt, m, s1, h) ==
  /\ Len(s1) = SolN /\ Len(h) = SolN
  /\ \A i \in 1..SolN : s1[i] >= 0 - Q /\ s1[i] <= Q
  /\ IsShort(PolyCentre(PolySub(RecPoint(salt, m), Mul(s1, h))), PolyCentre(s1))
=============================================================================
