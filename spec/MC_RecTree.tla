----------------------------- MODULE MC_RecTree -----------------------------
(***************************************************************************)
(* The recursive transform against its definition, for every vector modulo *)
(* a small prime.                                                          *)
(***************************************************************************)
EXTENDS EvmRec
CONSTANTS K, M, R, Every     \* degree 2^K, modulus, R of order 2^(K+1); every vector, or a basis
VARIABLES a, b
Deg == 2 ^ K
PT == TLCEval([k \in 1..2 * Deg |-> PowR(R, k - 1, M)])
WT == TLCEval([k \in 1..K |-> Points(2 ^ k, Deg, PT)])
WIT == TLCEval([k \in 1..K |-> [j \in 1..2 ^ k |-> PowR(WT[k][j], M - 2, M)]])
RECURSIVE Eval(_, _, _)
Eval(v, x, i) == IF i > Len(v) THEN 0 ELSE (v[i] + x * Eval(v, x, i + 1)) % M
RECURSIVE Sum(_, _)
Sum(f, i) == IF i = 0 THEN 0 ELSE f[i] + Sum(f, i - 1)
NegaMul(x, y) == [k \in 1..Deg |->
  Sum([i \in 1..Deg |-> IF i <= k THEN x[i] * y[k - i + 1] ELSE (M - x[i]) * y[Deg + k - i + 1]], Deg) % M]
Basis == {[k \in 1..Deg |-> IF k = i THEN 1 ELSE 0] : i \in 1..Deg}
Init == (IF Every THEN a \in [1..Deg -> 0..(M - 1)] ELSE a \in Basis) /\ b = [i \in 1..Deg |-> 0]
Next == \E i \in 1..Deg : b' = [k \in 1..Deg |-> IF k = i THEN 1 ELSE 0] /\ b[Deg] = 0 /\ (\A k \in i..Deg : b[k] = 0) /\ a' = a
Root == PT[Deg + 1] = M - 1
\* the points of every level are the roots of x^n + 1, in pairs w, -w above one point of the level below
PointsAreRoots == \A k \in 1..K :
  /\ Cardinality({WT[k][j] : j \in 1..2 ^ k}) = 2 ^ k
  /\ \A j \in 1..2 ^ k : PowR(WT[k][j], 2 ^ k, M) = M - 1
  /\ \A j \in 1..2 ^ (k - 1) : WT[k][2 * j - 1] < WT[k][2 * j] /\ WT[k][2 * j - 1] + WT[k][2 * j] = M
  /\ k > 1 => \A j \in 1..2 ^ (k - 1) : (WT[k][2 * j] * WT[k][2 * j]) % M = WT[k - 1][j]
Evaluates == RFw(a, K, WT, M) = [j \in 1..Deg |-> Eval(a, WT[K][j], 1)]
Inverts == RInv(RFw(a, K, WT, M), K, WIT, M) = a
RProduct == RInv([j \in 1..Deg |-> (RFw(a, K, WT, M)[j] * RFw(b, K, WT, M)[j]) % M], K, WIT, M) = NegaMul(a, b)
=============================================================================
