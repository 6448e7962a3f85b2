------------------------------ MODULE MC_NttTree ------------------------------
(***************************************************************************)
(* The tree transform of EvmNtt.tla against its definition, for every      *)
(* vector modulo a small prime: evaluation at the odd powers of a root of  *)
(* -1, inverse, and product.                                               *)
(***************************************************************************)
EXTENDS EvmNtt
CONSTANTS W, M, R            \* degree 2^W, modulus, R of order 2^(W+1)
VARIABLES a, b
Deg == 2 ^ W
T == TLCEval(Table(R, W, M))
RInv == PowMod(R, 2 * Deg - 1, M)
TI == TLCEval(Table(RInv, W, M))
NInv == PowMod(Deg, M - 2, M)
RECURSIVE Eval(_, _, _)
Eval(v, x, i) == IF i > Len(v) THEN 0 ELSE (v[i] + x * Eval(v, x, i + 1)) % M
RECURSIVE Sum(_, _)
Sum(f, i) == IF i = 0 THEN 0 ELSE f[i] + Sum(f, i - 1)
NegaMul(x, y) == [k \in 1..Deg |->
  Sum([i \in 1..Deg |-> IF i <= k THEN x[i] * y[k - i + 1] ELSE (M - x[i]) * y[Deg + k - i + 1]], Deg) % M]
Init == a \in [1..Deg -> 0..(M - 1)] /\ b = [i \in 1..Deg |-> 0]
\* products with every monomial: enough, both sides being linear in b
Next == \E i \in 1..Deg : b' = [k \in 1..Deg |-> IF k = i THEN 1 ELSE 0] /\ b # b' /\ b[Deg] = 0 /\ (\A k \in i..Deg : b[k] = 0) /\ a' = a
Root == PowMod(R, Deg, M) = M - 1
Evaluates == NttFw(a, T, M) = [k \in 1..Deg |-> Eval(a, PowMod(R, 2 * Rev(k - 1, W) + 1, M), 1)]
Inverts == NttInv(NttFw(a, T, M), TI, M, NInv) = a
Product == NttInv(PMul(NttFw(a, T, M), NttFw(b, T, M), M), TI, M, NInv) = NegaMul(a, b)
=============================================================================
