----------------------------- MODULE MC_Params ------------------------------
(* The bounds the rest of the specification states are those of the parameter sets. *)
EXTENDS Params, Poly
VARIABLE k
Init == k \in 1..10
Next == UNCHANGED k
Sm == SmoothOf(2 * 2^k, Lam(2^k))
SameSigma == RNear(Sm, SigMin(2^k), 30) /\ RNear(RMul(GsNorm, Sm), SigmaOf(2^k), 40)
BoundOk == L2Bound[k] = SqBound(2^k, Sm)
LeafOk == RLe(LeafOf(Sm), MaxLeaf)
\* fewer than one signature in a thousand is too long at the degrees in use
RejectOk == k >= 9 => RLe(RejectOf(2^k), RRat(1, 1000))
\* the modulus splits x^n + 1 completely
SplitsOk == 12288 % (2 * 2^k) = 0
=============================================================================
