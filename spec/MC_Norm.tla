------------------------------- MODULE MC_Norm -------------------------------
(***************************************************************************)
(* The saturating sum of squares, in words of W bits: a running sum modulo *)
(* 2^W and an indicator that collects its top bit after each addition.     *)
(* Squares are at most 2^(W-2), as those of 16-bit values are in 32 bits.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS W, Len2
VARIABLES s, ng, sum, k
vars == <<s, ng, sum, k>>
M == 2^W
Top(x) == x >= M \div 2
\* starting from nothing, or from a sum handed over (saturated already)
Init == \E q \in 0..(M - 1) : s = q /\ ng = Top(q) /\ sum = q /\ k = 0
Add(x) == /\ s' = (s + x) % M
          /\ ng' = (ng \/ Top((s + x) % M))
          /\ sum' = sum + x
          /\ k' = k + 1
Next == k < 2^Len2 /\ \E x \in 0..(M \div 4) : Add(x)
Result == IF ng THEN M - 1 ELSE s
\* the result is exact below half the range and saturated from there on
Saturates == IF sum < M \div 2 THEN Result = sum ELSE Result = M - 1
=============================================================================
