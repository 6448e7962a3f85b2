----------------------------- MODULE MC_Squeeze -----------------------------
(***************************************************************************)
(* Design model of the constant-time hash-to-point: M = N + Over samples   *)
(* are taken, then log2 passes move every kept sample down by the bits of  *)
(* its distance, one power of two per pass, by conditional swaps.  Checked *)
(* for every pattern of kept and rejected samples: the result refines the  *)
(* filter (the first N kept samples in order) whenever N samples are kept, *)
(* and a swap never displaces a kept sample.                               *)
(* A sample is its index; 0 is a rejected one.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Over
M == N + Over
VARIABLES arr, p, u, v, kept, lost
vars == <<arr, p, u, v, kept, lost>>
Init == /\ kept \in SUBSET (1..M)
        /\ arr = [i \in 1..M |-> IF i \in kept THEN i ELSE 0]
        /\ p = 1 /\ u = 0 /\ v = 0 /\ lost = FALSE
Next ==
  /\ p <= Over
  /\ kept' = kept
  /\ LET ok == arr[u + 1] # 0
         j == u - v
         sw == ok /\ u >= p /\ ((j \div p) % 2 = 1) IN
     /\ arr' = IF sw THEN [arr EXCEPT ![u + 1] = arr[u + 1 - p], ![u + 1 - p] = arr[u + 1]] ELSE arr
     /\ lost' = (lost \/ (sw /\ arr[u + 1 - p] # 0))
     /\ IF u + 1 = M THEN p' = 2 * p /\ u' = 0 /\ v' = 0
        ELSE p' = p /\ u' = u + 1 /\ v' = IF ok THEN v + 1 ELSE v
Kth(k) == CHOOSE i \in kept : Cardinality({x \in kept : x < i}) = k - 1
Refines == p > Over /\ Cardinality(kept) >= N => \A k \in 1..N : arr[k] = Kth(k)
NothingLost == ~lost
Permutation == {arr[i] : i \in 1..M} \ {0} = kept
=============================================================================
