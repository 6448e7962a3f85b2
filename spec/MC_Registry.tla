----------------------------- MODULE MC_Registry -----------------------------
(***************************************************************************)
(* Keys registered on chain and signatures verified against pointers.      *)
(* Codes are written once; a pointer returned by setKey always names the   *)
(* key it was returned for.  p = 0 stands for a pointer nobody was given;  *)
(* bad says that the signature is damaged.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Keys, MaxOps, Emit
VARIABLES code, ops, acc
vars == <<code, ops, acc>>
Init == code = <<>> /\ ops = <<>> /\ acc = {}
Valid(p, j, bad) == p \in 1..Len(code) /\ code[p] = j /\ ~bad
Set(k) == /\ code' = Append(code, k)
          /\ ops' = Append(ops, <<"set", k, 0, FALSE>>) /\ UNCHANGED acc
Verify(p, j, bad) == /\ ops' = Append(ops, <<"ver", p, j, bad>>)
                     /\ acc' = (IF Valid(p, j, bad) THEN acc \cup {<<p, j>>} ELSE acc)
                     /\ UNCHANGED code
Next == /\ Len(ops) < MaxOps
        /\ \/ \E k \in Keys : Set(k)
           \/ \E p \in 0..Len(code), j \in Keys, b \in BOOLEAN : Verify(p, j, b)
        /\ (Emit /\ Len(ops') = MaxOps /\ ops'[MaxOps][1] = "ver" => PrintT("BEHAV " \o ToJson(ops')))
\* nothing accepted under a key ceases to be, and a pointer never serves two keys
Sound == \A x \in acc : x[1] \in 1..Len(code) /\ code[x[1]] = x[2]
OneKey == \A x, y \in acc : x[1] = y[1] => x = y
=============================================================================
