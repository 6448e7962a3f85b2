------------------------------- MODULE MC_Kat -------------------------------
(* Reading line by line gives the blocks, for every file of up to L lines. *)
EXTENDS KatFile
CONSTANTS L, Keys, Vals
VARIABLES ls, how
Kinds == {[kind |-> "blank"], [kind |-> "note"], [kind |-> "note2"]} \cup [kind : {"field"}, key : Keys, val : Vals]
Init == ls = <<>> /\ how \in {"req", "rsp"}
Next == Len(ls) < L /\ \E k \in Kinds : ls' = Append(ls, k) /\ UNCHANGED how
Agree == Scan(how, ls, 1) = Blocks(how, ls, 1)
\* and what is written out as blocks is read back
Write(vs) == FoldLeft(LAMBDA t, v : t \o [i \in 1..Len(v) |-> [kind |-> "field", key |-> v[i][1], val |-> v[i][2]]] \o << [kind |-> "blank"] >>, <<>>, vs)
ReadBack == LET b == Blocks(how, ls, 1) IN Scan(how, Write(b), 1) = b
=============================================================================
