------------------------------- MODULE MC_Cand -------------------------------
(***************************************************************************)
(* Drawing the coefficients of f: values out of range are drawn again, and *)
(* the last one until the sum is odd.  All sequences of draws.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Lim, Draws
VARIABLES acc, seen, done
vars == <<acc, seen, done>>
AbsV(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Init == acc = <<>> /\ seen = <<>> /\ done = FALSE
Refused(s) == AbsV(s) > Lim \/ (Len(acc) = N - 1 /\ (Sum(acc) + s) % 2 = 0)
Next == /\ ~done /\ Len(seen) < Draws
        /\ \E s \in (0 - Lim - 1)..(Lim + 1) :
             /\ seen' = Append(seen, s)
             /\ acc' = IF Refused(s) THEN acc ELSE Append(acc, s)
             /\ done' = (Len(acc') = N)
Fits == (\A i \in 1..Len(acc) : AbsV(acc[i]) <= Lim) /\ (done => Sum(acc) % 2 = 1)
\* nothing acceptable was passed over: the first N-1 are the first N-1 in range
First == LET ok == SelectSeq(seen, LAMBDA v : AbsV(v) <= Lim) IN
         \A i \in 1..Len(acc) : i < N => acc[i] = ok[i]
=============================================================================
