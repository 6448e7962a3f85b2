----------------------------- MODULE MC_Buffered -----------------------------
(***************************************************************************)
(* A generator that fills a buffer of B stream bytes at a time and serves  *)
(* words of W bytes, single bytes and runs from it.  Words are taken from  *)
(* one buffer only: with at most W + 1 bytes left those are dropped.       *)
(* Checked over every call sequence: no stream byte is given out twice,    *)
(* none out of order, and only whole tails of buffers are ever dropped.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS B, W, Runs, MaxOps, Emit
VARIABLES base, p, out, drops, ops         \* buffer holds stream bytes base..base+B-1
Init == base = 0 /\ p = 0 /\ out = <<>> /\ drops = {} /\ ops = <<>>
Give(b0, q, n) == [j \in 1..n |-> b0 + q + j - 1]
Word == LET drop == p >= B - W - 1
            b0 == IF drop THEN base + B ELSE base   q == IF drop THEN 0 ELSE p IN
        /\ base' = b0 /\ p' = q + W /\ out' = out \o Give(b0, q, W)
        /\ drops' = IF drop THEN drops \cup {base + k : k \in p..(B - 1)} ELSE drops
        /\ ops' = Append(ops, <<"w", 0>>)
One == /\ out' = Append(out, base + p)
       /\ IF p + 1 = B THEN base' = base + B /\ p' = 0 ELSE p' = p + 1 /\ base' = base
       /\ drops' = drops /\ ops' = Append(ops, <<"b", 0>>)
RECURSIVE Run(_, _, _, _)
Run(b0, q, o, n) == IF n = 0 THEN <<b0, q, o>>
                    ELSE LET k == IF n < B - q THEN n ELSE B - q IN
                         IF q + k = B THEN Run(b0 + B, 0, o \o Give(b0, q, k), n - k)
                         ELSE Run(b0, q + k, o \o Give(b0, q, k), n - k)
Many(n) == LET r == Run(base, p, out, n) IN
           base' = r[1] /\ p' = r[2] /\ out' = r[3] /\ drops' = drops /\ ops' = Append(ops, <<"r", n>>)
Next == /\ Len(ops) < MaxOps
        /\ (Word \/ One \/ \E n \in Runs : Many(n))
        /\ (Emit /\ Len(ops') = MaxOps => PrintT("BEHAV " \o ToJson(ops')))
NeverEmpty == p < B
Ordered == \A i \in 1..(Len(out) - 1) : out[i] < out[i + 1]
Accounted == {out[i] : i \in 1..Len(out)} \cup drops = 0..(base + p - 1)
DropsAreTails == \A d \in drops : d % B >= B - W - 1
=============================================================================
