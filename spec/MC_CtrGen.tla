------------------------------ MODULE MC_CtrGen ------------------------------
(***************************************************************************)
(* Design model of the buffered counter-mode generator: an input buffer of *)
(* bounded capacity, finalised once, then output blocks H(key || counter)  *)
(* drawn through a block buffer.  Every call in the wrong phase, and every *)
(* input that does not fit, is refused and changes nothing.  Checked for   *)
(* every call sequence against the definition: the output is the stream    *)
(* B(0) B(1) B(2) ... and depends on the sequence of accepted inputs only. *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Cap, Blk, Sizes, OutSizes, MaxOps, Emit
VARIABLES buf, fin, ctr, pos, avail, out, ops, acc
vars == <<buf, fin, ctr, pos, avail, out, ops, acc>>
Init == buf = 0 /\ fin = FALSE /\ ctr = 0 /\ pos = 0 /\ avail = 0 /\ out = <<>> /\ ops = <<>> /\ acc = 0
Op(o, n, rc) == ops' = Append(ops, <<o, n, rc>>)
Inject(n) ==
  \/ fin /\ Op("inject", n, "late") /\ UNCHANGED <<buf, fin, ctr, pos, avail, out, acc>>
  \/ ~fin /\ buf + n > Cap /\ Op("inject", n, "full") /\ UNCHANGED <<buf, fin, ctr, pos, avail, out, acc>>
  \/ ~fin /\ buf + n <= Cap /\ Op("inject", n, "ok") /\ buf' = buf + n /\ acc' = acc + n
     /\ UNCHANGED <<fin, ctr, pos, avail, out>>
Flip ==
  \/ fin /\ Op("flip", 0, "late") /\ UNCHANGED <<buf, fin, ctr, pos, avail, out, acc>>
  \/ ~fin /\ Op("flip", 0, "ok") /\ fin' = TRUE /\ pos' = 0 /\ avail' = 0
     /\ UNCHANGED <<buf, ctr, out, acc>>
RECURSIVE Gen(_, _, _, _)     \* (counter, position, output, bytes left)
Gen(c, p, o, n) ==
  IF n = 0 THEN <<c, p, o>>
  ELSE LET k == IF n < Blk THEN n ELSE Blk IN
       Gen(c + 1, k, o \o [j \in 1..k |-> <<c, j - 1>>], n - k)
Extract(n) ==
  \/ ~fin /\ Op("extract", n, "early") /\ UNCHANGED <<buf, fin, ctr, pos, avail, out, acc>>
  \/ /\ fin /\ Op("extract", n, "ok")
     /\ LET k == IF avail > pos THEN (IF n < avail - pos THEN n ELSE avail - pos) ELSE 0
            o1 == out \o [j \in 1..k |-> <<ctr - 1, pos + j - 1>>] IN
        IF k = n THEN pos' = pos + k /\ out' = o1 /\ UNCHANGED <<ctr, avail>>
        ELSE LET r == Gen(ctr, pos + k, o1, n - k) IN
             ctr' = r[1] /\ pos' = r[2] /\ out' = r[3] /\ avail' = Blk
     /\ UNCHANGED <<buf, fin, acc>>
Next == /\ Len(ops) < MaxOps
        /\ (Flip \/ (\E n \in Sizes : Inject(n)) \/ (\E n \in OutSizes : Extract(n)))
        /\ (Emit /\ Len(ops') = MaxOps => PrintT("BEHAV " \o ToJson(ops')))
OutIsStream == \A i \in 1..Len(out) : out[i] = <<(i - 1) \div Blk, (i - 1) % Blk>>
NeverOverfull == buf <= Cap /\ buf = acc
NoOutputBeforeFlip == ~fin => out = <<>>
=============================================================================
