------------------------------ MODULE MC_Sponge ------------------------------
(***************************************************************************)
(* Design model of the streaming sponge interface: bytes are fed and drawn *)
(* in chunks through a position pointer, one block at a time.  Checked     *)
(* against the definition (pad the whole message, split it into blocks,    *)
(* concatenate the output blocks) for every sequence of chunk sizes at a   *)
(* small rate.  Bytes are symbolic: <<"m", i>> is the i-th message byte,   *)
(* <<b, i>> the i-th byte of output block b.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Rate, Sizes, MaxOps, MaxIn, MaxOut, Emit
VARIABLES ph, blks, cur, len, dptr, sq, out, ops
vars == <<ph, blks, cur, len, dptr, sq, out, ops>>

Init == /\ ph = "absorb" /\ blks = <<>> /\ cur = <<>> /\ len = 0
        /\ dptr = 0 /\ sq = 0 /\ out = <<>> /\ ops = <<>>

RECURSIVE Feed(_, _, _, _)   \* (blocks, partial block, next byte index, bytes left)
Feed(b, c, i, n) ==
  IF n = 0 THEN <<b, c>>
  ELSE LET k == IF n < Rate - Len(c) THEN n ELSE Rate - Len(c)
           c2 == c \o [j \in 1..k |-> <<"m", i + j - 1>>] IN
       IF Len(c2) = Rate THEN Feed(Append(b, c2), <<>>, i + k, n - k)
       ELSE Feed(b, c2, i + k, n - k)
Inject(n) ==
  /\ ph = "absorb" /\ len + n <= MaxIn
  /\ LET r == Feed(blks, cur, len, n) IN blks' = r[1] /\ cur' = r[2]
  /\ len' = len + n
  /\ ops' = Append(ops, <<"inject", n>>)
  /\ UNCHANGED <<ph, dptr, sq, out>>

\* what is xored at each place of the last block
Last == [j \in 1..Rate |->
           LET base == IF j <= Len(cur) THEN cur[j] ELSE <<"m", -1>>
               p1 == IF j = Len(cur) + 1 THEN 1 ELSE 0
               p2 == IF j = Rate THEN 2 ELSE 0
           IN <<base, p1 + p2>>]
Flip == /\ ph = "absorb"
        /\ ph' = "squeeze"
        /\ cur' = Last
        /\ dptr' = Rate
        /\ ops' = Append(ops, <<"flip", 0>>)
        /\ UNCHANGED <<blks, len, sq, out>>

RECURSIVE Draw(_, _, _, _)   \* (block, pointer, bytes left, output)
Draw(s, d, n, o) ==
  IF n = 0 THEN <<s, d, o>>
  ELSE IF d = Rate THEN Draw(s + 1, 0, n, o)
  ELSE LET k == IF n < Rate - d THEN n ELSE Rate - d IN
       Draw(s, d + k, n - k, o \o [j \in 1..k |-> <<s, d + j - 1>>])
Extract(n) ==
  /\ ph = "squeeze" /\ Len(out) + n <= MaxOut
  /\ LET r == Draw(sq, dptr, n, out) IN sq' = r[1] /\ dptr' = r[2] /\ out' = r[3]
  /\ ops' = Append(ops, <<"extract", n>>)
  /\ UNCHANGED <<ph, blks, cur, len>>

Next == /\ Len(ops) < MaxOps
        /\ (Flip \/ \E n \in Sizes : Inject(n) \/ Extract(n))
        /\ (Emit /\ Len(ops') = MaxOps /\ ph' = "squeeze" => PrintT("BEHAV " \o ToJson(ops')))

(* --- the definition --- *)
NFull == len \div Rate
AbsorbIsSplit ==
  /\ Len(blks) = NFull
  /\ \A b \in 1..NFull : \A j \in 1..Rate : blks[b][j] = <<"m", (b - 1) * Rate + j - 1>>
  /\ ph = "absorb" => cur = [j \in 1..(len % Rate) |-> <<"m", NFull * Rate + j - 1>>]
PaddedOnce ==
  ph = "squeeze" =>
    \A j \in 1..Rate :
      /\ cur[j][1] = IF j <= len % Rate THEN <<"m", NFull * Rate + j - 1>> ELSE <<"m", -1>>
      /\ cur[j][2] = (IF j = (len % Rate) + 1 THEN 1 ELSE 0) + (IF j = Rate THEN 2 ELSE 0)
OutIsStream == \A i \in 1..Len(out) : out[i] = <<1 + ((i - 1) \div Rate), (i - 1) % Rate>>
=============================================================================
