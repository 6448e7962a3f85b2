----------------------------- MODULE MC_Envelope -----------------------------
(***************************************************************************)
(* The envelope around a signature: every string splits in at most one way *)
(* into nonce, message and signature, and putting the parts together again *)
(* gives the string back.  Strings are built one byte at a time.           *)
(***************************************************************************)
EXTENDS Bytes
CONSTANTS MaxLen, NL, Alphabet
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E b \in Alphabet : s' = Append(s, b)
Split(x) == IF Len(x) < 2 + NL THEN [ok |-> FALSE]
            ELSE LET sl == 256 * x[1] + x[2]   ml == Len(x) - 2 - NL - sl IN
                 IF ml < 0 THEN [ok |-> FALSE]
                 ELSE [ok |-> TRUE, nonce |-> Slice(x, 2, NL), m |-> Slice(x, 2 + NL, ml), e |-> Drop(x, 2 + NL + ml)]
Join(nonce, m, e) == BE16(Len(e)) \o nonce \o m \o e
\* all ways of cutting the tail into message and signature
Framing ==
  LET p == Split(s)
      cuts == IF Len(s) < 2 + NL THEN {} ELSE
              {k \in 0..(Len(s) - 2 - NL) : Join(Slice(s, 2, NL), Slice(s, 2 + NL, k), Drop(s, 2 + NL + k)) = s} IN
  IF p.ok THEN cuts = {Len(p.m)} /\ Join(p.nonce, p.m, p.e) = s ELSE cuts = {}
=============================================================================
