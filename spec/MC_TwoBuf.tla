----------------------------- MODULE MC_TwoBuf -----------------------------
(***************************************************************************)
(* The two buffered generators, reference and Python, under the requests   *)
(* signing makes: a base sample (a word of W bytes and one byte; in Python *)
(* W + 1 bytes at once), then single bytes.  They hand out the same bytes. *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS B, W
\* positions in the current buffers, by how much the reference is ahead, where the last bytes came from
VARIABLES cp, pp, d, co, po
Init == cp = 0 /\ pp = B /\ d = B /\ co = 0 /\ po = 0
\* reference: a word is not taken from the last W + 1 bytes; a byte refills a buffer it has emptied
CDrop == cp >= B - W - 1
\* Python: refill when the request does not fit, or is the base sample and just fits
PDrop(n) == n > B - pp \/ (n = W + 1 /\ B - pp = W + 1)
Draw(n, cdrop) ==
  LET c0 == IF cdrop THEN 0 ELSE cp   cb == IF cdrop THEN B ELSE 0
      p0 == IF PDrop(n) THEN 0 ELSE pp   pb == IF PDrop(n) THEN B ELSE 0
      wrap == c0 + n = B IN
  /\ co' = d + cb + c0 /\ po' = pb + p0          \* stream positions, from the base of the Python buffer
  /\ cp' = (IF wrap THEN 0 ELSE c0 + n) /\ pp' = p0 + n
  /\ d' = d + cb + (IF wrap THEN B ELSE 0) - pb
Next == Draw(W + 1, CDrop) \/ Draw(1, FALSE)
SameBytes == co = po
=============================================================================
