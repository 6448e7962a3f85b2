------------------------------ MODULE MC_Round ------------------------------
(* Every encodable value comes back, value by value (others interleaved). *)
EXTENDS Codec
CONSTANTS Kind, Below, Hi, Others      \* values -Below..Hi; others of either sign
VARIABLES v, o
Init == v = 0 - Below /\ o \in Others \cup {0 - k : k \in Others}
Next == v < Hi /\ v' = v + 1 /\ o' = o
Back(d, x, e) == IF e = <<>> THEN TRUE ELSE d.ok /\ d.x = x /\ d.len = Len(e)
RoundTrip ==
  \A x \in {<<v>>, <<v, o>>, <<o, v>>} : LET n == Len(x) IN
  CASE Kind = "comp" -> LET e == CompEncode(x) IN (e = <<>>) = (\E i \in 1..n : Abs(x[i]) > 2047) /\ Back(CompDecode(e, n), x, e)
    [] Kind = "modq" -> \A w \in {14, 16} : LET e == ModqEncode(x, w) IN Back(ModqDecode(e, n, w), x, e)
    [] Kind = "comp16" -> LET e == Comp16Encode(x) IN
           IF \E i \in 1..n : Abs(x[i]) > 6144 THEN TRUE ELSE Back(Comp16Decode(e, n), x, e)
    [] Kind = "trim" -> \A w \in 5..8 : LET e == TrimEncode(x, w) IN Back(TrimDecode(e, n, w), x, e)
    [] Kind = "pad" -> \A slen \in 1..9 : LET e == PadEncode(x, slen) IN e.ok => PadDecode(e.s, slen, n).x = x
=============================================================================
