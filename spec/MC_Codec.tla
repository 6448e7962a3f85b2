------------------------------ MODULE MC_Codec ------------------------------
(***************************************************************************)
(* The encodings themselves, over every byte string of at most MaxLen      *)
(* bytes: a decoder accepts exactly the images of the encoder, so that no  *)
(* two strings (of the consumed length) decode to the same values and      *)
(* every value comes back.  The byte string is built one byte at a time.   *)
(***************************************************************************)
EXTENDS Codec
CONSTANTS MaxLen, Kind
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E b \in Byte : s' = Append(s, b)
Canon(d, e) == d.ok => e = Take(s, d.len)
Canonical ==
  CASE Kind = "comp" -> \A n \in 1..2 : LET d == CompDecode(s, n) IN Canon(d, CompEncode(d.x))
    [] Kind = "modq" -> \A w \in {14, 16} : LET d == ModqDecode(s, 1, w) IN Canon(d, ModqEncode(d.x, w))
    [] Kind = "comp16" -> LET d == Comp16Decode(s, 1) IN Canon(d, Comp16Encode(d.x))
    [] Kind = "trim" -> \A nw \in {<<1, 5>>, <<2, 5>>, <<2, 8>>, <<3, 5>>, <<2, 6>>, <<2, 7>>} :
                          LET d == TrimDecode(s, nw[1], nw[2]) IN Canon(d, TrimEncode(d.x, nw[2]))
    [] Kind = "pad" -> \A n \in 1..2 : LET d == PadDecode(s, MaxLen, n)
                                            e == PadEncode(d.x, MaxLen) IN
                                        d.ok => e.ok /\ Take(e.s, Len(s)) = s /\ \A i \in (Len(s) + 1)..MaxLen : e.s[i] = 0
=============================================================================
