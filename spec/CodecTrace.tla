------------------------------ MODULE CodecTrace ------------------------------
(* Recorded encoder and decoder calls against Codec.tla. *)
EXTENDS Codec, TraceCheck
InitSt(sess) == 0
Enc(a) == CASE a.f = "modq" -> ModqEncode(a.x, a.w)
            [] a.f = "trim" -> TrimEncode(a.x, a.w)
            [] a.f = "comp" -> CompEncode(a.x)
            [] a.f = "comp16" -> Comp16Encode(a.x)
Dec(a) == CASE a.f = "modq" -> ModqDecode(a.s, a.n, a.w)
            [] a.f = "trim" -> TrimDecode(a.s, a.n, a.w)
            [] a.f = "comp" -> CompDecode(a.s, a.n)
            [] a.f = "comp16" -> Comp16Decode(a.s, a.n)
EncWhy(a, r) ==
  LET e == Enc(a) IN
  IF r.bad # <<>> THEN "encoder wrote outside its output"
  ELSE IF e = <<>> THEN (IF r.n = 0 THEN "" ELSE "values that have no encoding were encoded")
  ELSE IF a.max = -1 THEN (IF r.n = Len(e) THEN "" ELSE "wrong announced length")
  ELSE IF a.max < Len(e) THEN (IF r.n = 0 THEN "" ELSE "encoded into too little room")
  ELSE IF r.n # Len(e) THEN "wrong encoded length"
  ELSE IF r.out # e THEN "wrong encoding" ELSE ""
DecWhy(a, r) ==
  LET d == Dec(a) IN
  IF r.bad # <<>> THEN "decoder wrote outside its output"
  ELSE IF ~d.ok THEN (IF r.n = 0 THEN "" ELSE "bytes that encode nothing were decoded")
  ELSE IF r.n = 0 THEN "a valid encoding was refused"
  ELSE IF r.n # d.len THEN "wrong number of bytes consumed"
  ELSE IF r.x # d.x THEN "wrong decoded values" ELSE ""
PyEncWhy(a, r) ==
  LET e == Enc(a) IN
  IF e = <<>> THEN (IF r.ok THEN "values that have no encoding were encoded" ELSE "")
  ELSE IF ~r.ok THEN "values in range were refused"
  ELSE IF r.out # e THEN "wrong encoding" ELSE ""
PyDecWhy(a, r) ==
  LET d == Dec(a) IN
  IF ~d.ok THEN (IF r.ok THEN "bytes that encode nothing were decoded" ELSE "")
  ELSE IF ~r.ok THEN "a valid encoding was refused"
  ELSE IF r.x # d.x THEN "wrong decoded values" ELSE ""
\* a public key: header byte 0x00 + log n, then the 14-bit packing, nothing more
PkWhy(a, r) ==
  LET n == IF a.s = <<>> THEN 0 ELSE IF a.s[1] = 9 THEN 512 ELSE IF a.s[1] = 10 THEN 1024 ELSE 0
      d == IF n = 0 \/ Len(a.s) # 1 + FixedLen(n, 14) THEN Fail ELSE ModqDecode(Tail(a.s), n, 14) IN
  IF ~d.ok THEN (IF r.ok THEN "a malformed public key was accepted" ELSE "")
  ELSE IF ~r.ok THEN "a valid public key was refused"
  ELSE IF r.n # n \/ r.x # d.x THEN "wrong public key" ELSE ""
PadEncWhy(a, r) ==
  LET e == PadEncode(a.x, a.slen) IN
  IF r.ok # e.ok THEN (IF e.ok THEN "values that fit were refused" ELSE "values that do not fit were encoded")
  ELSE IF e.ok /\ r.out # e.s THEN "wrong encoding" ELSE ""
PadDecWhy(a, r) ==
  LET d == PadDecode(a.s, a.slen, a.n) IN
  IF ~d.ok THEN (IF r.ok THEN "bytes that encode nothing were decoded" ELSE "")
  ELSE IF ~r.ok THEN "a valid encoding was refused"
  ELSE IF r.x # d.x THEN "wrong decoded values" ELSE ""
WordsWhy(a, r) ==
  IF Len(a.s) % 2 = 1 THEN (IF r.ok THEN "an odd number of bytes was accepted" ELSE "")
  ELSE IF ~r.ok THEN "an even number of bytes was refused"
  ELSE IF r.x = [i \in 1..(Len(a.s) \div 2) |-> 256 * a.s[2 * i - 1] + a.s[2 * i]] THEN "" ELSE "wrong words"
Verdict(e) ==
  IF e.op = "harness" THEN "the harness could not drive the code: " \o e.x
  ELSE IF e.x # "" THEN e.op \o " did not return: " \o e.x
  ELSE CASE e.op = "enc" -> EncWhy(e.a, e.r)
         [] e.op = "dec" -> DecWhy(e.a, e.r)
         [] e.op = "pyenc" -> PyEncWhy(e.a, e.r)
         [] e.op = "pydec" -> PyDecWhy(e.a, e.r)
         [] e.op = "from_bytes" -> PkWhy(e.a, e.r)
         [] e.op = "compress" -> PadEncWhy(e.a, e.r)
         [] e.op = "decompress" -> PadDecWhy(e.a, e.r)
         [] e.op = "decode16" -> WordsWhy(e.a, e.r)
Step(sess, s0, e) == [st |-> s0 + 1, why |-> Verdict(e)]
Init == TInit(InitSt)
Next == TNext(Step)
=============================================================================
