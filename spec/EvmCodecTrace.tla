---------------------------- MODULE EvmCodecTrace ----------------------------
(***************************************************************************)
(* Recorded calls to the on-chain decoders of keys, signatures and signed  *)
(* messages, and verification of signed messages from their bytes.         *)
(***************************************************************************)
EXTENDS Evm, Codec, TraceCheck
InitSt(sess) == 0
No == [ok |-> FALSE]
\* the signature body from offset o: at most 665 bytes, then only zeros
SigAt(b, o) ==
  IF o > Len(b) THEN No ELSE
  LET s == Drop(b, o)
      r == CompRead(s, 512)
      len == (r.p + 7) \div 8 IN
  IF r.ok /\ TrailZero(s, r.p, Len(s)) /\ len < 666
  THEN [ok |-> TRUE, x |-> TLCEval([i \in 1..512 |-> IF r.x[i] < 0 THEN r.x[i] + Q ELSE r.x[i]]), len |-> len] ELSE No
KeyAt(b, o) == IF Len(b) < o + 896 THEN No
               ELSE LET d == ModqDecode(Slice(b, o, 896), 512, 14) IN
                    IF d.ok THEN [ok |-> TRUE, x |-> d.x] ELSE No
\* key || header, and length || nonce || message || header || body
Kat(pk, sm, mlen) ==
  IF Len(pk) # 897 \/ Len(sm) < 2 \/ mlen < 0 THEN No
  ELSE IF pk[1] # 9 \/ Len(sm) # 42 + mlen + 256 * sm[1] + sm[2] \/ Len(sm) = 42 + mlen THEN No
  ELSE IF sm[43 + mlen] # 41 THEN No
  ELSE LET h == TLCEval(KeyAt(pk, 1))
           s == TLCEval(SigAt(sm, 43 + mlen)) IN
       IF h.ok /\ s.ok /\ s.len = Len(sm) - 43 - mlen
       THEN [ok |-> TRUE, h |-> h.x, s2 |-> s.x, salt |-> Slice(sm, 2, 40), m |-> Slice(sm, 42, mlen)] ELSE No
Dec(r, d) == IF r.ok # d.ok THEN (IF d.ok THEN "a canonical encoding was refused" ELSE "a non-canonical encoding was accepted")
             ELSE IF d.ok /\ r.x # d.x THEN "wrong values" ELSE ""
Verdict(e) ==
  IF e.op = "harness" THEN "the harness could not drive the code: " \o e.x
  ELSE IF e.x # "" THEN e.op \o " did not return: " \o e.x
  ELSE LET a == e.a  r == e.r IN
  CASE e.op = "d_sig" -> Dec(r, TLCEval(SigAt(a.b, a.o)))
    [] e.op = "d_key" -> Dec(r, TLCEval(KeyAt(a.b, a.o)))
    [] e.op = "d_kat" -> LET d == TLCEval(Kat(a.pk, a.sm, a.mlen)) IN
         IF r.ok # d.ok THEN (IF d.ok THEN "a well-formed signed message was refused" ELSE "a malformed signed message was accepted")
         ELSE IF d.ok /\ [h |-> r.h, s2 |-> r.s2, salt |-> r.salt, m |-> r.m] # [h |-> d.h, s2 |-> d.s2, salt |-> d.salt, m |-> d.m]
         THEN "wrong parts of a signed message"
         ELSE IF r.ver # (d.ok /\ SolValid(a.c, d.salt, d.m, d.s2, TLCEval(Ntt(d.h))))
         THEN (IF r.ver THEN "an invalid signed message was verified" ELSE "a valid signed message was not verified") ELSE ""
Step(sess, s, e) == [st |-> 0, why |-> TLCEval(Verdict(e))]
Init == TInit(InitSt)
Next == TNext(Step)
=============================================================================
