----------------------------- MODULE SignedTrace -----------------------------
(***************************************************************************)
(* Recorded calls to the signed-message interface against SignedMsg.tla.   *)
(* The state remembers what signing produced, by tape, key and message:    *)
(* signing is a function of those.                                         *)
(***************************************************************************)
EXTENDS SignedMsg, TraceCheck
InitSt(sess) == [made |-> <<>>]
\* the two encodings carry the same vector; EPERVIER draws again when s2 has no inverse
Scheme(v) == IF v = "epv" THEN "epv" ELSE "std"
OpenWhy(s, a, r) ==
  LET o == TLCEval(Open(a.v, a.xof, a.sm, a.pk)) IN
  IF r.bad # <<>> THEN "open: " \o r.bad[1]
  ELSE IF o.ok THEN (IF r.rc # 0 THEN "a valid signed message was refused"
                     ELSE IF r.m # o.m THEN "another message was returned" ELSE "")
  ELSE IF r.rc = 0 THEN "an invalid signed message was accepted" ELSE ""
\* one signing call: a.tape holds the bytes the random source gives out
SignWhy(s, a, r) ==
  LET k == TLCEval(SkParse(a.sk)) IN
  IF r.bad # <<>> THEN "sign: " \o r.bad[1]
  ELSE IF ~k.ok THEN (IF r.rc = 0 THEN "a malformed private key was used" ELSE "")
  ELSE LET nonce == Slice(a.tape, 0, NonceLen) IN
  IF TooLong(a.xof, nonce, a.m) THEN (IF r.rc = 0 THEN "a message that does not fit was signed" ELSE "")
  ELSE IF r.rc # 0 THEN "signing failed"
  ELSE IF r.draws # <<40, 48>> THEN "wrong randomness requests"
  ELSE LET e == TLCEval(Envelope(r.sm)) IN
  IF ~e.ok \/ e.nonce # nonce \/ e.m # a.m THEN "wrong envelope"
  ELSE LET g == TLCEval(SigParse(a.v, e.esig)) IN
  IF ~g.ok THEN "malformed signature"
  ELSE IF Len(e.esig) > EsigMax(a.v) THEN "signature too long"
  ELSE IF ~ValidSig(a.v, TLCEval(PointOf(a.xof, nonce, a.m, N).x), g, k.h) THEN "the signature is not valid"
  ELSE IF a.v = "epv" /\ 256 * e.esig[2051] + e.esig[2052] # Hint(g.s2) THEN "wrong hint"
  ELSE IF \E i \in 1..Len(s.made) : s.made[i].a = <<Scheme(a.v), a.xof, a.sk, a.tape, a.m>> /\ s.made[i].s2 # g.s2
       THEN "the same randomness gave another signature"
  ELSE ""
SignSt(s, a, r) ==
  IF r.rc # 0 THEN s ELSE
  LET e == TLCEval(Envelope(r.sm))  g == TLCEval(SigParse(a.v, e.esig)) IN
  [s EXCEPT !.made = Append(@, [a |-> <<Scheme(a.v), a.xof, a.sk, a.tape, a.m>>, s2 |-> g.s2])]
\* key generation: NTRU equation, ranges, and the public key of the private key
KeyWhy(a, r) ==
  IF r.bad # <<>> THEN "keygen: " \o r.bad[1]
  ELSE IF a.seeded /\ Len(a.seed) < 32 THEN (IF r.rc = 0 THEN "a short seed was accepted" ELSE "")
  ELSE IF r.rc # 0 THEN "key generation failed"
  ELSE IF ~a.seeded /\ r.draws # <<48>> THEN "wrong randomness requests"
  ELSE LET k == TLCEval(SkParse(r.sk)) IN
  IF ~k.ok THEN "the private key is malformed"
  ELSE IF r.pk # PkOf(a.v, k.h) THEN "the public key does not belong to the private key"
  ELSE ""
PkConvWhy(a, r) ==
  LET p == PkParse("epv", a.pk) IN
  IF ~p.ok THEN (IF r.rc = 0 THEN "a malformed public key was accepted" ELSE "")
  ELSE IF r.rc # 0 THEN "a valid public key was refused"
  ELSE IF r.pk # a.pk THEN "the public key was changed" ELSE ""
Verdict(s, e) ==
  IF e.op = "harness" THEN "the harness could not drive the code: " \o e.x
  ELSE IF e.x # "" THEN e.op \o " did not return: " \o e.x
  ELSE CASE e.op = "open" -> OpenWhy(s, e.a, e.r)
         [] e.op = "sign" -> SignWhy(s, e.a, e.r)
         [] e.op = "keygen" -> KeyWhy(e.a, e.r)
         [] e.op = "pkconv" -> PkConvWhy(e.a, e.r)
Step(sess, s, e) == LET w == TLCEval(Verdict(s, e)) IN
  [st |-> IF w = "" /\ e.op = "sign" THEN SignSt(s, e.a, e.r) ELSE s, why |-> w]
Init == TInit(InitSt)
Next == TNext(Step)
=============================================================================
