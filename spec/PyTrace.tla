------------------------------ MODULE PyTrace ------------------------------
(***************************************************************************)
(* Recorded calls to the Python signature classes against PySigned.tla.    *)
(* made: what signing produced, by randomness, key and message.            *)
(***************************************************************************)
EXTENDS PySigned, TraceCheck
InitSt(sess) == [made |-> <<>>]
VerifyWhy(a, r) ==
  LET v == TLCEval(FalconValid(a.n, a.h, a.m, a.sig, a.xof)) IN
  IF v = r.ok THEN "" ELSE IF v THEN "a valid signature was refused" ELSE "an invalid signature was accepted"
RecoverWhy(a, r) ==
  LET v == TLCEval(RecoverAddr(a.mode, a.n, a.m, a.sig, a.xof)) IN
  IF r.rec # v THEN (IF v = <<>> THEN "a key was recovered from an invalid signature"
                     ELSE IF r.rec = <<>> THEN "no key was recovered from a valid signature" ELSE "another key was recovered")
  ELSE IF r.ok # (v # <<>> /\ v = a.pk) THEN (IF r.ok THEN "an invalid signature was accepted" ELSE "a valid signature was refused")
  ELSE ""
Made(s, k) == {i \in 1..Len(s.made) : s.made[i].k = k}
Key(a) == <<a.mode, a.xof, a.n, a.f, a.g, a.tape, a.m>>
\* draws the signer makes: the salt, then one seed (falcon) or one per attempt
DrawsOk(a, r) == IF ~a.seeded THEN TRUE ELSE
  /\ Len(r.draws) >= 2 /\ r.draws[1] = 40 /\ (\A i \in 2..Len(r.draws) : r.draws[i] = 48)
  /\ a.mode = "falcon" => Len(r.draws) = 2
SignWhy(s, a, r) ==
  LET h == TLCEval(Quot(a.g, a.f)) IN
  IF r.h # h THEN "the public key does not belong to the private key"
  ELSE IF ~DrawsOk(a, r) THEN "wrong randomness requests"
  ELSE LET g == TLCEval(PyParse(a.mode, a.n, r.sig)) IN
  IF ~g.ok THEN "malformed signature"
  ELSE IF r.sig[1] # HeadByte(a.mode, a.n) THEN "wrong header"
  ELSE IF Len(r.sig) # 41 + BodyLen(a.mode, a.n) + HintLen(a.mode, a.n) THEN "wrong signature length"
  ELSE IF a.seeded /\ g.salt # Slice(a.tape, 0, 40) THEN "the salt is not the one drawn"
  ELSE IF a.mode = "falcon" /\ ~FalconValid(a.n, h, a.m, r.sig, a.xof) THEN "the signature is not valid"
  ELSE IF a.mode # "falcon" /\ LET ad == TLCEval(Address(a.mode, TLCEval(Ntt(h)))) IN
          ad # r.pk \/ RecoverAddr(a.mode, a.n, a.m, r.sig, a.xof) # ad THEN
          (IF Address(a.mode, TLCEval(Ntt(h))) # r.pk THEN "wrong address" ELSE "the signature does not recover the signer's address")
  ELSE IF a.seeded /\ \E i \in Made(s, Key(a)) : s.made[i].sig # r.sig THEN "the same randomness gave another signature"
  ELSE ""
CompactWhy(a, r) ==
  LET m == Len(a.x) \div 16 IN
  IF r.y = [i \in 1..m |-> Concat([j \in 1..16 |-> LET v == a.x[16 * i + 1 - j] IN <<v \div 256, v % 256>>])] THEN ""
  ELSE "compact: wrong words"
Verdict(s, e) ==
  IF e.op = "harness" THEN "the harness could not drive the code: " \o e.x
  ELSE IF e.x # "" THEN e.op \o " did not return: " \o e.x
  ELSE CASE e.op = "verify" -> VerifyWhy(e.a, e.r)
         [] e.op = "recover" -> RecoverWhy(e.a, e.r)
         [] e.op = "sign" -> SignWhy(s, e.a, e.r)
         [] e.op = "compact" -> CompactWhy(e.a, e.r)
Step(sess, s, e) == LET w == TLCEval(Verdict(s, e)) IN
  [st |-> IF w = "" /\ e.op = "sign" /\ e.a.seeded
          THEN [s EXCEPT !.made = Append(@, [k |-> Key(e.a), sig |-> e.r.sig])] ELSE s, why |-> w]
Init == TInit(InitSt)
Next == TNext(Step)
=============================================================================
