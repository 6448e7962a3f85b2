------------------------------- MODULE GoTrace -------------------------------
(***************************************************************************)
(* Recorded rounds of concurrent calls to the Go binding and to the geth   *)
(* precompile, over several processes: what each call must return is       *)
(* SignedMsg.tla's business; nothing that is drawn may ever be seen twice. *)
(***************************************************************************)
EXTENDS SignedMsg, TraceCheck
InitSt(sess) == [nonces |-> <<>>, keys |-> <<>>]
Valid(sm, m, pk) ==
  IF Len(pk) # 897 THEN FALSE
  ELSE LET o == TLCEval(Open("std", "shake", sm, pk)) IN o.ok /\ o.m = m
(* ABI: the i-th of several byte strings; offsets and lengths are 32-byte words *)
Word(x, o) == IF \E i \in 1..29 : x[o + i] # 0 THEN 2^24 ELSE 65536 * x[o + 30] + 256 * x[o + 31] + x[o + 32]
AbiBytes(x, i) ==
  IF Len(x) < 32 * i THEN [ok |-> FALSE, b |-> <<>>] ELSE
  LET o == Word(x, 32 * (i - 1)) IN
  IF o + 32 > Len(x) THEN [ok |-> FALSE, b |-> <<>>] ELSE
  LET n == Word(x, o) IN
  IF o + 32 + n > Len(x) THEN [ok |-> FALSE, b |-> <<>>] ELSE [ok |-> TRUE, b |-> Slice(x, o + 32, n)]
Bool32(b) == [i \in 1..32 |-> IF i = 32 /\ b THEN 1 ELSE 0]
KeygenWhy(c, r) ==
  IF r.err THEN "key generation failed"
  ELSE IF Len(r.b) # 1281 THEN "the private key is malformed"
  ELSE LET k == TLCEval(SkParse(r.b)) IN
  IF ~k.ok THEN "the private key is malformed"
  ELSE IF r.a # PkOf("std", k.h) THEN "the public key does not belong to the private key" ELSE ""
SignedWhy(c, r) ==
  LET k == TLCEval(IF Len(c.k) # 1281 THEN [ok |-> FALSE] ELSE SkParse(c.k)) IN
  IF ~k.ok THEN (IF ~r.err THEN "a malformed private key was used" ELSE "")
  ELSE IF r.err THEN "signing failed"
  ELSE LET e == TLCEval(Envelope(r.a)) IN
  IF ~e.ok \/ e.m # c.m THEN "wrong envelope"
  ELSE LET g == TLCEval(SigParse("std", e.esig)) IN
  IF ~g.ok \/ Len(e.esig) > EsigMax("std") THEN "malformed signature"
  ELSE IF ~ValidSig("std", TLCEval(PointOf("shake", e.nonce, e.m, N).x), g, k.h) THEN "the signature is not valid" ELSE ""
VerifyWhy(c, r) ==
  LET v == Valid(c.s, c.m, c.k) IN
  IF r.ok = v THEN "" ELSE IF v THEN "a valid signature was refused" ELSE "an invalid signature was accepted"
RunWhy(c, r) ==
  LET s == TLCEval(AbiBytes(c.input, 1))  m == TLCEval(AbiBytes(c.input, 2))  k == TLCEval(AbiBytes(c.input, 3)) IN
  IF ~(s.ok /\ m.ok /\ k.ok) THEN (IF ~r.err THEN "input that does not decode was not refused" ELSE "")
  ELSE IF r.err THEN "well-formed input failed"
  ELSE LET v == Valid(s.b, m.b, k.b) IN
  IF r.a = Bool32(v) THEN "" ELSE IF v THEN "the precompile refused a valid signature"
  ELSE IF r.a = Bool32(TRUE) THEN "the precompile accepted an invalid signature" ELSE "the precompile returned no verdict"
CallWhy(c, r) ==
  IF r.x # "" THEN c.op \o " did not return: " \o r.x
  ELSE CASE c.op = "keygen" -> KeygenWhy(c, r)
         [] c.op = "sign" -> SignedWhy(c, r)
         [] c.op = "verify" -> VerifyWhy(c, r)
         [] c.op = "run" -> RunWhy(c, r)
Drawn(calls, out, o) == LET is == SelectSeq([i \in 1..Len(calls) |-> i], LAMBDA i : calls[i].op = o /\ ~out[i].err /\ out[i].x = "")
                        IN [j \in 1..Len(is) |-> IF o = "sign" THEN Slice(out[is[j]].a, 2, NonceLen) ELSE out[is[j]].b]
Distinct(s) == \A i, j \in 1..Len(s) : i < j => s[i] # s[j]
RoundStep(s, calls, out) ==
  LET w == TLCEval([i \in 1..Len(calls) |-> TLCEval(CallWhy(calls[i], out[i]))])
      bad == SelectSeq(w, LAMBDA x : x # "") IN
  IF bad # <<>> THEN [st |-> s, why |-> bad[1]]
  ELSE LET t == TLCEval([nonces |-> s.nonces \o Drawn(calls, out, "sign"), keys |-> s.keys \o Drawn(calls, out, "keygen")]) IN
  [st |-> t, why |-> IF ~Distinct(t.nonces) THEN "a nonce was used twice"
                     ELSE IF ~Distinct(t.keys) THEN "a key was generated twice" ELSE ""]
Step(sess, s, e) ==
  IF e.op = "harness" THEN [st |-> s, why |-> "the harness could not drive the code: " \o e.x]
  ELSE IF e.x # "" THEN [st |-> s, why |-> "the process ended: " \o e.x]
  ELSE IF e.op = "start" THEN [st |-> s, why |-> ""]
  ELSE RoundStep(s, e.a.calls, e.r.out)
Init == TInit(InitSt)
Next == TNext(Step)
=============================================================================
