------------------------------ MODULE EvmTrace ------------------------------
(***************************************************************************)
(* Recorded calls to the contracts against Evm.tla.                        *)
(* keys: what setKey stored, in order, with the pointers it returned.      *)
(***************************************************************************)
EXTENDS Evm, TraceCheck
InitSt(sess) == [keys |-> <<>>]
Blob(s, p) == LET i == {k \in 1..Len(s.keys) : s.keys[k].ptr = p} IN
              IF i = {} THEN <<>> ELSE s.keys[CHOOSE k \in i : TRUE].blob
Judge(v, ok) == IF v = ok THEN "" ELSE IF v THEN "a valid signature was refused" ELSE "an invalid signature was accepted"
SetWhy(s, a, r) ==
  IF Len(a.blob) > MaxBlob THEN (IF r.ptr = <<>> THEN "" ELSE "a key that cannot be stored was accepted")
  ELSE IF Len(r.ptr) # 20 THEN "the key was not stored"
  ELSE IF \E k \in 1..Len(s.keys) : s.keys[k].ptr = r.ptr THEN "a stored key was overwritten" ELSE ""
Verdict(s, e) ==
  IF e.op = "harness" THEN "the harness could not drive the code: " \o e.x
  ELSE IF e.x # "" THEN e.op \o " did not return: " \o e.x
  ELSE LET a == e.a  r == e.r IN
  CASE e.op = "verify4" -> Judge(SolValid(a.c, a.salt, a.m, a.s2, a.pk), r.ok)
    [] e.op = "verify3" -> Judge(SolValid3(a.c, TLCEval(Blob(s, Slice(a.ptr, 0, 20))), a.digest, a.sig), r.ok)
    [] e.op = "setkey" -> SetWhy(s, a, r)
    [] e.op = "recover" ->
         LET v == TLCEval(SolRecover(a.c, a.salt, a.m, a.s1, a.s2, a.hint)) IN
         IF v = r.addr THEN "" ELSE IF v = <<>> THEN "an address was recovered from an invalid signature"
         ELSE IF r.addr = <<>> THEN "no address was recovered from a valid signature" ELSE "another address was recovered"
Step(sess, s, e) == LET w == TLCEval(Verdict(s, e)) IN
  [st |-> IF w = "" /\ e.op = "setkey" /\ e.r.ptr # <<>>
          THEN [s EXCEPT !.keys = Append(@, [ptr |-> e.r.ptr, blob |-> e.a.blob])] ELSE s, why |-> w]
Init == TInit(InitSt)
Next == TNext(Step)
=============================================================================
