----------------------------- MODULE EvmRecTrace -----------------------------
(***************************************************************************)
(* Recorded calls to the recursive verifier and its transform contract.    *)
(***************************************************************************)
EXTENDS EvmRec, TraceCheck
InitSt(sess) == 0
Judge(v, ok) == IF v = ok THEN "" ELSE IF v THEN "a valid signature was refused" ELSE "an invalid signature was accepted"
Same(x, y, what) == IF x = y THEN "" ELSE what
Verdict(s, e) ==
  IF e.op = "harness" THEN "the harness could not drive the code: " \o e.x
  ELSE IF e.x # "" THEN e.op \o " did not return: " \o e.x
  ELSE LET a == e.a  r == e.r IN
  CASE e.op = "rverify" -> Judge(RecValid(a.salt, a.m, a.s1, a.h), r.ok)
    [] e.op = "rverify_ntt" ->
         Judge(Len(a.h) = SolN /\ RecValid(a.salt, a.m, a.s1, TLCEval(RecInv(PolyModQ(a.h)))), r.ok)
    [] e.op = "rforge" ->              \* one signature, two ways to cut the same bytes into salt and message
         IF Len(r.v) # 2 THEN "not two calls"
         ELSE IF \E k \in 1..2 : ~RecValid(r.v[k].salt, r.v[k].m, r.v[k].s1, r.v[k].h) \/ ~r.v[k].ok THEN "a forgery is not accepted"
         ELSE IF r.v[1].s1 # r.v[2].s1 \/ r.v[1].h # r.v[2].h \/ r.v[1].m = r.v[2].m THEN "not one signature for two messages"
         ELSE ""
    [] e.op = "rfw" -> Same(r.x, RecFw(a.a), "not the values at the points")
    [] e.op = "rinv" -> Same(r.x, RecInv(a.a), "not the polynomial with these values")
    [] e.op = "rmul" -> Same(r.x, Mul(a.a, a.b), "not the product")
    [] e.op = "rmulopt" -> Same(r.x, Mul(a.a, TLCEval(RecInv(PolyModQ(a.b)))), "not the product")
    [] e.op = "rpoint" -> Same(r.x, PointMul(a.a, a.b), "not the slot-wise product")
    [] e.op = "radd" -> Same(r.x, PolyAdd(a.a, a.b), "not the sum")
    [] e.op = "rsub" -> Same(r.x, PolySub(a.a, a.b), "not the difference")
    [] e.op = "rneg" -> Same(PolyModQ(r.x), PolyNeg(a.a), "not the negative")
    [] e.op = "rsplit" ->
         LET v == TLCEval(RSplit(a.a, RecTabInv[Log2(Len(a.a))], Q)) IN Same(<<r.x, r.y>>, <<v.lo, v.hi>>, "not the two halves")
    [] e.op = "rmerge" -> Same(r.x, RMerge(a.a, a.b, RecTab[Log2(2 * Len(a.a))], Q), "not the merged transform")
Step(sess, s, e) == [st |-> s, why |-> TLCEval(Verdict(s, e))]
Init == TInit(InitSt)
Next == TNext(Step)
=============================================================================
