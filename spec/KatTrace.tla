------------------------------ MODULE KatTrace ------------------------------
(* Known-answer files and test contracts written by the Python tools. *)
EXTENDS Evm, KatFile, TraceCheck
Ascii(s) == s   \* names below are byte sequences
KCount == <<99, 111, 117, 110, 116>>
KSeed == <<115, 101, 101, 100>>
KMlen == <<109, 108, 101, 110>>
KMsg == <<109, 115, 103>>
KPk == <<112, 107>>
KSk == <<115, 107>>
KSmlen == <<115, 109, 108, 101, 110>>
KSm == <<115, 109>>
Vecs(how, t) == LET ls == TLCEval(LinesOf(t)) IN TLCEval(Scan(how, ls, KCount))
\* of a request only these fields are kept
Kept(v) == SelectSeq(v, LAMBDA p : p[1] \in {KCount, KSeed, KMlen, KMsg})
ParseWhy(a, r) ==
  LET v == TLCEval(Vecs(a.how, a.text)) IN
  IF SameVectors(IF a.how = "req" THEN [i \in 1..Len(v) |-> Kept(v[i])] ELSE v, r.vecs) THEN "" ELSE "another reading of the file"
C == INSTANCE SignedMsg
VecWhy(req, v) ==
  IF \E k \in {KCount, KSeed, KMlen, KMsg, KPk, KSk, KSmlen, KSm} : ~Named(v, k) THEN "a field is missing"
  ELSE IF ~IsDec(Get(v, KCount)) \/ UnDec(Get(v, KCount)) # req.count THEN "another vector's number"
  ELSE IF Get(v, KSeed) # req.seed THEN "another seed"
  ELSE IF \E k \in {KMsg, KPk, KSk, KSm} : ~IsHex(Get(v, k)) THEN "not hexadecimal"
  ELSE IF UnHex(Get(v, KMsg)) # req.m \/ Get(v, KMlen) # Get(req.fields, KMlen) THEN "another message"
  ELSE IF UnHex(Get(v, KPk)) # req.pk \/ UnHex(Get(v, KSk)) # req.sk THEN "another key"
  ELSE LET sm == TLCEval(UnHex(Get(v, KSm)))  o == TLCEval(C!Open("std", "keccak", sm, req.pk)) IN
  IF ~IsDec(Get(v, KSmlen)) \/ UnDec(Get(v, KSmlen)) # Len(sm) THEN "wrong length field"
  ELSE IF ~o.ok THEN "the signed message does not open"
  ELSE IF o.m # req.m THEN "the signed message carries another message" ELSE ""
RspWhy(a, r) ==
  IF a.bad # "" THEN IF r.ok THEN "accepted vectors that do not belong together: " \o a.bad ELSE ""
  ELSE IF ~r.ok THEN "no file: " \o r.err
  ELSE IF r.again # r.text THEN "another file the second time"
  ELSE LET q == TLCEval(Vecs("req", a.text))  v == TLCEval(Vecs("rsp", r.text)) IN
  IF Len(v) # Len(q) THEN "another number of vectors"
  ELSE LET w == TLCEval([i \in 1..Len(v) |->
                 VecWhy([fields |-> q[i], count |-> UnDec(Get(q[i], KCount)), seed |-> Get(q[i], KSeed), m |-> UnHex(Get(q[i], KMsg)),
                         pk |-> a.keys[i].pk, sk |-> a.keys[i].sk], v[i])])
           b == SelectSeq(w, LAMBDA x : x # "") IN
       IF b = <<>> THEN "" ELSE b[1]
PkWhy(a, r) == IF r.pk = <<9>> \o ModqEncode([i \in 1..Len(a.h) |-> ModQ(a.h[i])], 14) THEN "" ELSE "wrong public key encoding"
SkWhy(a, r) ==
  LET s == a.sk
      f == TLCEval(TrimDecode(Slice(s, 1, 384), 512, 6))  g == TLCEval(TrimDecode(Slice(s, 385, 384), 512, 6))
      F == TLCEval(TrimDecode(Slice(s, 769, 512), 512, 8))
      o == TLCEval(C!SkParse(s)) IN
  IF s[1] # 89 \/ ~(f.ok /\ g.ok /\ F.ok) THEN IF r.ok THEN "accepted a private key that is not one" ELSE ""
  ELSE IF o.ok THEN IF ~r.ok THEN "refused a private key" ELSE
       IF <<r.f, r.g, r.F, r.G>> = <<o.f, o.g, o.F, o.G>> THEN "" ELSE "another private key"
  ELSE IF r.ok /\ \A i \in 1..512 : r.G[i] \in (0 - 127)..127 THEN "accepted a private key that is not one" ELSE ""
(* what the test contracts contain *)
SuiteWhy(a, r) ==
  LET x == IF a.eth THEN "ethfalcon" ELSE "falcon"  y == IF a.eth THEN "ethepervier" ELSE "epervier"
      One(v) ==
        CASE a.kind = "falcon" -> IF SolValid(x, v.salt, v.m, v.s2, v.pk) THEN "" ELSE "a vector that does not verify"
          [] a.kind = "core" -> IF v.hash # SolPoint(x, v.salt, v.m) THEN "a point of another message"
                                ELSE IF SolValid(x, v.salt, v.m, v.s2, v.pk) THEN "" ELSE "a vector that does not verify"
          [] a.kind = "hash" -> IF v.hash # SolPoint(x, v.salt, v.m) THEN "a point of another message" ELSE ""
          [] a.kind = "epervier" -> IF SolRecover(y, v.salt, v.m, v.s1, v.s2, [i \in 1..16 |-> IF i = 1 THEN v.hint ELSE 0]) # v.address
                                    THEN "a vector that recovers another address" ELSE ""
      w == TLCEval([i \in 1..Len(r.vecs) |-> TLCEval(One(r.vecs[i]))])
      b == SelectSeq(w, LAMBDA z : z # "") IN
  IF r.vecs = <<>> THEN "no vectors" ELSE IF b = <<>> THEN "" ELSE b[1]
Verdict(s, e) ==
  IF e.op = "harness" THEN "the harness could not drive the code: " \o e.x
  ELSE IF e.x # "" THEN e.op \o " did not return: " \o e.x
  ELSE CASE e.op = "parse" -> ParseWhy(e.a, e.r) [] e.op = "rsp" -> RspWhy(e.a, e.r)
         [] e.op = "pkenc" -> PkWhy(e.a, e.r) [] e.op = "skdec" -> SkWhy(e.a, e.r) [] e.op = "suite" -> SuiteWhy(e.a, e.r)
Step(sess, s, e) == [st |-> s, why |-> Verdict(s, e)]
InitSt(sess) == [k |-> 0]
Init == TInit(InitSt)
Next == TNext(Step)
=============================================================================
