----------------------------- MODULE KleinTrace -----------------------------
(* Recorded signatures against the sampler of Klein.tla. *)
EXTENDS Klein, TraceCheck
KeyOfEv(a) == [f |-> a.f, g |-> a.g, F |-> a.F, G |-> a.G]
\* small degrees by the definition, others by the tower
ZOne(k, hm, src) == IF Len(k.f) <= 4 THEN KleinZ(k, hm, src) ELSE TowerZ(TLCEval(Basis(k)), hm, src)
SignWhy(a, r) ==
  LET k == KeyOfEv(a)
      o == TLCEval(Attempts(k, TLCEval(Basis(k)), a.hm, ShakeStart(a.seed), 60)) IN
  IF r.bad # <<>> THEN r.bad[1]
  ELSE IF o.how # "ok" THEN ""
  ELSE IF r.next # o.next THEN "another number of attempts"
  ELSE IF r.s2 # o.v.s2 THEN "another lattice point than the sampler's"
  ELSE IF r.s1 # o.v.s1 THEN "the first half does not belong to the second" ELSE ""
PreWhy(a, r) ==
  LET k == KeyOfEv(a)
      o == TLCEval(ZOne(k, a.hm, IF a.how = "seed" THEN Shaked(a.n, a.seed) ELSE Taped(a.n, a.seed)))
      v == TLCEval(ShortOf(k, a.hm, o)) IN
  IF o.src.how # "ok" THEN ""
  ELSE IF <<r.s1, r.s2>> # <<v.s1, v.s2>> THEN "another lattice point than the sampler's"
  ELSE IF a.how = "tape" /\ r.used # o.src.pos THEN "consumes other random bytes" ELSE ""
Verdict(s, e) ==
  IF e.op = "harness" THEN "the harness could not drive the code: " \o e.x
  ELSE IF e.x # "" THEN e.op \o " did not return: " \o e.x
  ELSE CASE e.op = "sign" -> SignWhy(e.a, e.r) [] e.op = "pre" -> PreWhy(e.a, e.r)
Step(sess, s, e) == [st |-> s, why |-> Verdict(s, e)]
InitSt(sess) == [k |-> 0]
Init == TInit(InitSt)
Next == TNext(Step)
=============================================================================
