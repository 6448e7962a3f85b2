--------------------------- MODULE SamplerTrace -----------------------------
EXTENDS Sampler, TraceCheck
Small31(v) == LET n == FoldLeft(LAMBDA s, i : s * BB + v.m[Len(v.m) + 1 - i], 0, [i \in 1..Len(v.m) |-> i])
              IN IF v.s = 1 THEN 0 - n ELSE n
SampWhy(a, r) ==
  LET mu == TLCEval(Real(Dec(a.mu)))
      fl == TLCEval(ZShr(mu, RS))
      fr == TLCEval(ZSub(mu, ZShl(fl, RS)))
      isg == TLCEval(IF a.impl = "c" THEN Real(Dec(a.sg)) ELSE RDiv(RInt(1), Real(Dec(a.sg))))
      d == TLCEval(RDivI(RMul(isg, isg), 2))
      ccs == TLCEval(RMul(isg, Real(Dec(a.smin))))
      o == TLCEval(Draw(a.tape, 0, Small31(fl), fr, d, ccs, TolBits(a.impl)))
  IN IF o.how # "done" THEN ""
     ELSE IF r.z # o.z THEN "another sample than the distribution gives for these random bytes"
     ELSE IF r.used # o.n THEN "consumes other random bytes" ELSE ""
Verdict(s, e) ==
  IF e.op = "harness" THEN "the harness could not drive the code: " \o e.x
  ELSE IF e.x # "" THEN e.op \o " did not return: " \o e.x
  ELSE CASE e.op = "base" -> IF e.r.used # 9 THEN "the table draw does not take nine bytes"
                             ELSE IF e.r.z # Base(e.a.u) THEN "wrong value of the table draw" ELSE ""
         [] e.op = "samp" -> SampWhy(e.a, e.r)
Step(sess, s, e) == [st |-> s, why |-> Verdict(s, e)]
InitSt(sess) == [k |-> 0]
Init == TInit(InitSt)
Next == TNext(Step)
=============================================================================
