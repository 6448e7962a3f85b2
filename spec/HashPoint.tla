------------------------------ MODULE HashPoint ------------------------------
(* Recorded hash-to-point calls against H2p.tla. *)
EXTENDS H2p, TraceCheck
InitSt(sess) == 0
Why(c, w) == IF c THEN "" ELSE w
\* the eight bytes of the stream after those consumed
After(p, m) == StateBytes(FoldLeft(LAMBDA a, i : KeccakF(a), Absorb(m, 136, 31), [i \in 1..(p \div 136) |-> i]), p % 136, 2)
Verdict(e) ==
  IF e.op = "harness" THEN "the harness could not drive the code: " \o e.x
  ELSE IF e.x # "" THEN e.op \o " did not return: " \o e.x
  ELSE LET a == e.a IN
  IF e.op = "forced"                    \* a stream chosen by the harness
  THEN IF a.who = "ct" /\ Len(a.w) # a.n + Oversampling[Log2(a.n)] THEN "the harness could not drive the code: not a stream of the stated length"
       ELSE IF e.r.x # PointIn(a.w, a.n) THEN "wrong point" ELSE Why(e.r.bad = <<>>, "wrote outside its buffers")
  ELSE IF TooLong(a.xof, a.nonce, a.m)
  THEN Why(e.r.refused, "input the generator cannot hold was not refused")
  ELSE IF e.r.refused THEN "input within the capacity was refused"
  ELSE LET p == PointOf(a.xof, a.nonce, a.m, a.n) IN
       IF e.r.x # p.x THEN "wrong point"
       ELSE IF e.r.bad # <<>> THEN "wrote outside its buffers"
       ELSE IF e.r.next = <<>> THEN ""
       ELSE Why(e.r.next = After(p.used, a.nonce \o a.m), "stream not left at the first unread byte")
Step(sess, s0, e) == [st |-> s0 + 1, why |-> Verdict(e)]
Init == TInit(InitSt)
Next == TNext(Step)
=============================================================================
