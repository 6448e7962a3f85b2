---------------------------- MODULE InteropTrace ----------------------------
(***************************************************************************)
(* The C and the Python implementation side by side, degree 512: the same  *)
(* key, message and randomness.  made holds the vectors signing produced;  *)
(* a C signature is the Python one unless it needs more room than Python   *)
(* allows.                                                                 *)
(***************************************************************************)
EXTENDS SignedMsg, PySigned, Gauss, TraceCheck
InitSt(sess) == [made |-> <<>>]
Body == 625
Fits(s2) == Len(CompBytes(s2)) <= Body
\* who \in {"std", "zk", "py"}
Other(s, k, s2, who) ==
  \E i \in 1..Len(s.made) : /\ s.made[i].k = k
                            /\ s.made[i].s2 # s2
                            /\ ~(s.made[i].who = "py" /\ who # "py" /\ ~Fits(s2))
                            /\ ~(who = "py" /\ s.made[i].who # "py" /\ ~Fits(s.made[i].s2))
Key(a) == <<a.xof, a.f, a.g, a.tape, a.m>>
Add(s, a, s2, who) == [s EXCEPT !.made = Append(@, [k |-> Key(a), s2 |-> s2, who |-> who])]
H(a) == TLCEval(Quot(a.g, a.f))
CSign(s, a, r) ==
  LET e == TLCEval(IF r.rc = 0 THEN Envelope(r.sm) ELSE [ok |-> FALSE]) IN
  IF r.rc # 0 THEN [st |-> s, why |-> "C signing failed"]
  ELSE IF ~e.ok \/ e.nonce # Slice(a.tape, 0, 40) \/ e.m # a.m THEN [st |-> s, why |-> "wrong envelope"]
  ELSE LET g == TLCEval(SigParse(a.v, e.esig)) IN
  IF ~g.ok THEN [st |-> s, why |-> "malformed signature"]
  ELSE IF ~ValidSig(a.v, TLCEval(PointOf(a.xof, e.nonce, a.m, N).x), g, Ntt(H(a)))
  THEN [st |-> s, why |-> "the C signature is not valid"]
  ELSE [st |-> Add(s, a, g.s2, a.v),
        why |-> IF Other(s, Key(a), g.s2, a.v) THEN "C and Python sign differently" ELSE ""]
PSign(s, a, r) ==
  LET g == TLCEval(PyParse("falcon", N, r.sig)) IN
  IF ~g.ok \/ g.salt # Slice(a.tape, 0, 40) THEN [st |-> s, why |-> "malformed signature"]
  ELSE IF ~FalconValid(N, H(a), a.m, r.sig, a.xof) THEN [st |-> s, why |-> "the Python signature is not valid"]
  ELSE [st |-> Add(s, a, g.s2, "py"),
        why |-> IF Other(s, Key(a), g.s2, "py") THEN "C and Python sign differently" ELSE ""]
\* a signature of one implementation given to the other
PVerify(a, r) ==
  LET v == TLCEval(FalconValid(N, a.h, a.m, a.sig, a.xof)) IN
  IF v = r.ok THEN "" ELSE IF v THEN "Python refuses a valid C signature" ELSE "Python accepts an invalid C signature"
COpen(a, r) ==
  LET o == TLCEval(Open(a.v, a.xof, a.sm, a.pk)) IN
  IF o.ok # (r.rc = 0) THEN (IF o.ok THEN "C refuses a valid Python signature" ELSE "C accepts an invalid Python signature")
  ELSE IF o.ok /\ r.m # o.m THEN "another message was returned" ELSE ""
FromBytes(a, r) ==
  LET p == TLCEval(PkParse("std", a.pk)) IN
  IF p.ok # r.ok THEN "Python does not read C public keys as they are meant"
  ELSE IF p.ok /\ r.h # p.x THEN "Python reads another public key" ELSE ""
\* key generation from one seed: the Python generator has fewer reasons to
\* refuse a candidate, so it stops at the same one or earlier
RECURSIVE PairPos(_, _, _, _, _, _)
PairPos(sp, buf, f, g, k, left) ==
  LET n == Len(f)
      a == TLCEval(GaussPoly(buf, 0, n))
      b == TLCEval(IF a.pos >= 0 THEN GaussPoly(buf, a.pos, n) ELSE a)
  IN IF b.pos < 0
     THEN LET s == TLCEval(SqueezeN(sp.blk, sp.pos, 34000, <<>>)) IN
          PairPos([blk |-> s.blk, pos |-> s.pos], TLCEval(buf \o s.out), f, g, k, left)
     ELSE IF a.f = f /\ b.f = g THEN k
     ELSE IF left = 0 THEN 0 - 1
     ELSE PairPos(sp, TLCEval(Slice(buf, b.pos, Len(buf) - b.pos)), f, g, k + 1, left - 1)
KeysWhy(a, r) ==
  LET sp == TLCEval(ShakeStart(a.seed))
      p == TLCEval(PairPos(sp, <<>>, r.p.f, r.p.g, 0, 600))
      c == TLCEval(IF <<r.c.f, r.c.g>> = <<r.p.f, r.p.g>> THEN p ELSE PairPos(sp, <<>>, r.c.f, r.c.g, 0, 600)) IN
  IF p < 0 THEN "Python takes f and g from elsewhere"
  ELSE IF c < 0 THEN "C takes f and g from elsewhere"
  ELSE IF p > c THEN "Python refuses a key that C accepts"
  ELSE IF p = c /\ (r.p # r.c) THEN "C and Python complete the key differently" ELSE ""
(***************************************************************************)
(* The signing engines at any degree.  Each attempt takes the next 56      *)
(* bytes of the stream of the seed; attempts that are too long (or, in     *)
(* Python, do not fit) are dropped, so all engines end with the same       *)
(* attempt unless its encoding does not fit, or a centre was so near an     *)
(* integer (near) that the engines may round it down differently.           *)
(***************************************************************************)
MaxTries == 40
AtAttempt(seed, b) ==
  LET x == TLCEval(SqueezeN(ShakeStart(seed).blk, ShakeStart(seed).pos, 56 * MaxTries + 8, <<>>).out) IN
  \E k \in 1..MaxTries : Slice(x, 56 * k, 8) = b
EngineWhy(a, c) ==
  LET n == a.n IN
  IF c.bad # <<>> THEN c.bad[1]
  ELSE IF Len(c.s1) # n \/ Len(c.s2) # n THEN "wrong degree"
  ELSE IF c.s1 # S1Of(Point2(a.xof, a.salt, a.m, n), c.s2, H(a)) \/ ~IsShort(c.s1, c.s2)
  THEN "the engine returned an invalid signature"
  ELSE IF ~AtAttempt(a.seed, c.next) THEN "the engine did not take 56 bytes for each attempt" ELSE ""
SgnWhy(a, r) ==
  LET n == a.n
      w == TLCEval(EngineWhy(a, r.c))
      p == TLCEval(PyParse("falcon", n, r.sig)) IN
  IF w # "" THEN w
  ELSE IF r.t # r.c THEN "the expanded key signs differently"
  ELSE IF ~p.ok \/ p.salt # a.salt THEN "malformed signature"
  ELSE IF ~r.near /\ p.s2 # r.c.s2 /\ Len(CompBytes(r.c.s2)) <= BodyLen("falcon", n) THEN "C and Python sign differently"
  ELSE IF p.s2 # r.c.s2 /\ ~FalconValid(n, H(a), a.m, r.sig, a.xof) THEN "the Python signature is not valid"
  ELSE ""
W(s, w) == [st |-> s, why |-> w]
Step(sess, s, e) ==
  IF e.op = "harness" THEN W(s, "the harness could not drive the code: " \o e.x)
  ELSE IF e.x # "" THEN W(s, e.op \o " did not return: " \o e.x)
  ELSE CASE e.op = "csign" -> CSign(s, e.a, e.r)
         [] e.op = "psign" -> PSign(s, e.a, e.r)
         [] e.op = "pverify" -> W(s, PVerify(e.a, e.r))
         [] e.op = "copen" -> W(s, COpen(e.a, e.r))
         [] e.op = "frombytes" -> W(s, FromBytes(e.a, e.r))
         [] e.op = "sgn" -> W(s, SgnWhy(e.a, e.r))
         [] e.op = "keys" -> W(s, KeysWhy(e.a, e.r))
Init == TInit(InitSt)
Next == TNext(Step)
=============================================================================
