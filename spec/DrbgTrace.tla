------------------------------ MODULE DrbgTrace ------------------------------
(* Recorded calls of the random generators against Drbg.tla; instances c = 1, 2. *)
EXTENDS Drbg, TraceCheck
InitSt(sess) == << <<>>, <<>> >>
Ret(s, c, g, w) == [st |-> [s EXCEPT ![c] = g], why |-> w]
Same(s, w) == [st |-> s, why |-> w]
If(cond, w) == IF cond THEN "" ELSE w
Do(s, e) ==
  LET a == e.a  r == e.r  c == a.c  g == s[c] IN
  CASE e.op = "dr_init" ->
         IF Len(a.entropy) # 48 \/ Len(a.pers) > 48 THEN Same(s, If(~r.ok, "bad seed material was accepted"))
         ELSE Ret(s, c, TLCEval(DrInit(a.entropy, a.pers)), If(r.ok, "initialisation refused"))
    [] e.op = "dr_gen" ->
         IF Len(a.add) > 48 THEN Same(s, If(~r.ok, "oversized additional input was accepted"))
         ELSE LET x == TLCEval(DrGen(g, a.n, a.add)) IN
              Ret(s, c, x.d, If(r.ok /\ r.out = x.out /\ r.bad = <<>>, "wrong DRBG output"))
    [] e.op = "dr_update" ->
         LET x == TLCEval(DrUpdate([K |-> a.key, V |-> a.v], IF a.data = <<>> THEN Zeros(48) ELSE a.data)) IN
         Same(s, If(r.key = x.K /\ r.v = x.V, "wrong DRBG update"))
    [] e.op = "sx_init" ->
         IF a.toolong THEN Same(s, If(r.rc # 0, "an excessive length was accepted"))
         ELSE Ret(s, c, SxInit(a.seed, a.div, a.maxlen, a.be), If(r.rc = 0, "initialisation refused"))
    [] e.op = "sx" ->
         IF a.n >= g.left THEN Same(s, If(r.rc # 0 /\ r.touched = 0, "more than the announced length was given out"))
         ELSE Ret(s, c, [g EXCEPT !.left = g.left - a.n, !.used = g.used + a.n],
                  If(r.rc = 0 /\ r.out = SxOut(g, a.n) /\ r.bad = <<>>, "wrong seed expander output"))
    [] e.op = "cc_init" -> Ret(s, c, TLCEval(CcInit(a.seed)), "")
    [] e.op = "pc_init" -> Ret(s, c, TLCEval(PcInit(a.seed)), "")
    [] e.op = "u64" -> LET x == TLCEval(CcU64(g)) IN Ret(s, c, x.g, If(r.out = x.out, "wrong 64-bit value"))
    [] e.op = "u8" -> LET x == TLCEval(CcU8(g)) IN Ret(s, c, x.g, If(r.out = x.out, "wrong byte"))
    [] e.op = "bytes" -> LET x == TLCEval(CcBytes(g, a.n)) IN
                         Ret(s, c, x.g, If(r.out = x.out /\ r.bad = <<>>, "wrong bytes"))
    [] e.op = "pbytes" -> LET x == TLCEval(PcBytes(g, a.n)) IN Ret(s, c, x.g, If(r.out = x.out, "wrong bytes"))
Step(sess, s, e) ==
  IF e.op = "harness" THEN Same(s, "the harness could not drive the code: " \o e.x)
  ELSE IF e.x # "" THEN Same(s, e.op \o " did not return: " \o e.x)
  ELSE Do(s, e)
Init == TInit(InitSt)
Next == TNext(Step)
=============================================================================
