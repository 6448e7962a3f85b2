------------------------------- MODULE Sponge -------------------------------
(* The streaming sponge: phases and exact output.                          *)
EXTENDS Keccak
Ok(s) == [st |-> s, why |-> ""]
Bad(s, w) == [st |-> s, why |-> w]
Chk(s, cond, w) == [st |-> s, why |-> IF cond THEN "" ELSE w]

----------------------------------------------------------------------------
(* sponge *)
SpInit == [ph |-> "new", msg |-> <<>>, rate |-> 136, ds |-> 31, blk |-> KZero, pos |-> 0]
RECURSIVE SqueezeR(_, _, _, _, _)
SqueezeR(rate, blk, pos, n, acc) ==
  IF n = 0 THEN [blk |-> blk, pos |-> pos, out |-> acc]
  ELSE IF pos = rate THEN SqueezeR(rate, KeccakF(blk), 0, n, acc)
  ELSE LET k == Min2(n, rate - pos) IN
       SqueezeR(rate, blk, pos + k, n - k, TLCEval(acc \o StateBytes(blk, pos, k)))
SpongeStep(s0, e) ==
  CASE e.op = "init" ->
         Ok([SpInit EXCEPT !.ph = "absorb", !.rate = e.a.rate, !.ds = e.a.ds, !.msg = e.a.m])
    [] e.op = "inject" -> Ok([s0 EXCEPT !.msg = TLCEval(s0.msg \o e.a.m)])
    [] e.op = "flip" -> Ok([s0 EXCEPT !.ph = "squeeze", !.blk = Absorb(s0.msg, s0.rate, s0.ds), !.pos = 0])
    [] e.op = "extract" ->
         LET r == SqueezeR(s0.rate, s0.blk, s0.pos, e.a.n, <<>>) IN
         Chk([s0 EXCEPT !.blk = r.blk, !.pos = r.pos], e.r.out = r.out /\ e.r.bad = <<>>, "extract: wrong stream bytes")
    [] OTHER -> Bad(s0, "unknown operation")
=============================================================================
