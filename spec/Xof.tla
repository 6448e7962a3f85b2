--------------------------------- MODULE Xof ---------------------------------
(***************************************************************************)
(* Specification of the extendable-output and counter-mode generators and  *)
(* of the digests, and validation of recorded call sequences against them. *)
(* A session drives up to two instances; every event names its instance c. *)
(***************************************************************************)
EXTENDS Keccak, Blake2s, Sponge, TraceCheck

----------------------------------------------------------------------------
(* counter generator; h = 0: Keccak-256, h = 1: BLAKE2s.  Byte p of the     *)
(* stream is byte p mod 32 of H(key || BE64(p div 32)).                     *)
CtInit(h, cap) == [ph |-> "new", h |-> h, cap |-> cap, buf |-> <<>>, key |-> <<>>, pos |-> 0,
                   bn |-> -1, blk |-> <<>>]
HashOf(h, m) == IF h = 0 THEN Keccak256(m) ELSE Blake2sN(m, 32)
RECURSIVE CtDraw(_, _, _)
CtDraw(s, n, acc) ==
  IF n = 0 THEN [s |-> s, out |-> acc]
  ELSE IF s.bn # s.pos \div 32
       THEN CtDraw([s EXCEPT !.bn = s.pos \div 32, !.blk = HashOf(s.h, s.key \o BE64(s.pos \div 32))], n, acc)
  ELSE LET o == s.pos % 32
           k == Min2(n, 32 - o) IN
       CtDraw([s EXCEPT !.pos = s.pos + k], n - k, TLCEval(acc \o Slice(s.blk, o, k)))
CtrStep(s0, e) ==
  CASE e.op = "init" -> Chk([CtInit(s0.h, s0.cap) EXCEPT !.ph = "fill"], e.r.st = "ok", "init refused")
    [] e.op = "inject" ->
         IF s0.ph = "draw" THEN Chk(s0, e.r.st = "late", "inject after flip not refused")
         ELSE IF Len(s0.buf) + Len(e.a.m) > s0.cap THEN Chk(s0, e.r.st = "full", "oversized input not refused")
         ELSE Chk([s0 EXCEPT !.buf = TLCEval(s0.buf \o e.a.m)], e.r.st = "ok", "fitting input refused")
    [] e.op = "flip" ->
         IF s0.ph = "draw" THEN Chk(s0, e.r.st = "late", "second flip not refused")
         ELSE Chk([s0 EXCEPT !.ph = "draw", !.key = HashOf(s0.h, s0.buf)], e.r.st = "ok", "flip refused")
    [] e.op = "extract" ->
         IF s0.ph # "draw" THEN Chk(s0, e.r.st = "early" /\ e.r.out = <<>>, "extract before flip not refused")
         ELSE LET d == CtDraw(s0, e.a.n, <<>>) IN
              Chk(d.s, e.r.st = "ok" /\ e.r.out = d.out /\ e.r.bad = <<>>, "extract: wrong stream bytes")
    [] e.op = "skip" ->       \* draws n bytes, the last k of which were recorded
         LET s1 == [s0 EXCEPT !.pos = s0.pos + e.a.n - e.a.k]
             d == CtDraw(s1, e.a.k, <<>>) IN
         Chk(d.s, e.r.st = "ok" /\ e.r.out = d.out /\ e.r.bad = <<>>, "extract: wrong stream bytes after a long draw")
    [] OTHER -> Bad(s0, "unknown operation")

----------------------------------------------------------------------------
(* the hash-chain generator: blocks H(in), H(H(in)), ...                    *)
ChInit == [ph |-> "new", msg |-> <<>>, last |-> <<>>, rest |-> <<>>]
RECURSIVE ChDraw(_, _, _)
ChDraw(s, n, acc) ==
  IF n <= Len(s.rest) THEN [s |-> [s EXCEPT !.rest = Drop(s.rest, n)], out |-> acc \o Take(s.rest, n)]
  ELSE LET b == Keccak256(s.last) IN ChDraw([s EXCEPT !.last = b, !.rest = s.rest \o b], n, acc)
ChainStep(s0, e) ==
  CASE e.op = "init" -> Ok([ChInit EXCEPT !.ph = "fill"])
    [] e.op = "inject" -> IF s0.ph = "draw" THEN Chk(s0, e.r.st = "late", "update after read not refused")
                          ELSE Chk([s0 EXCEPT !.msg = s0.msg \o e.a.m], e.r.st = "ok", "update refused")
    [] e.op = "flip" -> Ok(s0)
    [] e.op = "extract" ->
         LET b == Keccak256(s0.msg)
             s1 == IF s0.ph = "draw" THEN s0 ELSE [s0 EXCEPT !.ph = "draw", !.last = b, !.rest = b]
             d == ChDraw(s1, e.a.n, <<>>) IN
         IF Len(e.r.out) # e.a.n THEN Bad(s0, "read: wrong number of bytes")
         ELSE Chk(d.s, e.r.st = "ok" /\ e.r.out = d.out, "read: wrong stream bytes")
    [] OTHER -> Bad(s0, "unknown operation")

----------------------------------------------------------------------------
(* digests, one-shot and incremental *)
(* the hash of field elements (32-byte little-endian numbers): each is      *)
(* reduced, laid out as 2 or 8 words, hashed, and the digest reduced        *)
PRIME == <<1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,17,0,0,0,0,0,0,8>>
RECURSIVE GeF(_, _, _)
GeF(a, b, i) == IF i = 0 THEN TRUE ELSE IF a[i] # b[i] THEN a[i] > b[i] ELSE GeF(a, b, i - 1)
RECURSIVE SubF(_, _, _, _, _)
SubF(a, b, i, br, acc) ==
  IF i > Len(a) THEN acc
  ELSE LET d == a[i] - b[i] - br IN
       SubF(a, b, i + 1, IF d < 0 THEN 1 ELSE 0, Append(acc, IF d < 0 THEN d + 256 ELSE d))
RECURSIVE ModP(_)
ModP(a) == IF GeF(a, PRIME, 32) THEN ModP(TLCEval(SubF(a, PRIME, 1, 0, <<>>))) ELSE a
RevWords(b) == Concat([i \in 1..(Len(b) \div 4) |-> Slice(b, Len(b) - (4 * i), 4)])
FeltBytes(f, enc, le) ==
  LET v == ModP(f)
      small == enc /\ (\A i \in 9..32 : v[i] = 0) /\ v[8] < 128
      b == IF small THEN Take(v, 8) ELSE IF enc THEN [v EXCEPT ![32] = v[32] + 128] ELSE v
  IN IF le THEN b ELSE RevWords(b)
FeltHash(fs, enc, le) == ModP(Blake2sN(Concat([i \in 1..Len(fs) |-> FeltBytes(fs[i], enc, le)]), 32))

DgInit == [msg |-> <<>>]
DigestStep(s0, e) ==
  CASE e.op = "keccak256" -> Chk(s0, e.r.out = Keccak256(e.a.m) /\ e.r.bad = <<>>, "wrong Keccak-256 digest")
    [] e.op = "kinit" -> Ok(DgInit)
    [] e.op = "kupdate" -> Ok([s0 EXCEPT !.msg = TLCEval(s0.msg \o e.a.m)])
    [] e.op = "kfinal" -> Chk(s0, e.r.out = Keccak256(s0.msg) /\ e.r.bad = <<>>, "wrong incremental Keccak-256 digest")
    [] e.op = "blake2s" -> Chk(s0, e.r.out = Blake2sN(e.a.m, 32), "wrong BLAKE2s digest")
    [] e.op = "felts" -> Chk(s0, e.r.out = FeltHash(e.a.f, e.a.enc, e.a.le), "wrong BLAKE2s hash of field elements")
    [] OTHER -> Bad(s0, "unknown operation")

----------------------------------------------------------------------------
Init1(sess) == CASE sess.kind = "shake" -> SpInit
                 [] sess.kind = "kprng" -> CtInit(0, 4096)
                 [] sess.kind = "b2prng" -> CtInit(1, 1024)
                 [] sess.kind = "chain" -> ChInit
                 [] OTHER -> DgInit
InitSt(sess) == <<Init1(sess), Init1(sess)>>
Step1(sess, s0, e) ==
  CASE sess.kind = "shake" -> SpongeStep(s0, e)
    [] sess.kind \in {"kprng", "b2prng"} -> CtrStep(s0, e)
    [] sess.kind = "chain" -> ChainStep(s0, e)
    [] OTHER -> DigestStep(s0, e)
Step(sess, s0, e) ==
  IF e.op = "harness" THEN Bad(s0, "the harness could not drive the code: " \o e.x)
  ELSE IF e.x # "" THEN Bad(s0, e.op \o " did not return: " \o e.x)
  ELSE LET r == Step1(sess, s0[e.a.c], e) IN
       [st |-> [s0 EXCEPT ![e.a.c] = r.st], why |-> r.why]
Init == TInit(InitSt)
Next == TNext(Step)
=============================================================================
