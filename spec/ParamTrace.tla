----------------------------- MODULE ParamTrace -----------------------------
(* Recorded parameter sets against Params.tla. *)
EXTENDS Params, Poly, TraceCheck
InitSt(sess) == 0
Lengths == <<44, 47, 52, 63, 82, 122, 200, 356, 666, 1280>>
Why(c, w) == IF c THEN "" ELSE w
First(ws) == FoldLeft(LAMBDA a, w : IF a # "" THEN a ELSE w, "", ws)
Near(b, v, bits) == IsFinite(b) /\ Rel(Dec(b), v, bits)
\* the table a program works with
TableWhy(a, r) ==
  LET k == Log2(a.n) IN
  First(<< Why(Near(r.sigma, SigmaOf(a.n), 49), "sigma"), Why(Near(r.sigmin, SigMin(a.n), 49), "sigmin"),
           Why(r.bound = L2Bound[k], "squared bound"), Why(r.len = Lengths[k], "length of a signature"), Why(r.n = a.n, "degree") >>)
\* the derivation
Taken(v) == IF RNear(v, MaxLeaf, RS - 40) THEN "either" ELSE IF RLe(v, MaxLeaf) THEN "yes" ELSE "no"
Core(b) == <<(b * 292) \div 1000, (b * 265) \div 1000>>
Bkz(found(_), b) == found(b) /\ b >= 100 /\ \A x \in Before(b) : ~found(x)
\* the square root is rounded down: not to be told apart at a whole number
FloorIs(i, x) == i = FloorOf(x) \/ RNear(x, RInt(i), RS - 30) \/ RNear(x, RInt(i + 1), RS - 30)
DerivedWhy(a, r) ==
  LET n == a.n
      sm == TLCEval(SmoothOf(2 * n, a.bits))
      t == TLCEval(Taken(LeafOf(sm)))
  IN IF t = "either" THEN ""
     ELSE IF t = "no" THEN Why(r.refused, "a set with too large leaves was not refused")
     ELSE IF r.refused THEN "a sound set was refused"
     ELSE LET B == TLCEval(FloorOf(TailOf(n, sm))) IN
     First(<< Why(r.ints[1] = n /\ r.ints[2] = 12289, "degree or modulus"),
              Why(Near(r.gs, GsNorm, 49), "norm of the basis"), Why(Near(r.sigmin, sm, 46), "sigmin"),
              Why(Near(r.sigma, RMul(GsNorm, sm), 46), "sigma"), Why(Near(r.sigmax, MaxLeaf, 50), "sigmax"),
              Why(Near(r.tau, RRat(11, 10), 50), "tail cut"), Why(Near(r.rej, RejectOf(n), 34), "rejection rate"),
              Why(FloorIs(r.ints[3], TailOf(n, sm)), "bound"),
              Why(FloorIs(r.ints[4], TailSq(n, sm)), "squared bound"),
              Why(r.ints[5] = Lengths[Log2(n)], "length of a signature"),
              Why(r.ints[6] = a.bits, "aimed level"),
              Why(r.ints[7] = 87067565 \div (1024 \div n), "former squared bound"),
              Why(Bkz(LAMBDA b : KeyFound(n, b), r.key[1]), "block size of key recovery"),
              Why(r.key[2] = r.key[1] - ForFree(r.key[1]), "dimensions for free of key recovery"),
              Why(Bkz(LAMBDA b : ForgeFound(n, B, b), r.forge[1]), "block size of forgery"),
              Why(r.forge[2] = r.forge[1] - ForFree(r.forge[1]), "dimensions for free of forgery"),
              Why(<<r.key[3], r.key[4]>> = Core(r.key[1]) /\ <<r.key[5], r.key[6]>> = Core(r.key[2]), "hardness of key recovery"),
              Why(<<r.forge[3], r.forge[4]>> = Core(r.forge[1]) /\ <<r.forge[5], r.forge[6]>> = Core(r.forge[2]), "hardness of forgery") >>)
\* smoothing parameter of Z^m at 1 / eps
SmoothWhy(a, r) ==
  LET ln == TLCEval(RLnR(ZMul(ZInt(2 * a.m), ZAdd(RInt(1), RRat(a.den, a.num))))) IN
  Why(Near(r.y, IF a.norm THEN RDiv(RSqrt(RDivI(ln, 2)), RPi) ELSE RSqrt(RDiv(ln, RPi)), 46), "smoothing parameter")
Verdict(e) ==
  IF e.op = "harness" THEN "the harness could not drive the code: " \o e.x
  ELSE IF e.x # "" THEN e.op \o " did not return: " \o e.x
  ELSE CASE e.op = "table" -> TableWhy(e.a, e.r)
         [] e.op = "derived" -> DerivedWhy(e.a, e.r)
         [] e.op = "smooth" -> SmoothWhy(e.a, e.r)
Step(sess, s0, e) == [st |-> s0 + 1, why |-> Verdict(e)]
Init == TInit(InitSt)
Next == TNext(Step)
=============================================================================
