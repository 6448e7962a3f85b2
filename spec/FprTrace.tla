------------------------------ MODULE FprTrace ------------------------------
(***************************************************************************)
(* The floating point that key generation and signing are computed with:    *)
(* binary64, every operation rounded once to the nearest value; its tables  *)
(* and constants; the scaled exponential.                                   *)
(***************************************************************************)
EXTENDS FloatN, Doubles, TraceCheck
Near(z, v) == FIsNear(z, v.s, v.n, v.d, v.k)
OpWhy(a, r) ==
  LET x == TLCEval(Dec(a.x))  y == TLCEval(Dec(a.y))  z == TLCEval(Dec(r.z))  f == a.f
      bad(c) == IF c THEN "" ELSE "fpr_" \o f \o " is not correctly rounded"
      int(v) == IF I64(r.z) = v THEN "" ELSE "fpr_" \o f \o " gives another integer"
  IN CASE f = "add" -> bad(Near(z, ExAdd(x, y)))
       [] f = "sub" -> bad(Near(z, ExAdd(x, FNeg(y))))
       [] f = "mul" -> bad(Near(z, ExMul(x, y)))
       [] f = "sqr" -> bad(Near(z, ExMul(x, x)))
       [] f = "div" -> bad(Near(z, ExDiv(x, y)))
       [] f = "inv" -> bad(Near(z, ExDiv([s |-> 0, m |-> BPow2(52), e |-> 0 - 52], x)))
       [] f = "sqrt" -> bad(FIsNearSqrt(z, x.m, <<1>>, x.e))
       [] f = "half" -> bad(IF FIsZero(x) THEN FIsZero(z) ELSE z = [x EXCEPT !.e = x.e - 1])
       [] f = "double" -> bad(z = IF FIsZero(x) THEN x ELSE [x EXCEPT !.e = x.e + 1])
       [] f = "neg" -> bad(z = FNeg(x))
       [] f = "lt" -> IF FIsZero(x) /\ FIsZero(y) THEN ""
                      ELSE IF U64(r.z) = IF FCmp(x, y) < 0 THEN <<1>> ELSE <<>> THEN "" ELSE "fpr_lt compares wrongly"
       [] f = "rint" -> int(FRint(x))
       [] f = "trunc" -> int(FTrunc(x))
       \* minus zero is floored to -1
       [] f = "floor" -> IF x = FZero(1) THEN "" ELSE int(FFloor(x))
       [] f = "of" -> bad(Near(z, [s |-> I64(a.x).s, n |-> I64(a.x).m, d |-> <<1>>, k |-> 0]))
       [] f = "scaled" -> bad(Near(z, [s |-> I64(a.x).s, n |-> I64(a.x).m, d |-> <<1>>, k |-> a.k]))
(***************************************************************************)
(* 2^63 * c * exp(-x) for 0 <= x <= ln 2 and 0 <= c < 1, to 50 bits         *)
(***************************************************************************)
ExpTol == BPow2(13)
ExpWhy(a, r) ==
  LET x == TLCEval(Real(Dec(a.x)))
      v == TLCEval(BShr(RMul(Real(Dec(a.y)), RExp(ZNeg(x))).m, RS - 63))
  IN IF BCmp(ZSub(ZOf(U64(r.z)), ZOf(v)).m, ExpTol) <= 0 THEN "" ELSE "fpr_expm_p63 is off by more than 2^-50"
(***************************************************************************)
(* Tables and constants                                                    *)
(***************************************************************************)
RECURSIVE Rev(_, _)
Rev(k, b) == IF b = 0 THEN 0 ELSE (k % 2) * 2 ^ (b - 1) + Rev(k \div 2, b - 1)
IsZ(x) == FIsZero(x)
NearR(z, v) == Near(z, [s |-> v.s, n |-> v.m, d |-> <<1>>, k |-> 0 - RS])
PiOver1024 == TLCEval(RDivI(RPi, 1024))
RootWhy(a, r) ==
  LET j == Rev(a.i, 10)
      w == TLCEval(RCosSin(ZMul(ZInt(j), PiOver1024)))
      re == TLCEval(Dec(r.re))  im == TLCEval(Dec(r.im))
  IN IF ~(IF j = 512 THEN IsZ(re) ELSE NearR(re, w.c)) \/ ~NearR(im, w.s) THEN "a root of unity is not the nearest" ELSE ""
ConstWhy(a, r) ==
  LET z == TLCEval(Dec(r.z))  n == 2 ^ a.i
      bad(c) == IF c THEN "" ELSE "constant " \o a.c \o " is wrong"
      ex(s, m, k) == bad(z = FScaled([s |-> s, m |-> m], k))
  IN CASE a.c = "q" -> ex(0, BOf(12289), 0)
       [] a.c = "inverse_of_q" -> bad(NearR(z, RRat(1, 12289)))
       [] a.c = "inv_2sqrsigma0" -> bad(Rel(z, RDiv(RInt(1), RMul(RInt(2), RMul(RRat(18205, 10000), RRat(18205, 10000)))), 51))
       [] a.c = "inv_sigma" -> bad(Rel(z, RDiv(RInt(1), SigmaOf(n)), 50))
       [] a.c = "sigma_min" -> bad(Rel(z, SigMin(n), 50))
       [] a.c = "log2" -> bad(NearR(z, RLn2))
       [] a.c = "inv_log2" -> bad(NearR(z, RDiv(RInt(1), RLn2)))
       [] a.c = "bnorm_max" -> bad(Rel(z, RMul(RInt(12289), RRat(13689, 10000)), 51))
       [] a.c = "zero" -> bad(IsZ(z))
       [] a.c = "one" -> ex(0, <<1>>, 0)
       [] a.c = "two" -> ex(0, <<1>>, 1)
       [] a.c = "onehalf" -> ex(0, <<1>>, 0 - 1)
       [] a.c = "invsqrt2" -> bad(NearR(z, RSqrt(RRat(1, 2))))
       [] a.c = "invsqrt8" -> bad(NearR(z, RSqrt(RRat(1, 8))))
       [] a.c = "ptwo31" -> ex(0, <<1>>, 31)
       [] a.c = "ptwo31m1" -> ex(0, BSub(BPow2(31), <<1>>), 0)
       [] a.c = "mtwo31m1" -> ex(1, BSub(BPow2(31), <<1>>), 0)
       [] a.c = "ptwo63m1" -> ex(0, BSub(BPow2(63), <<1>>), 0)
       [] a.c = "mtwo63m1" -> ex(1, BSub(BPow2(63), <<1>>), 0)
       [] a.c = "p2_tab" -> ex(0, <<1>>, 1 - a.i)
       \* the Python parameters
       [] a.c = "py_sigma" -> bad(Rel(z, SigmaOf(n), 50))
       [] a.c = "py_sigmin" -> bad(Rel(z, SigMin(n), 50))
\* floor of (1.1 sigma)^2 * 2n
BoundWhy(a, r) ==
  LET n == 2 ^ a.i
      s == TLCEval(SigmaOf(n))
      b == BShr(RMul(RRat(121 * 2 * n, 100), RMul(s, s)).m, RS)
  IN IF b = BOf(r.z) THEN "" ELSE "wrong norm bound"
Verdict(s, e) ==
  IF e.op = "harness" THEN "the harness could not drive the code: " \o e.x
  ELSE IF e.x # "" THEN e.op \o " did not return: " \o e.x
  ELSE CASE e.op = "fp" -> OpWhy(e.a, e.r)
         [] e.op = "expm" -> ExpWhy(e.a, e.r)
         [] e.op = "root" -> RootWhy(e.a, e.r)
         [] e.op = "const" -> ConstWhy(e.a, e.r)
         [] e.op = "bound" -> BoundWhy(e.a, e.r)
Step(sess, s, e) == [st |-> s, why |-> Verdict(s, e)]
InitSt(sess) == [k |-> 0]
Init == TInit(InitSt)
Next == TNext(Step)
=============================================================================
