------------------------------- MODULE RealN -------------------------------
(***************************************************************************)
(* Real functions in fixed point: a real x is an integer (Big.tla, signed)  *)
(* within a few thousand of x * 2^RS.                                        *)
(***************************************************************************)
EXTENDS Big
RS == 200
ROne == BPow2(RS)
Zero == [s |-> 0, m |-> <<>>]
RMul(a, b) == LET t == TLCEval(BMul(a.m, b.m))  h == TLCEval(BShr(t, RS)) IN
              [s |-> IF h = <<>> THEN 0 ELSE (a.s + b.s) % 2, m |-> h]
RDivB(a, d) == LET q == TLCEval(BDiv(a.m, d)) IN [s |-> IF q = <<>> THEN 0 ELSE a.s, m |-> q]
RDivI(a, n) == RDivB(a, BOf(n))
\* a / b for b > 0
RDiv(a, b) == LET q == TLCEval(BDiv(BShl(a.m, RS), b.m)) IN [s |-> IF q = <<>> THEN 0 ELSE a.s, m |-> q]
RInt(n) == ZShl(ZInt(n), RS)
RRat(n, d) == RDivI(RInt(n), d)
\* binds a value: outside of actions TLC evaluates the definition of a LET or an argument anew at each use
With(v, Op(_)) == FoldLeft(LAMBDA a, x : Op(x), 0, <<v>>)
\* power series: term 1 is given, Op(a, k) makes term k + 1; until a term vanishes
Series(t0, terms, Op(_, _)) ==
  FoldLeft(LAMBDA a, k : IF a.t.m = <<>> THEN a ELSE TLCEval(Op(a, k)), t0, [k \in 1..terms |-> k])
\* atan(1/n) and atanh(1/n) for n > 2
RAt(n, sg) == Series([t |-> RRat(1, n), nn |-> n * n, s |-> Zero], 110, LAMBDA a, k :
  LET u == TLCEval(RDivI(a.t, 2 * k - 1)) IN
  [a EXCEPT !.t = RDivI(a.t, a.nn), !.s = ZAdd(a.s, IF sg /\ k % 2 = 0 THEN ZNeg(u) ELSE u)]).s
RAtan1(n) == RAt(n, TRUE)
RAtanh1(n) == RAt(n, FALSE)
RPi == TLCEval(ZSub(ZMul(ZInt(16), RAtan1(5)), ZMul(ZInt(4), RAtan1(239))))
RLn2 == TLCEval(ZMul(ZInt(2), RAtanh1(3)))
\* exp(x) for |x| <= 2
RExpS(x) == Series([x |-> x, t |-> RInt(1), s |-> RInt(1)], 90, LAMBDA a, k :
  LET u == TLCEval(RDivI(RMul(a.t, a.x), k)) IN [a EXCEPT !.t = u, !.s = ZAdd(a.s, u)]).s
\* exp(x) for -2^20 < x <= 2
RExp(x) == With(x, LAMBDA v : IF BBits(v.m) <= RS + 1 THEN RExpS(v)
  ELSE With(BDiv(v.m, RLn2.m), LAMBDA q :
       ZShr(RExpS(ZAdd(v, ZMul(ZOf(q), RLn2))), FoldLeft(LAMBDA z, i : z * BB + q[Len(q) + 1 - i], 0, [i \in 1..Len(q) |-> i]))))
\* [c |-> cos x, s |-> sin x] for |x| < 4
RCosSin(x) == With(Series([x |-> x, t |-> RInt(1), c |-> RInt(1), s |-> Zero], 110, LAMBDA a, k :
  LET u == TLCEval(RDivI(RMul(a.t, a.x), k)) IN
  IF k % 2 = 1 THEN [a EXCEPT !.t = u, !.s = IF k % 4 = 1 THEN ZAdd(a.s, u) ELSE ZSub(a.s, u)]
  ELSE [a EXCEPT !.t = u, !.c = IF k % 4 = 0 THEN ZAdd(a.c, u) ELSE ZSub(a.c, u)]), LAMBDA r : [c |-> r.c, s |-> r.s])
\* ln(m) for a natural m > 0: k ln 2 + 2 atanh((y - 1) / (y + 1)), y = m / 2^k in [1, 2)
RAtS(z) == Series([t |-> z, z2 |-> RMul(z, z), s |-> Zero], 110, LAMBDA a, k :
  [a EXCEPT !.t = RMul(a.t, a.z2), !.s = ZAdd(a.s, RDivI(a.t, 2 * k - 1))]).s
RLnB(m) ==
  LET k == BBits(m) - 1
      y == TLCEval(ZOf(IF k > RS THEN BShr(m, k - RS) ELSE BShl(m, RS - k)))
      z == TLCEval(RDiv(ZSub(y, RInt(1)), ZAdd(y, RInt(1))))
  IN ZAdd(ZMul(ZInt(k), RLn2), ZMul(ZInt(2), RAtS(z)))
\* floor of a square root
RECURSIVE BSqrtStep(_, _)
BSqrtStep(n, x) == LET y == TLCEval(BShr(BAdd(x, BDiv(n, x)), 1)) IN IF BCmp(y, x) >= 0 THEN x ELSE BSqrtStep(n, y)
BSqrt(n) == IF n = <<>> THEN <<>> ELSE BSqrtStep(n, BPow2((BBits(n) + 1) \div 2))
RSqrt(a) == ZOf(BSqrt(BShl(a.m, RS)))
\* |a - b| <= 2^(k - RS)
RNear(a, b, k) == BCmp(ZSub(a, b).m, BPow2(k)) <= 0
=============================================================================
