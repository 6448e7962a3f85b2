------------------------------ MODULE RingTrace ------------------------------
(***************************************************************************)
(* Recorded calls of the ring and norm functions of the C core, at every   *)
(* degree, against Poly.tla.                                               *)
(***************************************************************************)
EXTENDS Poly, TraceCheck
InitSt(sess) == 0
Mont == 4091                                     \* 2^16 modulo q
ZeroCount(a) == LET t == Ntt(a) IN Cardinality({k \in 1..Len(t) : t[k] = 0})
\* a squared norm handed over as two 16-bit halves
SqnOf(hi, lo) == IF hi >= 2000 THEN NormCap + 1 ELSE hi * 65536 + lo
HintOf(s2) == InvQ(FoldLeft(LAMBDA p, x : (p * x) % Q, 1, Ntt(s2)))
Same(r, x) == IF r = x THEN "" ELSE "wrong result"
Expect(op, a, r) ==
  LET n == Len(a.x) IN
  CASE op = "to_ntt" -> Same(r.y, Ntt(a.x))
    [] op = "to_ntt_monty" -> Same(r.y, [k \in 1..n |-> (Ntt(a.x)[k] * Mont) % Q])
    [] op = "compute_public" ->           \* x = f, y = g
         IF ~Invertible(a.x) THEN (IF r.rc # 0 THEN "a non-invertible f was accepted" ELSE "")
         ELSE IF r.rc # 1 THEN "an invertible f was refused" ELSE Same(r.y, Quot(a.y, a.x))
    [] op = "complete_private" ->         \* x = f, y = g, z = F
         LET G == PolyCentre(Quot(Mul(a.y, a.z), a.x))
             ok == Invertible(a.x) /\ \A k \in 1..n : Abs(G[k]) <= 127
         IN IF ~ok THEN (IF r.rc # 0 THEN "accepted without a small G" ELSE "")
            ELSE IF r.rc # 1 THEN "a valid triple was refused" ELSE Same(r.y, G)
    [] op = "verify_raw" ->               \* x = c, y = s2, z = h
         IF RawValid(a.x, a.y, a.z) THEN (IF r.rc # 1 THEN "a valid signature was refused" ELSE "")
         ELSE IF r.rc # 0 THEN "an invalid signature was accepted" ELSE ""
    [] op \in {"recover", "recover_ntt"} ->      \* x = c, y = s1, z = s2
         IF Invertible(a.z) /\ IsShort(a.y, a.z) THEN
            IF r.rc # 1 THEN "a valid signature was refused"
            ELSE LET h == DivNtt(PolySub(a.x, a.y), a.z) IN Same(r.y, IF op = "recover" THEN Intt(h) ELSE h)
         ELSE IF r.rc # 0 THEN "an invalid signature was accepted" ELSE ""
    [] op = "is_invertible" -> Same(r.rc, IF Invertible(a.x) THEN 1 ELSE 0)
    [] op = "count_nttzero" -> Same(r.rc, ZeroCount(a.x))
    [] op = "hint" -> Same(r.rc, HintOf(a.x))
    [] op = "is_short" -> Same(r.rc, IF IsShort(a.x, a.y) THEN 1 ELSE 0)
    [] op = "is_short_half" ->
         Same(r.rc, IF NormSq(a.x, SqnOf(a.hi, a.lo)) <= L2Bound[Log2(n)] THEN 1 ELSE 0)
Verdict(e) ==
  IF e.op = "harness" THEN "the harness could not drive the code: " \o e.x
  ELSE IF e.x # "" THEN e.op \o " did not return: " \o e.x
  ELSE IF e.r.bad # <<>> THEN e.op \o ": " \o e.r.bad[1]
  ELSE LET w == Expect(e.op, e.a, e.r) IN IF w = "" THEN "" ELSE e.op \o ": " \o w
Step(sess, s, e) == [st |-> s, why |-> TLCEval(Verdict(e))]
Init == TInit(InitSt)
Next == TNext(Step)
=============================================================================
