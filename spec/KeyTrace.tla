------------------------------ MODULE KeyTrace ------------------------------
(***************************************************************************)
(* Recorded key generations: the NTRU equation over the integers, ranges,  *)
(* norms, the public key, and where in the seed's stream f and g come from.*)
(***************************************************************************)
EXTENDS SignedMsg, Gauss, TraceCheck
InitSt(sess) == [made |-> <<>>]
FgBits == <<8, 8, 8, 8, 8, 7, 7, 6, 6, 5>>
Within(x, b) == \A i \in 1..Len(x) : Abs(x[i]) < 2^(b - 1)
QPoly(n) == [i \in 1..n |-> IF i = 1 THEN Q ELSE 0]
Ntru(f, g, F, G) ==
  LET a == TLCEval(MulZ(f, G))  b == TLCEval(MulZ(g, F)) IN
  \A i \in 1..Len(f) : a[i] - b[i] = (IF i = 1 THEN Q ELSE 0)
\* every clause a generated key has to satisfy; G may be missing
KeyOf(f, g, F, G0, h) ==
  LET n == Len(f)
      G == TLCEval(IF G0 # <<>> THEN G0 ELSE PolyCentre(Quot(Mul(g, F), f)))
  IN IF ~Invertible(f) THEN "f is not invertible"
     ELSE IF ~Ntru(f, g, F, G) THEN "the NTRU equation does not hold"
     ELSE IF NormSq(f, NormSq(g, 0)) > 16822 THEN "f and g are too long"
     ELSE IF h # Quot(g, f) THEN "the public key does not belong to the private key" ELSE ""
CoreWhy(a, r) ==
  LET n == Len(r.f)  logn == Log2(n)  w == TLCEval(KeyOf(r.f, r.g, r.F, r.G, r.h)) IN
  IF n # a.n THEN "wrong degree"
  ELSE IF ~(Within(r.f, FgBits[logn]) /\ Within(r.g, FgBits[logn])) THEN "f or g does not fit its encoding"
  ELSE IF ~(Within(r.F, 8) /\ Within(r.G, 8)) THEN "F or G does not fit its encoding"
  ELSE IF w # "" THEN w
  ELSE LET s == TLCEval(FindPair(ShakeStart(a.seed), a.pre, r.f, r.g, 600)) IN
       IF ~s.found THEN "f and g do not come from the seed"
       ELSE IF s.next # r.next THEN "f and g are not the last pair drawn" ELSE ""
\* Python: no coefficient limits; with the table sampler, the stream is checked too
PyWhy(a, r) ==
  LET w == TLCEval(KeyOf(r.f, r.g, r.F, r.G, r.h)) IN
  IF Len(r.f) # a.n THEN "wrong degree" ELSE IF w # "" THEN w
  ELSE IF ~a.table THEN ""
  ELSE LET s == TLCEval(FindPair(ShakeStart(a.seed), a.pre, r.f, r.g, 600)) IN
       IF ~s.found THEN "f and g do not come from the seed"
       ELSE IF s.next # r.next THEN "f and g are not the last pair drawn" ELSE ""
\* the signed-message interface
PairWhy(a, r) ==
  IF a.seeded /\ Len(a.seed) < 32 THEN (IF r.rc = 0 THEN "a short seed was accepted" ELSE "")
  ELSE IF r.rc # 0 THEN "key generation failed"
  ELSE IF ~a.seeded /\ r.draws # <<48>> THEN "wrong randomness requests"
  ELSE LET k == TLCEval(SkParse(r.sk)) IN
  IF ~k.ok THEN "the private key is malformed"
  ELSE LET seed == IF a.seeded THEN a.seed ELSE Slice(a.tape, 0, 48)
           w == TLCEval(KeyOf(k.f, k.g, k.F, k.G, Intt(k.h))) IN
  IF w # "" THEN w
  ELSE IF r.pk # PkOf(a.v, k.h) THEN "the public key does not belong to the private key"
  ELSE IF ~InStream(seed, k.f, k.g).found THEN "f and g do not come from the seed" ELSE ""
SolveWhy(a, r) == IF r.ok /\ ~Ntru(a.f, a.g, r.F, r.G) THEN "the NTRU equation does not hold" ELSE ""
\* exact arithmetic on integer polynomials
FieldNorm(a) ==
  LET m == Len(a) \div 2
      e == [i \in 1..m |-> a[2 * i - 1]]  o == [i \in 1..m |-> a[2 * i]]
      ee == MulZ(e, e)  oo == MulZ(o, o)
  IN [i \in 1..m |-> ee[i] - (IF i = 1 THEN 0 - oo[m] ELSE oo[i - 1])]
PolyExpect(a) ==
  LET n == Len(a.x) IN
  CASE a.f = "karamul" -> MulZ(a.x, a.y)
    [] a.f = "conjugate" -> [i \in 1..n |-> IF i % 2 = 1 THEN a.x[i] ELSE 0 - a.x[i]]
    [] a.f = "field_norm" -> FieldNorm(a.x)
    [] a.f = "lift" -> [i \in 1..(2 * n) |-> IF i % 2 = 1 THEN a.x[(i + 1) \div 2] ELSE 0]
    [] a.f = "adj" -> [i \in 1..n |-> IF i = 1 THEN a.x[1] ELSE 0 - a.x[n + 2 - i]]
    [] a.f = "sqnorm" -> <<NormSq(a.x, 0)>>
    [] a.f = "add" -> [i \in 1..n |-> a.x[i] + a.y[i]]
    [] a.f = "sub" -> [i \in 1..n |-> a.x[i] - a.y[i]]
    [] a.f = "neg" -> [i \in 1..n |-> 0 - a.x[i]]
RECURSIVE GcdN(_, _)
GcdN(a, b) == IF b = 0 THEN a ELSE GcdN(b, a % b)
PolyWhy(a, r) ==
  IF a.f = "xgcd" THEN
     IF Abs(r.y[1]) # GcdN(Abs(a.x[1]), Abs(a.x[2])) THEN "wrong gcd"
     ELSE IF r.y[2] * a.x[1] + r.y[3] * a.x[2] # r.y[1] THEN "wrong cofactors" ELSE ""
  ELSE IF r.y # PolyExpect(a) THEN a.f \o ": wrong result" ELSE ""
Verdict(e) ==
  IF e.op = "harness" THEN "the harness could not drive the code: " \o e.x
  ELSE IF e.x # "" THEN e.op \o " did not return: " \o e.x
  ELSE IF e.op \in {"core", "keypair"} /\ e.r.bad # <<>> THEN e.op \o ": " \o e.r.bad[1]
  ELSE CASE e.op = "core" -> CoreWhy(e.a, e.r)
         [] e.op = "pygen" -> PyWhy(e.a, e.r)
         [] e.op = "keypair" -> PairWhy(e.a, e.r)
         [] e.op = "solve" -> SolveWhy(e.a, e.r)
         [] e.op = "poly" -> PolyWhy(e.a, e.r)
\* the same seed always gives the same key
KeyStep(s, e) ==
  IF e.op # "core" THEN [st |-> s, why |-> ""]
  ELSE IF \E i \in 1..Len(s.made) : s.made[i][1] = <<e.a.n, e.a.seed, e.a.pre>> /\ s.made[i][2] # <<e.r.f, e.r.g, e.r.F>>
       THEN [st |-> s, why |-> "the same seed gave another key"]
  ELSE [st |-> [made |-> Append(s.made, << <<e.a.n, e.a.seed, e.a.pre>>, <<e.r.f, e.r.g, e.r.F>> >>)], why |-> ""]
Step(sess, s, e) == LET w == TLCEval(Verdict(e)) IN
  IF w # "" THEN [st |-> s, why |-> w] ELSE KeyStep(s, e)
Init == TInit(InitSt)
Next == TNext(Step)
=============================================================================
