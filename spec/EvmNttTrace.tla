----------------------------- MODULE EvmNttTrace -----------------------------
(***************************************************************************)
(* Recorded calls to the transform contract, the vectorised functions, the *)
(* packing functions and the deployers against EvmNtt.tla.                 *)
(* tabs: what was deployed, by address.  cs: the configuration of each     *)
(* contract.                                                               *)
(***************************************************************************)
EXTENDS EvmNtt, TraceCheck
InitSt(sess) == [tabs |-> <<>>, cs |-> <<>>]
Tab(s, adr) == LET i == {k \in 1..Len(s.tabs) : s.tabs[k].adr = adr} IN
               IF i = {} THEN <<>> ELSE s.tabs[CHOOSE k \in i : TRUE].x
Be4(x) == [i \in 1..28 |-> 0] \o <<x \div 16777216, (x \div 65536) % 256, (x \div 256) % 256, x % 256>>
Be32(xs) == TLCEval([i \in 1..(32 * Len(xs)) |-> LET x == xs[(i - 1) \div 32 + 1]  p == (i - 1) % 32 IN
               IF p < 28 THEN 0 ELSE (x \div (256 ^ (31 - p))) % 256])
Be2(xs) == TLCEval([i \in 1..(2 * Len(xs)) |-> LET x == xs[(i + 1) \div 2] IN IF i % 2 = 1 THEN x \div 256 ELSE x % 256])
\* lanes of a 256-bit word, least significant first, from its value
WordLanes(xs) == TLCEval([i \in 1..(16 * Len(xs)) |-> LET x == xs[(i - 1) \div 16 + 1]  p == (i - 1) % 16 IN
               IF p = 0 THEN x % 65536 ELSE IF p = 1 THEN x \div 65536 ELSE 0])
\* bytes of packed words, most significant first
WordBytes(ls) == TLCEval([i \in 1..(2 * Len(ls)) |->
   LET w == (i - 1) \div 32  p == (i - 1) % 32  v == ls[16 * w + 16 - (p \div 2)] IN
   IF p % 2 = 0 THEN v \div 256 ELSE v % 256])
RevLanes(ls) == TLCEval([i \in 1..Len(ls) |-> LET w == (i - 1) \div 16  p == (i - 1) % 16 IN ls[16 * w + 16 - p]])
Is(r, v) == IF ~r.ok THEN "refused" ELSE IF r.x # v THEN "wrong result" ELSE ""
Refused(r) == IF r.ok THEN "vectors of different lengths were accepted" ELSE ""
Red(x, m) == TLCEval([i \in 1..Len(x) |-> x[i] % m])
Cfg(a) == [fw |-> a.fw, inv |-> a.inv, q |-> a.q, f |-> a.nm1]
\* results of the contract's functions; T, TI tables, m modulus, f final factor
Calc(g, T, TI, m, f, a) ==
  CASE g = "fw" -> NttFw(a.a, T, m)
    [] g = "inv" -> NttInv(a.a, TI, m, f)
    [] g = "halfmul" -> NttInv(PMul(NttFw(a.a, T, m), a.b, m), TI, m, f)
    [] g = "mul" -> NttInv(PMul(NttFw(a.a, T, m), NttFw(a.b, T, m), m), TI, m, f)
    [] g = "vmul" -> PMul(a.a, a.b, m)
    [] g = "vadd" -> TLCEval([i \in 1..Len(a.a) |-> ((a.a[i] % m) + (a.b[i] % m)) % m])
    [] g = "vsub" -> TLCEval([i \in 1..Len(a.a) |-> ((a.a[i] % m) + m - a.b[i]) % m])
Two(g) == g \in {"halfmul", "mul", "vmul", "vadd", "vsub"}
Verdict(s, e) ==
  IF e.op = "harness" THEN "the harness could not drive the code: " \o e.x
  ELSE IF e.x # "" THEN e.op \o " did not return: " \o e.x
  ELSE LET a == e.a  r == e.r IN
  CASE e.op = "poly" ->
         IF \E k \in 1..Len(s.tabs) : s.tabs[k].salt = a.salt /\ s.tabs[k].x = a.x
         THEN (IF r.adr = <<>> THEN "" ELSE "a second deployment to the same place")
         ELSE IF 32 * Len(a.x) > 24576 THEN (IF r.adr = <<>> THEN "" ELSE "code that is too long was deployed")
         ELSE IF r.adr = <<>> THEN "not deployed"
         ELSE IF \E k \in 1..Len(s.tabs) : s.tabs[k].adr = r.adr THEN "an address was given twice"
         ELSE IF r.code # Be32(a.x) THEN "wrong code deployed" ELSE ""
    [] e.op = "tables" ->
         IF \E k \in 1..Len(s.tabs) : s.tabs[k].salt = a.salt /\ s.tabs[k].x = <<-1>>
         THEN (IF r.fw = <<>> THEN "" ELSE "a second deployment to the same place")
         ELSE IF r.fw # Be2(PsiRev) THEN "wrong table of powers deployed"
         ELSE IF r.inv # Be2(PsiInvRev) THEN "wrong table of inverse powers deployed" ELSE ""
    [] e.op = "new" -> ""
    [] e.op = "update" -> ""
    [] e.op = "lock" -> ""
    [] e.op = "get" -> IF r.fw = s.cs[a.c].c.fw /\ r.inv = s.cs[a.c].c.inv THEN "" ELSE "wrong table addresses"
    [] e.op = "st" ->              \* functions on the stored configuration
         LET c == s.cs[a.c].c IN
         IF Two(a.g) /\ Len(a.a) # Len(a.b) THEN Refused(r)
         ELSE Is(r, Calc(a.g, Tab(s, IF a.g = "fw" THEN a.tab ELSE c.fw), Tab(s, IF a.g = "inv" THEN a.tab ELSE c.inv),
                         c.q, c.f, a))
    [] e.op = "sl" ->              \* functions given the modulus
         IF Two(a.g) /\ Len(a.a) # Len(a.b) THEN Refused(r)
         ELSE Is(r, Calc(a.g, PsiRev, PsiInvRev, a.q, s.cs[a.c].c.f, a))
    [] e.op = "stc" ->             \* packed product on the stored configuration
         LET c == s.cs[a.c].c IN
         Is(r, Calc("halfmul", Tab(s, c.fw), Tab(s, c.inv), c.q, c.f, a))
    [] e.op = "f_fw" -> Is(r, Ntt(a.a))
    [] e.op = "f_inv" -> Is(r, Intt(a.a))
    [] e.op = "f_vmul" -> Is(r, PMul(a.a, a.b, Q))
    [] e.op = "f_halfmul" -> Is(r, TLCEval(Intt(PointMul(Ntt(a.a), Red(a.b, Q)))))
    [] e.op = "f_compact" -> Is(r, a.a)
    [] e.op = "f_expand" -> Is(r, a.a)
    [] e.op = "f_swap" -> Is(r, TLCEval([i \in 1..512 |-> a.a[513 - i]]))
    [] e.op = "f_range" -> IF r.x = (\A i \in 1..Len(a.a) : a.a[i] < Q) THEN "" ELSE "wrong range check"
    [] e.op = "f_packsig" -> IF Len(a.salt) < 40 THEN (IF r.ok THEN "a short salt was packed" ELSE "")
                             ELSE Is(r, a.salt \o WordBytes(a.a))
    [] e.op = "f_packarr" -> Is(r, WordBytes(a.a))
    [] e.op = "f_memcpy" -> Is(r, a.a)
    [] e.op = "f_swap16" -> Is(r, RevLanes(a.a))
    [] e.op = "f_dcompact" -> Is(r, RevLanes(a.a))
After(s, e) ==
  LET a == e.a  r == e.r IN
  CASE e.op = "poly" -> IF r.adr = <<>> THEN s ELSE [s EXCEPT !.tabs = Append(@, [adr |-> r.adr, x |-> a.x, salt |-> a.salt])]
    [] e.op = "tables" -> IF r.fw = <<>> THEN s ELSE [s EXCEPT !.tabs = Append(@, [adr |-> <<>>, x |-> <<-1>>, salt |-> a.salt])]
    [] e.op = "new" -> [s EXCEPT !.cs = Append(@, [c |-> Cfg(a), lock |-> FALSE])]
    [] e.op = "update" -> IF s.cs[a.c].lock THEN s ELSE [s EXCEPT !.cs[a.c].c = Cfg(a)]
    [] e.op = "lock" -> [s EXCEPT !.cs[a.c].lock = TRUE]
    [] OTHER -> s
Step(sess, s, e) == LET w == TLCEval(Verdict(s, e)) IN [st |-> IF w = "" THEN After(s, e) ELSE s, why |-> w]
Init == TInit(InitSt)
Next == TNext(Step)
=============================================================================
