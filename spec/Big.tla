-------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* Natural numbers of any size: digits base 4096, least significant first, *)
(* without leading zeros; <<>> is zero.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC
BB == 4096
RECURSIVE BNorm(_)
BNorm(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN BNorm(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE BOf(_)
BOf(n) == IF n = 0 THEN <<>> ELSE <<n % BB>> \o BOf(n \div BB)
BDig(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
BMax(a, b) == IF a < b THEN b ELSE a
\* carry propagation over digits that may be out of range
RECURSIVE BCarry(_, _, _, _)
BCarry(a, i, c, acc) ==
  IF i > Len(a) THEN BNorm(TLCEval(acc \o BOf(c)))
  ELSE LET t == a[i] + c IN BCarry(a, i + 1, t \div BB, Append(acc, t % BB))
BAdd(a, b) == LET s == TLCEval([i \in 1..BMax(Len(a), Len(b)) |-> BDig(a, i) + BDig(b, i)]) IN BCarry(s, 1, 0, <<>>)
\* a - b for a not below b
BSub(a, b) ==
  LET st == TLCEval(FoldLeft(LAMBDA s, i :
              LET t == a[i] - BDig(b, i) - s.c IN
              IF t < 0 THEN [c |-> 1, d |-> Append(s.d, t + BB)] ELSE [c |-> 0, d |-> Append(s.d, t)],
              [c |-> 0, d |-> <<>>], [i \in 1..Len(a) |-> i]))
  IN BNorm(st.d)
BMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>> ELSE
  LET s == TLCEval([k \in 1..(Len(a) + Len(b) - 1) |->
             FoldLeft(LAMBDA t, i : t + a[i] * b[k + 1 - i], 0,
                      [j \in 1..(1 + (IF k < Len(a) THEN k ELSE Len(a)) - (IF k > Len(b) THEN k - Len(b) + 1 ELSE 1))
                         |-> (IF k > Len(b) THEN k - Len(b) ELSE 0) + j])])
  IN BCarry(s, 1, 0, <<>>)
\* -1, 0, 1 as a < b, a = b, a > b
BCmp(a, b) ==
  IF Len(a) # Len(b) THEN IF Len(a) < Len(b) THEN -1 ELSE 1
  ELSE FoldLeft(LAMBDA c, i : IF a[i] = b[i] THEN c ELSE IF a[i] < b[i] THEN -1 ELSE 1, 0, [i \in 1..Len(a) |-> i])
RECURSIVE BPow2(_)
BPow2(k) == IF k < 12 THEN <<2 ^ k>> ELSE <<0>> \o BPow2(k - 12)
BShl(a, k) == IF a = <<>> \/ k = 0 THEN a ELSE BMul(a, BPow2(k))
\* bits needed to write a
RECURSIVE BW(_)
BW(x) == IF x = 0 THEN 0 ELSE 1 + BW(x \div 2)
BBits(a) == IF a = <<>> THEN 0 ELSE 12 * (Len(a) - 1) + BW(a[Len(a)])
\* floor(a / 2^k) and what is cut off
BShr(a, k) ==
  LET q == k \div 12  r == 2 ^ (k % 12) IN
  IF q >= Len(a) THEN <<>>
  ELSE BNorm(TLCEval([i \in 1..(Len(a) - q) |-> (a[q + i] \div r) + (BDig(a, q + i + 1) % r) * (BB \div r)]))
BLow(a, k) == LET h == TLCEval(BShr(a, k)) IN BSub(a, BShl(h, k))
BIsOdd(a) == a # <<>> /\ a[1] % 2 = 1
\* quotient and remainder, bit by bit from above
RECURSIVE BDivStep(_, _, _, _)
BDivStep(a, b, k, q) ==
  IF k < 0 THEN [q |-> q, r |-> a]
  ELSE LET t == TLCEval(BShl(b, k)) IN
       IF BCmp(a, t) >= 0 THEN BDivStep(TLCEval(BSub(a, t)), b, k - 1, TLCEval(BAdd(q, BPow2(k))))
       ELSE BDivStep(a, b, k - 1, q)
BDivMod(a, b) == IF BCmp(a, b) < 0 THEN [q |-> <<>>, r |-> a]
                 ELSE BDivStep(a, b, BBits(a) - BBits(b), <<>>)
BDiv(a, b) == BDivMod(a, b).q
BMod(a, b) == BDivMod(a, b).r
\* bytes, least significant first
BByte(b) == BNorm([i \in 1..((2 * Len(b) + 2) \div 3) |->
   LET nib(j) == IF j >= 2 * Len(b) THEN 0 ELSE IF j % 2 = 0 THEN b[j \div 2 + 1] % 16 ELSE b[j \div 2 + 1] \div 16
   IN nib(3 * (i - 1)) + 16 * nib(3 * (i - 1) + 1) + 256 * nib(3 * (i - 1) + 2)])

(***************************************************************************)
(* Integers: [s |-> 1 for a negative one, m |-> magnitude]                 *)
(***************************************************************************)
ZOf(m) == [s |-> 0, m |-> m]
ZInt(n) == IF n < 0 THEN [s |-> 1, m |-> BOf(0 - n)] ELSE [s |-> 0, m |-> BOf(n)]
ZNeg(a) == IF a.m = <<>> THEN a ELSE [s |-> 1 - a.s, m |-> a.m]
ZAdd(a, b) == IF a.s = b.s THEN [s |-> a.s, m |-> BAdd(a.m, b.m)]
              ELSE LET c == BCmp(a.m, b.m) IN
                   IF c = 0 THEN [s |-> 0, m |-> <<>>]
                   ELSE IF c > 0 THEN [s |-> a.s, m |-> BSub(a.m, b.m)] ELSE [s |-> b.s, m |-> BSub(b.m, a.m)]
ZSub(a, b) == ZAdd(a, ZNeg(b))
ZMul(a, b) == LET m == TLCEval(BMul(a.m, b.m)) IN [s |-> IF m = <<>> THEN 0 ELSE (a.s + b.s) % 2, m |-> m]
ZShl(a, k) == [s |-> a.s, m |-> BShl(a.m, k)]
ZCmp(a, b) == IF a.s # b.s THEN IF a.s = 1 THEN -1 ELSE 1 ELSE IF a.s = 0 THEN BCmp(a.m, b.m) ELSE BCmp(b.m, a.m)
\* floor(a / 2^k)
ZShr(a, k) == LET h == TLCEval(BShr(a.m, k)) IN
   IF a.s = 0 THEN ZOf(h) ELSE IF BShl(h, k) = a.m THEN [s |-> IF h = <<>> THEN 0 ELSE 1, m |-> h] ELSE [s |-> 1, m |-> BAdd(h, <<1>>)]
=============================================================================
