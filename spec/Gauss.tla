-------------------------------- MODULE Gauss --------------------------------
(***************************************************************************)
(* Secret polynomials: coefficients are sums of draws from a table for     *)
(* degree 1024, two 64-bit little-endian words each.                       *)
(***************************************************************************)
EXTENDS Keccak
\* GTab[1] / 2^63 is the probability of 0; GTab[k+1] / 2^63 that of more
\* than k given not 0.  Values as four 16-bit limbs, most significant first.
GTab ==
  << <<4561, 14296, 11762, 43864>>, <<22796, 16630, 16373, 63860>>, <<14488, 58397, 34233, 30135>>,
   <<8361, 25839, 20613, 36857>>, <<4359, 53678, 38712, 22507>>, <<2046, 7874, 37408, 59959>>,
   <<861, 45002, 52535, 42041>>, <<324, 55683, 1569, 27970>>, <<109, 27630, 60152, 5717>>,
   <<32, 57760, 3439, 43084>>, <<8, 52701, 52637, 55964>>, <<2, 6447, 50140, 56500>>,
   <<0, 29151, 52540, 22505>>, <<0, 5492, 37773, 30443>>, <<0, 919, 19212, 13285>>,
   <<0, 136, 40253, 42750>>, <<0, 18, 1245, 50891>>, <<0, 2, 7123, 45690>>,
   <<0, 0, 14345, 8030>>, <<0, 0, 1320, 32176>>, <<0, 0, 107, 50472>>,
   <<0, 0, 7, 52219>>, <<0, 0, 0, 32764>>, <<0, 0, 0, 1862>>,
   <<0, 0, 0, 94>>, <<0, 0, 0, 4>>, <<0, 0, 0, 0>> >>
RECURSIVE LtL(_, _, _)
LtL(a, b, i) == IF i > 4 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LtL(a, b, i + 1)
Limbs(b, p) == TLCEval([i \in 1..4 |-> LET w == b[p + 9 - 2 * i] + 256 * b[p + 10 - 2 * i] IN
                                       IF i = 1 THEN w % 32768 ELSE w])
\* one draw from 16 bytes
Draw(b, p) ==
  IF LtL(Limbs(b, p), GTab[1], 1) THEN 0
  ELSE LET r == Limbs(b, p + 8)
           v == CHOOSE k \in 1..26 : ~LtL(r, GTab[k + 1], 1) /\ \A j \in 1..(k - 1) : LtL(r, GTab[j + 1], 1)
       IN IF b[p + 8] >= 128 THEN 0 - v ELSE v
Coef(b, p, g) == FoldLeft(LAMBDA s, i : s + Draw(b, p + 16 * (i - 1)), 0, [i \in 1..g |-> i])
\* n coefficients in -127..127 with an odd sum; values that do not fit are drawn again
RECURSIVE GPoly(_, _, _, _, _)
GPoly(b, p, n, acc, par) ==
  IF Len(acc) = n THEN [f |-> acc, pos |-> p]
  ELSE LET g == 1024 \div n IN
  IF p + 16 * g > Len(b) THEN [f |-> <<>>, pos |-> 0 - 1]
  ELSE LET s == TLCEval(Coef(b, p, g)) IN
  IF Abs(s) > 127 \/ (Len(acc) = n - 1 /\ (par + s) % 2 = 0) THEN GPoly(b, p + 16 * g, n, acc, par)
  ELSE GPoly(b, p + 16 * g, n, TLCEval(Append(acc, s)), TLCEval((par + s) % 2))
GaussPoly(b, p, n) == GPoly(b, p, n, <<>>, 0)

(***************************************************************************)
(* Where in the stream of a seed a pair (f, g) is found: st is the state   *)
(* of the stream, buf what has been read and not used.                     *)
(***************************************************************************)
RECURSIVE FindPair(_, _, _, _, _)
FindPair(st, buf, f, g, left) ==
  LET n == Len(f)
      a == TLCEval(GaussPoly(buf, 0, n))
      b == TLCEval(IF a.pos >= 0 THEN GaussPoly(buf, a.pos, n) ELSE a)
  IN IF b.pos < 0 \/ Len(buf) < b.pos + 8
     THEN LET s == TLCEval(SqueezeN(st.blk, st.pos, 34000, <<>>)) IN
          FindPair([blk |-> s.blk, pos |-> s.pos], TLCEval(buf \o s.out), f, g, left)
     ELSE IF a.f = f /\ b.f = g THEN [found |-> TRUE, next |-> Slice(buf, b.pos, 8)]
     ELSE IF left = 0 THEN [found |-> FALSE, next |-> <<>>]
     ELSE FindPair(st, TLCEval(Slice(buf, b.pos, Len(buf) - b.pos)), f, g, left - 1)
InStream(seed, f, g) == FindPair(ShakeStart(seed), <<>>, f, g, 600)
=============================================================================
