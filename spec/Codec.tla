-------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* Byte encodings of polynomials.  Decoders return [ok, x, len]: whether   *)
(* the input starts with an encoding, the coefficients, bytes consumed.    *)
(***************************************************************************)
EXTENDS Bytes
CQ12289 == 12289
Fail == [ok |-> FALSE, x |-> <<>>, len |-> 0]
BitAt(s, p) == (s[(p \div 8) + 1] \div P2(7 - (p % 8))) % 2   \* zero-based p
\* the w-bit big-endian field at bit offset p (w <= 16)
Field(s, p, w) ==
  LET b == (p \div 8) + 1   o == p % 8   e == o + w
      v == IF e <= 8 THEN s[b] ELSE IF e <= 16 THEN 256 * s[b] + s[b + 1]
           ELSE 65536 * s[b] + 256 * s[b + 1] + s[b + 2]
      k == IF e <= 8 THEN 8 ELSE IF e <= 16 THEN 16 ELSE 24
  IN (v \div P2(k - e)) % P2(w)
FixedLen(n, w) == (n * w + 7) \div 8
TrailZero(s, p, len) == \A k \in p..(8 * len - 1) : BitAt(s, k) = 0
\* fixed-width fields packed most significant first, zero padded
PackFixed(x, w) == BitsToBytes(TLCEval(Concat([i \in 1..Len(x) |-> BitsOf(x[i] % P2(w), w)])))

(* --- unsigned modulo q, w = 14 or 16 --- *)
ModqEncode(x, w) == IF \E i \in 1..Len(x) : x[i] < 0 \/ x[i] >= CQ12289 THEN <<>> ELSE PackFixed(x, w)
ModqDecode(s, n, w) ==
  LET len == FixedLen(n, w) IN
  IF len > Len(s) THEN Fail ELSE
  LET x == TLCEval([i \in 1..n |-> Field(s, w * (i - 1), w)]) IN
  IF (\E i \in 1..n : x[i] >= CQ12289) \/ ~TrailZero(s, n * w, len) THEN Fail
  ELSE [ok |-> TRUE, x |-> x, len |-> len]

(* --- two's complement, the most negative value forbidden --- *)
TrimMax(w) == P2(w - 1) - 1
TrimEncode(x, w) == IF \E i \in 1..Len(x) : Abs(x[i]) > TrimMax(w) THEN <<>>
                    ELSE PackFixed(x, w)
TrimDecode(s, n, w) ==
  LET len == FixedLen(n, w) IN
  IF len > Len(s) THEN Fail ELSE
  LET u == TLCEval([i \in 1..n |-> Field(s, w * (i - 1), w)])
      x == TLCEval([i \in 1..n |-> IF u[i] >= P2(w - 1) THEN u[i] - P2(w) ELSE u[i]]) IN
  IF (\E i \in 1..n : x[i] = -P2(w - 1)) \/ ~TrailZero(s, n * w, len) THEN Fail
  ELSE [ok |-> TRUE, x |-> x, len |-> len]

(* --- Golomb-Rice: sign, 7 low bits, unary high part --- *)
CompMax == 2047
CompBits(v) == (<< IF v < 0 THEN 1 ELSE 0 >> \o BitsOf(Abs(v) % 128, 7))
               \o ([i \in 1..(Abs(v) \div 128) |-> 0] \o <<1>>)
CompBytes(x) == BitsToBytes(TLCEval(Concat([i \in 1..Len(x) |-> CompBits(x[i])])))
CompEncode(x) == IF \E i \in 1..Len(x) : Abs(x[i]) > CompMax THEN <<>> ELSE CompBytes(x)
\* zeros from bit p on, up to kmax; -1: end of input or too many
RECURSIVE Unary(_, _, _, _, _)
Unary(s, p, nb, k, kmax) == IF p >= nb \/ k > kmax THEN -1
                      ELSE IF BitAt(s, p) = 1 THEN k ELSE Unary(s, p + 1, nb, k + 1, kmax)
CompStep(s, nb, kmax, a, i) ==
  IF ~a.ok THEN a ELSE
  IF a.p + 8 > nb THEN [a EXCEPT !.ok = FALSE] ELSE
  LET f == Field(s, a.p, 8)   k == Unary(s, a.p + 8, nb, 0, kmax) IN
  IF k < 0 THEN [a EXCEPT !.ok = FALSE] ELSE
  LET m == (f % 128) + 128 * k IN
  IF f >= 128 /\ m = 0 THEN [a EXCEPT !.ok = FALSE]
  ELSE [ok |-> TRUE, p |-> a.p + 9 + k, x |-> Append(a.x, IF f >= 128 THEN -m ELSE m)]
\* coefficients, and the position of the first unread bit
CompReadK(s, n, kmax) == FoldLeft(LAMBDA a, i : CompStep(s, 8 * Len(s), kmax, a, i),
                           [ok |-> TRUE, p |-> 0, x |-> <<>>], [i \in 1..n |-> i])
CompRead(s, n) == CompReadK(s, n, 15)
CompDecode(s, n) ==
  LET r == CompRead(s, n)   len == (r.p + 7) \div 8 IN
  IF r.ok /\ TrailZero(s, r.p, len) THEN [ok |-> TRUE, x |-> r.x, len |-> len] ELSE Fail

(* --- the same code in a field of exactly `slen` bytes, zero padded, with *)
(* no bound on the magnitudes but the room there is; a reader may be given  *)
(* fewer bytes: the rest then counts as zero.                               *)
PadEncode(x, slen) == LET b == CompBytes(x) IN
                      IF Len(b) > slen THEN [ok |-> FALSE, s |-> <<>>]
                      ELSE [ok |-> TRUE, s |-> b \o Zeros(slen - Len(b))]
PadDecode(s, slen, n) ==
  IF Len(s) > slen THEN Fail ELSE
  LET r == CompReadK(s, n, 8 * slen) IN
  IF r.ok /\ TrailZero(s, r.p, Len(s)) THEN [ok |-> TRUE, x |-> r.x, len |-> Len(s)] ELSE Fail

(* --- 16-bit signature words: the representative in 0..q-1 --- *)
Comp16Encode(x) == IF \E i \in 1..Len(x) : Abs(x[i]) >= CQ12289 THEN <<>>
                   ELSE PackFixed(TLCEval([i \in 1..Len(x) |-> x[i] % CQ12289]), 16)
Comp16Decode(s, n) ==
  LET d == ModqDecode(s, n, 16) IN
  IF ~d.ok THEN Fail
  ELSE [ok |-> TRUE, len |-> d.len,
        x |-> TLCEval([i \in 1..n |-> IF d.x[i] > 6144 THEN d.x[i] - CQ12289 ELSE d.x[i]])]
=============================================================================
