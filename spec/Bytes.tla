------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings are sequences over 0..255.  TLC integers are 32-bit        *)
(* signed, so 32-bit words are pairs <<hi, lo>> of 16-bit limbs and 64-bit *)
(* lanes are four consecutive little-endian 16-bit limbs.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

Byte == 0..255
IsBytes(s) == \A i \in 1..Len(s) : s[i] \in Byte
Zeros(n) == [i \in 1..n |-> 0]
Rep(b, n) == [i \in 1..n |-> b]
Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Slice(s, off, n) == SubSeq(s, off + 1, off + n)          \* zero-based offset
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x

Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)   \* seq of seqs -> seq
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
XorBytes(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])

Pow2T == [i \in 0..30 |-> 2^i]
P2(i) == Pow2T[i]

(* 32-bit words as <<hi, lo>> *)
W32(hi, lo) == <<hi, lo>>
WAdd(a, b) == LET l == a[2] + b[2] IN
              << (a[1] + b[1] + (l \div 65536)) % 65536, l % 65536 >>
WXor(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2] >>
WRotl(a, r) == LET x == IF r >= 16 THEN <<a[2], a[1]>> ELSE a
                   s == r % 16
               IN IF s = 0 THEN x
                  ELSE << ((x[1] * P2(s)) % 65536) + (x[2] \div P2(16 - s)),
                          ((x[2] * P2(s)) % 65536) + (x[1] \div P2(16 - s)) >>
WRotr(a, r) == WRotl(a, 32 - r)
WFromLE(s, off) == << s[off + 3] + 256 * s[off + 4], s[off + 1] + 256 * s[off + 2] >>
WToLE(w) == << w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256 >>

(* big-endian encodings of small naturals *)
BE16(x) == << (x \div 256) % 256, x % 256 >>
BE64(x) == << 0, 0, 0, 0, (x \div 16777216) % 256, (x \div 65536) % 256,
              (x \div 256) % 256, x % 256 >>

(* add one to a big-endian byte string, wrapping *)
RECURSIVE IncBE(_, _)
IncBE(s, i) == IF i = 0 THEN s
               ELSE IF s[i] = 255 THEN IncBE([s EXCEPT ![i] = 0], i - 1)
               ELSE [s EXCEPT ![i] = s[i] + 1]
IncBytesBE(s) == IncBE(s, Len(s))
RECURSIVE DecBE(_, _)
DecBE(s, i) == IF i = 0 THEN s
               ELSE IF s[i] = 0 THEN DecBE([s EXCEPT ![i] = 255], i - 1)
               ELSE [s EXCEPT ![i] = s[i] - 1]
DecBytesBE(s) == DecBE(s, Len(s))

(* bit strings: sequences over {0,1}, most significant first *)
BitsOf(x, n) == [i \in 1..n |-> (x \div P2(n - i)) % 2]
RECURSIVE BitsVal(_)
BitsVal(b) == FoldLeft(LAMBDA a, c : 2 * a + c, 0, b)
BytesToBits(s) == TLCEval([i \in 1..(8 * Len(s)) |-> (s[((i - 1) \div 8) + 1] \div P2(7 - ((i - 1) % 8))) % 2])
BitsToBytes(b) == TLCEval([i \in 1..((Len(b) + 7) \div 8) |->
                    LET bit(k) == IF 8 * (i - 1) + k <= Len(b) THEN b[8 * (i - 1) + k] ELSE 0
                    IN 128 * bit(1) + 64 * bit(2) + 32 * bit(3) + 16 * bit(4) + 8 * bit(5)
                       + 4 * bit(6) + 2 * bit(7) + bit(8)])
=============================================================================
