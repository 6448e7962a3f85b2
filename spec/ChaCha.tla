------------------------------- MODULE ChaCha -------------------------------
(***************************************************************************)
(* The ChaCha20 generator of Falcon: 56-byte seed = 14 little-endian words;*)
(* words 12,13 are a 64-bit block counter xored into words 14,15 of the    *)
(* ChaCha state; eight blocks are produced at a time, interleaved by word. *)
(***************************************************************************)
EXTENDS Bytes
CW == << <<24944, 30821>>, <<13088, 25710>>, <<31074, 11570>>, <<27424, 25972>> >>
CLanes == << <<1,5,9,13>>, <<2,6,10,14>>, <<3,7,11,15>>, <<4,8,12,16>>,
             <<1,6,11,16>>, <<2,7,12,13>>, <<3,8,9,14>>, <<4,5,10,15>> >>
CQ(v, l) ==
  LET a1 == WAdd(v[l[1]], v[l[2]])   d1 == WRotl(WXor(v[l[4]], a1), 16)
      c1 == WAdd(v[l[3]], d1)        b1 == WRotl(WXor(v[l[2]], c1), 12)
      a2 == WAdd(a1, b1)             d2 == WRotl(WXor(d1, a2), 8)
      c2 == WAdd(c1, d2)             b2 == WRotl(WXor(b1, c2), 7)
  IN TLCEval([v EXCEPT ![l[1]] = a2, ![l[2]] = b2, ![l[3]] = c2, ![l[4]] = d2])
\* counter is <<w0, w1>> : low word, high word
CtrInc(c) == LET lo == WAdd(c[1], <<0, 1>>) IN
             IF lo = <<0, 0>> THEN << lo, WAdd(c[2], <<0, 1>>) >> ELSE << lo, c[2] >>
CBlock(s, c) ==
  LET st == TLCEval([i \in 1..16 |-> IF i <= 4 THEN CW[i]
                      ELSE IF i <= 14 THEN s[i - 4]
                      ELSE IF i = 15 THEN WXor(s[11], c[1]) ELSE WXor(s[12], c[2])])
      dr(v, k) == FoldLeft(LAMBDA x, j : CQ(x, CLanes[j]), v, <<1,2,3,4,5,6,7,8>>)
      v == FoldLeft(dr, st, [k \in 1..10 |-> k])
  IN TLCEval([i \in 1..16 |-> WAdd(v[i], st[i])])
SeedWords(seed) == [i \in 1..14 |-> WFromLE(seed, 4 * (i - 1))]
\* refill: 512 bytes, eight blocks interleaved by word, and the next counter
CRefillBuf(s, c) ==
  LET step(acc, k) == [blks |-> Append(acc.blks, CBlock(s, acc.c)), c |-> CtrInc(acc.c)]
      r == TLCEval(FoldLeft(step, [blks |-> <<>>, c |-> c], [k \in 1..8 |-> k]))
  IN TLCEval(Concat([k \in 1..128 |->
                 WToLE(r.blks[((k - 1) % 8) + 1][((k - 1) \div 8) + 1])]))
CRefill(s, c) ==
  [buf |-> CRefillBuf(s, c), c |-> FoldLeft(LAMBDA x, k : CtrInc(x), c, <<1,2,3,4,5,6,7,8>>)]
=============================================================================
