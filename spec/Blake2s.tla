------------------------------- MODULE Blake2s -------------------------------
(* BLAKE2s (RFC 7693), unkeyed, 32-bit words as <<hi, lo>>. *)
EXTENDS Bytes
B2IV == << <<27145, 58983>>, <<47975, 44677>>, <<15470, 62322>>, <<42319, 62778>>,
           <<20750, 21119>>, <<39685, 26764>>, <<8067, 55723>>, <<23520, 52505>> >>
B2Sigma == <<
 <<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15>>, <<14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3>>,
 <<11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4>>, <<7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8>>,
 <<9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13>>, <<2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9>>,
 <<12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11>>, <<13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10>>,
 <<6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5>>, <<10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0>> >>
B2Lanes == << <<1,5,9,13>>, <<2,6,10,14>>, <<3,7,11,15>>, <<4,8,12,16>>,
              <<1,6,11,16>>, <<2,7,12,13>>, <<3,8,9,14>>, <<4,5,10,15>> >>
B2G(v, lane, x, y) ==
  LET a1 == WAdd(WAdd(v[lane[1]], v[lane[2]]), x)
      d1 == WRotr(WXor(v[lane[4]], a1), 16)
      c1 == WAdd(v[lane[3]], d1)
      b1 == WRotr(WXor(v[lane[2]], c1), 12)
      a2 == WAdd(WAdd(a1, b1), y)
      d2 == WRotr(WXor(d1, a2), 8)
      c2 == WAdd(c1, d2)
      b2 == WRotr(WXor(b1, c2), 7)
  IN TLCEval([v EXCEPT ![lane[1]] = a2, ![lane[2]] = b2, ![lane[3]] = c2, ![lane[4]] = d2])
B2F(h, block, t, last) ==
  LET m == TLCEval([i \in 1..16 |-> WFromLE(block, 4 * (i - 1))])
      v0 == TLCEval([i \in 1..16 |->
              IF i <= 8 THEN h[i]
              ELSE IF i = 13 THEN WXor(B2IV[5], << t \div 65536, t % 65536 >>)
              ELSE IF i = 15 /\ last THEN WXor(B2IV[7], <<65535, 65535>>)
              ELSE B2IV[i - 8]])
      rnd(v, s) == FoldLeft(LAMBDA w, k : B2G(w, B2Lanes[k], m[s[2*k-1] + 1], m[s[2*k] + 1]),
                            v, <<1,2,3,4,5,6,7,8>>)
      v1 == FoldLeft(rnd, v0, B2Sigma)
  IN TLCEval([i \in 1..8 |-> WXor(h[i], WXor(v1[i], v1[i + 8]))])
\* digest of n bytes
Blake2sN(msg, n) ==
  LET h0 == [B2IV EXCEPT ![1] = WXor(B2IV[1], << 257, n >>)]   \* 0x0101kknn, no key
      nb == IF Len(msg) = 0 THEN 1 ELSE (Len(msg) + 63) \div 64
      pm == TLCEval(msg \o Zeros(64 * nb - Len(msg)))
      h == FoldLeft(LAMBDA a, k : B2F(a, Slice(pm, 64 * (k - 1), 64),
                                      IF k = nb THEN Len(msg) ELSE 64 * k, k = nb),
                    h0, [k \in 1..nb |-> k])
  IN Take(Concat([i \in 1..8 |-> WToLE(h[i])]), n)
=============================================================================
