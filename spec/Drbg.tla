-------------------------------- MODULE Drbg --------------------------------
(***************************************************************************)
(* AES-256 CTR_DRBG without derivation function (SP 800-90A 10.2.1), the   *)
(* NIST seed expander, and the ChaCha20 generator, as state machines.      *)
(***************************************************************************)
EXTENDS Aes, ChaCha
AddBE(c, k) == FoldLeft(LAMBDA x, i : IncBytesBE(x), c, [i \in 1..k |-> i])
DrUpdate(d, data) ==
  LET t == XorBytes(AesCtr(d.K, d.V, 3), data) IN
  [K |-> Take(t, 32), V |-> Drop(t, 32)]
DrInit(entropy, pers) == DrUpdate([K |-> Zeros(32), V |-> Zeros(16)], XorBytes(entropy, pers \o Zeros(48 - Len(pers))))
\* add = <<>>: none
DrGen(d, n, add) ==
  LET a48 == add \o Zeros(48 - Len(add))
      d1 == TLCEval(IF add = <<>> THEN d ELSE DrUpdate(d, a48))
      k == (n + 15) \div 16
  IN [out |-> Take(AesCtr(d1.K, d1.V, k), n),
      d |-> DrUpdate([K |-> d1.K, V |-> TLCEval(AddBE(d1.V, k))], a48)]
(* seed expander: key, 12 bytes of nonce, 32-bit block counter; maxlen is   *)
(* given as four bytes.  The last byte announced is never given out.        *)
SxInit(seed, div, maxlen, be) == [K |-> seed, pre |-> div \o be, left |-> maxlen, used |-> 0]
SxOut(s, n) ==
  LET b0 == s.used \div 16   b1 == (s.used + n + 15) \div 16
      blk(i) == LET c == s.pre \o << (i \div 16777216) % 256, (i \div 65536) % 256, (i \div 256) % 256, i % 256 >>
                IN AesCtr(s.K, DecBytesBE(c), 1)
      all == TLCEval(Concat([j \in 1..(b1 - b0) |-> blk(b0 + j - 1)]))
  IN Slice(all, s.used % 16, n)
(* ChaCha20 generator: 512-byte buffer *)
CcInit(seed) ==
  LET s == TLCEval(SeedWords(seed))   r == TLCEval(CRefill(s, <<s[13], s[14]>>)) IN
  [s |-> s, c |-> r.c, buf |-> r.buf, p |-> 0]
CcFill(g) == LET r == TLCEval(CRefill(g.s, g.c)) IN [g EXCEPT !.c = r.c, !.buf = r.buf, !.p = 0]
CcTake(g, n) == [out |-> Slice(g.buf, g.p, n), g |-> [g EXCEPT !.p = g.p + n]]
\* eight bytes; with nine or fewer left they are dropped first
CcU64(g) == CcTake(IF g.p >= 503 THEN TLCEval(CcFill(g)) ELSE g, 8)
\* one byte; the buffer is never left empty
CcU8(g) == LET r == CcTake(g, 1) IN IF r.g.p = 512 THEN [r EXCEPT !.g = TLCEval(CcFill(r.g))] ELSE r
\* any number of bytes, none dropped
CcBytes(g, n) ==
  FoldLeft(LAMBDA a, i : IF Len(a.out) = n THEN a ELSE
             LET k == Min2(n - Len(a.out), 512 - a.g.p)   r == TLCEval(CcTake(a.g, k))
                 g2 == IF r.g.p = 512 THEN TLCEval(CcFill(r.g)) ELSE r.g IN
             [out |-> TLCEval(a.out \o r.out), g |-> g2],
           [out |-> <<>>, g |-> g], [i \in 1..(n \div 512 + 2) |-> i])
(* the Python generator starts with an empty buffer and drops what does     *)
(* not suffice for a request; 9 bytes are the 8 + 1 of the C generator, so   *)
(* they are never the last 9 of a buffer                                    *)
PcInit(seed) == LET s == SeedWords(seed) IN [s |-> s, c |-> <<s[13], s[14]>>, buf |-> <<>>, p |-> 512]
PcBytes(g, n) == CcTake(IF n > 512 - g.p \/ (n = 9 /\ g.p = 503) THEN TLCEval(CcFill(g)) ELSE g, n)
=============================================================================
