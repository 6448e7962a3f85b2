--------------------------------- MODULE H2p ---------------------------------
(***************************************************************************)
(* Hash-to-point: consecutive big-endian 16-bit samples of a byte stream,  *)
(* those below 5q kept and reduced modulo q, the first n of them.          *)
(***************************************************************************)
EXTENDS Keccak, Blake2s, Poly
\* acc = [x: coefficients so far, used: bytes of the stream consumed]
RECURSIVE UpTo(_, _, _)          \* samples up to and including the j-th kept one
UpTo(ws, k, j) == IF j = 0 THEN k ELSE UpTo(ws, k + 1, IF ws[k + 1] < 61445 THEN j - 1 ELSE j)
HBlock(n, blk, acc) ==
  LET ws == TLCEval([k \in 1..(Len(blk) \div 2) |-> 256 * blk[2 * k - 1] + blk[2 * k]])
      good == TLCEval(SelectSeq(ws, LAMBDA w : w < 61445))
      need == n - Len(acc.x)
      k == Min2(need, Len(good))
  IN TLCEval([x |-> acc.x \o [i \in 1..k |-> good[i] % Q],
              used |-> acc.used + (IF k < need THEN Len(blk) ELSE 2 * UpTo(ws, 0, need))])
\* the point in a given sequence of samples
PointIn(ws, n) == LET good == TLCEval(SelectSeq(ws, LAMBDA w : w < 61445)) IN TLCEval([i \in 1..n |-> good[i] % Q])
\* samples the constant-time variant takes beyond the degree, by its logarithm
Oversampling == <<65, 67, 71, 77, 86, 100, 122, 154, 205, 287>>
HStart == [x |-> <<>>, used |-> 0]
\* (folds, because TLC passes operator arguments unevaluated)
Rounds(n, per) == [i \in 1..(((2 * n) \div per) + 70) |-> i - 1]   \* enough with overwhelming probability
\* from a sponge state about to be squeezed at the SHAKE256 rate
HSponge(n, st0) ==
  FoldLeft(LAMBDA s, i : IF Len(s.a.x) = n THEN s
             ELSE [a |-> HBlock(n, TLCEval(StateBytes(s.b, 0, 136)), s.a), b |-> KeccakF(s.b)],
           [a |-> HStart, b |-> st0], Rounds(n, 68)).a
\* from a counter generator: key, block number; h = 0 Keccak-256, 1 BLAKE2s
CtrHash(h, m) == IF h = 0 THEN Keccak256(m) ELSE Blake2sN(m, 32)
HCtr(h, n, key0) ==
  FoldLeft(LAMBDA s, i : IF Len(s.a.x) = n THEN s
             ELSE [s EXCEPT !.a = HBlock(n, TLCEval(CtrHash(h, s.key \o BE64(i))), s.a)],
           [a |-> HStart, key |-> key0], Rounds(n, 16)).a
HChain(n, b0) ==
  FoldLeft(LAMBDA s, i : IF Len(s.a.x) = n THEN s
             ELSE [a |-> HBlock(n, s.b, s.a), b |-> Keccak256(s.b)],
           [a |-> HStart, b |-> b0], Rounds(n, 16)).a
\* the point of nonce || message under each of the generators
PointOf(xof, nonce, m, n) ==
  CASE xof = "shake" -> HSponge(n, TLCEval(Absorb(nonce \o m, 136, 31)))
    [] xof = "keccak" -> HCtr(0, n, TLCEval(Keccak256(nonce \o m)))
    [] xof = "blake2s" -> HCtr(1, n, TLCEval(Blake2sN(TLCEval(Blake2sN(nonce, 32)) \o m, 32)))
    [] xof = "chain" -> HChain(n, TLCEval(Keccak256(nonce \o m)))
\* inputs that the generator's buffer cannot hold
TooLong(xof, nonce, m) ==
  \/ xof = "keccak" /\ Len(nonce) + Len(m) > 4096
  \/ xof = "blake2s" /\ 32 + Len(m) > 1024
=============================================================================
