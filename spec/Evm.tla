-------------------------------- MODULE Evm --------------------------------
(***************************************************************************)
(* What the contracts guarantee.  256-bit words are sequences of 16        *)
(* sixteen-bit lanes, least significant first; a packed polynomial is the  *)
(* sequence of the lanes of its words, so 32 words give 512 coefficients.  *)
(***************************************************************************)
EXTENDS PySigned
XofOf(c) == IF c \in {"falcon", "epervier"} THEN "shake" ELSE "keccak"
SolN == 512
Reduced(x) == \A i \in 1..Len(x) : x[i] < Q
SolPoint(c, salt, m) == TLCEval(PointOf(XofOf(c), salt, m, SolN).x)
\* verification of a packed s2 under a packed, transformed public key
SolValid(c, salt, m, s2, pk) ==
  /\ Len(salt) = 40 /\ Len(s2) = SolN /\ Len(pk) = SolN
  /\ Reduced(s2)
  /\ LET p == TLCEval(Intt(PointMul(Ntt(s2), pk))) IN
     IsShort(PolyCentre(PolySub(SolPoint(c, salt, m), p)), PolyCentre(s2))
\* big-endian 32-byte words at offset o (zero based) of a byte string, as lanes
LanesAt(b, o, k) == TLCEval([i \in 1..16 * k |->
   LET p == o + 32 * ((i - 1) \div 16) + 30 - 2 * ((i - 1) % 16) IN 256 * b[p + 1] + b[p + 2]])
\* the word at offset o when it is small, else -1
SmallAt(b, o) == IF o + 32 > Len(b) THEN -1
                 ELSE IF \E i \in 1..29 : b[o + i] # 0 THEN -1
                 ELSE 65536 * b[o + 30] + 256 * b[o + 31] + b[o + 32]
NoArr == [ok |-> FALSE]
\* ABI decoding of one dynamic array of words
AbiArr(b) ==
  LET o == SmallAt(b, 0) IN
  IF o < 0 THEN NoArr ELSE
  LET k == SmallAt(b, o) IN
  IF k < 0 THEN NoArr ELSE
  IF o + 32 + 32 * k > Len(b) THEN NoArr
  ELSE [ok |-> TRUE, x |-> LanesAt(b, o + 32, k)]
\* the packed form: a registered key, a 32-byte digest, salt and s2 in 1064 bytes
SolValid3(c, blob, digest, sig) ==
  LET k == TLCEval(AbiArr(blob)) IN
  /\ k.ok /\ Len(sig) = 40 + 32 * 32
  /\ SolValid(c, Slice(sig, 0, 40), digest, LanesAt(sig, 40, 32), k.x)
\* an account's code holds at most 24576 bytes, one of which is the prefix
MaxBlob == 24575
\* recovery: the address a signature determines, or <<>>
HintOf(h) == IF \A i \in 2..16 : h[i] = 0 THEN h[1] ELSE -1
SolRecover(c, salt, m, s1, s2, hint) ==
  IF Len(salt) # 40 \/ Len(s1) # SolN \/ Len(s2) # SolN THEN <<>>
  ELSE IF ~Reduced(s1) \/ ~Reduced(s2) \/ HintOf(hint) \notin 0..(Q - 1) THEN <<>>
  ELSE IF ~IsShort(PolyCentre(s1), PolyCentre(s2)) THEN <<>>
  ELSE LET t == TLCEval(Ntt(s2))
           prod == TLCEval(FoldLeft(LAMBDA a, x : (a * x) % Q, 1, t)) IN
       IF (prod * HintOf(hint)) % Q # 1 THEN <<>>
       ELSE LET v == TLCEval(Ntt(PolySub(SolPoint(c, salt, m), s1)))
                hn == TLCEval([i \in 1..SolN |-> (v[i] * InvQ(t[i])) % Q])
            IN Address("epervier", hn)
=============================================================================
