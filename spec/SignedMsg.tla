------------------------------ MODULE SignedMsg ------------------------------
(***************************************************************************)
(* Signed messages of the C interface, degree 512:                          *)
(*   length of esig (2, big-endian) | nonce (40) | message | esig           *)
(* std: esig = 0x29 | Golomb-Rice s2;      pk = 0x09 | h, 14 bits each      *)
(* zk:  esig = 0x29 | s2, 16-bit words;    pk = 0x09 | NTT(h), 16 bits each *)
(* epv: esig = 0x29 | s1 | 0x29 | s2 | hint (2);           pk as for zk     *)
(* A private key is 0x59 | f (6 bits) | g (6) | F (8).                      *)
(***************************************************************************)
EXTENDS Codec, H2p
N == 512
NonceLen == 40
SigHead == 41                                 \* 0x20 + log2 n
No == [ok |-> FALSE, m |-> <<>>]
EsigMax(v) == CASE v = "std" -> 648 [] v = "zk" -> 1025 [] v = "epv" -> 2052
PkLen(v) == IF v = "std" THEN 897 ELSE 1025
PkBits(v) == IF v = "std" THEN 14 ELSE 16
PkParse(v, pk) == IF pk[1] # 9 THEN Fail ELSE ModqDecode(Tail(pk), N, PkBits(v))
(* the envelope *)
Envelope(sm) ==
  IF Len(sm) < 2 + NonceLen THEN [ok |-> FALSE]
  ELSE LET sl == 256 * sm[1] + sm[2]   ml == Len(sm) - 2 - NonceLen - sl IN
       IF ml < 0 THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, nonce |-> Slice(sm, 2, NonceLen), m |-> Slice(sm, 2 + NonceLen, ml),
             esig |-> Drop(sm, 2 + NonceLen + ml)]
Assemble(nonce, m, esig) == << Len(esig) \div 256, Len(esig) % 256 >> \o nonce \o m \o esig
(* the signature: s1 is empty when it is not transmitted *)
NoSig == [ok |-> FALSE, s1 |-> <<>>, s2 |-> <<>>]
SigParse(v, e) ==
  CASE v = "std" -> IF e = <<>> \/ e[1] # SigHead THEN NoSig ELSE
                    LET d == TLCEval(CompDecode(Tail(e), N)) IN
                    IF d.ok /\ d.len = Len(e) - 1 THEN [ok |-> TRUE, s1 |-> <<>>, s2 |-> d.x] ELSE NoSig
    [] v = "zk" -> IF Len(e) # 1025 \/ e[1] # SigHead THEN NoSig ELSE
                   LET d == TLCEval(Comp16Decode(Tail(e), N)) IN
                   IF d.ok THEN [ok |-> TRUE, s1 |-> <<>>, s2 |-> d.x] ELSE NoSig
    [] v = "epv" -> IF Len(e) # 2052 \/ e[1] # SigHead \/ e[1026] # SigHead THEN NoSig ELSE
                    LET a == TLCEval(Comp16Decode(Slice(e, 1, 1024), N))
                        b == TLCEval(Comp16Decode(Slice(e, 1026, 1024), N)) IN
                    IF a.ok /\ b.ok THEN [ok |-> TRUE, s1 |-> a.x, s2 |-> b.x] ELSE NoSig
(* h is in the transformed domain *)
ValidSig(v, c, g, h) ==
  LET t == TLCEval(Ntt(g.s2))   hs == TLCEval(PointMul(t, h)) IN
  IF v = "epv" THEN /\ IsShort(g.s1, g.s2)
                    /\ \A i \in 1..N : t[i] # 0
                    /\ TLCEval(Ntt(PolySub(c, g.s1))) = hs
  ELSE IsShort(TLCEval(PolyCentre(PolySub(c, TLCEval(Intt(hs))))), g.s2)
\* the message a signed message carries for a public key, if it does
Open(v, xof, sm, pk) ==
  LET p == TLCEval(PkParse(v, pk)) IN
  IF ~p.ok THEN No ELSE
  LET e == TLCEval(Envelope(sm)) IN
  IF ~e.ok THEN No ELSE
  LET g == TLCEval(SigParse(v, e.esig)) IN
  IF ~g.ok \/ TooLong(xof, e.nonce, e.m) THEN No ELSE
  LET c == TLCEval(PointOf(xof, e.nonce, e.m, N).x)
      h == TLCEval(IF v = "std" THEN Ntt(p.x) ELSE p.x) IN
  IF ValidSig(v, c, g, h) THEN [ok |-> TRUE, m |-> e.m] ELSE No
(* private keys *)
SkParse(sk) ==
  IF sk[1] # 89 THEN [ok |-> FALSE] ELSE
  LET f == TLCEval(TrimDecode(Slice(sk, 1, 384), N, 6))
      g == TLCEval(TrimDecode(Slice(sk, 385, 384), N, 6))
      F == TLCEval(TrimDecode(Slice(sk, 769, 512), N, 8)) IN
  IF ~(f.ok /\ g.ok /\ F.ok) THEN [ok |-> FALSE] ELSE
  LET tf == TLCEval(Ntt(f.x)) IN
  IF \E i \in 1..N : tf[i] = 0 THEN [ok |-> FALSE] ELSE
  LET h == TLCEval(LET tg == TLCEval(Ntt(g.x)) IN [i \in 1..N |-> (tg[i] * InvQ(tf[i])) % Q])
      \* fG - gF = q, hence G = hF modulo q
      G == TLCEval(PolyCentre(Intt(PointMul(h, Ntt(F.x))))) IN
  IF \E i \in 1..N : Abs(G[i]) > 127 THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, h |-> h, f |-> f.x, g |-> g.x, F |-> F.x, G |-> G]
PkOf(v, h) == <<9>> \o (IF v = "std" THEN ModqEncode(TLCEval(Intt(h)), 14) ELSE ModqEncode(h, 16))
\* the two bytes after an Epervier signature: the inverse of the product of NTT(s2)
Hint(s2) == LET p == FoldLeft(LAMBDA a, x : (a * x) % Q, 1, TLCEval(Ntt(s2))) IN InvQ(p)
=============================================================================
