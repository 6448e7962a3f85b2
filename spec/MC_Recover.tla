----------------------------- MODULE MC_Recover -----------------------------
(***************************************************************************)
(* Key recovery and ordinary verification agree: the key recovered from    *)
(* (s1, s2, c) is h exactly when s1 + s2 h = c, and it is the only one.    *)
(***************************************************************************)
EXTENDS Poly
CONSTANTS B
R == (0 - B)..B
Vecs == {<<x, y>> : x \in R, y \in R}
Hs == {<<1, 0>>, <<12288, 1>>, <<0, 6145>>, <<4091, 77>>, <<5, 12288>>}
VARIABLES s1, s2, h, d, rec
Init == s1 \in Vecs /\ s2 \in {v \in Vecs : Invertible(v)} /\ h \in Hs /\ d \in Vecs /\ rec = <<>>
\* the point is s1 + s2 h + d; the hint is the inverse of NTT(s2)
C == PolyAdd(PolyAdd(s1, Mul(s2, h)), d)
Hint == [i \in 1..2 |-> InvQ(Ntt(s2)[i])]
Next == rec = <<>> /\ rec' = Intt(PointMul(Ntt(PolySub(C, s1)), Hint)) /\ UNCHANGED <<s1, s2, h, d>>
Valid == PolyModQ(PolyCentre(PolySub(C, Mul(s2, h)))) = PolyModQ(s1)
Sound == rec # <<>> => ((rec = h) <=> Valid)
Unique == rec # <<>> => Mul(s2, rec) = PolySub(C, s1)
=============================================================================
