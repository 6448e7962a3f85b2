------------------------------- MODULE Klein --------------------------------
(***************************************************************************)
(* Signing as Klein's sampler: the lattice of the private key, the vectors  *)
(* of its basis in bit-reversed order, each coordinate drawn from a         *)
(* discrete Gaussian around the projection of what is left of the target.   *)
(* Stated twice: by Gram-Schmidt (the definition) and by the recursion over *)
(* the tower of fields (for large degrees); MC_Klein shows them equal.      *)
(***************************************************************************)
EXTENDS Sampler, Poly, ChaCha, Keccak
Small31(v) == LET n == FoldLeft(LAMBDA s, i : s * BB + v.m[Len(v.m) + 1 - i], 0, [i \in 1..Len(v.m) |-> i])
              IN IF v.s = 1 THEN 0 - n ELSE n
(***************************************************************************)
(* The source of coordinates.  In mode "tape" a draw with the bytes of the  *)
(* tape, which More extends; in mode "given" the floor of the centre plus   *)
(* the next of a list of offsets, and centre and length are noted.          *)
(***************************************************************************)
\* a centre this close to an integer may be rounded either way by floating point
Edge == BPow2(RS - 24)
NearInt(c) == LET f == TLCEval(ZSub(c, ZShl(ZShr(c, RS), RS)).m) IN BCmp(f, Edge) < 0 \/ BCmp(BSub(ROne, f), Edge) < 0
TapeTol == 30
\* 1 / (2 sigma^2) and sigma_min / sigma
SigOf(n) == TLCEval(With(SigMin(n), LAMBDA sm : With(SigmaOf(n), LAMBDA sg : With(RMul(sg, sg), LAMBDA s2 :
            [half |-> RDiv(RInt(1), RMul(RInt(2), s2)), ccs |-> RDiv(sm, sg)]))))
Source(kind, n, tape, gs, gc) ==
  LET t == TLCEval(SigOf(n)) IN
  TLCEval([kind |-> kind, tape |-> tape, gs |-> gs, gc |-> gc, pos |-> 0, how |-> "ok", log |-> <<>>, half |-> t.half, ccs |-> t.ccs])
Chacha(n, seed) == LET w == TLCEval(SeedWords(seed)) IN Source("chacha", n, <<>>, w, <<w[13], w[14]>>)
Shaked(n, seed) == LET b == TLCEval(ShakeStart(seed)) IN Source("shake", n, <<>>, b.blk, b.pos)
Taped(n, tape) == Source("fixed", n, tape, <<>>, 0)
Given(n, zs) == Source("given", n, zs, <<>>, 0)
More(src) ==
  IF src.kind = "chacha" THEN LET r == TLCEval(CRefill(src.gs, src.gc)) IN [src EXCEPT !.tape = TLCEval(@ \o r.buf), !.gc = r.c]
  ELSE IF src.kind = "shake" THEN LET r == TLCEval(SqueezeN(src.gs, src.gc, 1000, <<>>)) IN
       [src EXCEPT !.tape = TLCEval(@ \o r.out), !.gs = r.blk, !.gc = r.pos]
  ELSE [src EXCEPT !.how = "short"]
RECURSIVE PickAt(_, _, _, _, _)
PickAt(src, fl, fr, dd, ccs) ==
  LET o == TLCEval(DrawAt(src.tape, src.pos, IF src.kind = "chacha" THEN 512 ELSE 0, fl, fr, dd, ccs, TapeTol)) IN
  IF o.how = "done" THEN [z |-> o.z, src |-> [src EXCEPT !.pos = o.n]]
  ELSE IF o.how = "open" THEN [z |-> 0, src |-> [src EXCEPT !.how = "open"]]
  ELSE LET m == TLCEval(More([src EXCEPT !.pos = o.n])) IN
       IF m.how # "ok" THEN [z |-> 0, src |-> m] ELSE PickAt(m, fl, fr, dd, ccs)
\* a coordinate around c along a vector of squared length d
Pick(src, c, d) ==
  IF src.how # "ok" THEN [z |-> 0, src |-> src]
  ELSE LET fl == TLCEval(ZShr(c, RS)) IN
  IF src.kind = "given"
  THEN [z |-> Small31(fl) + src.tape[src.pos + 1], src |-> [src EXCEPT !.pos = @ + 1, !.log = Append(@, <<c, d>>)]]
  ELSE IF NearInt(c) \/ Len(fl.m) > 2 THEN [z |-> 0, src |-> [src EXCEPT !.how = "open"]]
  ELSE PickAt(src, Small31(fl), TLCEval(ZSub(c, ZShl(fl, RS))), TLCEval(RMul(d, src.half)), TLCEval(RMul(src.ccs, RSqrt(d))))
(***************************************************************************)
(* The definition.  Rows x^i (g, -f) and x^i (G, -F); within a row odd i    *)
(* before even i, recursively; (G, -F) before (g, -f).                      *)
(***************************************************************************)
Shift(p, i) == LET n == Len(p) IN TLCEval([j \in 1..n |-> IF j > i THEN p[j - i] ELSE 0 - p[n + j - i]])
NegP(p) == TLCEval([i \in 1..Len(p) |-> 0 - p[i]])
RECURSIVE Order(_)
Order(n) == IF n = 1 THEN <<0>> ELSE IF n = 2 THEN <<0, 1>>
            ELSE LET h == TLCEval(Order(n \div 2)) IN
                 TLCEval([i \in 1..n |-> IF i <= n \div 2 THEN 2 * h[i] + 1 ELSE 2 * h[i - n \div 2]])
Row(a, b, i) == TLCEval(Shift(a, i) \o NegP(Shift(b, i)))
RVec(v) == TLCEval([i \in 1..Len(v) |-> RInt(v[i])])
RDot(u, v) == FoldLeft(LAMBDA s, i : TLCEval(ZAdd(s, RMul(u[i], v[i]))), Zero, [i \in 1..Len(u) |-> i])
RSubMul(u, c, v) == TLCEval([i \in 1..Len(u) |-> ZSub(u[i], RMul(c, v[i]))])
\* rows in the order they are drawn
Rows(k) == LET n == Len(k.f)  o == Order(n) IN
  TLCEval([i \in 1..(2 * n) |-> IF i <= n THEN Row(k.G, k.F, o[i]) ELSE Row(k.g, k.f, o[i - n])])
\* a row less its projections on the rows drawn after it (bs: those, orthogonal)
RECURSIVE Gso(_, _, _)
Gso(rows, i, bs) ==
  IF i = 0 THEN bs
  ELSE LET v == RVec(rows[i])
           b == TLCEval(FoldLeft(LAMBDA u, w : TLCEval(RSubMul(u, RDiv(RDot(u, w.b), w.d), w.b)), v, bs))
       IN Gso(rows, i - 1, TLCEval(<<[b |-> b, d |-> TLCEval(RDot(b, b))]>> \o bs))
RECURSIVE KleinFrom(_, _, _, _, _, _)
KleinFrom(rows, bs, i, v, src, zs) ==
  IF i > Len(rows) THEN [z |-> zs, src |-> src]
  ELSE LET p == TLCEval(Pick(src, RDiv(RDot(v, bs[i].b), bs[i].d), bs[i].d)) IN
       KleinFrom(rows, bs, i + 1, TLCEval(RSubMul(v, RInt(p.z), RVec(rows[i]))), p.src, TLCEval(Append(zs, p.z)))
\* coordinates drawn for the target (hm, 0), as two polynomials
Unorder(zs, n, from) == LET o == Order(n) IN
  TLCEval([j \in 1..n |-> zs[from + (CHOOSE i \in 1..n : o[i] = j - 1)]])
KleinZ(k, hm, src) ==
  LET n == Len(k.f)  rows == Rows(k)  bs == TLCEval(Gso(rows, 2 * n, <<>>))
      r == TLCEval(KleinFrom(rows, bs, 1, RVec(hm \o [i \in 1..n |-> 0]), src, <<>>))
  IN [z1 |-> Unorder(r.z, n, 0), z0 |-> Unorder(r.z, n, n), src |-> r.src]
(***************************************************************************)
(* The tower.  An element of degree n > 1 is given by its values at the     *)
(* roots exp(i pi (2j - 1) / n) with positive imaginary part.               *)
(***************************************************************************)
CZero == [c |-> Zero, s |-> Zero]
CAdd(a, b) == [c |-> ZAdd(a.c, b.c), s |-> ZAdd(a.s, b.s)]
CSub(a, b) == [c |-> ZSub(a.c, b.c), s |-> ZSub(a.s, b.s)]
CConj(a) == [c |-> a.c, s |-> ZNeg(a.s)]
CHalf(a) == [c |-> ZShr(a.c, 1), s |-> ZShr(a.s, 1)]
CScale(a, r) == [c |-> RMul(a.c, r), s |-> RMul(a.s, r)]
CI == [c |-> Zero, s |-> RInt(1)]
RootsOf(n) == With(CRoot(1, n), LAMBDA w : With(CMul(w, w), LAMBDA w2 :
  FoldLeft(LAMBDA a, i : TLCEval(Append(a, CMul(a[Len(a)], w2))), <<w>>, [i \in 1..(n \div 4 - 1) |-> i])))
\* the first quadrant is enough
RootTab(n) == TLCEval([l \in 1..(BBits(BOf(n)) - 1) |-> IF l = 1 THEN <<>> ELSE RootsOf(2 ^ l)])
Merge2(rt, n, e, o) ==
  IF n = 2 THEN << [c |-> e[1].c, s |-> o[1].c] >>
  ELSE LET h == n \div 2  w == TLCEval(rt[BBits(BOf(n)) - 1])
           t == TLCEval([j \in 1..(n \div 4) |-> CMul(w[j], o[j])]) IN
       TLCEval([j \in 1..h |-> IF j <= n \div 4 THEN CAdd(e[j], t[j]) ELSE CConj(CSub(e[h + 1 - j], t[h + 1 - j]))])
SplitE(n, f) ==
  IF n = 2 THEN << [c |-> f[1].c, s |-> Zero] >>
  ELSE LET h == n \div 2 IN TLCEval([j \in 1..(n \div 4) |-> CHalf(CAdd(f[j], CConj(f[h + 1 - j])))])
SplitO(rt, n, f) ==
  IF n = 2 THEN << [c |-> f[1].s, s |-> Zero] >>
  ELSE LET h == n \div 2  w == TLCEval(rt[BBits(BOf(n)) - 1]) IN
       TLCEval([j \in 1..(n \div 4) |-> CHalf(CMul(CSub(f[j], CConj(f[h + 1 - j])), CConj(w[j])))])
RECURSIVE Fft(_, _)
Fft(rt, a) == LET n == Len(a) IN
  IF n = 1 THEN << [c |-> RInt(a[1]), s |-> Zero] >>
  ELSE Merge2(rt, n, TLCEval(Fft(rt, TLCEval([i \in 1..(n \div 2) |-> a[2 * i - 1]]))), TLCEval(Fft(rt, TLCEval([i \in 1..(n \div 2) |-> a[2 * i]]))))
Weave(e, o) == TLCEval([i \in 1..(2 * Len(e)) |-> IF i % 2 = 1 THEN e[(i + 1) \div 2] ELSE o[i \div 2]])
\* t0, t1: target coordinates; g00, g01, g11: the Gram matrix of the two vectors
RECURSIVE Tower(_, _, _, _, _, _, _, _)
Tower(rt, n, t0, t1, g00, g01, g11, src) ==
  IF n = 1 THEN
     LET a == TLCEval(Pick(src, t0[1].c, g00[1].c))  b == TLCEval(Pick(a.src, t1[1].c, g11[1].c)) IN
     [z0 |-> <<a.z>>, z1 |-> <<b.z>>, f0 |-> << [c |-> RInt(a.z), s |-> Zero] >>, f1 |-> << [c |-> RInt(b.z), s |-> Zero] >>, src |-> b.src]
  ELSE
  LET h == n \div 2  m == n \div 2
      l10 == TLCEval([j \in 1..m |-> LET i == RDiv(RInt(1), g00[j].c) IN CScale(CConj(g01[j]), i)])
      d11 == TLCEval([j \in 1..m |-> [c |-> ZSub(g11[j].c, RDiv(CAbs2(g01[j]), g00[j].c)), s |-> Zero]])
      e1 == TLCEval(SplitE(n, d11))
      y == TLCEval(Tower(rt, h, SplitE(n, t1), SplitO(rt, n, t1), e1, SplitO(rt, n, d11), e1, src))
      z1 == TLCEval(Merge2(rt, n, y.f0, y.f1))
      t0b == TLCEval([j \in 1..m |-> CAdd(t0[j], CMul(CSub(t1[j], z1[j]), l10[j]))])
      e0 == TLCEval(SplitE(n, g00))
      x == TLCEval(Tower(rt, h, SplitE(n, t0b), SplitO(rt, n, t0b), e0, SplitO(rt, n, g00), e0, y.src))
  IN [z0 |-> Weave(x.z0, x.z1), z1 |-> Weave(y.z0, y.z1), f0 |-> Merge2(rt, n, x.f0, x.f1), f1 |-> z1, src |-> x.src]
VMul(a, b) == TLCEval([j \in 1..Len(a) |-> CMul(a[j], b[j])])
VMulAdj(a, b) == TLCEval([j \in 1..Len(a) |-> CMul(a[j], CConj(b[j]))])
VAdd(a, b) == TLCEval([j \in 1..Len(a) |-> CAdd(a[j], b[j])])
VRe(a) == TLCEval([j \in 1..Len(a) |-> [c |-> a[j].c, s |-> Zero]])
VDiv(a, b) == TLCEval([j \in 1..Len(a) |-> CScale(CMul(a[j], CConj(b[j])), RDiv(RInt(1), CAbs2(b[j])))])
\* the basis in the tower: Gram matrix and, for det = g F - f G up to sign, what gives the target
Basis(k) ==
  LET n == Len(k.f)  rt == TLCEval(RootTab(n))
      f == TLCEval(Fft(rt, k.f))  g == TLCEval(Fft(rt, k.g))  F == TLCEval(Fft(rt, k.F))  G == TLCEval(Fft(rt, k.G)) IN
  TLCEval([n |-> n, rt |-> rt, f |-> f, F |-> F,
           g00 |-> VRe(VAdd(VMulAdj(g, g), VMulAdj(f, f))), g01 |-> VAdd(VMulAdj(g, G), VMulAdj(f, F)),
           g11 |-> VRe(VAdd(VMulAdj(G, G), VMulAdj(F, F))),
           det |-> [j \in 1..Len(f) |-> CSub(CMul(f[j], G[j]), CMul(g[j], F[j]))]])
\* (t0, t1) B = (hm, 0): t0 = -hm F / det, t1 = hm f / det
TowerZ(b, hm, src) ==
  LET c == TLCEval(Fft(b.rt, hm))
      t0 == TLCEval(VDiv(VMul(c, [j \in 1..Len(c) |-> CSub(CZero, b.F[j])]), b.det))  t1 == TLCEval(VDiv(VMul(c, b.f), b.det))
      r == TLCEval(Tower(b.rt, b.n, t0, t1, b.g00, b.g01, b.g11, src))
  IN [z0 |-> r.z0, z1 |-> r.z1, src |-> r.src]
(***************************************************************************)
(* The short vector (hm, 0) - z B                                           *)
(***************************************************************************)
AddP(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] + b[i]])
SubP(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] - b[i]])
ShortOf(k, hm, z) ==
  [s1 |-> SubP(hm, AddP(MulZ(z.z0, k.g), MulZ(z.z1, k.G))), s2 |-> AddP(MulZ(z.z0, k.f), MulZ(z.z1, k.F))]
\* the k-th attempt draws from a ChaCha generator seeded with the next 56 bytes of the SHAKE256 stream of the seed
RECURSIVE Attempts(_, _, _, _, _)
Attempts(k, b, hm, sh, left) ==
  LET q == TLCEval(SqueezeN(sh.blk, sh.pos, 56, <<>>))
      z == TLCEval(TowerZ(b, hm, Chacha(b.n, q.out)))
      v == TLCEval(ShortOf(k, hm, z))
      nx == [blk |-> q.blk, pos |-> q.pos]
  IN IF z.src.how # "ok" \/ left = 0 THEN [how |-> "open"]
     ELSE IF IsShort(v.s1, v.s2) THEN [how |-> "ok", v |-> v, next |-> SqueezeN(nx.blk, nx.pos, 8, <<>>).out]
     ELSE Attempts(k, b, hm, nx, left - 1)
=============================================================================
