------------------------------ MODULE MC_Klein ------------------------------
(***************************************************************************)
(* The recursion over the tower of fields visits the same centres and       *)
(* lengths as Gram-Schmidt on the whole lattice, for every basis of small   *)
(* coefficients, every target and every outcome of the draws; and what it   *)
(* yields is the target less a lattice point.                               *)
(***************************************************************************)
EXTENDS Klein, FiniteSets
CONSTANTS N, B, Z, T,
  Sup,      \* coefficients of f and g other than 0
  SupF,     \* the same of F and G
  J,        \* where the target is T
  Ones      \* outcomes other than the floor of the centre
VARIABLES k, hm, zs, ok
Vecs(b) == [1..N -> (0 - b)..b]
NonZero(v) == Cardinality({i \in 1..N : v[i] # 0})
Coefs(m) == {v \in Vecs(B) : NonZero(v) <= m}
\* up to sign
Lead(v) == \A i \in 1..N : v[i] < 0 => \E j \in 1..(i - 1) : v[j] > 0
Det(a) == SubP(MulZ(a.f, a.G), MulZ(a.g, a.F))
Regular(a) == \A j \in 1..(N \div 2) : BBits(CAbs2(Basis(a).det[j]).m) > RS - 20
Init == /\ \E f, g \in Coefs(Sup), F, G \in Coefs(SupF) : k = [f |-> f, g |-> g, F |-> F, G |-> G]
        /\ Lead(k.f) /\ Lead(k.G) /\ Regular(k)
        /\ hm \in {[i \in 1..N |-> IF i = j THEN t ELSE i] : j \in J, t \in T}
        /\ zs = <<>> /\ ok = TRUE
Close(a, b) == RNear(a, b, RS - 60)
Same(x, y) == Len(x.log) = Len(y.log) /\ \A i \in 1..Len(x.log) : Close(x.log[i][1], y.log[i][1]) /\ Close(x.log[i][2], y.log[i][2])
\* a centre that is an integer, or nearly, has no determined floor
Vague(x) == \E i \in 1..Len(x.log) : NearInt(x.log[i][1])
Full(v) == LET d == TLCEval(KleinZ(k, hm, TLCEval(Given(N, v))))  t == TLCEval(TowerZ(TLCEval(Basis(k)), hm, TLCEval(Given(N, v)))) IN
  Vague(d.src) \/ (Same(d.src, t.src) /\ d.z0 = t.z0 /\ d.z1 = t.z1)
Next == /\ zs = <<>>
        /\ \E v \in [1..(2 * N) -> Z] : Cardinality({i \in 1..(2 * N) : v[i] # 0}) <= Ones /\ zs' = v
        /\ ok' = Full(zs')
        /\ UNCHANGED <<k, hm>>
Agree == ok
=============================================================================
