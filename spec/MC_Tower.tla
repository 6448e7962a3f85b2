------------------------------ MODULE MC_Tower ------------------------------
(***************************************************************************)
(* The identities the NTRU solver and the tree construction rest on, for    *)
(* every pair of small polynomials: the norm is multiplicative and descends *)
(* to the subring; what is lifted from a solution below solves above; the   *)
(* halves of a product; the determinant of the Gram matrix.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS N, B
VARIABLES a, b
MulZ(x, y) ==
  LET n == Len(x) IN
  TLCEval([k \in 1..n |->
     FoldLeft(LAMBDA s, i : IF i <= k THEN s + x[i] * y[k - i + 1] ELSE s - x[i] * y[n + k - i + 1],
              0, [i \in 1..n |-> i])])
Add(x, y) == [i \in 1..Len(x) |-> x[i] + y[i]]
Sub(x, y) == [i \in 1..Len(x) |-> x[i] - y[i]]
Flip(x) == [i \in 1..Len(x) |-> IF i % 2 = 0 THEN 0 - x[i] ELSE x[i]]
Adj(x) == [i \in 1..Len(x) |-> IF i = 1 THEN x[1] ELSE 0 - x[Len(x) + 2 - i]]
Even(x) == [i \in 1..(Len(x) \div 2) |-> x[2 * i - 1]]
Odd(x) == [i \in 1..(Len(x) \div 2) |-> x[2 * i]]
Lift(x) == [i \in 1..(2 * Len(x)) |-> IF i % 2 = 1 THEN x[(i + 1) \div 2] ELSE 0]
ShiftUp(x) == [i \in 1..Len(x) |-> IF i = 1 THEN 0 - x[Len(x)] ELSE x[i - 1]]
Norm(x) == Even(MulZ(x, Flip(x)))
\* the norm as the solver computes it: even^2 - X odd^2
NormEO(x) == Sub(MulZ(Even(x), Even(x)), ShiftUp(MulZ(Odd(x), Odd(x))))
NormOk == /\ Odd(MulZ(a, Flip(a))) = [i \in 1..(N \div 2) |-> 0]
          /\ Norm(a) = NormEO(a)
          /\ Norm(MulZ(a, b)) = MulZ(Norm(a), Norm(b))
\* lifting: for every F0, G0 below, f (G0^ f~) - g (F0^ g~) is the lift of N(f) G0 - N(g) F0
LiftOk == LET F0 == Even(b)  G0 == Odd(a)
              G == MulZ(Lift(G0), Flip(a))  F == MulZ(Lift(F0), Flip(b))
          IN Sub(MulZ(a, G), MulZ(b, F)) = Lift(Sub(MulZ(Norm(a), G0), MulZ(Norm(b), F0)))
SplitOk == LET p == MulZ(a, b) IN
           /\ Even(p) = Add(MulZ(Even(a), Even(b)), ShiftUp(MulZ(Odd(a), Odd(b))))
           /\ Odd(p) = Add(MulZ(Even(a), Odd(b)), MulZ(Odd(a), Even(b)))
           /\ Odd(Adj(a)) = [i \in 1..(N \div 2) |-> 0 - Odd(a)[(N \div 2) + 1 - i]]
\* |a|^2 |d|^2 - |<a,d>|^2 is a norm of the determinant, for rows (a, b) and (b, a)
GramOk == LET g00 == Add(MulZ(a, Adj(a)), MulZ(b, Adj(b)))
              g01 == Add(MulZ(a, Adj(b)), MulZ(b, Adj(a)))
              d == Sub(MulZ(a, a), MulZ(b, b))
          IN Sub(MulZ(g00, g00), MulZ(g01, Adj(g01))) = MulZ(d, Adj(d))
Polys == [1..N -> (0 - B)..B]
Init == a \in Polys /\ b \in Polys
Next == UNCHANGED <<a, b>>
=============================================================================
