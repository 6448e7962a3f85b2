------------------------------- MODULE MC_Ring -------------------------------
(***************************************************************************)
(* The fast operators of Poly.tla against their definitions, on a basis:   *)
(* everything compared is linear in each argument, so agreement on the     *)
(* monomials is agreement everywhere.  State: a degree and two exponents.  *)
(***************************************************************************)
EXTENDS Poly
CONSTANT Degrees
VARIABLES n, i, j
Mono(m, k) == [t \in 1..m |-> IF t = k + 1 THEN 1 ELSE 0]
Init == n \in Degrees /\ i = 0 /\ j = 0
Next == \/ i < n - 1 /\ i' = i + 1 /\ UNCHANGED <<n, j>>
        \/ j < n - 1 /\ j' = j + 1 /\ UNCHANGED <<n, i>>
\* x^i * x^j = (-1)^((i+j) div n) x^((i+j) mod n)
Product == Mul(Mono(n, i), Mono(n, j)) =
           [t \in 1..n |-> IF t - 1 = (i + j) % n THEN (IF i + j < n THEN 1 ELSE Q - 1) ELSE 0]
Transform == j = 0 => /\ Ntt(Mono(n, i)) = NttDef(Mono(n, i))
                      /\ Intt(Ntt(Mono(n, i))) = Mono(n, i)
\* the points of the transform are n different roots of x^n + 1: zero
\* divisors are exactly the polynomials that vanish at one of them
Points == j = 0 /\ i = 0 =>
          /\ \A k \in 0..(n - 1) : PowQ(Point(n, k), n) = Q - 1
          /\ \A k, m \in 0..(n - 1) : k # m => Point(n, k) # Point(n, m)
=============================================================================
