-------------------------------- MODULE EvmNtt --------------------------------
(***************************************************************************)
(* The on-chain transforms.  A transform over a table T of factors is the  *)
(* walk down a binary tree: node k splits a polynomial modulo x^2h - s^2   *)
(* into its residues modulo x^h - s and x^h + s, s = T[k] (zero based,     *)
(* root 1, children 2k and 2k+1); the inverse walks up.  MC_NttTree checks *)
(* that with the powers of a root of -1 this is evaluation at its odd      *)
(* powers, so that multiplication point by point is the negacyclic product.*)
(***************************************************************************)
EXTENDS Poly
MulMod(a, b, m) ==     \* below 2^31 for m < 2^23
  IF m < 46340 THEN ((a % m) * (b % m)) % m
  ELSE LET x == a % m  y == b % m
           t == ((((x * (y \div 65536)) % m) * 256) % m) + ((x * ((y \div 256) % 256)) % m)
       IN ((((t % m) * 256) % m) + ((x * (y % 256)) % m)) % m
At(T, k) == IF k < Len(T) THEN T[k + 1] ELSE 0
RECURSIVE TreeFw(_, _, _, _)
TreeFw(a, T, k, m) ==
  IF Len(a) <= 1 THEN a
  ELSE LET h == Len(a) \div 2
           s == At(T, k)
           v == TLCEval([i \in 1..h |-> MulMod(a[i + h], s, m)])
           lo == TLCEval([i \in 1..h |-> (a[i] + v[i]) % m])
           hi == TLCEval([i \in 1..h |-> (a[i] + m - v[i]) % m])
           l == TLCEval(TreeFw(lo, T, 2 * k, m))
           r == TLCEval(TreeFw(hi, T, 2 * k + 1, m))
       IN TLCEval(l \o r)
RECURSIVE TreeInv(_, _, _, _)
TreeInv(a, T, k, m) ==
  IF Len(a) <= 1 THEN a
  ELSE LET h == Len(a) \div 2
           u == TLCEval(TreeInv(SubSeq(a, 1, h), T, 2 * k, m))
           v == TLCEval(TreeInv(SubSeq(a, h + 1, 2 * h), T, 2 * k + 1, m))
           s == At(T, k)
           lo == TLCEval([i \in 1..h |-> (u[i] + v[i]) % m])
           hi == TLCEval([i \in 1..h |-> MulMod((u[i] + m - v[i]) % m, s, m)])
       IN TLCEval(lo \o hi)
Vec(op(_, _), a, b) == TLCEval([i \in 1..Len(a) |-> op(a[i], b[i])])
NttFw(a, T, m) == TreeFw(a, T, 1, m)
NttInv(a, T, m, f) == LET t == TLCEval(TreeInv(a, T, 1, m)) IN TLCEval([i \in 1..Len(a) |-> MulMod(t[i], f, m)])
PMul(a, b, m) == TLCEval([i \in 1..Len(a) |-> MulMod(a[i], b[i], m)])
\* bit reversal of k on w bits, and tables of powers of a root
RECURSIVE Rev(_, _)
Rev(k, w) == IF w = 0 THEN 0 ELSE (k % 2) * (2 ^ (w - 1)) + Rev(k \div 2, w - 1)
RECURSIVE PowMod(_, _, _)
PowMod(x, e, m) == IF e = 0 THEN 1
                   ELSE LET h == TLCEval(PowMod(MulMod(x, x, m), e \div 2, m)) IN
                        IF e % 2 = 0 THEN h ELSE MulMod(h, x, m)
Table(psi, w, m) == TLCEval([k \in 1..(2 ^ w) |-> PowMod(psi, Rev(k - 1, w), m)])
Psi == 49
PsiRev == TLCEval(Table(Psi, 9, Q))
PsiInvRev == TLCEval(Table(InvQ(Psi), 9, Q))
=============================================================================
