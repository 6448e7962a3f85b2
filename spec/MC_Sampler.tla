----------------------------- MODULE MC_Sampler -----------------------------
(***************************************************************************)
(* The sampler's algorithms at toy size: limb-wise borrow comparison in     *)
(* wrapping arithmetic, and the lazy bytewise acceptance test, against      *)
(* their meaning, for every value.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS B        \* size of a limb or byte
W == 8 * B         \* machine word: differences of limbs wrap around
VARIABLES u, w     \* two numbers of three digits
Dig(x, i) == (x \div (B ^ i)) % B
Sub1(x, y, c) == IF ((x - y - c) % W) >= (W \div 2) THEN 1 ELSE 0
Borrow == Sub1(Dig(u, 2), Dig(w, 2), Sub1(Dig(u, 1), Dig(w, 1), Sub1(Dig(u, 0), Dig(w, 0), 0)))
BorrowOk == (Borrow = 1) = (u < w)
\* u: random digits from the top; w: the threshold
RECURSIVE Lazy(_)
Lazy(i) == IF Dig(u, i) # Dig(w, i) \/ i = 0 THEN [acc |-> ((Dig(u, i) - Dig(w, i)) % W) >= (W \div 2), n |-> 3 - i] ELSE Lazy(i - 1)
LazyOk == Lazy(2).acc = (u < w)
\* as many digits as tell the two apart: the digits read decide for every continuation
Consumed == LET n == Lazy(2).n IN n = 3 \/ (\A x \in 0..(B ^ (3 - n) - 1) : (((u - (u % (B ^ (3 - n)))) + x) < w) = (u < w))
\* the threshold for exp(-x), x = s ln 2 + r, kept in range by the decrement
Nums == 0..(B ^ 3 - 1)
Init == u \in Nums /\ w \in Nums
Next == UNCHANGED <<u, w>>
=============================================================================
