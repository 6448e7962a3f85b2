------------------------------- MODULE Keccak -------------------------------
(***************************************************************************)
(* Keccak-f[1600], the sponge, SHAKE256 and Keccak-256 (original 0x01      *)
(* padding), written from FIPS 202.  A state is 100 16-bit limbs: lane     *)
(* (x,y) = x + 5y occupies limbs 4*(x+5y)+1 .. +4, least significant first.*)
(***************************************************************************)
EXTENDS Bytes

Rho == << 0, 1, 62, 28, 27,  36, 44, 6, 55, 20,  3, 10, 43, 25, 39,
          41, 45, 15, 21, 8,  18, 2, 61, 56, 14 >>
RC == <<
 <<1,0,0,0>>, <<32898,0,0,0>>, <<32906,0,0,32768>>, <<32768,32768,0,32768>>,
 <<32907,0,0,0>>, <<1,32768,0,0>>, <<32897,32768,0,32768>>, <<32777,0,0,32768>>,
 <<138,0,0,0>>, <<136,0,0,0>>, <<32777,32768,0,0>>, <<10,32768,0,0>>,
 <<32907,32768,0,0>>, <<139,0,0,32768>>, <<32905,0,0,32768>>, <<32771,0,0,32768>>,
 <<32770,0,0,32768>>, <<128,0,0,32768>>, <<32778,0,0,0>>, <<10,32768,0,32768>>,
 <<32897,32768,0,32768>>, <<32896,0,0,32768>>, <<1,32768,0,0>>, <<32776,32768,0,32768>> >>

\* B[y, 2x+3y] = rot(A[x, y]): for destination lane (X, Y) the source is x = X + 3Y, y = X
PiSrc == [i \in 0..24 |-> LET X == i % 5  Y == i \div 5 IN ((X + 3 * Y) % 5) + 5 * X]
RhoPi == [j \in 1..100 |->
            LET i == (j - 1) \div 4   k == (j - 1) % 4
                s == PiSrc[i]         r == Rho[s + 1]
                lr == r \div 16       br == r % 16
            IN << 4 * s + ((k - lr + 4) % 4) + 1, 4 * s + ((k - lr + 7) % 4) + 1,
                  2^br, 2^(16 - br) >>]
ColOf == [j \in 1..100 |-> (((j - 1) \div 4) % 5) * 4 + ((j - 1) % 4) + 1]
DIdx == [c \in 1..20 |-> LET x == (c - 1) \div 4   k == (c - 1) % 4 IN
          << ((x + 4) % 5) * 4 + k + 1, ((x + 1) % 5) * 4 + k + 1,
             ((x + 1) % 5) * 4 + ((k + 3) % 4) + 1 >>]
ChiIdx == [j \in 1..100 |-> LET i == (j - 1) \div 4  k == (j - 1) % 4
                                x == i % 5           y == i \div 5 IN
            << 4 * (((x + 1) % 5) + 5 * y) + k + 1, 4 * (((x + 2) % 5) + 5 * y) + k + 1 >>]

KRound(a0, rc) ==
  LET c == TLCEval([j \in 1..20 |-> a0[j] ^^ (a0[j+20] ^^ (a0[j+40] ^^ (a0[j+60] ^^ a0[j+80])))])
      d == TLCEval([j \in 1..20 |-> c[DIdx[j][1]] ^^
                     (((c[DIdx[j][2]] * 2) % 65536) + (c[DIdx[j][3]] \div 32768))])
      a == TLCEval([j \in 1..100 |-> a0[j] ^^ d[ColOf[j]]])
      b == TLCEval([j \in 1..100 |-> LET t == RhoPi[j] IN
                     ((a[t[1]] * t[3]) % 65536) + (a[t[2]] \div t[4])])
      e == TLCEval([j \in 1..100 |-> b[j] ^^ ((65535 - b[ChiIdx[j][1]]) & b[ChiIdx[j][2]])])
  IN TLCEval([j \in 1..100 |-> IF j <= 4 THEN e[j] ^^ rc[j] ELSE e[j]])

KeccakF(a) == FoldLeft(KRound, TLCEval(a), RC)
KZero == [j \in 1..100 |-> 0]

\* xor `block` (even length) into the front of the state
XorIn(a, block) == TLCEval([j \in 1..100 |->
    IF 2 * j <= Len(block) THEN a[j] ^^ (block[2 * j - 1] + 256 * block[2 * j]) ELSE a[j]])

Pad(msg, rate, ds) ==
  LET r == rate - (Len(msg) % rate) IN
  IF r = 1 THEN msg \o << ds + 128 >>
  ELSE msg \o (<< ds >> \o Zeros(r - 2)) \o << 128 >>

\* state after absorbing the padded message
Absorb(msg, rate, ds) ==
  LET p == TLCEval(Pad(msg, rate, ds))
      nb == Len(p) \div rate
  IN FoldLeft(LAMBDA a, k : KeccakF(XorIn(a, Slice(p, (k - 1) * rate, rate))),
              KZero, [k \in 1..nb |-> k])

StateByte(a, i) == \* zero-based
  LET w == a[(i \div 2) + 1] IN IF i % 2 = 0 THEN w % 256 ELSE w \div 256
StateBytes(a, off, n) == TLCEval([i \in 1..n |-> StateByte(a, off + i - 1)])

Rate256 == 136
Keccak256(msg) == StateBytes(Absorb(msg, Rate256, 1), 0, 32)

(***************************************************************************)
(* A squeezing stream: current state block and read position.              *)
(***************************************************************************)
ShakeStart(msg) == [blk |-> Absorb(msg, Rate256, 31), pos |-> 0]
RECURSIVE SqueezeN(_, _, _, _)
SqueezeN(blk, pos, n, acc) ==
  IF n = 0 THEN [blk |-> blk, pos |-> pos, out |-> acc]
  ELSE IF pos = Rate256 THEN SqueezeN(KeccakF(blk), 0, n, acc)
  ELSE LET k == Min2(n, Rate256 - pos) IN
       SqueezeN(blk, pos + k, n - k, TLCEval(acc \o StateBytes(blk, pos, k)))
Shake256(msg, n) == SqueezeN(Absorb(msg, Rate256, 31), 0, n, <<>>).out

(***************************************************************************)
(* Counter-mode generator: key = Keccak256(msg), block i = H(key||BE64(i)).*)
(***************************************************************************)
CtrBlock(key, i) == Keccak256(key \o BE64(i))
=============================================================================
