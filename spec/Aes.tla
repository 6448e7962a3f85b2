--------------------------------- MODULE Aes ---------------------------------
(* AES-256 block encryption, from FIPS 197. *)
EXTENDS Bytes
XTime(a) == IF a < 128 THEN 2 * a ELSE ((2 * a) - 256) ^^ 27
\* multiplication in GF(2^8)
RECURSIVE GMul(_, _)
GMul(a, b) == IF b = 0 THEN 0
              ELSE IF b % 2 = 1 THEN a ^^ GMul(XTime(a), b \div 2)
              ELSE GMul(XTime(a), b \div 2)
\* powers of the generator 3 give inverses: inv(3^i) = 3^(255-i)
Pow3 == FoldLeft(LAMBDA s, i : Append(s, GMul(s[Len(s)], 3)), <<1>>, [i \in 1..254 |-> i])
Log3 == FoldLeft(LAMBDA f, i : [f EXCEPT ![Pow3[i]] = i - 1],
                 [x \in 0..255 |-> 0], [i \in 1..255 |-> i])
GInv == TLCEval([x \in 0..255 |-> IF x = 0 THEN 0 ELSE Pow3[((255 - Log3[x]) % 255) + 1]])
Rotl8(x, r) == ((x * P2(r)) % 256) + (x \div P2(8 - r))
SBox == TLCEval([x \in 0..255 |-> LET i == GInv[x] IN
          i ^^ (Rotl8(i, 1) ^^ (Rotl8(i, 2) ^^ (Rotl8(i, 3) ^^ (Rotl8(i, 4) ^^ 99))))])
X2 == TLCEval([x \in 0..255 |-> XTime(x)])
Rcon == <<1, 2, 4, 8, 16, 32, 64>>
\* 60 words of 4 bytes
KeyExp(key) ==
  LET w0 == [i \in 1..8 |-> Slice(key, 4 * (i - 1), 4)]
      step(w, i) == \* i is the zero-based index of the word being added
        LET p == w[i]   \* previous word (one-based index i)
            t == IF i % 8 = 0
                 THEN << SBox[p[2]] ^^ Rcon[i \div 8], SBox[p[3]], SBox[p[4]], SBox[p[1]] >>
                 ELSE IF i % 8 = 4 THEN << SBox[p[1]], SBox[p[2]], SBox[p[3]], SBox[p[4]] >>
                 ELSE p
        IN Append(w, XorBytes(w[i - 7], t))
  IN TLCEval(FoldLeft(step, w0, [k \in 1..52 |-> k + 7]))
RoundKey(w, r) == w[4*r+1] \o w[4*r+2] \o w[4*r+3] \o w[4*r+4]
ShiftIdx == <<1,6,11,16, 5,10,15,4, 9,14,3,8, 13,2,7,12>>
AesEnc(w, block) ==
  LET sub(s) == TLCEval([i \in 1..16 |-> SBox[s[ShiftIdx[i]]]])
      mix(s) == TLCEval([i \in 1..16 |->
                  LET c == 4 * ((i - 1) \div 4)   r == (i - 1) % 4
                      a == s[c + 1 + r]            b == s[c + 1 + ((r + 1) % 4)]
                      d == s[c + 1 + ((r + 2) % 4)] e == s[c + 1 + ((r + 3) % 4)]
                  IN X2[a] ^^ ((X2[b] ^^ b) ^^ (d ^^ e))])
      s0 == XorBytes(block, RoundKey(w, 0))
      s13 == FoldLeft(LAMBDA s, r : XorBytes(mix(sub(s)), RoundKey(w, r)), s0,
                      [r \in 1..13 |-> r])
  IN XorBytes(sub(s13), RoundKey(w, 14))
\* n blocks of counter mode, the counter incremented before each
AesCtr(key, ctr, n) ==
  LET w == KeyExp(key) IN
  FoldLeft(LAMBDA a, i : LET c == TLCEval(IncBytesBE(a.c)) IN [c |-> c, o |-> TLCEval(a.o \o AesEnc(w, c))],
           [c |-> ctr, o |-> <<>>], [i \in 1..n |-> i]).o
=============================================================================
