-------------------------------- MODULE Idct --------------------------------
(* The fixed-point inverse discrete cosine transform of the reference        *)
(* decoder (Z. Wang's algorithm with 11 bit constants): 8 row passes and 8   *)
(* column passes.  Right shifts of the algorithm are floor divisions.        *)
EXTENDS Integers, Sequences, TLC

\* 2048 * sqrt(2) * cos(k * pi / 16)
K1 == 2841
K2 == 2676
K3 == 2408
K5 == 1609
K6 == 1108
K7 == 565

\* (181 * x + 128) >> 8 without leaving 32 bits
Root2(x) == 181 * (x \div 256) + ((181 * (x % 256) + 128) \div 256)

RowPass(a0, a1, a2, a3, a4, a5, a6, a7) ==
  IF a1 = 0 /\ a2 = 0 /\ a3 = 0 /\ a4 = 0 /\ a5 = 0 /\ a6 = 0 /\ a7 = 0
  THEN LET s == a0 * 8 IN << s, s, s, s, s, s, s, s >>
  ELSE
  LET e0 == a0 * 2048 + 128
      e1 == a4 * 2048
      \* odd part: a1, a7 and a5, a3
      p  == K7 * (a1 + a7)
      o4 == p + (K1 - K7) * a1
      o5 == p - (K1 + K7) * a7
      q  == K3 * (a5 + a3)
      o6 == q - (K3 - K5) * a5
      o7 == q - (K3 + K5) * a3
      \* even part: a0, a4 and a2, a6
      s8 == e0 + e1
      s0 == e0 - e1
      t  == K6 * (a2 + a6)
      t2 == t - (K2 + K6) * a6
      t3 == t + (K2 - K6) * a2
      u1 == o4 + o6
      u4 == o4 - o6
      u6 == o5 + o7
      u5 == o5 - o7
      v7 == s8 + t3
      v8 == s8 - t3
      v3 == s0 + t2
      v0 == s0 - t2
      v2 == Root2(u4 + u5)
      v4 == Root2(u4 - u5)
  IN << (v7 + u1) \div 256, (v3 + v2) \div 256, (v0 + v4) \div 256, (v8 + u6) \div 256,
        (v8 - u6) \div 256, (v0 - v4) \div 256, (v3 - v2) \div 256, (v7 - u1) \div 256 >>

ColPass(a0, a1, a2, a3, a4, a5, a6, a7) ==
  LET e0 == a0 * 256 + 8192
      e1 == a4 * 256
      p  == K7 * (a1 + a7) + 4
      o4 == (p + (K1 - K7) * a1) \div 8
      o5 == (p - (K1 + K7) * a7) \div 8
      q  == K3 * (a5 + a3) + 4
      o6 == (q - (K3 - K5) * a5) \div 8
      o7 == (q - (K3 + K5) * a3) \div 8
      s8 == e0 + e1
      s0 == e0 - e1
      t  == K6 * (a2 + a6) + 4
      t2 == (t - (K2 + K6) * a6) \div 8
      t3 == (t + (K2 - K6) * a2) \div 8
      u1 == o4 + o6
      u4 == o4 - o6
      u6 == o5 + o7
      u5 == o5 - o7
      v7 == s8 + t3
      v8 == s8 - t3
      v3 == s0 + t2
      v0 == s0 - t2
      v2 == Root2(u4 + u5)
      v4 == Root2(u4 - u5)
  IN << (v7 + u1) \div 16384, (v3 + v2) \div 16384, (v0 + v4) \div 16384, (v8 + u6) \div 16384,
        (v8 - u6) \div 16384, (v0 - v4) \div 16384, (v3 - v2) \div 16384, (v7 - u1) \div 16384 >>

\* F: function 0..63 of coefficients (row by row); the samples in the same order
Idct(F) ==
  LET r == TLCEval([y \in 0..7 |-> RowPass(F[8*y], F[8*y+1], F[8*y+2], F[8*y+3],
                                            F[8*y+4], F[8*y+5], F[8*y+6], F[8*y+7])])
      c == TLCEval([x \in 1..8 |-> ColPass(r[0][x], r[1][x], r[2][x], r[3][x],
                                            r[4][x], r[5][x], r[6][x], r[7][x])])
  IN TLCEval([i \in 0..63 |-> c[(i % 8) + 1][(i \div 8) + 1]])

=============================================================================
