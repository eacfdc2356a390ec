------------------------------- MODULE VBlock -------------------------------
(* Blocks of a macroblock: parsing of the coefficients (7.2), inverse scan   *)
(* (7.3), inverse quantisation (7.4).                                        *)
EXTENDS VlcTables, Idct

---------------------------------------------------------------------------
(* Bits.  Beyond the end of the data there are zero bits; whoever runs into  *)
(* them notices that the position has passed the end.                        *)
Octet(B, o) == IF o < Len(B) THEN B[o + 1] ELSE 0

\* the n <= 16 bits at position p
Peek(B, p, n) ==
  LET o == p \div 8
  IN ((Octet(B, o) * 65536 + Octet(B, o + 1) * 256 + Octet(B, o + 2)) \div 2^(24 - (p % 8) - n)) % 2^n
Bit(B, p) == (Octet(B, p \div 8) \div 2^(7 - (p % 8))) % 2

\* the row of the code word at p, 0 if none
Row(t, B, p) == t.lut[Peek(B, p, t.k)]
CoefRow(t, B, p) ==
  LET v == Peek(B, p, 16)
      s == t.lut[v \div 256]
  IN IF s # 0 \/ v >= 1024 THEN s ELSE t.lut2[v]

---------------------------------------------------------------------------
(* Scans: the position (8 * row + column) of the n-th coefficient.           *)
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b

\* along the diagonals, upwards on the even ones
DiagStart(d) == IF d <= 8 THEN (d * (d + 1)) \div 2 ELSE 64 - ((15 - d) * (16 - d)) \div 2
ZigZagRank(v, u) == DiagStart(u + v) + (IF (u + v) % 2 = 1 THEN v ELSE u) - MaxOf(0, u + v - 7)
ZigZag == TLCEval([n \in 0..63 |-> CHOOSE i \in 0..63 : ZigZagRank(i \div 8, i % 8) = n])
ZigZagOf == TLCEval([i \in 0..63 |-> ZigZagRank(i \div 8, i % 8)])

AlternateText ==
  << 0, 8, 16, 24, 1, 9, 2, 10, 17, 25, 32, 40, 48, 56, 57, 49,
     41, 33, 26, 18, 3, 11, 4, 12, 19, 27, 34, 42, 50, 58, 35, 43,
     51, 59, 20, 28, 5, 13, 6, 14, 21, 29, 36, 44, 52, 60, 37, 45,
     53, 61, 22, 30, 7, 15, 23, 31, 38, 46, 54, 62, 39, 47, 55, 63 >>
Alternate == TLCEval([n \in 0..63 |-> AlternateText[n + 1]])
Scans == << ZigZag, Alternate >>
ASSUME {ZigZag[n] : n \in 0..63} = 0..63 /\ {Alternate[n] : n \in 0..63} = 0..63

---------------------------------------------------------------------------
(* Quantisation                                                              *)
DefaultIntraText ==
  << 8, 16, 19, 22, 26, 27, 29, 34,
     16, 16, 22, 24, 27, 29, 34, 37,
     19, 22, 26, 27, 29, 34, 34, 38,
     22, 22, 26, 27, 29, 34, 37, 40,
     22, 26, 27, 29, 32, 35, 40, 48,
     26, 27, 29, 32, 35, 40, 48, 58,
     26, 27, 29, 34, 38, 46, 56, 69,
     27, 29, 35, 38, 46, 56, 69, 83 >>
DefaultIntra == TLCEval([i \in 0..63 |-> DefaultIntraText[i + 1]])
DefaultNonIntra == TLCEval([i \in 0..63 |-> 16])

\* the matrix transmitted at bit position p: 64 numbers in zig-zag order
LoadedMatrix(B, p) == TLCEval([i \in 0..63 |-> Peek(B, p + 8 * ZigZagOf[i], 8)])

\* Table 7-6
Scale(type, c) ==
  IF type = 0 THEN 2 * c
  ELSE IF c <= 8 THEN c
  ELSE IF c <= 16 THEN 2 * c - 8
  ELSE IF c <= 24 THEN 4 * c - 40
  ELSE 8 * c - 136

\* division with truncation towards zero
Quot(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

\* the saturated coefficient at position i (7.4.2.3, 7.4.3)
Dequant(q, i, intra, W, qs, prec) ==
  Clip(IF intra THEN (IF i = 0 THEN q * 2^(3 - prec) ELSE Quot(q * W[i] * qs, 16))
       ELSE Quot((2 * q + Sgn(q)) * W[i] * qs, 32), -2048, 2047)

Zero64 == TLCEval([i \in 0..63 |-> 0])

\* mismatch control (7.4.4)
Mismatch(F, sum) ==
  IF sum % 2 = 1 THEN F
  ELSE [F EXCEPT ![63] = IF @ % 2 = 1 THEN @ - 1 ELSE @ + 1]

---------------------------------------------------------------------------
(* The coefficients from bit position p on: n is the index in scan order.    *)
(* q = [intra, W, qs, prec, scan, tab] is the state of quantisation.         *)
RECURSIVE Coefs(_, _, _, _, _, _)
Coefs(B, p, n, F, sum, q) ==
  LET first == n = 0 /\ Bit(B, p) = 1
      row   == IF first THEN 0 ELSE CoefRow(q.tab, B, p)
      k     == q.tab.rows[row]
  IN IF first \/ (row # 0 /\ k.v[1] # -1) THEN
       LET esc == ~first /\ k.v[1] = -2
           run == IF first THEN 0 ELSE IF esc THEN Peek(B, p + 6, 6) ELSE k.v[1]
           val == IF esc THEN (IF Bit(B, p + 12) = 1 THEN Peek(B, p + 12, 12) - 4096 ELSE Peek(B, p + 12, 12))
                  ELSE LET l == IF first THEN 1 ELSE k.v[2]
                       IN IF Bit(B, p + (IF first THEN 1 ELSE k.len)) = 1 THEN -l ELSE l
           np  == IF esc THEN p + 24 ELSE IF first THEN p + 2 ELSE p + k.len + 1
           at  == n + run
           i   == q.scan[at]
           c   == Dequant(val, i, q.intra, q.W, q.qs, q.prec)
       IN IF at > 63 THEN [e |-> "bad", p |-> p]
          ELSE Coefs(B, np, at + 1, [F EXCEPT ![i] = c], sum + c, q)
     ELSE IF row = 0 THEN [e |-> "bad", p |-> p]
     ELSE [e |-> "", p |-> p + k.len, F |-> Mismatch(F, sum)]

\* a coded block of component cc (0 luma, 1 Cb, 2 Cr); dc: the predictors
CodedBlock(B, p, cc, dc, q) ==
  IF ~q.intra THEN
     LET r == Coefs(B, p, 0, Zero64, 0, q)
     IN IF r.e # "" THEN r ELSE [e |-> "", p |-> r.p, dc |-> dc, res |-> Idct(r.F)]
  ELSE
     LET t    == DcTables[IF cc = 0 THEN 1 ELSE 2]
         row  == Row(t, B, p)
     IN IF row = 0 THEN [e |-> "bad", p |-> p]
        ELSE LET size == t.rows[row].v
                 p1   == p + t.rows[row].len
                 d    == Peek(B, p1, size)
                 diff == IF size = 0 THEN 0 ELSE IF d >= 2^(size - 1) THEN d ELSE d + 1 - 2^size
                 v    == dc[cc + 1] + diff
                 c    == Dequant(v, 0, TRUE, q.W, q.qs, q.prec)
                 r    == Coefs(B, p1 + size, 1, [Zero64 EXCEPT ![0] = c], c, q)
             IN IF r.e # "" THEN r
                ELSE [e |-> "", p |-> r.p, dc |-> [dc EXCEPT ![cc + 1] = v], res |-> Idct(r.F)]
=============================================================================
