-------------------------------- MODULE Bits --------------------------------
(* Bit-level access to a byte string.  A byte string is a tuple of integers  *)
(* 0..255; positions are zero-based.                                         *)
EXTENDS Integers, Sequences

\* the byte at offset o
ByteAt(B, o) == B[o + 1]

\* the n bits (0 <= n <= 24) at bit position p as an unsigned number
Bits(B, p, n) ==
  LET o == p \div 8
      k == (p % 8) + n
  IN  IF n = 0 THEN 0
      ELSE IF k <= 8  THEN (B[o + 1] \div 2^(8 - k)) % 2^n
      ELSE IF k <= 16 THEN ((B[o + 1] * 256 + B[o + 2]) \div 2^(16 - k)) % 2^n
      ELSE IF k <= 24 THEN ((B[o + 1] * 65536 + B[o + 2] * 256 + B[o + 3])
                              \div 2^(24 - k)) % 2^n
      ELSE \* 31 significant bits at most: drop the leading k-n bits first
           ((((B[o + 1] % 2^(8 - (p % 8))) * 65536 + B[o + 2] * 256 + B[o + 3])
               * 2^(k - 24)) + (B[o + 4] \div 2^(32 - k)))

Flag(B, p) == Bits(B, p, 1) = 1

\* the bytes of B at offsets from .. to-1
Slice(B, from, to) == SubSeq(B, from + 1, to)

\* a 33-bit number as base-2^15 limbs <<3 bits, 15 bits, 15 bits>>
Limbs33(B, p) == << Bits(B, p, 3), Bits(B, p + 3, 15), Bits(B, p + 18, 15) >>

\* limbs * 300 + ext, as base-2^15 limbs (the top one unbounded)
Times300Plus(l, ext) ==
  LET a == l[3] * 300 + ext
      b == l[2] * 300 + (a \div 32768)
      c == l[1] * 300 + (b \div 32768)
  IN  << c, b % 32768, a % 32768 >>

\* is prefix p a prefix of sequence s
IsPre(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
=============================================================================
