-------------------------------- MODULE MCIdct -------------------------------
(* The fixed-point transform against the exact one: for blocks with one      *)
(* coefficient, at every place and of every size in Values, no sample is off *)
(* by more than one from the mathematical value.  Cosines are taken with 11  *)
(* bits, so that products fit in 32 bits.                                    *)
EXTENDS Idct
CONSTANT Values

\* 2048 * c(u) * cos((2x+1) u pi / 16) for x, u in 0..7, c(0) = 1/sqrt(2)
Cos == << 2048, 2009, 1892, 1703, 1448, 1138, 784, 400, 0 >>   \* 2048 * cos(k pi / 16), k in 0..8
RECURSIVE C16(_)
C16(k) == IF k >= 32 THEN C16(k % 32) ELSE IF k > 16 THEN C16(32 - k)
          ELSE IF k > 8 THEN -Cos[16 - k + 1] ELSE Cos[k + 1]
Basis == TLCEval([u \in 0..7 |-> TLCEval([x \in 0..7 |-> IF u = 0 THEN 1448 ELSE C16((2 * x + 1) * u)])])

Quick == {1, -1, 7, -8, 100, -255, 256}
Wide == (-256)..256
VARIABLES u, v, f
Init == u \in 0..7 /\ v \in 0..7 /\ f \in Values
Next == UNCHANGED << u, v, f >>
Spec == Init /\ [][Next]_<< u, v, f >>

Near == LET F == [i \in 0..63 |-> IF i = 8 * v + u THEN f ELSE 0]
            S == Idct(F)
        IN \A x, y \in 0..7 :
             LET e == f * ((Basis[u][x] * Basis[v][y]) \div 64)   \* 4 * exact value, scaled by 2^16
                 d == e - S[8 * y + x] * 4 * 65536
             IN d <= 262144 + 40000 /\ d >= -262144 - 40000
=============================================================================
