------------------------------- MODULE MCMotion ------------------------------
(* Reconstruction of one motion vector component over any sequence of        *)
(* vectors: starting from the predictor 0, every motion code and residual is *)
(* decoded from its bits by VMacroblock!Component.  The vector stays in the  *)
(* range of its f_code, differs from predictor + delta by a multiple of the  *)
(* range's size, and every vector of the range can be coded from every       *)
(* predictor.                                                                *)
EXTENDS VMacroblock

CONSTANT FCodes
VARIABLES fc, pred, last     \* last: << predictor, delta >> of the last step
vars == << fc, pred, last >>

F == 2^(fc - 1)
Init == fc \in FCodes /\ pred = 0 /\ last = << 0, 0 >>

\* the bits of motion code row r and residual s, as bytes
Word(r, s) ==
  LET row == MotionTable.rows[r]
      n   == row.len + fc - 1
      v   == row.val * F + s
      w   == v * 2^(24 - n)
  IN << w \div 65536, (w \div 256) % 256, w % 256, 0, 0, 0 >>

Delta(r, s) ==
  LET c == MotionTable.rows[r].v
  IN IF c = 0 THEN 0 ELSE IF c > 0 THEN (c - 1) * F + s + 1 ELSE (c + 1) * F - s - 1

Next ==
  \E r \in DOMAIN MotionTable.rows, s \in 0..(F - 1) :
    /\ (MotionTable.rows[r].v = 0 \/ fc = 1) => s = 0
    /\ LET d == Component(Word(r, s), 0, fc, pred)
       IN /\ Assert(d.e = "", "a code is refused")
          /\ Assert(d.p = MotionTable.rows[r].len + (IF MotionTable.rows[r].v = 0 THEN 0 ELSE fc - 1), "wrong length")
          /\ pred' = d.v
    /\ last' = << pred, Delta(r, s) >>
    /\ UNCHANGED fc
Spec == Init /\ [][Next]_vars

InRange   == pred \in (-16 * F)..(16 * F - 1)
Congruent == (pred - last[1] - last[2]) % (32 * F) = 0
Reaches   == \A t \in (-16 * F)..(16 * F - 1) :
               \E r \in DOMAIN MotionTable.rows, s \in 0..(F - 1) : (pred + Delta(r, s) - t) % (32 * F) = 0
=============================================================================
