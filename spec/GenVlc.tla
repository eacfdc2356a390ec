------------------------------- MODULE GenVlc --------------------------------
(* Writes the code tables, scans and default matrix of the specification to a *)
(* file: the driver's writer of streams takes its code words from there.      *)
EXTENDS VBlock, Json, IOUtils
LOCAL One(rows)  == [i \in DOMAIN rows |-> [c |-> rows[i][1], v |-> << rows[i][2] >>]]
LOCAL Many(rows) == [i \in DOMAIN rows |-> [c |-> rows[i][1], v |-> rows[i][2]]]
LOCAL List(f) == [i \in 1..64 |-> f[i - 1]]
ASSUME JsonSerialize(IOEnv.OUT,
         [Inc |-> One(IncRows), Cbp |-> One(CbpRows), Motion |-> One(MotionRows), DcLuma |-> One(DcLumaRows),
          DcChroma |-> One(DcChromaRows), Coef14 |-> Many(Coef14Rows), Coef15 |-> Many(Coef15Rows),
          TypeI |-> Many(TypeIRows), TypeP |-> Many(TypePRows), TypeB |-> Many(TypeBRows),
          Zig |-> List(ZigZag), Alt |-> List(Alternate), Intra |-> List(DefaultIntra)])
       /\ PrintT("SCENARIOS|" \o ToString(Len(IncRows) + Len(CbpRows) + Len(MotionRows) + Len(DcLumaRows) + Len(DcChromaRows)
                                          + Len(Coef14Rows) + Len(Coef15Rows) + Len(TypeIRows) + Len(TypePRows) + Len(TypeBRows)))
=============================================================================
