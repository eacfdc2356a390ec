------------------------------ MODULE GenScen -------------------------------
(* Writes one scenario space to a file.                                      *)
EXTENDS Scen, Json, IOUtils, SequencesExt, TLC
LOCAL Space(u) == CASE IOEnv.SCEN = "ts"    -> TsScenarios(IF IOEnv.TIER = "quick" THEN 0 ELSE 1)
                 [] IOEnv.SCEN = "demux" -> DemuxScenarios(0)
                 [] IOEnv.SCEN = "pes"   -> PesScenarios(0)
                 [] IOEnv.SCEN = "ps"    -> PsScenarios(0)
                 [] IOEnv.SCEN = "gops"  -> GopScenarios(IF IOEnv.TIER = "quick" THEN 0 ELSE 1)
ASSUME LET s == SetToSeq(Space(0))
       IN JsonSerialize(IOEnv.OUT, s) /\ PrintT("SCENARIOS|" \o ToString(Len(s)))
=============================================================================
