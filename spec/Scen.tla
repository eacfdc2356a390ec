-------------------------------- MODULE Scen --------------------------------
(* The scenario spaces: the initial states of the design models (MC*.tla)    *)
(* and, written to files by the Gen*.tla modules, the inputs that the driver *)
(* turns into real streams and runs through the real readers.                *)
(* (The spaces have a parameter because TLC evaluates constants eagerly.)     *)
EXTENDS Integers, Sequences, FiniteSets

SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}

---------------------------------------------------------------------------
(* Transport packets: selected or not, unit start, priority, payload length  *)
(* (-1: the packet has no payload at all).                                   *)
TsKinds ==
  { [sel |-> TRUE,  pusi |-> TRUE,  prio |-> FALSE, len |-> 3],
    [sel |-> TRUE,  pusi |-> FALSE, prio |-> FALSE, len |-> 2],
    [sel |-> TRUE,  pusi |-> FALSE, prio |-> TRUE,  len |-> -1],
    [sel |-> TRUE,  pusi |-> TRUE,  prio |-> TRUE,  len |-> 184],
    [sel |-> FALSE, pusi |-> TRUE,  prio |-> FALSE, len |-> 5],
    [sel |-> FALSE, pusi |-> FALSE, prio |-> TRUE,  len |-> 1] }

Windows ==
  ( {<<s, t>> : s \in {"unset", "pusi", "sel", "notsel", "prio", "none"},
                t \in {"unset", "notpusi", "sel", "prio", "notprio"}} )
NoWindow == <<"unset", "unset">>

ReadPatterns == { <<1>>, <<4096>>, <<2, 3>>, <<184, 1, 0, 5>>, <<0, 7>> }

TsScen(pk, w, rd) == [pk |-> pk, skip |-> w[1], take |-> w[2], reads |-> rd]

\* u = 0: the space of the quick tier, 1: of the thorough one
TsScenarios(u) ==
  {TsScen(pk, NoWindow, rd) : pk \in SeqsUpTo(TsKinds, 3 + u), rd \in ReadPatterns}
  \cup {TsScen(pk, w, rd) : pk \in SeqsUpTo(TsKinds, 2 + u), w \in Windows \ {NoWindow},
                            rd \in IF u = 0 THEN {<<2, 3>>} ELSE {<<1>>, <<2, 3>>}}
  \cup {TsScen(pk, w, <<7, 190>>) : pk \in [1..(3 + u) -> TsKinds],
                            w \in {<<"pusi", "notpusi">>, <<"sel", "notprio">>, <<"prio", "sel">>}}

---------------------------------------------------------------------------
(* Demultiplexer: which of n channels each packet matches, who is slow.      *)
DemuxScenarios(u) ==
  UNION { {[match |-> m, slow |-> s] : m \in SeqsUpTo([1..n -> BOOLEAN], k), s \in 0..n}
          : <<n, k>> \in {<<1, 4>>, <<2, 3>>, <<3, 3>>} }

---------------------------------------------------------------------------
(* PES packets: with header, without header, padding; payload length.        *)
PesKinds ==
  { [k |-> "hdr", n |-> 0], [k |-> "hdr", n |-> 1], [k |-> "hdr", n |-> 6],
    [k |-> "plain", n |-> 3], [k |-> "pad", n |-> 4] }
PesScenarios(u) ==
  {[pk |-> pk, reads |-> rd] : pk \in SeqsUpTo(PesKinds, 4), rd \in {<<1>>, <<3>>, <<2, 5, 0>>, <<0, 100>>}}

(* Program streams: packets of each pack, and how the stream goes on.        *)
PsEnds == {"code", "none", "cut", "cutpack", "bad", "junk"}
PsKinds == {[k |-> "hdr", n |-> 4], [k |-> "plain", n |-> 2], [k |-> "pad", n |-> 3]}
PsPackSeqs(u) == SeqsUpTo(SeqsUpTo(PsKinds, 2), 2) \cup [1..3 -> SeqsUpTo(PsKinds, 1)]
PsScenarios(u) ==
  {[packs |-> p, end |-> e, reads |-> rd] : p \in PsPackSeqs(u) \ {<< >>}, e \in PsEnds, rd \in {<<1>>, <<0, 3, 5>>}}

---------------------------------------------------------------------------
(* Video: the coded pictures of up to three groups of pictures.  A group is  *)
(* described by the types of its reference pictures and the number of B      *)
(* pictures shown in front of each of them.                                  *)
GopShapes(maxRef, maxB) ==
  UNION { {[refs |-> rf, bs |-> b] : rf \in {f \in [1..n -> {"I", "P"}] : f[1] = "I"},
                                     b \in [1..n -> 0..maxB]} : n \in 1..maxRef }

\* groups of pictures in a row, and what separates them: a group header, a
\* repeated sequence header as well, nothing, or the end of the sequence
GopScenarios(u) ==
  {[gops |-> g, sep |-> s] : g \in (SeqsUpTo(GopShapes(2, 2), 2) \ {<< >>}) \cup [1..3 -> GopShapes(1 + u, 1)]
                                   \cup [1..1 -> GopShapes(3, 2)],
                             s \in {"gop", "seq", "none", "end"}}
=============================================================================
