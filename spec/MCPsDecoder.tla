----------------------------- MODULE MCPsDecoder -----------------------------
(* The program stream decoder as processes: the decoding goroutine, one      *)
(* goroutine per pack that offers the pack's packets, and a consumer who     *)
(* takes the packs and, of each pack, the packets.  All channels are         *)
(* unbuffered.  The stream is a sequence of units                            *)
(*    "pack" "pes"  well-formed                                              *)
(*    "end"         the program end code                                     *)
(*    "bad"         something that no reader accepts                         *)
(* and ends after the last one.  For every stream up to MaxU units and every *)
(* interleaving: packs and packets are delivered once and in order, a pack's *)
(* channel is closed before the next pack appears, and the decoder ends with *)
(* success exactly if a complete pack is followed by the end code.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT MaxU
Units == {"pack", "pes", "end", "bad"}

VARIABLES us, pos,          \* the stream and the position both goroutines share
          main, child,      \* where the goroutines are
          perr, derr,       \* error of the pack, of the decoder
          packs,            \* what the consumer has: packets of each pack
          shut, packsShut, done
vars == << us, pos, main, child, perr, derr, packs, shut, packsShut, done >>

At(i) == IF i <= Len(us) THEN us[i] ELSE "eof"

Init ==
  /\ us \in UNION {[1..n -> Units] : n \in 0..MaxU}
  /\ pos = 1 /\ main = "pack" /\ child = "off" /\ perr = "" /\ derr = ""
  /\ packs = << >> /\ shut = << >> /\ packsShut = FALSE /\ done = "no"

Fail(e) == derr' = e /\ main' = "finish"

\* readPack parses the header and starts the pack's goroutine
Header ==
  /\ main = "pack"
  /\ IF At(pos) = "pack" THEN pos' = pos + 1 /\ main' = "offer" /\ child' = "loop" /\ UNCHANGED derr
     ELSE Fail(IF At(pos) = "eof" THEN "eof" ELSE "bad") /\ UNCHANGED << pos, child >>
  /\ perr' = ""
  /\ UNCHANGED << us, packs, shut, packsShut, done >>
\* the consumer takes the pack
TakePack ==
  /\ main = "offer" /\ main' = "wait"
  /\ packs' = Append(packs, << >>) /\ shut' = Append(shut, FALSE)
  /\ UNCHANGED << us, pos, child, perr, derr, packsShut, done >>
\* the pack's goroutine; the consumer can only receive from a pack it has taken
Child ==
  /\ child = "loop"
  /\ CASE At(pos) = "pes" -> /\ child' = "offer" /\ UNCHANGED << perr >>
       [] At(pos) \in {"pack", "end"} -> child' = "close" /\ UNCHANGED perr
       [] At(pos) = "bad" -> child' = "close" /\ perr' \in {"", "bad"}   \* no start code at all, or one that fails
       [] At(pos) = "eof" -> child' = "close" /\ perr' = "eof"
  /\ UNCHANGED << us, pos, main, derr, packs, shut, packsShut, done >>
TakePacket ==
  /\ child = "offer" /\ main = "wait"
  /\ packs' = [packs EXCEPT ![Len(packs)] = Append(@, pos)]
  /\ pos' = pos + 1 /\ child' = "loop"
  /\ UNCHANGED << us, main, perr, derr, shut, packsShut, done >>
\* (the channel is closed even if nobody has taken the pack yet)
ChildClose ==
  /\ child = "close" /\ child' = "report"
  /\ shut' = IF main = "wait" THEN [shut EXCEPT ![Len(shut)] = TRUE] ELSE shut
  /\ UNCHANGED << us, pos, main, perr, derr, packs, packsShut, done >>
\* the decoder waits for the report of the pack's goroutine
Report ==
  /\ child = "report" /\ main = "wait" /\ child' = "off"
  /\ shut' = [shut EXCEPT ![Len(shut)] = TRUE]
  /\ IF perr # "" THEN Fail(perr) ELSE main' = "peek" /\ UNCHANGED derr
  /\ UNCHANGED << us, pos, perr, packs, packsShut, done >>
Peek ==
  /\ main = "peek"
  /\ CASE At(pos) = "eof" -> Fail("eof")
       [] At(pos) = "pack" -> main' = "pack" /\ UNCHANGED derr
       [] At(pos) = "end" -> main' = "finish" /\ UNCHANGED derr
       [] At(pos) \in {"bad", "pes"} -> Fail("noend")
  /\ UNCHANGED << us, pos, child, perr, packs, shut, packsShut, done >>
Finish ==
  /\ main = "finish" /\ main' = "signal" /\ packsShut' = TRUE
  /\ UNCHANGED << us, pos, child, perr, derr, packs, shut, done >>
Signal ==
  /\ main = "signal" /\ main' = "over" /\ done' = IF derr = "" THEN "true" ELSE "false"
  /\ UNCHANGED << us, pos, child, perr, derr, packs, shut, packsShut >>
Next == Header \/ TakePack \/ Child \/ TakePacket \/ ChildClose \/ Report \/ Peek \/ Finish \/ Signal
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
\* what the stream holds, as Ps!Program has it
RECURSIVE Parse(_, _)
Parse(i, acc) ==
  CASE At(i) = "end" /\ acc # << >> -> [packs |-> acc, ok |-> TRUE]
    [] At(i) = "pack" -> Parse(i + 1, Append(acc, << >>))
    [] At(i) = "pes" /\ acc # << >> -> Parse(i + 1, [acc EXCEPT ![Len(acc)] = Append(@, i)])
    [] OTHER -> [packs |-> acc, ok |-> FALSE]
W == Parse(1, << >>)

InOrder == /\ Len(packs) <= Len(W.packs)
           /\ \A m \in 1..Len(packs) :
                /\ Len(packs[m]) <= Len(W.packs[m])
                /\ packs[m] = SubSeq(W.packs[m], 1, Len(packs[m]))
                /\ (m < Len(packs) \/ shut[m]) => packs[m] = W.packs[m] /\ shut[m]
Outcome == done # "no" => /\ packsShut /\ packs = W.packs
                          /\ \A m \in 1..Len(shut) : shut[m]
                          /\ (done = "true") = W.ok
                          /\ (done = "true") = (derr = "")
Finishes == <>(done # "no")
=============================================================================
