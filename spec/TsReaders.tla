----------------------------- MODULE TsReaders ------------------------------
(* What the transport stream readers deliver: the payload reader with its    *)
(* SkipUntil/TakeWhile window, the payload unit reader, the demultiplexer    *)
(* and the packet channel transforms.                                        *)
EXTENDS TsPacket, Reads

Opt(f) == f.t # "unset"

\* index of the first packet from i on that satisfies (want) / fails (~want) f
RECURSIVE FirstIdx(_, _, _, _)
FirstIdx(ps, i, f, want) ==
  IF i > Len(ps) THEN 0
  ELSE IF Holds(f, ps[i]) = want THEN i ELSE FirstIdx(ps, i + 1, f, want)

\* The window of packets: [from, to, taken]; from = 0 if nothing is in it
Window(ps, skip, take) ==
  LET i0 == IF Opt(skip) THEN FirstIdx(ps, 1, skip, TRUE) ELSE IF ps = << >> THEN 0 ELSE 1
      j  == IF i0 = 0 \/ ~Opt(take) THEN 0 ELSE FirstIdx(ps, i0 + 1, take, FALSE)
  IN  [from |-> i0, to |-> IF j = 0 THEN Len(ps) ELSE j - 1, taken |-> j # 0]

RECURSIVE ConcatPay(_, _, _, _)
ConcatPay(ps, i, j, where) ==
  IF i > j THEN << >>
  ELSE (IF Holds(where, ps[i]) THEN ps[i].pay ELSE << >>) \o ConcatPay(ps, i + 1, j, where)

\* the payload reader: [total, errs]
PayloadStream(pk, where, skip, take) ==
  LET w == Window(pk.pkts, skip, take)
  IN  [total |-> IF w.from = 0 THEN << >> ELSE ConcatPay(pk.pkts, w.from, w.to, where),
       errs  |-> IF w.taken THEN {"eof"} ELSE pk.errs]

\* without SkipUntil it is open whether the very first packet is a candidate
\* that TakeWhile does not apply to
FirstFailsTake(pk, skip, take) ==
  ~Opt(skip) /\ Opt(take) /\ Len(pk.pkts) > 0 /\ ~Holds(take, pk.pkts[1])

\* payload units: sequence of byte strings
RECURSIVE UnitsAcc(_, _, _, _)
UnitsAcc(ps, i, where, acc) ==
  IF i > Len(ps) THEN acc
  ELSE IF ~Holds(where, ps[i]) THEN UnitsAcc(ps, i + 1, where, acc)
  ELSE IF ps[i].pusi THEN UnitsAcc(ps, i + 1, where, Append(acc, ps[i].pay))
  ELSE IF acc = << >> THEN UnitsAcc(ps, i + 1, where, acc)
  ELSE UnitsAcc(ps, i + 1, where, [acc EXCEPT ![Len(acc)] = @ \o ps[i].pay])
Units(ps, where) == UnitsAcc(ps, 1, where, << >>)

\* the demultiplexer: the packets a channel receives
Routed(pk, chan, skip, take) ==
  LET w == Window(pk.pkts, skip, take)
  IN  IF w.from = 0 THEN << >>
      ELSE SelectSeq(SubSeq(pk.pkts, w.from, w.to), LAMBDA k : Holds(chan, k))

AnyPid == [t |-> "any"]
=============================================================================
