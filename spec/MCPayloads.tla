------------------------------ MODULE MCPayloads -----------------------------
(* The PES payload reader and the program stream's pack reader as the        *)
(* library implements them, driven with reads of any size.  The source is a  *)
(* sequence of units                                                         *)
(*   [k |-> "pes", n]  a packet with n bytes of payload                      *)
(*   [k |-> "eop"]     the end of a payload unit (sources of the PES reader) *)
(*   [k |-> "pack"]    a pack header             (sources of the pack reader)*)
(*   [k |-> "end"]     the program end code                                  *)
(*   [k |-> "bad"]     what is not accepted                                  *)
(* and ends with an error of its own.  The bytes delivered are the payloads  *)
(* in order, all of them before the error that ends the stream.              *)
EXTENDS Reads, FiniteSets
CONSTANTS MaxU, Sizes

VARIABLES mode, us, endE, pos, rem, err, ev, data
vars == << mode, us, endE, pos, rem, err, ev, data >>

Pes(n) == [k |-> "pes", n |-> n]
U(k) == [k |-> k, n |-> 0]
UnitsOf(m) == {Pes(0), Pes(1), Pes(3)} \cup {U(k) : k \in IF m = "pes" THEN {"eop", "bad"} ELSE {"pack", "end", "bad"}}

Init ==
  /\ mode \in {"pes", "pack"}
  /\ us \in UNION {[1..n -> UnitsOf(mode)] : n \in 0..MaxU}
  /\ endE \in {"eof", "fault"}
  /\ pos = 1 /\ rem = << >> /\ err = "" /\ ev = << >> /\ data = << >>

Pay(i) == [j \in 1..us[i].n |-> 10 * i + j]
Min2(a, b) == IF a < b THEN a ELSE b
Rest(s, k) == SubSeq(s, k + 1, Len(s))

\* the error met at unit i, "" if there is a unit
ErrAt(i) == IF i > Len(us) THEN (IF mode = "pack" /\ endE = "eof" THEN "ueof" ELSE endE)
            ELSE IF us[i].k = "bad" THEN "bad"
            ELSE IF us[i].k = "end" THEN "eof" ELSE ""

RECURSIVE Fill(_, _, _, _)
Fill(i, y, k, o) ==       \* next unit, remainder, bytes wanted, bytes read
  IF k = 0 THEN [pos |-> i, rem |-> y, o |-> o, e |-> "", err |-> ""]
  ELSE IF ErrAt(i) # "" THEN
    [pos |-> i, rem |-> << >>, o |-> o,
     e |-> IF o = << >> THEN ErrAt(i) ELSE "",
     err |-> IF mode = "pack" \/ o # << >> THEN ErrAt(i) ELSE ""]
  ELSE LET p == IF us[i].k = "pes" THEN Pay(i) ELSE << >>
           c == Min2(k, Len(p))
       IN Fill(i + 1, Rest(p, c), k - c, o \o SubSeq(p, 1, c))

Over == Cardinality({i \in 1..Len(ev) : ev[i].e # ""}) >= 2
Read(k) ==
  /\ ~Over
  /\ k = 0 => (IF ev = << >> THEN TRUE ELSE ev[Len(ev)].w # 0)
  /\ \E r \in {IF err # "" THEN [pos |-> pos, rem |-> rem, o |-> << >>, e |-> err, err |-> IF mode = "pack" THEN err ELSE ""]
               ELSE LET c == Min2(k, Len(rem)) IN Fill(pos, Rest(rem, c), k - c, SubSeq(rem, 1, c))} :
       /\ pos' = r.pos /\ rem' = r.rem /\ err' = r.err
       /\ ev' = Append(ev, [w |-> k, n |-> Len(r.o), e |-> r.e])
       /\ data' = data \o r.o
  /\ UNCHANGED << mode, us, endE >>
Next == \E k \in Sizes : Read(k)
Spec == Init /\ [][Next]_vars

RECURSIVE Total(_)
Total(i) == IF ErrAt(i) # "" THEN [d |-> << >>, e |-> ErrAt(i)]
            ELSE LET t == Total(i + 1) IN [t EXCEPT !.d = (IF us[i].k = "pes" THEN Pay(i) ELSE << >>) \o @]
Conforms == Over => ReadsAll(ev, data, Total(1).d, {Total(1).e}) = "ok"
Sound == IsPre(data, Total(1).d)
=============================================================================
