----------------------------- MODULE MCTsReaders -----------------------------
(* The payload reader and the payload unit reader as the library implements  *)
(* them (remainder, postponed errors, current packet), driven by a caller    *)
(* who chooses the size of every read freely.  Against every sequence of up  *)
(* to MaxPk packets, window and predicate they deliver what                  *)
(* TsReaders!PayloadStream and TsReaders!Units say, whatever the sizes: the  *)
(* operators that the recorded runs of the real readers are judged by.       *)
EXTENDS TsReaders, FiniteSets

CONSTANTS MaxPk, Sizes

\* a packet carries the bytes of its payload; they are numbered when the
\* scenario is set up so that every byte of a stream is different
Kinds == { [pid |-> 1, pusi |-> TRUE,  prio |-> FALSE, n |-> 2],
           [pid |-> 1, pusi |-> FALSE, prio |-> TRUE,  n |-> 1],
           [pid |-> 1, pusi |-> FALSE, prio |-> FALSE, n |-> 0],
           [pid |-> 1, pusi |-> TRUE,  prio |-> TRUE,  n |-> 0],
           [pid |-> 2, pusi |-> TRUE,  prio |-> FALSE, n |-> 1] }
Unset == [t |-> "unset"]
Wins  == { << Unset, Unset >>, << [t |-> "pusi"], Unset >>,
           << [t |-> "prio"], [t |-> "not", a |-> [t |-> "pusi"]] >>,
           << [t |-> "pid", v |-> 1], [t |-> "pid", v |-> 1] >> }
Where == [t |-> "pid", v |-> 1]

Numbered(ks) == [i \in 1..Len(ks) |-> [pid |-> ks[i].pid, pusi |-> ks[i].pusi, prio |-> ks[i].prio,
                                       pay |-> [j \in 1..ks[i].n |-> 10 * i + j]]]

VARIABLES mode, pks, win, endE, \* scenario: reader, packets, window, how the source ends
          pos, cur, rem, err, closed, drained, \* the reader
          ev, data                             \* what the caller has seen
vars == << mode, pks, win, endE, pos, cur, rem, err, closed, drained, ev, data >>

Init ==
  /\ mode \in {"payload", "unit"}
  /\ pks \in {Numbered(ks) : ks \in UNION {[1..n -> Kinds] : n \in 0..MaxPk}}
  /\ win \in (IF mode = "unit" THEN {<< Unset, Unset >>} ELSE Wins)
  /\ endE \in {"eof", "fault"}
  /\ pos = 1 /\ cur = 0 /\ rem = << >> /\ err = "" /\ closed = FALSE /\ drained = TRUE
  /\ ev = << >> /\ data = << >>

Rest(s, k) == SubSeq(s, k + 1, Len(s))
Min2(a, b) == IF a < b THEN a ELSE b

---------------------------------------------------------------------------
(* payload reader: state s, bytes still wanted k, bytes read so far o         *)
RECURSIVE Fill(_, _, _)
Fill(s, k, o) ==
  IF k = 0 THEN [s |-> s, o |-> o, e |-> ""]
  ELSE IF s.pos > Len(pks) \/ (Opt(win[2]) /\ ~Holds(win[2], pks[s.pos])) THEN
    LET e == IF s.pos > Len(pks) THEN endE ELSE "eof"
        t == [s EXCEPT !.closed = s.pos <= Len(pks)]
    IN IF o = << >> THEN [s |-> t, o |-> o, e |-> e] ELSE [s |-> [t EXCEPT !.err = e], o |-> o, e |-> ""]
  ELSE LET p == pks[s.pos]
           y == IF Holds(Where, p) THEN p.pay ELSE << >>
           c == Min2(k, Len(y))
       IN Fill([s EXCEPT !.pos = @ + 1, !.rem = Rest(y, c)], k - c, o \o SubSeq(y, 1, c))

PayloadRead(s0, k) ==
  IF s0.closed THEN [s |-> s0, o |-> << >>, e |-> "eof"]
  ELSE IF s0.err # "" THEN [s |-> [s0 EXCEPT !.err = ""], o |-> << >>, e |-> s0.err]
  ELSE LET i == IF Opt(win[1]) /\ s0.cur = 0 THEN FirstIdx(pks, s0.pos, win[1], TRUE) ELSE s0.pos
           lost == Opt(win[1]) /\ s0.cur = 0 /\ i = 0
           s == IF s0.cur # 0 THEN s0
                ELSE IF ~Opt(win[1]) THEN [s0 EXCEPT !.cur = 1]
                ELSE [s0 EXCEPT !.cur = 1, !.pos = i + 1,
                                !.rem = IF Holds(Where, pks[i]) THEN pks[i].pay ELSE << >>]
       IN IF lost THEN [s |-> [s0 EXCEPT !.pos = Len(pks) + 1], o |-> << >>, e |-> endE]
          ELSE LET c == Min2(k, Len(s.rem))
               IN Fill([s EXCEPT !.rem = Rest(@, c)], k - c, SubSeq(s.rem, 1, c))

---------------------------------------------------------------------------
(* payload unit reader: cur is the packet it holds (a start), 0: none yet    *)
IsStart(i) == i <= Len(pks) /\ Holds(Where, pks[i]) /\ pks[i].pusi
RECURSIVE ToNext(_)
ToNext(i) == IF i > Len(pks) \/ IsStart(i) THEN i ELSE ToNext(i + 1)

UnitFill(s) ==
  IF s.err # "" THEN [s |-> [s EXCEPT !.err = ""], e |-> s.err]
  ELSE LET a == IF s.cur = 0 THEN ToNext(s.pos) ELSE s.cur
       IN IF a > Len(pks) THEN [s |-> [s EXCEPT !.pos = a, !.cur = 0], e |-> endE]
          ELSE LET b == ToNext(a + 1)
               IN [s |-> [s EXCEPT !.pos = b, !.cur = IF b > Len(pks) THEN 0 ELSE b, !.drained = FALSE,
                                   !.rem = ConcatPay(pks, a, b - 1, Where),
                                   !.err = IF b > Len(pks) THEN endE ELSE ""],
                   e |-> ""]

UnitRead(s0, k) ==
  LET f == IF s0.drained THEN UnitFill(s0) ELSE [s |-> s0, e |-> ""]
      s == f.s
  IN IF f.e # "" THEN [s |-> s, o |-> << >>, e |-> f.e]
     ELSE IF k = 0 THEN [s |-> s, o |-> << >>, e |-> ""]
     ELSE IF s.rem = << >> THEN
       (IF s.err \notin {"", "eof"} THEN [s |-> [s EXCEPT !.drained = TRUE, !.err = ""], o |-> << >>, e |-> s.err]
        ELSE [s |-> [s EXCEPT !.drained = TRUE], o |-> << >>, e |-> "eop"])
     ELSE LET c == Min2(k, Len(s.rem)) IN [s |-> [s EXCEPT !.rem = Rest(@, c)], o |-> SubSeq(s.rem, 1, c), e |-> ""]

---------------------------------------------------------------------------
\* the caller goes on to the second error that ends the stream
Over == Cardinality({i \in 1..Len(ev) : ev[i].e \notin {"", "eop"}}) >= 2

Read(k) ==
  /\ ~Over
  \* a read of nothing twice in a row shows nothing new
  /\ k = 0 => (IF ev = << >> THEN TRUE ELSE ev[Len(ev)].w # 0)
  /\ \E r \in {LET s == [pos |-> pos, cur |-> cur, rem |-> rem, err |-> err, closed |-> closed, drained |-> drained]
               IN IF mode = "unit" THEN UnitRead(s, k) ELSE PayloadRead(s, k)} :
       /\ pos' = r.s.pos /\ cur' = r.s.cur /\ rem' = r.s.rem /\ err' = r.s.err
       /\ closed' = r.s.closed /\ drained' = r.s.drained
       /\ ev' = Append(ev, [w |-> k, n |-> Len(r.o), e |-> r.e])
       /\ data' = data \o r.o
  /\ UNCHANGED << mode, pks, win, endE >>
Next == \E k \in Sizes : Read(k)
Spec == Init /\ [][Next]_vars

Src == [pkts |-> pks, errs |-> {endE}]
Conforms ==
  Over =>
    IF mode = "unit" THEN
      \* a source that fails leaves the last unit incomplete
      (IF endE = "eof" THEN ReadsUnits(ev, data, Units(pks, Where), {endE}) = "ok"
       ELSE ReadsUnitsPrefix(ev, data, Units(pks, Where), {endE}) = "ok")
    ELSE LET s == PayloadStream(Src, Where, win[1], win[2])
         IN ReadsAll(ev, data, s.total, s.errs) = "ok"
\* what is delivered is right at any time, not only in the end
Sound ==
  IF mode = "unit" THEN IsPre(data, ConcatPay(pks, ToNext(1), Len(pks), Where))
  ELSE IsPre(data, PayloadStream(Src, Where, win[1], win[2]).total)
=============================================================================
