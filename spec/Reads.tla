------------------------------- MODULE Reads --------------------------------
(* Acceptance of a recorded sequence of io.Reader calls.                      *)
(*   ev   : sequence of [w, n, e]: bytes wanted, bytes returned, error ("" = *)
(*          none)                                                            *)
(*   data : all the bytes returned, in order                                 *)
(* Each call is one step of the abstract reader whose state is the number of *)
(* bytes delivered so far; `total` is what there is to deliver and `errs`    *)
(* the errors it may end with.                                               *)
EXTENDS Bits, SequencesExt, TLC

LOCAL EOk(e, S) == e # "" /\ ("*" \in S \/ e \in S \/ ("!eof" \in S /\ e # "eof"))

\* index of the first event with an error, or 0
FirstErr(ev, i) ==
  FoldLeft(LAMBDA k, j : IF k = 0 /\ ev[j].e # "" THEN j ELSE k, 0, [j \in 1..Len(ev) |-> j])

\* bytes delivered by the first k calls
SumN(ev, k) == FoldLeft(LAMBDA a, x : a + x.n, 0, SubSeq(ev, 1, k))

Bounded(ev) == \A i \in 1..Len(ev) : ev[i].n >= 0 /\ ev[i].n <= ev[i].w

\* Complete delivery of total, then an error of errs.  When that error is the
\* end of input every later call reports it again and delivers nothing.
ReadsAll(ev, data, total, errs) ==
  LET k == FirstErr(ev, 1)
  IN  IF ~Bounded(ev) THEN "a call returns more bytes than were asked for"
      ELSE IF k = 0 THEN "no error is ever reported"
      ELSE IF data # total THEN
        (IF IsPre(data, total) THEN "bytes are missing at the end"
         ELSE IF IsPre(total, data) THEN "bytes are delivered beyond the end"
         ELSE "delivered bytes differ")
      ELSE IF SumN(ev, k) # Len(total) THEN "the error is reported before the last byte"
      ELSE IF ~EOk(ev[k].e, errs) THEN "wrong error at the end: " \o ev[k].e
      ELSE IF ev[k].e = "eof" /\ (\E i \in k..Len(ev) : ev[i].e # "eof" /\ ev[i].w > 0)
           THEN "the end of input does not persist"
      ELSE "ok"

\* Delivery of a prefix of total, then an error of errs, nothing invented.
ReadsPrefix(ev, data, total, errs) ==
  LET k == FirstErr(ev, 1)
  IN  IF ~Bounded(ev) THEN "a call returns more bytes than were asked for"
      ELSE IF k = 0 THEN "no error is ever reported"
      ELSE IF ~IsPre(SubSeq(data, 1, SumN(ev, k)), total) THEN "bytes that the whole stream does not have"
      ELSE IF ~EOk(ev[k].e, errs) THEN "wrong error at the end: " \o ev[k].e
      ELSE "ok"

\* Delivery of units, each ended by EOP, then an error of errs.  State of the
\* abstract reader: unit u (1-based), offset o in it, position d in the data
\* and index i of the next call; v is the verdict once there is one.
\* cut: the source was interrupted; the last unit that is begun may be cut by
\* the error, but EOP comes only at the true end of a unit.
UnitStep(st, x, data, units, errs, cut) ==
  LET cur == IF st.u <= Len(units) THEN units[st.u] ELSE << >>
      stop(v) == [st EXCEPT !.v = v, !.d = st.d + x.n]
  IN  IF st.v # "" THEN st
      ELSE IF x.n < 0 \/ x.n > x.w THEN stop("a call returns more bytes than were asked for")
      ELSE IF \/ st.o + x.n > Len(cur) \/ st.d + x.n > Len(data)
              \/ (x.n > 0 /\ SubSeq(data, st.d + 1, st.d + x.n) # SubSeq(cur, st.o + 1, st.o + x.n))
           THEN stop(IF cut THEN "bytes that the whole stream does not have" ELSE "delivered bytes differ from the unit")
      ELSE IF x.e = "" THEN [u |-> st.u, o |-> st.o + x.n, d |-> st.d + x.n, i |-> st.i + 1, v |-> ""]
      ELSE IF x.e = "eop" THEN
        (IF st.u > Len(units) THEN stop("an EOP without a unit")
         ELSE IF st.o + x.n # Len(cur) THEN stop(IF cut THEN "a unit is reported complete although it is cut" ELSE "a unit ends early")
         ELSE [u |-> st.u + 1, o |-> 0, d |-> st.d + x.n, i |-> st.i + 1, v |-> ""])
      ELSE IF ~cut /\ st.u <= Len(units) THEN stop("a unit is missing or not ended by EOP")
      ELSE IF ~EOk(x.e, errs) THEN stop("wrong error at the end: " \o x.e)
      ELSE stop("ok")

UnitRun(ev, data, units, errs, cut) ==
  FoldLeft(LAMBDA st, x : UnitStep(st, x, data, units, errs, cut),
           [u |-> 1, o |-> 0, d |-> 0, i |-> 1, v |-> ""], ev)

ReadsUnits(ev, data, units, errs) ==
  CHOOSE v \in {
    IF f.v = "" THEN "no final error is ever reported"
    ELSE IF f.v # "ok" THEN f.v
    ELSE IF ev[f.i].e = "eof" /\ (\E j \in f.i..Len(ev) : ev[j].e # "eof" /\ ev[j].w > 0)
         THEN "the end of input does not persist"
    ELSE IF f.d # Len(data) THEN "bytes after the end"
    ELSE "ok" : f \in {UnitRun(ev, data, units, errs, FALSE)}} : TRUE

\* A prefix of the units
ReadsUnitsPrefix(ev, data, units, errs) ==
  CHOOSE v \in {IF f.v = "" THEN "no final error is ever reported" ELSE f.v
                : f \in {UnitRun(ev, data, units, errs, TRUE)}} : TRUE
=============================================================================
