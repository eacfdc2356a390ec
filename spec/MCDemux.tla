------------------------------- MODULE MCDemux -------------------------------
(* The demultiplexer as processes: the reading goroutine, which offers each  *)
(* packet to the channels that match it, one after the other, and consumers  *)
(* of any relative speed.  Channels are unbuffered: an offer and its receipt *)
(* are one step.  Checked for every sequence of packets up to MaxPk, every   *)
(* window, every assignment of predicates and every interleaving:            *)
(* each consumer gets exactly what TsReaders!Routed says (the oracle of the  *)
(* recorded runs), channels are closed before completion is signalled, and   *)
(* completion is signalled provided that everybody goes on receiving.        *)
EXTENDS TsReaders, FiniteSets

CONSTANTS MaxPk, NChan

Kinds == { [pid |-> 1, pusi |-> FALSE, prio |-> FALSE],
           [pid |-> 1, pusi |-> TRUE,  prio |-> TRUE],
           [pid |-> 2, pusi |-> FALSE, prio |-> TRUE] }
Preds == { [t |-> "any"], [t |-> "none"], [t |-> "pid", v |-> 1], [t |-> "prio"] }
Wins  == { << [t |-> "unset"], [t |-> "unset"] >>,
           << [t |-> "pusi"], [t |-> "unset"] >>,
           << [t |-> "pusi"], [t |-> "not", a |-> [t |-> "pusi"]] >>,
           << [t |-> "prio"], [t |-> "prio"] >> }
Chans == 1..NChan

VARIABLES pks, win, pred,      \* the scenario
          pos, phase, todo,    \* the goroutine: next packet, what it does, channels still to be offered to
          skipping, got, closed, done, seen
vars == << pks, win, pred, pos, phase, todo, skipping, got, closed, done, seen >>

Init ==
  /\ pks \in UNION {[1..n -> Kinds] : n \in 0..MaxPk}
  /\ win \in Wins
  /\ pred \in [Chans -> Preds]
  /\ pos = 1 /\ phase = "read" /\ todo = << >> /\ skipping = TRUE
  /\ got = [n \in Chans |-> << >>] /\ closed = [n \in Chans |-> FALSE] /\ done = FALSE
  /\ seen = [n \in Chans |-> FALSE]      \* the consumer has seen the end of its channel

Skip(k) == win[1].t = "unset" \/ Holds(win[1], k)
Take(k) == win[2].t = "unset" \/ Holds(win[2], k)

Read ==
  /\ phase = "read"
  /\ IF pos > Len(pks) THEN phase' = "close" /\ UNCHANGED << pos, todo, skipping >>
     ELSE LET k == pks[pos]
          IN IF skipping /\ ~Skip(k) THEN pos' = pos + 1 /\ UNCHANGED << phase, todo, skipping >>
             ELSE IF ~skipping /\ ~Take(k) THEN phase' = "close" /\ UNCHANGED << pos, todo, skipping >>
             ELSE /\ skipping' = FALSE
                  /\ todo' = SelectSeq([n \in 1..NChan |-> n], LAMBDA n : Holds(pred[n], k))
                  /\ phase' = "offer" /\ UNCHANGED pos
  /\ UNCHANGED << pks, win, pred, got, closed, done, seen >>

Offer ==
  /\ phase = "offer"
  /\ IF todo = << >> THEN phase' = "read" /\ pos' = pos + 1 /\ UNCHANGED << todo, got >>
     ELSE /\ got' = [got EXCEPT ![Head(todo)] = Append(@, pks[pos])]
          /\ todo' = Tail(todo) /\ UNCHANGED << phase, pos >>
  /\ UNCHANGED << pks, win, pred, skipping, closed, done, seen >>

Close ==
  /\ phase = "close"
  /\ \E n \in Chans :
       /\ ~closed[n] /\ \A m \in Chans : m < n => closed[m]
       /\ closed' = [closed EXCEPT ![n] = TRUE]
       /\ phase' = IF n = NChan THEN "done" ELSE "close"
  /\ UNCHANGED << pks, win, pred, pos, todo, skipping, got, done, seen >>

Done ==
  /\ phase = "done" /\ ~done /\ done' = TRUE
  /\ UNCHANGED << pks, win, pred, pos, phase, todo, skipping, got, closed, seen >>

SeeEnd(n) ==
  /\ closed[n] /\ ~seen[n] /\ seen' = [seen EXCEPT ![n] = TRUE]
  /\ UNCHANGED << pks, win, pred, pos, phase, todo, skipping, got, closed, done >>

Next == Read \/ Offer \/ Close \/ Done \/ \E n \in Chans : SeeEnd(n)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next) /\ \A n \in Chans : WF_vars(SeeEnd(n))

Want(n) == Routed([pkts |-> pks], pred[n], win[1], win[2])
OnlyWanted == \A n \in Chans : Len(got[n]) <= Len(Want(n)) /\ got[n] = SubSeq(Want(n), 1, Len(got[n]))
Complete   == \A n \in Chans : closed[n] => got[n] = Want(n)
ClosedFirst == done => \A n \in Chans : closed[n]
Finishes == <>(done /\ \A n \in Chans : seen[n])
=============================================================================
