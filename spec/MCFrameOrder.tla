---------------------------- MODULE MCFrameOrder ----------------------------
(* Display order and references, checked for streams of any length.          *)
(*                                                                           *)
(* An encoder (phase, base, pend, ...) emits the coded pictures of groups of *)
(* pictures: an I or P picture, then the B pictures shown before it, with    *)
(* temporal references modulo M; group headers, and ends of the sequence in  *)
(* between.  Two decoders see them:                                          *)
(*  - the rule of ISO/IEC 13818-2 6.1.1.11 as VDecoder has it: B pictures    *)
(*    are shown at once, an I or P picture when the next one arrives; the    *)
(*    two last I or P pictures are the references;                           *)
(*  - the algorithm of the library: pictures are picked by comparing their   *)
(*    temporal reference to a counter, references are classed as past and    *)
(*    future by their distance modulo M, or by belonging to an earlier       *)
(*    group.                                                                 *)
(* They have to deliver the same frames and to use the same references.  No  *)
(* variable grows with the stream, so TLC covers streams of every length.    *)
EXTENDS Integers, Sequences, TLC

CONSTANTS M,      \* modulus of temporal references (1024 in the standard)
          MaxB,   \* B pictures in front of an I or P picture
          MaxAnchors, \* length of groups in anchors, 0: unbounded
          Ids     \* number of names of frames
ASSUME MaxB + 1 < M \div 2

VARIABLES base, pend, fresh, anchors, nx, \* encoder
          held, refs,                    \* the rule
          store, past, future, count,    \* the library
          due, ahead, ok
vars == << base, pend, fresh, anchors, nx, held, refs, store, past, future, count, due, ahead, ok >>

None == [id |-> -1]
NoRef == [id |-> -1, tr |-> 0, prev |-> FALSE]

Init ==
  /\ base = 0 /\ pend = << >> /\ fresh = "seq" /\ anchors = 0 /\ nx = 0
  /\ held = << >> /\ refs = << >>
  /\ store = << NoRef, NoRef >> /\ past = -1 /\ future = -1 /\ count = 0
  /\ due = << >> /\ ahead = << >> /\ ok = TRUE

---------------------------------------------------------------------------
\* A frame becomes due / is delivered; the two sequences have to agree.
Match(dueNew, gotNew) ==
  LET d == due \o dueNew
      a == ahead \o gotNew
      k == IF Len(d) < Len(a) THEN Len(d) ELSE Len(a)
  IN /\ ok' = (ok /\ \A i \in 1..k : d[i] = a[i])
     /\ due' = SubSeq(d, k + 1, Len(d))
     /\ ahead' = SubSeq(a, k + 1, Len(a))

\* the frame the library's store holds for its counter
InStore(st, c) ==
  LET hit == {i \in 1..2 : st[i].id # -1 /\ ~st[i].prev /\ st[i].tr = c}
  IN IF hit = {} THEN -1 ELSE st[CHOOSE i \in hit : \A j \in hit : i <= j].id

\* the references as the library classes them before decoding a picture
Class(st, tr, p0, f0) ==
  LET isPast(r) == r.prev \/ ((r.tr - tr) % M) >= M \div 2
      step(pf, r) == IF r.id = -1 THEN pf ELSE IF isPast(r) THEN << r.id, pf[2] >> ELSE << pf[1], r.id >>
  IN step(step(<< p0, f0 >>, st[1]), st[2])

\* one coded picture: type t, temporal reference tr, frame id.  The library
\* only reads on when its store does not hold the frame that is next.
Picture(t, tr, id) ==
  LET cl == Class(store, tr, past, future)
      n  == Len(refs)
      refsOk == CASE t = "I" -> TRUE
                  [] t = "P" -> cl[1] = refs[n]
                  [] t = "B" -> cl[2] = refs[n] /\ (n = 2 => cl[1] = refs[1])
      newDue == IF t = "B" THEN << id >> ELSE held
      got == IF tr = count THEN << id >> ELSE << >>
  IN /\ InStore(store, count) = -1
     /\ past' = cl[1] /\ future' = cl[2]
     /\ store' = IF t = "B" THEN store ELSE << store[2], [id |-> id, tr |-> tr, prev |-> FALSE] >>
     /\ count' = IF tr = count THEN (count + 1) % M ELSE count
     /\ held' = IF t = "B" THEN held ELSE << id >>
     /\ refs' = IF t = "B" THEN refs ELSE (IF n = 2 THEN << refs[2] >> ELSE refs) \o << id >>
     /\ LET d == due \o newDue
            a == ahead \o got
            k == IF Len(d) < Len(a) THEN Len(d) ELSE Len(a)
        IN /\ ok' = (ok /\ refsOk /\ \A i \in 1..k : d[i] = a[i])
           /\ due' = SubSeq(d, k + 1, Len(d))
           /\ ahead' = SubSeq(a, k + 1, Len(a))
     /\ nx' = (nx + 1) % Ids

Anchor ==
  /\ pend = << >>
  /\ MaxAnchors > 0 => anchors < MaxAnchors
  /\ \E b \in 0..MaxB, t \in {"I", "P"} :
       \* the first picture of a sequence has no references; B pictures in
       \* front of it refer to it only
       /\ (fresh # "no" => t = "I")
       /\ Picture(t, (base + b) % M, nx)
       /\ pend' = [i \in 1..b |-> (base + i - 1) % M]
       /\ base' = (base + b + 1) % M
  /\ fresh' = "no" /\ anchors' = IF MaxAnchors = 0 THEN 0 ELSE anchors + 1

BPicture ==
  /\ pend # << >>
  /\ Picture("B", Head(pend), nx)
  /\ pend' = Tail(pend)
  /\ UNCHANGED << base, fresh, anchors >>

GroupHeader ==
  /\ pend = << >> /\ fresh = "no" /\ InStore(store, count) = -1
  /\ store' = [i \in 1..2 |-> [store[i] EXCEPT !.prev = TRUE]]
  /\ count' = 0 /\ base' = 0 /\ fresh' = "gop" /\ anchors' = 0
  /\ UNCHANGED << pend, nx, held, refs, past, future, due, ahead, ok >>

SequenceEnd ==
  /\ pend = << >> /\ fresh = "no" /\ InStore(store, count) = -1
  /\ store' = << NoRef, NoRef >> /\ past' = -1 /\ future' = -1 /\ count' = 0
  /\ base' = 0 /\ fresh' = "seq" /\ anchors' = 0
  /\ held' = << >> /\ refs' = << >>
  /\ Match(held \o << "eos" >>, << "eos" >>)
  /\ UNCHANGED << pend, nx >>

\* the call that finds the next frame in the store
FromStore ==
  /\ InStore(store, count) # -1
  /\ count' = (count + 1) % M
  /\ Match(<< >>, << InStore(store, count) >>)
  /\ UNCHANGED << base, pend, fresh, anchors, nx, held, refs, store, past, future >>

Next == Anchor \/ BPicture \/ GroupHeader \/ SequenceEnd \/ FromStore
Spec == Init /\ [][Next]_vars

Agree == ok
\* the library is never late, and ahead by the held frame at most
Prompt == Len(due) = 0 /\ Len(ahead) <= 1
=============================================================================
