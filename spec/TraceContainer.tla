--------------------------- MODULE TraceContainer ---------------------------
(* Conformance of recorded runs of the transport, PES and program stream     *)
(* packages: every record of the trace is one run of the real library on one *)
(* input; it is accepted iff the specification allows it.                    *)
EXTENDS TsReaders, Ps, Json, IOUtils

PROP  == IOEnv.PROP
T     == ndJsonDeserialize(IOEnv.TRACE)

\* the element of a singleton; Pick({f(x) : x \in {e}}) evaluates e once
Pick(S) == CHOOSE x \in S : TRUE

CeilByte(bits) == (bits + 7) \div 8

---------------------------------------------------------------------------
(* One packet after the other.  `bits` is the position of the reader.        *)
RECURSIVE TsStep(_, _, _, _, _)
TsStep(B, end, calls, j, bits) ==
  IF j > Len(calls) THEN "ok"
  ELSE
  LET c == calls[j]
      r == NextPacket(B, CeilByte(bits), end)
  IN CASE r.st = "pkt" ->
            IF c.e # "" THEN "a good packet is not returned: " \o c.e
            ELSE IF c.p # r.pkt THEN "the packet differs from the encoded one"
            ELSE IF c.bit # r.next * 8 THEN "the packet does not consume its 188 bytes"
            ELSE TsStep(B, end, calls, j + 1, c.bit)
       [] r.st = "err" ->
            IF ~ErrOk(c.e, r.errs) THEN
              (IF c.e = "" THEN "a packet is returned that is not there" ELSE "wrong error: " \o c.e)
            ELSE IF c.e = "nosync" /\ c.bit >= bits THEN TsStep(B, end, calls, j + 1, c.bit)
            ELSE "ok"
       [] r.st = "gray" ->
            IF c.e = "" /\ c.bit > bits THEN TsStep(B, end, calls, j + 1, c.bit) ELSE "ok"

TsPkts(c) == TsStep(c.in.b, c.in.end, c.out.calls, 1, c.in.bit)

RECURSIVE PesStep(_, _, _, _, _, _)
PesStep(B, end, calls, j, bits, kf) ==
  IF j > Len(calls) THEN (IF kf THEN "KF bit 32 of a time stamp is lost" ELSE "ok")
  ELSE
  LET c == calls[j]
      r == NextPes(B, CeilByte(bits), end)
  IN CASE r.st = "pkt" ->
            IF c.e # "" THEN "a good packet is not returned: " \o c.e
            ELSE LET s == PesSame(c.p, r.pkt)
                 IN IF s = "bad" THEN "the packet differs from the encoded one"
                    ELSE IF c.bit # r.next * 8 THEN "the stream is not left right after the packet"
                    ELSE PesStep(B, end, calls, j + 1, c.bit, kf \/ s = "kf")
       [] r.st = "err" ->
            IF c.e = "" THEN "a malformed or truncated packet is returned as good"
            ELSE IF ~ErrOk(c.e, r.errs) THEN "wrong error: " \o c.e
            ELSE IF kf THEN "KF bit 32 of a time stamp is lost" ELSE "ok"
       [] r.st = "gray" ->
            IF c.e = "" /\ c.bit > bits THEN PesStep(B, end, calls, j + 1, c.bit, kf) ELSE "ok"

PesPkts(c) == PesStep(c.in.b, c.in.end, c.out.calls, 1, 0, FALSE)

RECURSIVE PackStep(_, _, _, _, _, _)
PackStep(B, end, calls, j, bits, kf) ==
  IF j > Len(calls) THEN (IF kf THEN "KF bit 32 of the SCR base is lost" ELSE "ok")
  ELSE
  LET c == calls[j]
      r == NextPack(B, CeilByte(bits), end)
  IN CASE r.st = "pkt" ->
            IF c.e # "" THEN "a good header is not returned: " \o c.e
            ELSE LET s == PackSame(c.p, r.pkt)
                 IN IF s = "bad" THEN "the header differs from the encoded one"
                    ELSE IF c.bit # r.next * 8 THEN "the stream is not left right after the header"
                    ELSE PackStep(B, end, calls, j + 1, c.bit, kf \/ s = "kf")
       [] r.st = "err" ->
            IF c.e = "" THEN "a malformed header is returned as good"
            ELSE IF ~ErrOk(c.e, r.errs) THEN "wrong error: " \o c.e
            ELSE IF kf THEN "KF bit 32 of the SCR base is lost" ELSE "ok"
       [] r.st = "gray" ->
            IF c.e = "" /\ c.bit > bits THEN PackStep(B, end, calls, j + 1, c.bit, kf) ELSE "ok"

PackHdrs(c) == PackStep(c.in.b, c.in.end, c.out.calls, 1, 0, FALSE)

---------------------------------------------------------------------------
(* Readers                                                                   *)
Either(a, b) == IF a = "ok" THEN a ELSE b   \* accepted if one of them is

TsRead(c) ==
  LET i  == c.in
      o  == c.out
      pk == Packets(i.b, i.end)
  IN IF i.mode = "unit" THEN
       (IF pk.gray THEN "ok" ELSE
        Pick({ReadsUnits(o.ev, o.data, us, pk.errs) : us \in {Units(pk.pkts, i.where)}}))
     ELSE
     LET s == PayloadStream(pk, i.where, i.skip, i.take)
     IN IF pk.gray /\ s.errs = {"*"} THEN
          (IF IsPre(s.total, o.data) THEN "ok" ELSE "delivered bytes differ")
        ELSE IF FirstFailsTake(pk, i.skip, i.take) THEN
          Either(ReadsAll(o.ev, o.data, s.total, s.errs), ReadsAll(o.ev, o.data, << >>, {"eof"}))
        ELSE ReadsAll(o.ev, o.data, s.total, s.errs)

Demux(c) ==
  LET i  == c.in
      o  == c.out
      pk == Packets(i.b, i.end)
      w  == Window(pk.pkts, i.skip, i.take)
      free == FirstFailsTake(pk, i.skip, i.take)
      exp(n) == Routed(pk, i.chans[n], i.skip, i.take)
  IN IF ~o.done THEN "completion is not signalled"
     ELSE IF \E n \in 1..Len(i.chans) : ~o.closed[n] THEN "a channel is open when completion is signalled"
     ELSE IF pk.gray THEN "ok"
     ELSE IF free /\ \A n \in 1..Len(i.chans) : o.got[n] = << >> THEN "ok"
     ELSE IF \E n \in 1..Len(i.chans) : o.early[n] # exp(n) THEN "a channel does not receive the packets that match it"
     ELSE IF \E n \in 1..Len(i.chans) : o.got[n] # exp(n) THEN "a packet does not keep its contents"
     ELSE IF ~w.taken /\ ~ErrOk(o.err, pk.errs) THEN "wrong error: " \o o.err
     ELSE "ok"

TsChan(c) ==
  LET pk == Packets(c.in.b, "eof")
      exp == IF c.in.mode = "unit" THEN Units(pk.pkts, AnyPid)
             ELSE [n \in 1..Len(pk.pkts) |-> pk.pkts[n].pay]
  IN IF ~c.out.closed THEN "the output is not closed"
     ELSE IF c.out.got # exp THEN "the transformed channel delivers something else"
     ELSE "ok"

Pays(ps) == [m \in 1..Len(ps) |-> ps[m].pay]
PesChan(c) ==
  LET pk == PesAll(c.in.b, "eof")
  IN IF ~c.out.closed THEN "the output is not closed"
     ELSE IF (pk.gray /\ ~IsPre(Pays(pk.pkts), c.out.got)) \/ (~pk.gray /\ c.out.got # Pays(pk.pkts))
     THEN "the transformed channel delivers something else"
     ELSE "ok"

PesRead(c) ==
  LET pk == PesAll(c.in.b, c.in.end)
      total == PesPay(pk.pkts, 1)
  IN IF pk.gray THEN (IF IsPre(total, c.out.data) THEN "ok" ELSE "delivered bytes differ")
     ELSE ReadsAll(c.out.ev, c.out.data, total, pk.errs)

Pipe(c) ==
  LET i == c.in
      pk == Packets(i.b, i.end)
      es == CASE i.mode = "unit" -> EsOfUnits(Units(pk.pkts, i.where), 1, << >>)
              [] i.mode = "payload" ->
                   LET a == PesAll(PayloadStream(pk, i.where, i.skip, i.take).total, "eof")
                   IN [total |-> PesPay(a.pkts, 1), bad |-> a.gray \/ a.errs # {"eof"}]
              [] i.mode = "ps" ->
                   LET a == Program(i.b, "eof") IN [total |-> ProgPay(a.packs, 1), bad |-> a.fin # "end"]
      \* the last unit is cut short: the packets in front of the cut, then an error
      cut == i.mode = "unit" /\ es.bad /\ es.last
  IN IF (es.bad /\ ~cut) \/ es.total # i.es THEN "GENERR the multiplex does not carry the elementary stream"
     ELSE ReadsAll(c.out.ev, c.out.data, i.es, IF cut THEN {"!eof"} ELSE {"eof"})

PsRead(c) ==
  LET p == Program(c.in.b, c.in.end)
      total == ProgPay(p.packs, 1)
  IN CASE p.fin = "end" -> ReadsAll(c.out.ev, c.out.data, total, {"eof"})
       [] p.fin = "err" -> ReadsAll(c.out.ev, c.out.data, total, {"!eof"})
       [] p.fin = "gray" -> IF IsPre(total, c.out.data) THEN
                               (IF FirstErr(c.out.ev, 1) = 0 THEN "no error is ever reported" ELSE "ok")
                            ELSE "delivered bytes differ"

\* the delivered packs against the expected ones; open: the last of the
\* expected ones may have grown and others may follow
PackEq(o, e, via, open) ==
  LET s == PackSame(o.h, e.h)
      n == Len(e.pk)
  IN IF s = "bad" THEN "a pack header differs"
     ELSE IF via = "payload" THEN
       (IF (~open /\ Len(o.pay) # n) \/ Len(o.pay) < n THEN "packets are missing or repeated"
        ELSE IF \E m \in 1..n : o.pay[m] # e.pk[m].pay THEN "a payload differs" ELSE "ok")
     ELSE IF (~open /\ Len(o.pk) # n) \/ Len(o.pk) < n THEN "packets are missing or repeated"
     ELSE IF \E m \in 1..n : PesSame(o.pk[m], e.pk[m]) = "bad" THEN "a packet differs"
     ELSE "ok"

PsDec(c) ==
  LET p == Program(c.in.b, c.in.end)
      o == c.out
      n == Len(p.packs)
      open == p.fin = "gray"
      \* a program end without any pack, or anything else in front of the first pack
      bads == {m \in 1..n : m <= Len(o.packs) /\
                 (PackEq(o.packs[m], p.packs[m], c.in.via, open /\ m = n) # "ok" \/
                  PackEq(o.early[m], p.packs[m], c.in.via, open /\ m = n) # "ok")}
  IN IF ~o.done \/ ~o.closed \/ (\E m \in 1..Len(o.packs) : ~o.packs[m].shut) THEN "a channel is left open"
     ELSE IF Len(o.packs) < n \/ (Len(o.packs) > n /\ ~open) THEN "packs are missing or repeated"
     ELSE IF bads # {} THEN
       LET m == CHOOSE x \in bads : TRUE
       IN Either(PackEq(o.packs[m], p.packs[m], c.in.via, open /\ m = n), "")
          \o PackEq(o.early[m], p.packs[m], c.in.via, open /\ m = n)
     ELSE IF p.fin = "end" /\ ~(o.ok /\ o.err = "") THEN "a complete program is reported as failure"
     ELSE IF p.fin = "err" /\ (o.ok \/ o.err = "") THEN "an incomplete program is reported as success"
     ELSE IF (o.ok /\ o.err # "") \/ (~o.ok /\ o.err = "") THEN "the signal and the error disagree"
     ELSE IF ~o.fin THEN "the error changes after completion"
     ELSE "ok"

---------------------------------------------------------------------------
(* R01: every call comes back with a result or an error, an error comes      *)
(* within a bounded number of calls, and memory stays in proportion.         *)
NBytes(c) == Len(c.in.b)
\* kilobytes a run of the case may allocate altogether
MaxKB(c, calls) == 1024 + NBytes(c) \div 4 + 4 * calls

Survives(c) ==
  CASE c.k \in {"tspkts", "pespkts", "packhdr"} ->
         LET n == Len(c.out.calls)
         IN IF n = 0 \/ (n >= c.in.max /\ c.out.calls[n].e = "") THEN "no error within the bound on calls"
            ELSE IF c.kb > MaxKB(c, n) THEN "memory out of proportion"
            ELSE "ok"
    [] c.k \in {"tsread", "pesread", "pipe", "psread"} ->
         LET n == Len(c.out.ev)
             e == {j \in 1..n : c.out.ev[j].e \notin {"", "eop"}}
         IN IF e = {} THEN "no error within the bound on calls"
            ELSE IF \E j \in 1..n : c.out.ev[j].n < 0 \/ c.out.ev[j].n > c.out.ev[j].w
            THEN "a call returns more bytes than were asked for"
            ELSE IF c.kb > MaxKB(c, 50) THEN "memory out of proportion"
            ELSE "ok"
    [] c.k = "demux" ->
         IF ~c.out.done \/ c.out.err = "" THEN "the demultiplexer does not end with an error"
         ELSE IF \E n \in 1..Len(c.out.closed) : ~c.out.closed[n] THEN "a channel is left open"
         ELSE IF c.kb > MaxKB(c, 50) THEN "memory out of proportion"
         ELSE "ok"
    [] c.k = "psdec" ->
         IF ~c.out.done \/ ~c.out.closed THEN "the decoder does not end"
         ELSE IF c.out.ok # (c.out.err = "") THEN "the signal and the error disagree"
         ELSE IF c.kb > MaxKB(c, 50) THEN "memory out of proportion"
         ELSE "ok"

---------------------------------------------------------------------------
(* R03: an interrupted source.  in.b is what the source provides before it   *)
(* fails (in.end = "fault": for ever, "fault1": once and has then ended,     *)
(* "fault2": once, and then provides the rest) or ends; in.full is the whole,*)
(* well-formed stream.                                                       *)
RECURSIVE TsPrefixStep(_, _, _, _, _)
TsPrefixStep(B, own, calls, full, j) ==
  IF j > Len(calls) THEN "no error is ever reported"
  ELSE IF calls[j].e = "" THEN
     (IF j > Len(full) \/ (j * 188 > Len(B)) THEN "a packet the stream does not have"
      ELSE IF calls[j].p # full[j] THEN "a packet differs"
      ELSE TsPrefixStep(B, own, calls, full, j + 1))
  ELSE IF ~ErrOk(calls[j].e, own) THEN "not the error of the source: " \o calls[j].e
  ELSE "ok"

RECURSIVE PesPrefixStep(_, _, _, _)
PesPrefixStep(calls, full, own, j) ==
  IF j > Len(calls) THEN "no error is ever reported"
  ELSE IF calls[j].e = "" THEN
     (IF j > Len(full) \/ j > Len(own.here) THEN "a packet the stream does not have"
      ELSE IF PesSame(calls[j].p, full[j]) = "bad" THEN "a packet differs"
      ELSE PesPrefixStep(calls, full, own, j + 1))
  ELSE IF ~ErrOk(calls[j].e, own.errs) THEN "not the error of the source: " \o calls[j].e
  ELSE "ok"

Interrupted(c) ==
  LET i   == c.in
      o   == c.out
      own == IF i.end \in {"fault", "fault1", "fault2"} THEN {"fault"}
             ELSE {"*"}
      \* a unit reader, or a reader stacked on it, sees the end of the cut source in its own way
  IN CASE c.k = "tspkts" ->
            TsPrefixStep(i.b, own, o.calls, Packets(i.full, "eof").pkts, 1)
       [] c.k = "pespkts" -> PesPrefixStep(o.calls, PesAll(i.full, "eof").pkts,
                                         [here |-> PesAll(i.b, i.end).pkts, errs |-> own], 1)
       [] c.k = "packhdr" -> 
            LET r == NextPack(i.full, 0, "eof")
            IN IF o.calls[1].e # "" THEN (IF ErrOk(o.calls[1].e, own) THEN "ok" ELSE "not the error of the source: " \o o.calls[1].e)
               ELSE IF r.st = "pkt" /\ PackSame(o.calls[1].p, r.pkt) # "bad" THEN "ok" ELSE "a header differs"
       [] c.k = "tsread" ->
            LET pk == Packets(i.full, "eof")
            IN IF i.mode = "unit" /\ i.end = "eof" /\ Packets(i.b, "eof").errs = {"eof"} THEN TsRead(c)   \* a stream cut at a packet is a whole one
               ELSE IF i.mode = "unit" THEN
                 \* so it is, possibly, if nothing but stray bytes follow its last packet
                 Either(IF i.end = "eof" /\ Packets(i.b, "eof").errs = {"*"} THEN TsRead(c) ELSE "no",
                        ReadsUnitsPrefix(o.ev, o.data, Units(pk.pkts, i.where), own))
               ELSE LET s == PayloadStream(pk, i.where, i.skip, i.take)
                    IN ReadsPrefix(o.ev, o.data, s.total,
                         IF s.errs = {"eof"} /\ Len(o.data) = Len(s.total) THEN own \cup {"eof"} ELSE own)
       [] c.k = "pesread" ->
            ReadsPrefix(o.ev, o.data, PesPay(PesAll(i.full, "eof").pkts, 1), own)
       [] c.k = "pipe" ->
            \* a program stream may be whole, whatever the source does behind its end code
            ReadsPrefix(o.ev, o.data, i.es, IF i.mode = "ps" /\ Len(o.data) = Len(i.es) THEN own \cup {"eof"} ELSE own)
       [] c.k = "psread" ->
            ReadsPrefix(o.ev, o.data, ProgPay(Program(i.full, "eof").packs, 1), own)
       [] c.k = "demux" ->
            LET pk == Packets(i.full, "eof")
            IN IF ~o.done \/ (\E n \in 1..Len(i.chans) : ~o.closed[n]) THEN "a channel is left open"
               ELSE IF \E n \in 1..Len(i.chans) : ~IsPre(o.got[n], Routed(pk, i.chans[n], i.skip, i.take))
               THEN "a channel receives packets the stream does not have"
               ELSE IF ~ErrOk(o.err, own) THEN "not the error of the source: " \o o.err
               ELSE "ok"
       [] c.k = "psdec" ->
            LET p == Program(i.full, "eof").packs
            IN IF ~o.done \/ ~o.closed \/ (\E m \in 1..Len(o.packs) : ~o.packs[m].shut) THEN "a channel is left open"
               ELSE IF o.ok \/ o.err = "" THEN "success is reported"
               ELSE IF Len(o.packs) > Len(p) THEN "packs the stream does not have"
               ELSE IF \E m \in 1..Len(o.packs) :
                         \/ PackSame(o.packs[m].h, p[m].h) = "bad"
                         \/ Len(o.packs[m].pk) > Len(p[m].pk)
                         \/ \E x \in 1..Len(o.packs[m].pk) : PesSame(o.packs[m].pk[x], p[m].pk[x]) = "bad"
               THEN "a pack differs"
               ELSE "ok"

---------------------------------------------------------------------------
Normal(c) ==
  CASE c.k = "tspkts"  -> TsPkts(c)
    [] c.k = "tsread"  -> TsRead(c)
    [] c.k = "demux"   -> Demux(c)
    [] c.k = "tschan"  -> TsChan(c)
    [] c.k = "pespkts" -> PesPkts(c)
    [] c.k = "pesread" -> PesRead(c)
    [] c.k = "peschan" -> PesChan(c)
    [] c.k = "pipe"    -> Pipe(c)
    [] c.k = "packhdr" -> PackHdrs(c)
    [] c.k = "psread"  -> PsRead(c)
    [] c.k = "psdec"   -> PsDec(c)

\* two independent runs in one process: each has to be accepted by itself
Fails(v) == v # "ok" /\ SubSeq(v, 1, 2) # "KF"
Twin(c) ==
  Pick({IF Fails(a) THEN "beside another run: " \o a ELSE IF Fails(b) THEN "beside another run: " \o b ELSE IF a # "ok" THEN a ELSE b
        : <<a, b>> \in {<<Normal([k |-> c.in.ka, in |-> c.in.a, out |-> c.out.a]),
                          Normal([k |-> c.in.kb, in |-> c.in.bb, out |-> c.out.bb])>>}})

\* any number of them
Troop(c) ==
  Pick({LET bad == {j \in DOMAIN vs : Fails(vs[j])}
            kf  == {j \in DOMAIN vs : vs[j] # "ok"}
        IN IF bad # {} THEN "beside other runs: " \o vs[CHOOSE j \in bad : TRUE]
           ELSE IF kf # {} THEN vs[CHOOSE j \in kf : TRUE] ELSE "ok"
        : vs \in {TLCEval([j \in 1..Len(c.in.ks) |-> Normal([k |-> c.in.ks[j], in |-> c.in.ins[j], out |-> c.out.outs[j]])])}})

Verdict(c) ==
  IF c.st # "ok" THEN "the run ends in a " \o c.st
  ELSE CASE PROP = "R01" -> Survives(c)
         [] PROP = "R03" -> Interrupted(c)
         [] c.k = "twin" -> Twin(c)
         [] c.k = "troop" -> Troop(c)
         [] OTHER        -> Normal(c)

VARIABLE n
\* where validation resumes after a run the specification cannot even evaluate
START == IF "START" \in DOMAIN IOEnv THEN atoi(IOEnv.START) ELSE 1
Init == n = START
Next == /\ n <= Len(T)
        /\ \E v \in {Verdict(T[n])} : IF v = "ok" THEN TRUE ELSE PrintT("V|" \o ToString(T[n].id) \o "|" \o v)
        /\ n' = n + 1
Done == n = Len(T) + 1 => PrintT("DONE|" \o ToString(Len(T)))
=============================================================================
