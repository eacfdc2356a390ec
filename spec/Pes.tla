-------------------------------- MODULE Pes ---------------------------------
(* The PES packet layer (ISO/IEC 13818-1, 2.4.3.6 and 2.4.3.7): the outcome  *)
(* of reading the next PES packet at a byte offset, in the form used by      *)
(* TsPacket, and the elementary stream a payload reader delivers.            *)
EXTENDS Bits, Reads

Headerless == {188, 191, 240, 241, 255, 242, 248}   \* BC BF F0 F1 FF F2 F8
PADDING    == 190                                   \* BE

NoPesExt == [has |-> FALSE, pdf |-> FALSE, phf |-> FALSE, pscf |-> FALSE, pstdf |-> FALSE,
             ext2 |-> FALSE, pd |-> << >>, pstd |-> FALSE, scale |-> 0, size |-> 0]
NoHdr(id, len, pay) ==
  [id |-> id, len |-> len, has |-> FALSE, sc |-> 0, prio |-> FALSE, dai |-> FALSE,
   copy |-> FALSE, orig |-> FALSE, pd |-> 0, escr |-> FALSE, rate |-> FALSE, dsm |-> FALSE,
   aci |-> FALSE, crc |-> FALSE, extf |-> FALSE, hdl |-> 0, pts |-> <<0, 0, 0>>,
   dts |-> <<0, 0, 0>>, ext |-> NoPesExt, pay |-> pay]

\* A time stamp field at offset o: its prefix and marker bits, its value
StampGood(B, o, prefix) ==
  LET p == o * 8 IN Bits(B, p, 4) = prefix /\ Flag(B, p + 7) /\ Flag(B, p + 23) /\ Flag(B, p + 39)
StampVal(B, o) == <<Bits(B, o * 8 + 4, 3), Bits(B, o * 8 + 8, 15), Bits(B, o * 8 + 24, 15)>>

\* The extension at offset o of data that ends at `end`: [ok, next, x]
ExtAt(B, o, end) ==
  LET bad == [ok |-> FALSE]
  IN IF o >= end THEN bad ELSE
  LET f   == o * 8
      pdf == Flag(B, f)  phf == Flag(B, f + 1)  pscf == Flag(B, f + 2)
      std == Flag(B, f + 3)  e2 == Flag(B, f + 7)
      o1  == o + 1
      o2  == IF pdf THEN o1 + 16 ELSE o1
  IN IF o2 > end \/ (phf /\ o2 >= end) THEN bad ELSE
  LET o3  == IF phf THEN o2 + 1 + ByteAt(B, o2) ELSE o2
      o4  == IF pscf THEN o3 + 2 ELSE o3
      o5  == IF std THEN o4 + 2 ELSE o4
  IN IF o5 > end \/ (e2 /\ o5 >= end) THEN bad
     ELSE IF std /\ Bits(B, o4 * 8, 2) # 1 THEN bad
     ELSE
     LET o6 == IF e2 THEN o5 + 1 + (ByteAt(B, o5) % 128) ELSE o5
     IN [ok |-> TRUE, next |-> o6, x |->
          [has |-> TRUE, pdf |-> pdf, phf |-> phf, pscf |-> pscf, pstdf |-> std, ext2 |-> e2,
           pd |-> IF pdf THEN Slice(B, o1, o2) ELSE << >>,
           pstd |-> std, scale |-> IF std THEN Bits(B, o4 * 8 + 2, 1) ELSE 0,
           size |-> IF std THEN Bits(B, o4 * 8 + 3, 13) ELSE 0]]

\* The packet at offset p (its 6 first bytes are there), data ending at Len(B)
WithHeader(B, p, id, plen) ==
  LET N   == Len(B)
      err == [st |-> "err", errs |-> {"!eof"}]
      h   == p + 6
  IN IF h + 3 > N THEN err ELSE
  LET b   == h * 8
      pd  == Bits(B, b + 8, 2)
      hdl == ByteAt(B, h + 2)
      o1  == h + 3
      o2  == o1 + (CASE pd = 2 -> 5 [] pd = 3 -> 10 [] OTHER -> 0)
      o3  == IF Flag(B, b + 10) THEN o2 + 6 ELSE o2
      o4  == IF Flag(B, b + 11) THEN o3 + 3 ELSE o3
      o5  == IF Flag(B, b + 12) THEN o4 + 1 ELSE o4
      o6  == IF Flag(B, b + 13) THEN o5 + 1 ELSE o5
      o7  == IF Flag(B, b + 14) THEN o6 + 2 ELSE o6
      extf == Flag(B, b + 15)
  IN IF Bits(B, b, 2) # 2 \/ o7 > N THEN err ELSE
  LET x   == IF extf THEN ExtAt(B, o7, N) ELSE [ok |-> TRUE, next |-> o7, x |-> NoPesExt]
      o8  == o1 + hdl                       \* where the header has to end
      end == IF plen = 0 THEN N ELSE h + plen
  IN IF \/ ~x.ok
        \/ x.next > o8
        \/ o8 > N
        \/ (pd = 2 /\ ~StampGood(B, o1, 2))
        \/ (pd = 3 /\ ~(StampGood(B, o1, 3) /\ StampGood(B, o1 + 5, 1)))
        \/ (plen > 0 /\ plen < 3 + hdl)
        \/ \E i \in x.next .. (o8 - 1) : ByteAt(B, i) # 255
     THEN err
     ELSE IF end > N THEN err
     ELSE IF pd = 1 THEN [st |-> "gray", from |-> p]
     ELSE [st |-> "pkt", from |-> p, next |-> end, pkt |->
       [id |-> id, len |-> plen, has |-> TRUE, sc |-> Bits(B, b + 2, 2), prio |-> Flag(B, b + 4),
        dai |-> Flag(B, b + 5), copy |-> Flag(B, b + 6), orig |-> Flag(B, b + 7), pd |-> pd,
        escr |-> Flag(B, b + 10), rate |-> Flag(B, b + 11), dsm |-> Flag(B, b + 12),
        aci |-> Flag(B, b + 13), crc |-> Flag(B, b + 14), extf |-> extf, hdl |-> hdl,
        pts |-> IF pd >= 2 THEN StampVal(B, o1) ELSE <<0, 0, 0>>,
        dts |-> IF pd = 3 THEN StampVal(B, o1 + 5) ELSE <<0, 0, 0>>,
        ext |-> x.x, pay |-> Slice(B, o8, end)]]

\* A header that a failing source cuts: whether everything up to the cut is in
\* order is not examined, so both its error and a format error are possible.
NextPes(B, p, endE) ==
  LET N == Len(B)
      w == N - p
      cut == endE # "eof"                 \* the source fails instead of ending
  IN IF w <= 0 THEN [st |-> "err", errs |-> {endE}]
     ELSE IF w < 3 THEN
       [st |-> "err", errs |-> IF cut /\ \A i \in p..(N - 1) : ByteAt(B, i) = 0 THEN {endE} ELSE {"*"}]
     ELSE IF Bits(B, p * 8, 24) # 1 THEN [st |-> "err", errs |-> {"!eof"}]
     ELSE IF w < 6 THEN [st |-> "err", errs |-> IF cut THEN {endE} ELSE {"!eof"}]
     ELSE
     LET id   == ByteAt(B, p + 3)
         plen == ByteAt(B, p + 4) * 256 + ByteAt(B, p + 5)
     IN IF id < 188 THEN [st |-> "gray", from |-> p]
        ELSE IF id = PADDING \/ id \in Headerless THEN
          IF p + 6 + plen > N THEN [st |-> "err", errs |-> IF cut THEN {endE} ELSE {"!eof"}]
          ELSE IF plen = 0 /\ id # PADDING THEN [st |-> "gray", from |-> p]
          ELSE [st |-> "pkt", from |-> p, next |-> p + 6 + plen, pkt |->
                 NoHdr(id, plen, IF id = PADDING THEN << >> ELSE Slice(B, p + 6, p + 6 + plen))]
        ELSE
        LET r == WithHeader(B, p, id, plen)
        IN IF cut /\ r.st = "pkt" /\ plen = 0 THEN [st |-> "err", errs |-> {endE}]
           ELSE r

\* Comparison of a reported packet with the encoded one.  The library keeps
\* time stamps in 32 bits: KF marks the loss of their 33rd bit.
StampSame(o, e) == IF o = e THEN "ok"
                   ELSE IF e[1] >= 4 /\ o = <<e[1] % 4, e[2], e[3]>> THEN "kf"
                   ELSE "bad"
PesSame(o, e) ==
  LET a == StampSame(o.pts, e.pts)
      b == StampSame(o.dts, e.dts)
      z == <<0, 0, 0>>
  IN IF [o EXCEPT !.pts = z, !.dts = z] # [e EXCEPT !.pts = z, !.dts = z] \/ a = "bad" \/ b = "bad"
     THEN "bad" ELSE IF a = "kf" \/ b = "kf" THEN "kf" ELSE "ok"

\* All packets from p on: [pkts, errs, gray]
RECURSIVE PesFrom(_, _, _, _)
PesFrom(B, p, endE, acc) ==
  LET r == NextPes(B, p, endE)
  IN CASE r.st = "pkt"  -> PesFrom(B, r.next, endE, Append(acc, r.pkt))
       [] r.st = "err"  -> [pkts |-> acc, errs |-> r.errs, gray |-> FALSE]
       [] r.st = "gray" -> [pkts |-> acc, errs |-> {"*"}, gray |-> TRUE]
PesAll(B, endE) == PesFrom(B, 0, endE, << >>)

RECURSIVE PesPay(_, _)
PesPay(ps, i) == IF i > Len(ps) THEN << >> ELSE ps[i].pay \o PesPay(ps, i + 1)

\* The elementary stream of a PES stream made of payload units: a packet never
\* extends beyond its unit.  Each unit is a byte string.
RECURSIVE EsOfUnits(_, _, _)
EsOfUnits(us, i, acc) ==
  IF i > Len(us) THEN [total |-> acc, bad |-> FALSE, last |-> FALSE]
  ELSE LET a == PesAll(us[i], "eof")
       IN IF a.gray \/ a.errs # {"eof"} THEN [total |-> acc \o PesPay(a.pkts, 1), bad |-> TRUE, last |-> ~a.gray /\ i = Len(us)]
          ELSE EsOfUnits(us, i + 1, acc \o PesPay(a.pkts, 1))
=============================================================================
