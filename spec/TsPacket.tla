------------------------------ MODULE TsPacket ------------------------------
(* The transport stream packet layer: the grammar of a 188-byte packet       *)
(* (ISO/IEC 13818-1, 2.4.3.2 .. 2.4.3.5), resynchronisation, and the outcome *)
(* of one "read the next packet" call at a byte position.                    *)
(*                                                                           *)
(* Outcomes are records                                                      *)
(*   [st |-> "pkt",  pkt, from, next]   a good packet at byte offset `from`  *)
(*   [st |-> "gray", from]              malformed; any result is permitted   *)
(*   [st |-> "err",  errs]              one of the errors in errs            *)
(* An error set containing "*" permits every non-nil error, one containing    *)
(* "!eof" every non-nil error but io.EOF.                                    *)
EXTENDS Bits, FiniteSets

SYNC    == 71
PKT     == 188

NoExt == [has |-> FALSE, ltwf |-> FALSE, prf |-> FALSE, ssf |-> FALSE, ltwv |-> FALSE,
          ltwo |-> 0, pr |-> 0, st |-> 0, dts |-> <<0, 0, 0>>]
NoAf  == [has |-> FALSE, disc |-> FALSE, rai |-> FALSE, espi |-> FALSE, pcrf |-> FALSE,
          opcrf |-> FALSE, spf |-> FALSE, tpdf |-> FALSE, extf |-> FALSE,
          pcr |-> <<0, 0, 0>>, opcr |-> <<0, 0, 0>>, sc |-> 0, tpd |-> FALSE, ext |-> NoExt]

\* adaptation field extension whose length byte is at offset o
ExtNeed(B, o) ==
  LET f == ByteAt(B, o + 1)
  IN  1 + (IF f >= 128 THEN 2 ELSE 0) + (IF (f \div 64) % 2 = 1 THEN 3 ELSE 0)
        + (IF (f \div 32) % 2 = 1 THEN 5 ELSE 0)

ParseExt(B, o) ==
  LET p0 == (o + 1) * 8
      ltw == Flag(B, p0)
      pr  == Flag(B, p0 + 1)
      ss  == Flag(B, p0 + 2)
      p1  == p0 + 8
      p2  == IF ltw THEN p1 + 16 ELSE p1
      p3  == IF pr THEN p2 + 24 ELSE p2
  IN  [has  |-> TRUE, ltwf |-> ltw, prf |-> pr, ssf |-> ss,
       ltwv |-> ltw /\ Flag(B, p1),
       ltwo |-> IF ltw THEN Bits(B, p1 + 1, 15) ELSE 0,
       pr   |-> IF pr THEN Bits(B, p2 + 2, 22) ELSE 0,
       st   |-> IF ss THEN Bits(B, p3, 4) ELSE 0,
       dts  |-> IF ss THEN <<Bits(B, p3 + 4, 3), Bits(B, p3 + 8, 15), Bits(B, p3 + 24, 15)>>
                ELSE <<0, 0, 0>>]

\* the adaptation field whose length byte is at offset o (length >= 0 already
\* known to fit the packet): [ok, af]
ParseAf(B, o) ==
  LET len == ByteAt(B, o)
  IN  IF len = 0 THEN [ok |-> TRUE, af |-> [NoAf EXCEPT !.has = TRUE]]
      ELSE
      LET p     == (o + 1) * 8
          pcrf  == Flag(B, p + 3)
          opcrf == Flag(B, p + 4)
          spf   == Flag(B, p + 5)
          tpdf  == Flag(B, p + 6)
          extf  == Flag(B, p + 7)
          o1    == o + 2
          o2    == IF pcrf THEN o1 + 6 ELSE o1
          o3    == IF opcrf THEN o2 + 6 ELSE o2
          o4    == IF spf THEN o3 + 1 ELSE o3
          end   == o + 1 + len          \* offset just after the field
          fits4 == o4 <= end
          tpdOk == ~tpdf \/ (o4 < end /\ o4 + 1 + ByteAt(B, o4) <= end)
          o5    == IF tpdf THEN o4 + 1 + ByteAt(B, o4) ELSE o4
          extOk == ~extf \/ (/\ o5 + 1 < end
                             /\ o5 + 1 + ByteAt(B, o5) <= end
                             /\ ByteAt(B, o5) >= ExtNeed(B, o5))
          Clock(off) == Times300Plus(Limbs33(B, off * 8), Bits(B, off * 8 + 39, 9))
      IN  IF ~(fits4 /\ tpdOk /\ extOk) THEN [ok |-> FALSE]
          ELSE [ok |-> TRUE, af |->
                [has |-> TRUE, disc |-> Flag(B, p), rai |-> Flag(B, p + 1),
                 espi |-> Flag(B, p + 2), pcrf |-> pcrf, opcrf |-> opcrf, spf |-> spf,
                 tpdf |-> tpdf, extf |-> extf,
                 pcr  |-> IF pcrf THEN Clock(o1) ELSE <<0, 0, 0>>,
                 opcr |-> IF opcrf THEN Clock(o2) ELSE <<0, 0, 0>>,
                 sc   |-> IF spf THEN ByteAt(B, o3) ELSE 0,
                 tpd  |-> tpdf,
                 ext  |-> IF extf THEN ParseExt(B, o5) ELSE NoExt]]

\* the packet at offset q, where B[q] is a sync byte and 188 bytes are there
ParsePacket(B, q) ==
  LET p   == q * 8
      afc == Bits(B, p + 26, 2)
      len == ByteAt(B, q + 4)
      a   == IF afc \in {2, 3} /\ len <= 183 THEN ParseAf(B, q + 4) ELSE [ok |-> TRUE, af |-> NoAf]
      ok  == /\ afc # 0
             /\ afc = 2 => len = 183
             /\ afc = 3 => len <= 182
             /\ a.ok
  IN  IF ~ok THEN [st |-> "gray", from |-> q]
      ELSE [st |-> "pkt", from |-> q, next |-> q + PKT, pkt |->
            [tei  |-> Flag(B, p + 8), pusi |-> Flag(B, p + 9), prio |-> Flag(B, p + 10),
             pid  |-> Bits(B, p + 11, 13), tsc |-> Bits(B, p + 24, 2), afc |-> afc,
             cc   |-> Bits(B, p + 28, 4), af |-> a.af,
             pay  |-> CASE afc = 1 -> Slice(B, q + 4, q + PKT)
                        [] afc = 2 -> << >>
                        [] afc = 3 -> Slice(B, q + 5 + len, q + PKT)]]

\* offset of the first sync byte in [p, min(p+188, Len)), or -1
SyncFrom(B, p) ==
  LET hi == IF p + PKT < Len(B) THEN p + PKT ELSE Len(B)
      RECURSIVE Scan(_)
      Scan(i) == IF i >= hi THEN -1 ELSE IF B[i + 1] = SYNC THEN i ELSE Scan(i + 1)
  IN  Scan(p)

\* The outcome of reading the next packet at byte offset p; the source ends
\* after B with the error endE ("eof" for a regular end, else its failure).
NextPacket(B, p, endE) ==
  IF p >= Len(B) THEN [st |-> "err", errs |-> {endE}]
  ELSE
  LET q == SyncFrom(B, p)
  IN  IF q = -1 THEN
         IF p + PKT <= Len(B) THEN [st |-> "err", errs |-> {"nosync"}]
         ELSE [st |-> "err", errs |-> IF endE = "eof" THEN {"*"} ELSE {endE}]
      ELSE IF q + PKT > Len(B) THEN
         \* truncated: unless its adaptation field is malformed already
         LET have == Len(B) - q
             afc  == IF have >= 4 THEN Bits(B, q * 8 + 26, 2) ELSE 1
             soft == have >= 5 /\ afc \in {2, 3}
         IN  IF \/ afc = 0
                \/ afc = 2 /\ have >= 5 /\ ByteAt(B, q + 4) # 183
             THEN [st |-> "gray", from |-> q]
             ELSE [st |-> "err", errs |->
                    {IF endE = "eof" THEN "ueof" ELSE endE} \cup (IF soft THEN {"af"} ELSE {})]
      ELSE ParsePacket(B, q)

ErrOk(e, S) == e # "" /\ ("*" \in S \/ e \in S \/ ("!eof" \in S /\ e # "eof"))

\* All the packets of B from offset p on: [pkts, errs, gray] - the good packets
\* up to the first outcome that is not one, and the errors permitted there.
RECURSIVE PacketsFrom(_, _, _, _)
PacketsFrom(B, p, endE, acc) ==
  LET r == NextPacket(B, p, endE)
  IN  CASE r.st = "pkt"  -> PacketsFrom(B, r.next, endE, Append(acc, r.pkt))
        [] r.st = "err"  -> [pkts |-> acc, errs |-> r.errs, gray |-> FALSE]
        [] r.st = "gray" -> [pkts |-> acc, errs |-> {"*"}, gray |-> TRUE]
Packets(B, endE) == PacketsFrom(B, 0, endE, << >>)

\* Packet predicates are terms: t \in any/none/pid/pusi/prio/pay/not/and/or/cc
RECURSIVE Holds(_, _)
Holds(f, k) ==
  CASE f.t = "any"  -> TRUE
    [] f.t = "none" -> FALSE
    [] f.t = "pid"  -> k.pid = f.v
    [] f.t = "pusi" -> k.pusi
    [] f.t = "prio" -> k.prio
    [] f.t = "cc"   -> k.cc = f.v
    [] f.t = "not"  -> ~Holds(f.a, k)
    [] f.t = "and"  -> Holds(f.a, k) /\ Holds(f.b, k)
    [] f.t = "or"   -> Holds(f.a, k) \/ Holds(f.b, k)
=============================================================================
