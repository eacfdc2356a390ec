--------------------------------- MODULE Ps ---------------------------------
(* The program stream layer (ISO/IEC 13818-1, 2.5.3): pack and system        *)
(* headers, and the sequence of packs and PES packets up to the program end. *)
EXTENDS Pes

StartCode(B, p) == ByteAt(B, p + 3)     \* if the prefix is there
HasPrefix(B, p) == p + 4 <= Len(B) /\ Bits(B, p * 8, 24) = 1
IsCode(B, p, c) == HasPrefix(B, p) /\ StartCode(B, p) = c
PACK == 186   ENDCODE == 185   SYSTEM == 187

NoSys == [has |-> FALSE, len |-> 0, rate |-> 0, audio |-> 0, fixed |-> FALSE, csps |-> FALSE,
          alock |-> FALSE, vlock |-> FALSE, video |-> 0, prr |-> FALSE, streams |-> << >>]

\* the list of streams at offset o: [ok, cut, next, ss]
RECURSIVE Streams(_, _, _)
Streams(B, o, acc) ==
  IF o >= Len(B) THEN [ok |-> FALSE, cut |-> TRUE]
  ELSE IF ByteAt(B, o) < 128 THEN [ok |-> TRUE, next |-> o, ss |-> acc]
  ELSE IF o + 3 > Len(B) THEN [ok |-> FALSE, cut |-> FALSE]
  ELSE IF Bits(B, o * 8 + 8, 2) # 3 THEN [ok |-> FALSE, cut |-> FALSE]
  ELSE Streams(B, o + 3, Append(acc, [id |-> ByteAt(B, o), scale |-> Flag(B, o * 8 + 10),
                                      size |-> Bits(B, o * 8 + 11, 13)]))

\* The system header at offset s.  "gray": its length disagrees with its
\* contents, or the data ends right after it (nothing tells where it ends).
SysAt(B, s) ==
  IF s + 12 > Len(B) THEN [st |-> "err"]
  ELSE
  LET b == s * 8
      hl == Bits(B, b + 32, 16)
  IN IF ~(Flag(B, b + 48) /\ Flag(B, b + 71) /\ Flag(B, b + 82)) THEN [st |-> "err"]
     ELSE
     LET q == Streams(B, s + 12, << >>)
     IN IF ~q.ok THEN (IF q.cut THEN [st |-> "gray"] ELSE [st |-> "err"])
        ELSE IF hl # 6 + 3 * Len(q.ss) THEN [st |-> "gray"]
        ELSE [st |-> "ok", next |-> q.next, sys |->
          [has |-> TRUE, len |-> hl, rate |-> Bits(B, b + 49, 22), audio |-> Bits(B, b + 72, 6),
           fixed |-> Flag(B, b + 78), csps |-> Flag(B, b + 79), alock |-> Flag(B, b + 80),
           vlock |-> Flag(B, b + 81), video |-> Bits(B, b + 83, 5), prr |-> Flag(B, b + 88),
           streams |-> q.ss]]

\* The outcome of parsing a pack header at offset p
NextPack(B, p, endE) ==
  LET N == Len(B)
      cut == IF endE = "eof" THEN "*" ELSE endE
      err == [st |-> "err", errs |-> {"*"}]
      b   == p * 8
  IN IF p >= N THEN [st |-> "err", errs |-> {endE}]
     ELSE IF p + 4 > N THEN [st |-> "err", errs |-> {cut}]
     ELSE IF ~IsCode(B, p, PACK) THEN [st |-> "err", errs |-> {"psstart"}]
     ELSE IF p + 14 > N THEN err
     ELSE IF ~(/\ Bits(B, b + 32, 2) = 1 /\ Flag(B, b + 37) /\ Flag(B, b + 53) /\ Flag(B, b + 69)
               /\ Flag(B, b + 79) /\ Flag(B, b + 102) /\ Flag(B, b + 103)) THEN err
     ELSE
     LET s == p + 14 + Bits(B, b + 109, 3)
         hdr(sys) == [scr |-> <<Bits(B, b + 34, 3), Bits(B, b + 38, 15), Bits(B, b + 54, 15)>>,
                      scre |-> Bits(B, b + 70, 9), mux |-> Bits(B, b + 80, 22), sys |-> sys]
     IN IF s > N THEN err
        ELSE IF s + 4 > N THEN [st |-> "gray", from |-> p]   \* is there a system header?
        ELSE IF ~IsCode(B, s, SYSTEM) THEN [st |-> "pkt", from |-> p, next |-> s, pkt |-> hdr(NoSys)]
        ELSE LET y == SysAt(B, s)
             IN CASE y.st = "err"  -> err
                  [] y.st = "gray" -> [st |-> "gray", from |-> p]
                  [] y.st = "ok"   -> [st |-> "pkt", from |-> p, next |-> y.next, pkt |-> hdr(y.sys)]

PackSame(o, e) ==
  LET a == StampSame(o.scr, e.scr)
  IN IF [o EXCEPT !.scr = <<0, 0, 0>>] # [e EXCEPT !.scr = <<0, 0, 0>>] THEN "bad" ELSE a

(* A program stream from p on, as the list of its packs                      *)
(*   [h |-> pack header, pk |-> packets]                                     *)
(* and how it ends: "end" (program end code), "err", "gray" (malformed in a  *)
(* way for which nothing is required from here on).                          *)
RECURSIVE ProgramFrom(_, _, _, _)
ProgramFrom(B, p, endE, acc) ==
  IF IsCode(B, p, ENDCODE) /\ acc # << >> THEN [packs |-> acc, fin |-> "end"]
  ELSE IF p + 4 > Len(B) THEN [packs |-> acc, fin |-> "err"]
  ELSE IF IsCode(B, p, PACK) THEN
    LET r == NextPack(B, p, endE)
    IN CASE r.st = "pkt"  -> ProgramFrom(B, r.next, endE, Append(acc, [h |-> r.pkt, pk |-> << >>]))
         [] r.st = "err"  -> [packs |-> acc, fin |-> "err"]
         [] r.st = "gray" -> [packs |-> acc, fin |-> "gray"]
  ELSE IF acc = << >> THEN [packs |-> acc, fin |-> "gray"]
  ELSE
    LET r == NextPes(B, p, endE)
    IN CASE r.st = "pkt"  -> ProgramFrom(B, r.next, endE, [acc EXCEPT ![Len(acc)].pk = Append(@, r.pkt)])
         [] r.st = "err"  -> [packs |-> acc, fin |-> "err"]
         [] r.st = "gray" -> [packs |-> acc, fin |-> "gray"]
Program(B, endE) == ProgramFrom(B, 0, endE, << >>)

RECURSIVE ProgPay(_, _)
ProgPay(packs, i) == IF i > Len(packs) THEN << >> ELSE PesPay(packs[i].pk, 1) \o ProgPay(packs, i + 1)
=============================================================================
