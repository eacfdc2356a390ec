------------------------------ MODULE VHeaders ------------------------------
(* The header level calls of the video package: start codes and extension    *)
(* identifiers, alignment, group of pictures and sequence headers.  rest is  *)
(* what is left of the stream after a call, bit by bit.                      *)
EXTENDS VMacroblock

\* the bits of B from position p on
BitsFrom(B, p) == [i \in 1..(8 * Len(B) - p) |-> Bit(B, p + i - 1)]

\* do the len bits from p on equal the code << high 16 bits, low 16 bits >>
CodeAt(B, p, code) == Peek(B, p, 16) = code[1] /\ Peek(B, p + 16, 16) = code[2]

EndOf(end) == IF end \in {"fault", "fault1", "fault2"} THEN {"fault"} ELSE {"eof", "ueof"}

---------------------------------------------------------------------------
(* Check and Assert, at a bit position: start codes of video ("sc") and of   *)
(* program streams ("pc"), extension identifiers ("id")                      *)
MatchOne(i, o) ==
  LET len   == IF i.what = "id" THEN 4 ELSE 32
      there == i.skip + len <= 8 * Len(i.b)
      same  == IF i.what = "id" THEN Peek(i.b, i.skip, 4) = i.code[2] ELSE CodeAt(i.b, i.skip, i.code)
      here  == BitsFrom(i.b, i.skip)
      wrong == CASE i.what = "id" -> "vext" [] i.what = "sc" -> "vstart" [] i.what = "pc" -> "psstart"
  IN IF i.op = "check" THEN
       (IF ~there THEN (IF o.e \in EndOf(i.end) /\ ~o.v THEN "ok" ELSE "a match beyond the end")
        ELSE IF o.e # "" THEN "a check fails with " \o o.e
        ELSE IF o.v # same THEN "a check is " \o (IF o.v THEN "true" ELSE "false")
        ELSE IF o.rest # here THEN "a check moves the stream" ELSE "ok")
     ELSE IF ~there THEN (IF o.e \notin EndOf(i.end) THEN "not the error of the source: " \o o.e
                          ELSE IF o.rest # here THEN "a failing assertion moves the stream" ELSE "ok")
     ELSE IF same THEN (IF o.e # "" THEN "an assertion of what is there fails"
                        ELSE IF o.rest # BitsFrom(i.b, i.skip + len) THEN "an assertion does not consume the code" ELSE "ok")
     ELSE IF o.e # wrong THEN "a failing assertion reports " \o o.e
     ELSE IF o.rest # here THEN "a failing assertion moves the stream" ELSE "ok"

RECURSIVE FirstBad(_, _, _, _)
FirstBad(F(_, _), ins, outs, k) ==
  IF k > Len(ins) THEN "ok"
  ELSE LET v == F(ins[k], outs[k]) IN IF v # "ok" THEN v ELSE FirstBad(F, ins, outs, k + 1)

Matches(c) == IF Len(c.out.res) # Len(c.in.ops) THEN "GENERR" ELSE FirstBad(MatchOne, c.in.ops, c.out.res, 1)

\* slice start codes are 00 00 01 01 to 00 00 01 AF
IsSlices(c) ==
  IF \A k \in 1..Len(c.in.codes) :
       c.out.v[k] = (c.in.codes[k][1] = 0 /\ c.in.codes[k][2] \in 257..(256 + 175))
  THEN "ok" ELSE "a slice start code is not told from another one"

---------------------------------------------------------------------------
(* AlignTo, once or several times with bits read in between                  *)
RECURSIVE FirstCode(_, _, _)
FirstCode(B, o, code) ==
  IF o + 4 > Len(B) THEN -1
  ELSE IF CodeAt(B, 8 * o, code) THEN o
  ELSE IF o + 68 < Len(B) /\ \A i \in 1..64 : B[o + i] # code[1] \div 256 \/ B[o + i + 1] # code[1] % 256
                                                \/ B[o + i + 2] # code[2] \div 256 \/ B[o + i + 3] # code[2] % 256
       THEN FirstCode(B, o + 64, code)   \* a long run
  ELSE FirstCode(B, o + 1, code)

RECURSIVE Aligned(_, _, _, _)
Aligned(c, k, p, es) ==
  IF k > Len(c.in.steps) THEN
     (IF c.out.rest = BitsFrom(c.in.b, p) THEN "ok" ELSE "not left at the start code")
  ELSE LET s == c.in.steps[k]
           q == p + s.skip
           o == FirstCode(c.in.b, (q + 7) \div 8, s.code)
       IN IF q > 8 * Len(c.in.b) THEN "GENERR skips too much"
          ELSE IF k > Len(es) THEN "the calls stop early"
          ELSE IF o = -1 THEN (IF es[k] \in EndOf(c.in.end) THEN "ok" ELSE "not the error of the source: " \o es[k])
          ELSE IF es[k] # "" THEN "a start code is passed over: " \o es[k]
          ELSE Aligned(c, k + 1, 8 * o, es)

---------------------------------------------------------------------------
(* Group of pictures headers                                                 *)
Two(x) == IF x < 10 THEN "0" \o ToString(x) ELSE ToString(x)
TimeText(df, h, m, s, x) == ToString(h) \o ":" \o Two(m) \o ":" \o Two(s) \o (IF df THEN ";" ELSE ":") \o Two(x)

\* the stream behind a header: e error, p position
GroupOne(i, o) ==
  LET B  == i.b
      p  == i.skip
      n  == NextStart(B, p + 59)
      t  == p + 32
      df == Bit(B, t) = 1
      h  == Peek(B, t + 1, 5)
      mi == Peek(B, t + 6, 6)
      s  == Peek(B, t + 13, 6)
      x  == Peek(B, t + 19, 6)
      full == p + 59 <= 8 * Len(B)
      \* a prefix without the last byte of its start code is enough
      short == n.e = "end" /\ n.p \div 8 + 3 = Len(B) /\ B[Len(B)] = 1 /\ B[Len(B) - 1] = 0 /\ B[Len(B) - 2] = 0
  IN IF p + 32 > 8 * Len(B) THEN (IF o.e \in EndOf(i.end) THEN "ok" ELSE "not the error of the source: " \o o.e)
     ELSE IF ~CodeAt(B, p, << 0, 440 >>) THEN (IF o.e = "vstart" THEN "ok" ELSE "no unexpected start code but " \o o.e)
     ELSE IF ~full THEN (IF o.e \in EndOf(i.end) THEN "ok" ELSE "not the error of the source: " \o o.e)
     ELSE IF Bit(B, t + 12) = 0 THEN "ok"                      \* a marker bit is missing
     ELSE IF short THEN "ok"
     ELSE IF n.e = "end" THEN (IF o.e \in EndOf(i.end) THEN "ok" ELSE "not the error of the source: " \o o.e)
     ELSE IF n.e = "bad" THEN (IF o.e = "nonzero" THEN "ok" ELSE "stuffing that is not zero is not reported but " \o o.e)
     ELSE IF o.e # "" THEN "a header is not read: " \o o.e
     ELSE IF o.closed # (Bit(B, p + 57) = 1) THEN "closed_gop"
     ELSE IF o.broken # (Bit(B, p + 58) = 1) THEN "broken_link"
     ELSE IF o.tc # << IF df THEN 1 ELSE 0, h, mi, s, x >> THEN "the time code"
     ELSE IF o.text # TimeText(df, h, mi, s, x) THEN "the text " \o o.text
     ELSE IF o.rest # BitsFrom(B, n.p) THEN "not left at the next start code"
     ELSE "ok"
Groups(c) == FirstBad(GroupOne, c.in.hdrs, c.out.res, 1)

TimeCodes(c) ==
  IF \A k \in 1..Len(c.in.tcs) :
       LET t == c.in.tcs[k] IN c.out.text[k] = TimeText(t[1] = 1, t[2], t[3], t[4], t[5])
  THEN "ok" ELSE "the text of a time code"

---------------------------------------------------------------------------
(* Sequence headers                                                          *)
SeqHdrOne(i, o) ==
  LET B   == i.b
      p   == i.skip
      pn  == p + 95 + 512 * Bit(B, p + 94)
      pe  == pn + 1 + 512 * Bit(B, pn)
      n   == NextStart(B, pe)
      short == n.e = "end" /\ n.p \div 8 + 3 = Len(B) /\ B[Len(B)] = 1 /\ B[Len(B) - 1] = 0 /\ B[Len(B) - 2] = 0
  IN IF p + 32 > 8 * Len(B) THEN (IF o.e \in EndOf(i.end) THEN "ok" ELSE "not the error of the source: " \o o.e)
     ELSE IF ~CodeAt(B, p, << 0, 435 >>) THEN (IF o.e = "vstart" THEN "ok" ELSE "no unexpected start code but " \o o.e)
     ELSE IF p + 83 <= 8 * Len(B) /\ Bit(B, p + 82) = 0 THEN (IF o.e # "" THEN "ok" ELSE "a missing marker bit is accepted")
     ELSE IF pe > 8 * Len(B) THEN (IF o.e \in EndOf(i.end) THEN "ok" ELSE "not the error of the source: " \o o.e)
     ELSE IF short THEN "ok"
     ELSE IF n.e = "end" THEN (IF o.e \in EndOf(i.end) THEN "ok" ELSE "not the error of the source: " \o o.e)
     ELSE IF n.e = "bad" THEN (IF o.e = "nonzero" THEN "ok" ELSE "stuffing that is not zero is not reported but " \o o.e)
     ELSE IF o.e # "" THEN "a header is not read: " \o o.e
     ELSE IF o.rest # BitsFrom(B, n.p) THEN "not left at the next start code"
     ELSE "ok"
SeqHdrs(c) == FirstBad(SeqHdrOne, c.in.hdrs, c.out.res, 1)

---------------------------------------------------------------------------
(* Arbitrary bytes (R02): every call returns a frame of a coded size or an   *)
(* error, and an error comes within a bounded number of calls.               *)
\* the frame sizes that sequence headers and extensions anywhere in the bytes can code for
CodedSizes(B) ==
  LET S(code) == {o \in 0..(Len(B) - 8) : B[o + 1] = 0 /\ B[o + 2] = 0 /\ B[o + 3] = 1 /\ B[o + 4] = code}
      H == {<< Peek(B, 8 * o + 32, 12), Peek(B, 8 * o + 44, 12) >> : o \in S(179)}
      X == {<< Peek(B, 8 * o + 47, 2), Peek(B, 8 * o + 49, 2) >> : o \in S(181)}
  IN {<< z[1] + 4096 * x[1], z[2] + 4096 * x[2] >> : z \in H, x \in X}
FuzzRun(c) ==
  LET calls == c.out.calls
      k     == Len(calls)
      up(x, a) == a * ((x + a - 1) \div a)
  IN IF k = 0 \/ (k >= c.in.max /\ calls[k].e = "") THEN "no error within the bound on calls"
     ELSE IF \E j \in 1..k : (calls[j].e = "") # calls[j].has THEN "neither a frame nor an error, or both"
     ELSE IF \E j \in 1..k : calls[j].has /\
               LET r == calls[j].r
               IN ~\E z \in CodedSizes(c.in.b) :
                     r[1] = 0 /\ r[2] = 0 /\ r[3] = up(z[1], 16) /\ r[4] \in {up(z[2], 16), up(z[2], 32)}
     THEN "a frame is not of the coded size"
     ELSE IF \E j \in 1..k : calls[j].has /\ ~calls[j].whole THEN "a frame without all of its samples"
     ELSE "ok"

Other(c) ==
  CASE c.k = "vmatch"  -> Matches(c)
    [] c.k = "vslice"  -> IsSlices(c)
    [] c.k = "valign"  -> Aligned(c, 1, 0, c.out.es)
    [] c.k = "vgop"    -> Groups(c)
    [] c.k = "vtime"   -> TimeCodes(c)
    [] c.k = "vseqhdr" -> SeqHdrs(c)
    [] c.k = "vfuzz"   -> FuzzRun(c)
=============================================================================
