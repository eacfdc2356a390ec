------------------------------ MODULE VDecoder ------------------------------
(* The video decoder as a state machine over the bytes of a stream: each     *)
(* step takes one syntactic unit (sequence header with its extensions, group *)
(* of pictures header, picture, sequence end code) and emits what becomes    *)
(* due for display.                                                          *)
(*                                                                           *)
(* Frames are displayed by the reordering rule of 6.1.1.11: a B picture at   *)
(* once, an I or P picture when the next I or P picture, or the end of the   *)
(* sequence, arrives.  Predictions refer to the last two I or P pictures in  *)
(* coded order.  Neither looks at temporal references.                       *)
EXTENDS VMacroblock

\* d: p position, ph phase, seq sequence parameters, W matrices, refs the last
\* reference frames (older first), held the one not displayed yet, sizes the
\* coded sizes so far, in order, geo the Geometry once there is a picture
VInit == [p |-> 0, ph |-> "start", seq |-> [w |-> 0], W |-> << DefaultIntra, DefaultNonIntra >>,
          geo |-> << >>, refs |-> << >>, held |-> << >>, sizes |-> << >>, e |-> ""]

\* what is emitted: frames [fr, w, h, n], w and h in macroblocks, n the number of the header
\* that gave the size, and the end of the sequence
Eos == [fr |-> << >>, w |-> 0, h |-> 0, n |-> 0]

Stop(d, e) == [d |-> [d EXCEPT !.ph = "stop", !.e = e], ev |-> << >>]

---------------------------------------------------------------------------
(* Extensions and user data                                                  *)
RECURSIVE ToStart(_, _)
\* the next start code prefix after any bytes
ToStart(B, o) ==
  IF o + 2 >= Len(B) THEN [e |-> "end", p |-> 8 * o]
  ELSE IF B[o + 1] = 0 /\ B[o + 2] = 0 /\ B[o + 3] = 1
       THEN (IF o + 3 >= Len(B) THEN [e |-> "end", p |-> 8 * o] ELSE [e |-> "", p |-> 8 * o])
  ELSE IF o + 66 < Len(B) /\ \A i \in 1..64 : B[o + i] # 0 \/ B[o + i + 1] # 0 \/ B[o + i + 2] # 1
       THEN ToStart(B, o + 64)                                                            \* a long run
  ELSE ToStart(B, o + 1)

\* the matrices after the flags and matrices at p
QuantMatrices(B, p, W) ==
  LET p1 == p + 1 + 512 * Bit(B, p)
      p2 == p1 + 1 + 512 * Bit(B, p1)
      p3 == p2 + 1 + 512 * Bit(B, p2)
      p4 == p3 + 1 + 512 * Bit(B, p3)
  IN [p |-> p4, W |-> << IF Bit(B, p) = 1 THEN LoadedMatrix(B, p + 1) ELSE W[1],
                         IF Bit(B, p1) = 1 THEN LoadedMatrix(B, p1 + 1) ELSE W[2] >>]

RECURSIVE Extras(_, _, _, _)
\* the extensions and user data at p; place 0: of a sequence, 1: of a group, 2: of a picture
Extras(B, p, W, place) ==
  LET c  == StartCodeAt(B, p)
      id == Peek(B, p + 32, 4)
      u  == ToStart(B, p \div 8 + 4)
  IN IF c = 178 THEN (IF u.e # "" THEN [e |-> u.e] ELSE Extras(B, u.p, W, place))
     ELSE IF c # 181 \/ place = 1 THEN [e |-> "", p |-> p, W |-> W]
     ELSE IF place = 0 /\ id = 2 THEN
        LET q == p + 40 + IF Bit(B, p + 39) = 1 THEN 24 ELSE 0
            n == NextStart(B, q + 29)
        IN IF Bit(B, q + 14) = 0 THEN [e |-> "bad"] ELSE IF n.e # "" THEN [e |-> n.e] ELSE Extras(B, n.p, W, place)
     ELSE IF place = 2 /\ id = 3 THEN
        LET m == QuantMatrices(B, p + 36, W)
            n == NextStart(B, m.p)
        IN IF n.e # "" THEN [e |-> n.e] ELSE Extras(B, n.p, m.W, place)
     ELSE IF place = 2 /\ id \in {4, 7} THEN
        (IF u.e # "" THEN [e |-> u.e] ELSE Extras(B, u.p, W, place))
     ELSE IF (place = 0 /\ id = 5) \/ (place = 2 /\ id = 9) THEN [e |-> "bad"]    \* scalability is not supported
     ELSE [e |-> "gray"]

---------------------------------------------------------------------------
(* Sequence headers                                                          *)
SequenceUnit(B, d) ==
  LET p   == d.p
      w   == Peek(B, p + 32, 12)
      h   == Peek(B, p + 44, 12)
      li  == Bit(B, p + 94) = 1
      pn  == p + 95 + IF li THEN 512 ELSE 0
      ln  == Bit(B, pn) = 1
      n1  == NextStart(B, pn + 1 + IF ln THEN 512 ELSE 0)
      W   == << IF li THEN LoadedMatrix(B, p + 95) ELSE DefaultIntra,
                IF ln THEN LoadedMatrix(B, pn + 1) ELSE DefaultNonIntra >>
      x   == n1.p
      sw  == w + 4096 * Peek(B, x + 47, 2)
      sh  == h + 4096 * Peek(B, x + 49, 2)
      prog == Bit(B, x + 44)
      n2  == NextStart(B, x + 80)
      ex  == Extras(B, n2.p, W, 0)
      mw  == (sw + 15) \div 16
      mh  == IF prog = 1 THEN (sh + 15) \div 16 ELSE 2 * ((sh + 31) \div 32)
      seq == [w |-> sw, h |-> sh, mw |-> mw, mh |-> mh, chroma |-> Peek(B, x + 45, 2)]
      d0  == [d EXCEPT !.sizes = Append(@, << w, h >>)]
      d1  == [d EXCEPT !.sizes = Append(@, << sw, sh >>)]
      resized == d.seq.w # 0 /\ (seq.mw # d.seq.mw \/ seq.mh # d.seq.mh)
  IN IF Bit(B, p + 82) = 0 THEN Stop(d, "bad")
     ELSE IF n1.e # "" THEN Stop(d, n1.e)
     ELSE IF StartCodeAt(B, x) # 181 THEN Stop(d0, IF d.ph = "start" THEN "mpeg1" ELSE "bad")
     ELSE IF Peek(B, x + 32, 4) # 1 \/ Bit(B, x + 63) = 0 THEN Stop(d0, "bad")
     ELSE IF n2.e # "" THEN Stop(d1, n2.e)
     ELSE IF ex.e # "" THEN Stop(d1, ex.e)
     ELSE [d |-> [d1 EXCEPT !.p = ex.p, !.ph = "picture", !.seq = seq, !.W = ex.W,
                            !.refs = IF resized THEN << >> ELSE @,
                            !.geo = IF resized THEN << >> ELSE @],
           ev |-> << >>]

GroupUnit(B, d) ==
  LET n  == NextStart(B, d.p + 59)
      ex == Extras(B, n.p, d.W, 1)
  IN IF n.e # "" THEN Stop(d, n.e)
     ELSE IF ex.e # "" THEN Stop(d, ex.e)
     ELSE [d |-> [d EXCEPT !.p = ex.p, !.ph = "picture"], ev |-> << >>]

---------------------------------------------------------------------------
(* Pictures                                                                  *)
TypeName(t) == CASE t = 1 -> "I" [] t = 2 -> "P" [] t = 3 -> "B" [] OTHER -> "?"

PictureUnit(B, d) ==
  LET p    == d.p
      tn   == TypeName(Peek(B, p + 42, 3))
      px   == p + 61 + (IF tn = "P" THEN 4 ELSE IF tn = "B" THEN 8 ELSE 0)
      n1   == NextStart(B, ExtraBytes(B, px))
      x    == n1.p
      comp == Bit(B, x + 65)
      n2   == NextStart(B, x + 66 + 20 * comp)
      pc   == [f |-> << << Peek(B, x + 36, 4), Peek(B, x + 40, 4) >>, << Peek(B, x + 44, 4), Peek(B, x + 48, 4) >> >>,
               prec |-> Peek(B, x + 52, 2), struct |-> Peek(B, x + 54, 2), fpfd |-> Bit(B, x + 57),
               conc |-> Bit(B, x + 58), qst |-> Bit(B, x + 59), ivf |-> Bit(B, x + 60), alt |-> Bit(B, x + 61)]
      ex   == Extras(B, n2.p, d.W, 2)
      nr   == Len(d.refs)
      g    == IF d.geo = << >> THEN Geometry(d.seq.mw, d.seq.mh) ELSE d.geo[1]
      cx   == [B |-> B, type |-> tn, pc |-> pc, W |-> ex.W, g |-> g, tall |-> d.seq.h > 2800,
               ref |-> IF tn = "B" THEN << IF nr = 2 THEN << d.refs[1] >> ELSE << >>,
                                           IF nr > 0 THEN << d.refs[nr] >> ELSE << >> >>
                       ELSE << IF nr > 0 THEN << d.refs[nr] >> ELSE << >>, << >> >>]
      r    == SlicesAt(cx, ex.p, BlankPicture(d.seq.mw * d.seq.mh))
      fr   == FrameOf(r.fr, g)
      f    == [fr |-> fr, w |-> d.seq.mw, h |-> d.seq.mh, n |-> Len(d.sizes)]
      d1   == [d EXCEPT !.W = ex.W, !.p = r.p, !.ph = "body", !.geo = << g >>]
  IN IF n1.e # "" THEN Stop(d, n1.e)
     ELSE IF StartCodeAt(B, x) # 181 \/ Peek(B, x + 32, 4) # 8 THEN Stop(d, "bad")
     ELSE IF n2.e # "" THEN Stop(d, n2.e)
     ELSE IF ex.e # "" THEN Stop(d, ex.e)
     ELSE IF d.seq.chroma # 1 THEN Stop(d, "bad")
     ELSE IF d.seq.mw = 0 \/ d.seq.mh = 0 THEN Stop(d, "gray")
     ELSE IF StartCodeAt(B, ex.p) \notin 1..175 THEN Stop(d, "bad")
     ELSE IF tn = "?" THEN Stop(d, "bad")
     ELSE IF pc.struct # 3 THEN Stop(d, "gray")               \* field pictures: not specified here
     ELSE IF r.e # "" THEN Stop(d, r.e)
     ELSE IF tn = "B" THEN [d |-> d1, ev |-> << f >>]
     ELSE [d |-> [d1 EXCEPT !.refs = (IF nr = 2 THEN << d.refs[2] >> ELSE d.refs) \o << fr >>,
                            !.held = << f >>],
           ev |-> d.held]

---------------------------------------------------------------------------
(* One step of the decoder; ev: the frames (or "eos") that are due.          *)
VStep(B, d) ==
  LET c == StartCodeAt(B, d.p)
      n == NextStart(B, d.p)
  IN IF n.e # "" THEN Stop(d, n.e)
     ELSE IF n.p # d.p THEN [d |-> [d EXCEPT !.p = n.p], ev |-> << >>]
     ELSE CASE d.ph = "start" ->
                 IF c = 179 THEN SequenceUnit(B, d) ELSE Stop(d, "bad")
            [] d.ph = "picture" ->          \* a group header may still come, if none did
                 IF c = 0 THEN PictureUnit(B, d)
                 ELSE IF c = 184 THEN GroupUnit(B, d)
                 ELSE Stop(d, "bad")
            [] d.ph = "body" ->
                 IF c = 0 THEN PictureUnit(B, d)
                 ELSE IF c = 184 THEN GroupUnit(B, d)
                 ELSE IF c = 179 THEN SequenceUnit(B, d)
                 ELSE IF c = 183 THEN
                    [d |-> [d EXCEPT !.p = @ + 32, !.held = << >>, !.refs = << >>],
                     ev |-> d.held \o << Eos >>]
                 ELSE Stop(d, "bad")
=============================================================================
