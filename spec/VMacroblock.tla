----------------------------- MODULE VMacroblock -----------------------------
(* Macroblocks and slices of frame pictures: addressing and skipping (7.6.6), *)
(* motion vectors (7.6.3), prediction (7.6.4), reconstruction (7.6.8).        *)
(*                                                                           *)
(* A picture being decoded is a function from macroblock numbers (row by     *)
(* row, from 0) to [y, b, r], the luma, Cb and Cr samples of the macroblock. *)
(* A decoded frame is [y, b, r], each a whole plane of samples from index 1  *)
(* on, line by line.                                                         *)
EXTENDS VBlock, SequencesExt

Upto32 == TLCEval([i \in 1..32 |-> i])
Gray256 == TLCEval([i \in 0..255 |-> 0])
BlankMb == [y |-> Gray256, b |-> Zero64, r |-> Zero64]
BlankPicture(n) == TLCEval([i \in 0..(n - 1) |-> BlankMb])

\* what depends on the size of the frames: w macroblocks per row, h per column;
\* ym, yo, cm, co: the macroblock and the place in it of each sample of a plane;
\* ys, cs: the distance from the first sample of a macroblock in its plane
Geometry(w, h) ==
  [w |-> w, h |-> h,
   ym |-> TLCEval([i \in 1..(256 * w * h) |-> ((i - 1) \div (256 * w)) * w + ((i - 1) % (16 * w)) \div 16]),
   yo |-> TLCEval([i \in 1..(256 * w * h) |-> ((((i - 1) \div (16 * w)) % 16) * 16) + ((i - 1) % 16)]),
   cm |-> TLCEval([i \in 1..(64 * w * h) |-> ((i - 1) \div (64 * w)) * w + ((i - 1) % (8 * w)) \div 8]),
   co |-> TLCEval([i \in 1..(64 * w * h) |-> ((((i - 1) \div (8 * w)) % 8) * 8) + ((i - 1) % 8)]),
   ys |-> TLCEval([i \in 0..255 |-> (i \div 16) * 16 * w + (i % 16)]),
   cs |-> TLCEval([i \in 0..63 |-> (i \div 8) * 8 * w + (i % 8)])]

FrameOf(pic, g) ==
  [y |-> TLCEval([i \in 1..(256 * g.w * g.h) |-> pic[g.ym[i]].y[g.yo[i]]]),
   b |-> TLCEval([i \in 1..(64 * g.w * g.h) |-> pic[g.cm[i]].b[g.co[i]]]),
   r |-> TLCEval([i \in 1..(64 * g.w * g.h) |-> pic[g.cm[i]].r[g.co[i]]])]

---------------------------------------------------------------------------
(* Motion vectors.  A vector component is decoded at p with f_code fc and    *)
(* predictor pred.                                                           *)
Component(B, p, fc, pred) ==
  LET row  == Row(MotionTable, B, p)
      code == MotionTable.rows[row].v
      p1   == p + MotionTable.rows[row].len
      f    == 2^(fc - 1)
      rs   == fc - 1
      res  == Peek(B, p1, rs)
      mag  == ((IF code < 0 THEN -code ELSE code) - 1) * f + res + 1
      delta == IF f = 1 \/ code = 0 THEN code ELSE IF code < 0 THEN -mag ELSE mag
      v    == pred + delta
  IN IF fc \notin 1..9 THEN [e |-> "gray", p |-> p]
     ELSE IF row = 0 THEN [e |-> "bad", p |-> p]
     ELSE [e |-> "", p |-> IF f = 1 \/ code = 0 THEN p1 ELSE p1 + rs,
           v |-> IF v < -16 * f THEN v + 32 * f ELSE IF v > 16 * f - 1 THEN v - 32 * f ELSE v]

\* both components; fc = <<horizontal, vertical>>
Vector(B, p, fc, pred) ==
  LET h == Component(B, p, fc[1], pred[1])
  IN IF h.e # "" THEN h
     ELSE LET v == Component(B, h.p, fc[2], pred[2])
          IN IF v.e # "" THEN v ELSE [e |-> "", p |-> v.p, v |-> << h.v, v.v >>]

---------------------------------------------------------------------------
(* Prediction                                                                *)
\* the vector for the chroma samples (7.6.3.7)
Halved(v) == << Quot(v[1], 2), Quot(v[2], 2) >>

\* a block of size n of component c at column x, row y, displaced by v
Inside(w, h, n, x, y, v) ==
  LET l == x + v[1] \div 2
      t == y + v[2] \div 2
  IN l >= 0 /\ t >= 0 /\ l + n - 1 + (v[1] % 2) < w * n /\ t + n - 1 + (v[2] % 2) < h * n

\* the average of samples of the plane p at distances s from a and so on
Tap1(p, s, a)          == TLCEval([i \in DOMAIN s |-> p[a + s[i]]])
Tap2(p, s, a, b)       == TLCEval([i \in DOMAIN s |-> (p[a + s[i]] + p[b + s[i]] + 1) \div 2])
Tap4(p, s, a, b, c, d) == TLCEval([i \in DOMAIN s |-> (p[a + s[i]] + p[b + s[i]] + p[c + s[i]] + p[d + s[i]] + 2) \div 4])

\* the block at column x, row y of the plane p with lines of n samples, displaced by v
Displaced(p, s, n, x, y, v) ==
  LET a  == 1 + n * (y + v[2] \div 2) + x + v[1] \div 2
      hh == v[1] % 2
      vh == v[2] % 2
  IN IF hh = 0 /\ vh = 0 THEN Tap1(p, s, a)
     ELSE IF vh = 0 THEN Tap2(p, s, a, a + 1)
     ELSE IF hh = 0 THEN Tap2(p, s, a, a + n)
     ELSE Tap4(p, s, a, a + 1, a + n, a + n + 1)

\* the prediction of a macroblock from one frame
FromFrame(f, g, col, row, v) ==
  LET cv == Halved(v)
  IN [y |-> Displaced(f.y, g.ys, 16 * g.w, 16 * col, 16 * row, v),
      b |-> Displaced(f.b, g.cs, 8 * g.w, 8 * col, 8 * row, cv),
      r |-> Displaced(f.r, g.cs, 8 * g.w, 8 * col, 8 * row, cv)]

Mean(a, b) == TLCEval([i \in DOMAIN a |-> (a[i] + b[i] + 1) \div 2])
MeanMb(a, b) == [y |-> Mean(a.y, b.y), b |-> Mean(a.b, b.b), r |-> Mean(a.r, b.r)]

\* dir: which directions; v: their vectors.  The result has e = "gray" if a
\* reference is missing, "bad" if a vector leaves the frame.
Predict(cx, col, row, dir, v) ==
  LET ok(d) == Inside(cx.g.w, cx.g.h, 16, 16 * col, 16 * row, v[d])
  IN IF \E d \in 1..2 : dir[d] /\ cx.ref[d] = << >> THEN [e |-> "gray"]
     ELSE IF \E d \in 1..2 : dir[d] /\ ~ok(d) THEN [e |-> "bad"]
     ELSE [e |-> "", mb |->
        IF dir[1] /\ dir[2] THEN MeanMb(FromFrame(cx.ref[1][1], cx.g, col, row, v[1]),
                                        FromFrame(cx.ref[2][1], cx.g, col, row, v[2]))
        ELSE IF dir[1] THEN FromFrame(cx.ref[1][1], cx.g, col, row, v[1])
        ELSE FromFrame(cx.ref[2][1], cx.g, col, row, v[2])]

---------------------------------------------------------------------------
(* Residuals: rs = six blocks of 64 numbers or << >> for a block without     *)
(* data; field: field DCT order of the luma lines.                           *)
\* block and place in it of each luma sample, in frame and field order
FrameBlk == TLCEval([i \in 0..255 |-> 2 * (i \div 128) + (i % 16) \div 8 + 1])
FramePos == TLCEval([i \in 0..255 |-> 8 * ((i \div 16) % 8) + (i % 8)])
FieldBlk == TLCEval([i \in 0..255 |-> 2 * ((i \div 16) % 2) + (i % 16) \div 8 + 1])
FieldPos == TLCEval([i \in 0..255 |-> 8 * (i \div 32) + (i % 8)])

Full(r) == IF r = << >> THEN Zero64 ELSE r
LumaSum(y, rs, blk, pos) == TLCEval([i \in 0..255 |-> Clip(y[i] + rs[blk[i]][pos[i]], 0, 255)])
AddRes(mb, rs, field) ==
  [y |-> IF \A k \in 1..4 : rs[k] = << >> THEN mb.y
         ELSE LET full == << Full(rs[1]), Full(rs[2]), Full(rs[3]), Full(rs[4]) >>
              IN IF field THEN LumaSum(mb.y, full, FieldBlk, FieldPos) ELSE LumaSum(mb.y, full, FrameBlk, FramePos),
   b |-> IF rs[5] = << >> THEN mb.b ELSE TLCEval([i \in 0..63 |-> Clip(mb.b[i] + rs[5][i], 0, 255)]),
   r |-> IF rs[6] = << >> THEN mb.r ELSE TLCEval([i \in 0..63 |-> Clip(mb.r[i] + rs[6][i], 0, 255)])]

---------------------------------------------------------------------------
(* The state of a slice: p position, addr column of the last macroblock (-1  *)
(* at the start), qs quantiser scale code, dc predictors, pmv motion vector  *)
(* predictors << forward, backward >>, dir and vec direction and vectors of  *)
(* the last macroblock, fr the frame so far, e error ("" none).              *)
(*                                                                           *)
(* The context cx of the picture: B bytes, type "I"/"P"/"B", pc the picture  *)
(* coding extension, W = << intra matrix, non-intra matrix >>, g geometry, ref =   *)
(* << forward, backward >>, each << >> or << frame >>.                        *)
Zero2 == << 0, 0 >>
DcReset(cx) == LET v == 2^(7 + cx.pc.prec) IN << v, v, v >>

\* the number of leading escapes
RECURSIVE Escapes(_, _)
Escapes(B, p) == IF Peek(B, p, 11) = 8 THEN 1 + Escapes(B, p + 11) ELSE 0

\* what becomes of the macroblocks from column a to column b, which are skipped
Skipped(cx, row, s, a, b) ==
  LET dir == IF cx.type = "P" THEN << TRUE, FALSE >> ELSE s.dir
      vec == IF cx.type = "P" THEN << Zero2, Zero2 >> ELSE s.vec
      One(t, c) ==
        LET r == IF cx.type = "I" \/ dir = << FALSE, FALSE >> THEN [e |-> "gray"]
                 ELSE Predict(cx, c, row, dir, vec)
        IN IF t.e # "" THEN t
           ELSE IF r.e # "" THEN [t EXCEPT !.e = r.e]
           ELSE [t EXCEPT !.fr = [@ EXCEPT ![row * cx.g.w + c] = r.mb]]
  IN FoldLeft(One, s, [i \in 1..(IF a > b THEN 0 ELSE b - a + 1) |-> a + i - 1])

RECURSIVE Blocks(_, _, _, _, _, _, _)
\* the blocks k..6 of which the set coded have data
Blocks(B, p, k, coded, dc, q, rs) ==
  IF k > 6 THEN [e |-> "", p |-> p, dc |-> dc, rs |-> rs]
  ELSE IF k \notin coded THEN Blocks(B, p, k + 1, coded, dc, q, Append(rs, << >>))
  ELSE LET r == CodedBlock(B, p, IF k <= 4 THEN 0 ELSE k - 4, dc, q)
       IN IF r.e # "" THEN r ELSE Blocks(B, r.p, k + 1, coded, r.dc, q, Append(rs, r.res))

CbpSet(c) == {k \in 1..6 : (c \div 2^(6 - k)) % 2 = 1}

\* the macroblock at s.p
Macroblock(cx, row, s) ==
  LET B    == cx.B
      esc  == Escapes(B, s.p)
      pi   == s.p + 11 * esc
      ri   == Row(IncTable, B, pi)
      inc  == 33 * esc + IncTable.rows[ri].v
      pt   == pi + IncTable.rows[ri].len
      addr == s.addr + inc
      tt   == TypeTables[cx.type]
      rt   == Row(tt, B, pt)
      ty   == tt.rows[rt].v
      quant == ty[1] = 1
      fwd  == ty[2] = 1
      bwd  == ty[3] = 1
      patt == ty[4] = 1
      intra == ty[5] = 1
      conc == intra /\ cx.pc.conc = 1
      free == cx.pc.fpfd = 0
      pm   == pt + tt.rows[rt].len                       \* motion type
      hasm == free /\ (fwd \/ bwd)
      mt   == IF hasm THEN Peek(B, pm, 2) ELSE 2
      pd   == pm + IF hasm THEN 2 ELSE 0                 \* dct_type
      hasd == free /\ (intra \/ patt)
      field == hasd /\ Bit(B, pd) = 1
      pq   == pd + IF hasd THEN 1 ELSE 0                 \* quantiser scale
      qs   == IF quant THEN Peek(B, pq, 5) ELSE s.qs
      p0   == pq + IF quant THEN 5 ELSE 0
      s1   == IF inc > 1 /\ s.addr # -1 THEN Skipped(cx, row, s, s.addr + 1, addr - 1) ELSE s
      \* predictors after what was skipped, and for this type of macroblock
      drop == (cx.type = "P" /\ (inc > 1 \/ (~intra /\ ~fwd))) \/ (intra /\ ~conc)
      pmv0 == IF drop THEN << Zero2, Zero2 >> ELSE s.pmv
      dc0  == IF inc > 1 \/ ~intra THEN DcReset(cx) ELSE s.dc
      vf   == IF fwd \/ conc THEN Vector(B, p0, cx.pc.f[1], pmv0[1]) ELSE [e |-> "", p |-> p0, v |-> pmv0[1]]
      vb   == IF bwd THEN Vector(B, vf.p, cx.pc.f[2], pmv0[2]) ELSE [e |-> "", p |-> vf.p, v |-> pmv0[2]]
      pmv1 == << vf.v, vb.v >>
      pc   == vb.p + IF conc THEN 1 ELSE 0               \* coded block pattern
      rc   == IF patt THEN Row(CbpTable, B, pc) ELSE 1
      cbp  == CbpTable.rows[rc].v
      pb   == pc + IF patt THEN CbpTable.rows[rc].len ELSE 0
      coded == IF intra THEN 1..6 ELSE IF patt THEN CbpSet(cbp) ELSE {}
      q    == [intra |-> intra, W |-> cx.W[IF intra THEN 1 ELSE 2], qs |-> Scale(cx.pc.qst, qs), prec |-> cx.pc.prec,
               scan |-> Scans[cx.pc.alt + 1], tab |-> CoefTables[IF intra /\ cx.pc.ivf = 1 THEN 2 ELSE 1]]
      bl   == Blocks(B, pb, 1, coded, dc0, q, << >>)
      \* a P macroblock without a vector is predicted with the zero vector
      dir  == IF intra THEN << FALSE, FALSE >> ELSE IF cx.type = "P" THEN << TRUE, FALSE >> ELSE << fwd, bwd >>
      vec  == IF cx.type = "P" /\ ~fwd THEN << Zero2, Zero2 >> ELSE pmv1
      pr   == IF intra THEN [e |-> "", mb |-> BlankMb] ELSE Predict(cx, addr, row, dir, vec)
      mb   == AddRes(pr.mb, bl.rs, field)
      E(c) == [s EXCEPT !.e = c]
  IN IF ri = 0 THEN E("bad")
     ELSE IF addr >= cx.g.w THEN E("bad")
     ELSE IF s1.e # "" THEN E(s1.e)
     ELSE IF rt = 0 THEN E("bad")
     ELSE IF mt = 1 THEN E("gray")                        \* field prediction: not specified here
     ELSE IF mt # 2 THEN E("bad")
     ELSE IF quant /\ qs = 0 THEN E("gray")
     ELSE IF vf.e # "" THEN E(vf.e)
     ELSE IF vb.e # "" THEN E(vb.e)
     ELSE IF conc /\ Bit(B, vb.p) = 0 THEN E("bad")
     ELSE IF rc = 0 THEN E("bad")
     ELSE IF patt /\ cbp = 0 THEN E("gray")
     ELSE IF bl.e # "" THEN E(bl.e)
     ELSE IF pr.e # "" THEN E(pr.e)
     ELSE [p |-> bl.p, addr |-> addr, qs |-> qs, dc |-> bl.dc, pmv |-> pmv1, dir |-> dir, vec |-> vec,
           fr |-> [s1.fr EXCEPT ![row * cx.g.w + addr] = mb], e |-> ""]

---------------------------------------------------------------------------
(* Start codes                                                               *)
StartCodeAt(B, p) == LET o == p \div 8
                     IN IF o + 3 < Len(B) /\ B[o + 1] = 0 /\ B[o + 2] = 0 /\ B[o + 3] = 1 THEN B[o + 4] ELSE -1

\* the next start code after alignment and zero stuffing
RECURSIVE ZeroRun(_, _)
ZeroRun(B, o) ==
  IF o + 2 >= Len(B) THEN [e |-> "end", p |-> 8 * o]
  ELSE IF B[o + 1] = 0 /\ B[o + 2] = 0 /\ B[o + 3] = 1
       THEN (IF o + 3 >= Len(B) THEN [e |-> "end", p |-> 8 * o] ELSE [e |-> "", p |-> 8 * o])
  ELSE IF B[o + 1] # 0 THEN [e |-> "bad", p |-> 8 * o]
  ELSE IF o + 66 < Len(B) /\ \A i \in 1..64 : B[o + i] = 0 THEN ZeroRun(B, o + 62)   \* a long run
  ELSE ZeroRun(B, o + 1)
NextStart(B, p) == ZeroRun(B, (p + 7) \div 8)

---------------------------------------------------------------------------
(* A slice                                                                   *)
RECURSIVE ExtraBytes(_, _)
\* the position after extra information: bytes preceded by one bits, a zero bit
ExtraBytes(B, p) ==
  IF Bit(B, p) = 0 THEN p + 1
  ELSE IF \A k \in 1..31 : Bit(B, p + 9 * k) = 1 THEN ExtraBytes(B, p + 288)              \* a long run
  ELSE ExtraBytes(B, p + 9)

RECURSIVE Macroblocks(_, _, _)
\* up to 32 macroblocks, then the rest; past: there is no more
Macroblocks(cx, row, s) ==
  LET One(u, k) ==
        IF u.past THEN u
        ELSE LET t == Macroblock(cx, row, u.s)
             IN IF t.e # "" THEN [s |-> t, past |-> TRUE]
                ELSE IF t.p > 8 * Len(cx.B) THEN [s |-> [t EXCEPT !.e = "end"], past |-> TRUE]
                ELSE [s |-> t, past |-> Peek(cx.B, t.p, 16) = 0 /\ Peek(cx.B, t.p + 16, 7) = 0]
      v == FoldLeft(One, [s |-> s, past |-> FALSE], Upto32)
  IN IF v.past THEN v.s ELSE Macroblocks(cx, row, v.s)

\* the slice at start code position p; the frame and the position behind it
SliceAt(cx, p, fr) ==
  LET B    == cx.B
      code == StartCodeAt(B, p)
      p1   == p + 32
      row  == (IF cx.tall THEN 128 * Peek(B, p1, 3) ELSE 0) + code - 1
      p2   == p1 + IF cx.tall THEN 3 ELSE 0
      qs   == Peek(B, p2, 5)
      flag == Bit(B, p2 + 5) = 1
      p3   == IF flag THEN ExtraBytes(B, p2 + 14) ELSE p2 + 6
      s    == Macroblocks(cx, row,
                [p |-> p3, addr |-> -1, qs |-> qs, dc |-> DcReset(cx), pmv |-> << Zero2, Zero2 >>,
                 dir |-> << FALSE, FALSE >>, vec |-> << Zero2, Zero2 >>, fr |-> fr, e |-> ""])
      ns   == NextStart(B, s.p)
  IN IF row >= cx.g.h THEN [e |-> "bad"]
     ELSE IF flag /\ Peek(B, p2 + 7, 7) # 0 THEN [e |-> "bad"]
     ELSE IF qs = 0 THEN [e |-> "gray"]
     ELSE IF s.e # "" THEN [e |-> s.e]
     ELSE IF ns.e # "" THEN [e |-> ns.e]
     ELSE [e |-> "", p |-> ns.p, fr |-> s.fr]

RECURSIVE SlicesAt(_, _, _)
SlicesAt(cx, p, fr) ==
  LET r == SliceAt(cx, p, fr)
  IN IF r.e # "" THEN r
     ELSE IF StartCodeAt(cx.B, r.p) \in 1..175 THEN SlicesAt(cx, r.p, r.fr)
     ELSE r
=============================================================================
