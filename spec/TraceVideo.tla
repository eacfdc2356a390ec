----------------------------- MODULE TraceVideo -----------------------------
(* Validates recorded runs of the video package.  A run of the decoder is    *)
(* followed step by step by VStep; each picture is one step, and each frame  *)
(* that becomes due must be the one that the corresponding call returned.    *)
EXTENDS VDecoder, VHeaders, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP
START == IF "START" \in DOMAIN IOEnv THEN atoi(IOEnv.START) ELSE 1

\* idx: the record, shown: frames (and ends) delivered so far, dec: the decoder
\* (names that no bound variable of an extended module has: TLC would not
\* evaluate the constants there in advance)
VARIABLES idx, shown, dec
vars == << idx, shown, dec >>
\* no two states of a run have the same position
Where == << idx, shown, dec.p, dec.ph >>

---------------------------------------------------------------------------
\* the recorded frame x shows the frame f
FrameSame(x, f) == x.r = << 0, 0, 16 * f.w, 16 * f.h >> /\ x.y = f.fr.y /\ x.cb = f.fr.b /\ x.cr = f.fr.r

FrameDiff(x, f) ==
  IF x.r # << 0, 0, 16 * f.w, 16 * f.h >> \/ Len(x.y) # 256 * f.w * f.h \/ Len(x.cb) # 64 * f.w * f.h \/ Len(x.cr) # 64 * f.w * f.h
  THEN "a frame has another size"
  ELSE LET mb(i) == ((i - 1) \div (256 * f.w)) * f.w + ((i - 1) % (16 * f.w)) \div 16
           bad == {mb(i) : i \in {j \in DOMAIN x.y : x.y[j] # f.fr.y[j]}}
       IN IF bad = {} THEN "chroma samples differ"
          ELSE "luma samples differ, first in macroblock " \o ToString(CHOOSE k \in bad : \A j \in bad : k <= j)

\* Size is that of the sequence which the frame belongs to, or of a later one; sz: those seen so far.
\* Behind the end of a sequence it is that of this sequence.
SizeOk(x, ev, sz) ==
  IF ev.w = 0 THEN x.size = sz[Len(sz)]
  ELSE \E k \in ev.n..Len(sz) : x.size = sz[k]

\* call number i of the first run does what the event ev says
CallVerdict(c, i, ev, sz) ==
  LET calls == c.out.runs[1].calls
  IN IF i > Len(calls) THEN "ok"                       \* the driver stopped asking
     ELSE LET x == calls[i]
          IN IF ev.w = 0 THEN (IF x.e = "eos" THEN (IF SizeOk(x, ev, sz) THEN "ok" ELSE "call " \o ToString(i) \o ": not the coded size")
                                 ELSE IF x.e = "" THEN "a frame in excess" ELSE "no end of sequence but " \o x.e)
             ELSE IF x.e = "eos" THEN "a frame is missing"
             ELSE IF x.e # "" THEN "call " \o ToString(i) \o ": a frame is due but " \o x.e
             ELSE IF ~SizeOk(x, ev, sz) THEN "call " \o ToString(i) \o ": not the coded size"
             ELSE IF FrameSame(c.out.frames[x.f], ev) THEN "ok"
             ELSE "call " \o ToString(i) \o ": " \o FrameDiff(c.out.frames[x.f], ev)

RECURSIVE Emit(_, _, _, _, _)
Emit(c, i, ev, k, sz) ==
  IF k > Len(ev) THEN "ok"
  ELSE LET v == CallVerdict(c, i + k, ev[k], sz) IN IF v # "ok" THEN v ELSE Emit(c, i, ev, k + 1, sz)

---------------------------------------------------------------------------
\* fault: for ever; fault1: once, then the end; fault2: once, then the rest of the stream
EndErrs(end) == IF end \in {"fault", "fault1", "fault2"} THEN {"fault"} ELSE {"eof", "ueof"}

\* the call behind the last frame reports the error e
FinalCall(c, i, dd) ==
  LET calls == c.out.runs[1].calls
      early == i <= Len(calls) /\ calls[i].e = "" /\ dd.held # << >> /\ FrameSame(c.out.frames[calls[i].f], dd.held[1])
      j     == IF early THEN i + 1 ELSE i
  IN IF j > Len(calls) THEN (IF Len(calls) >= c.in.max THEN "ok" ELSE "no error is reported")
     ELSE LET x == calls[j].e
          IN IF x = "" THEN "a frame in excess"
             ELSE IF dd.e = "end" /\ x \notin EndErrs(c.in.runs[1].end) THEN "not the error of the source: " \o x
             ELSE IF dd.e = "mpeg1" /\ x # "mpeg1" THEN "MPEG-1 is not reported: " \o x
             ELSE IF dd.e = "bad" /\ x \in {"eos", "mpeg1"} \cup (IF PROP = "V12" THEN EndErrs(c.in.runs[1].end) ELSE {}) THEN "a malformed stream is reported as " \o x
             ELSE "ok"

SameCalls(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].e = b[i].e /\ a[i].f = b[i].f

\* the calls of an interrupted run: a part of the frames, then the error of the source
CutCalls(a, b, end) ==
  LET k == Len(b)
  IN IF k = 0 THEN "no error is reported"
     ELSE IF \E i \in 1..(k - 1) : i > Len(a) \/ a[i].e # b[i].e \/ a[i].f # b[i].f THEN "delivers what the stream does not have"
     ELSE IF b[k].e \notin EndErrs(end) THEN "not the error of the source: " \o b[k].e
     ELSE "ok"

RunVerdict(c, j) ==
  LET r == c.out.runs[j]
      i == c.in.runs[j]
  IN IF j = 1 THEN "ok"
     ELSE IF i.cut >= 0 THEN CutCalls(c.out.runs[1].calls, r.calls, i.end)
     ELSE IF SameCalls(c.out.runs[1].calls, r.calls) THEN "ok" ELSE "run " \o ToString(j) \o " of the same stream differs"

Extra(c, dd) ==
  LET bad == {j \in 1..Len(c.out.runs) : RunVerdict(c, j) # "ok"}
  IN IF bad # {} THEN RunVerdict(c, CHOOSE j \in bad : \A k \in bad : j <= k)
     ELSE IF \E j \in 1..Len(c.out.runs) : c.out.runs[j].size0 # << -1, -1 >> THEN "a size before the first header"
     ELSE IF \E j \in 1..Len(c.out.runs) : \E x \in 1..Len(c.out.runs[j].calls) : ~c.out.runs[j].calls[x].kept
     THEN "a delivered frame is modified later"
     ELSE IF \E x \in 1..Len(c.out.runs[1].calls) :
                  LET y == c.out.runs[1].calls[x] IN (\A k \in DOMAIN dd.sizes : y.size # dd.sizes[k]) /\ ~(dd.sizes = << >> /\ y.size = << -1, -1 >>)
     THEN "not the coded size"
     ELSE IF \E x \in 1..Len(c.out.runs[1].calls) :
                  LET y == c.out.runs[1].calls[x] IN y.e # "" /\ y.f # 0 THEN "a frame along with an error"
     ELSE "ok"

Final(c, i, dd) ==
  IF dd.e = "gray" THEN (IF c.in.gray THEN "ok" ELSE "GENERR the stream is not covered by the specification")
  ELSE IF c.in.want # "" /\ dd.e # c.in.want THEN "GENERR the stream ends with " \o dd.e
  ELSE LET v == FinalCall(c, i, dd) IN IF v # "ok" THEN v ELSE Extra(c, dd)

---------------------------------------------------------------------------
Say(c, v) == IF v = "ok" THEN TRUE ELSE PrintT("V|" \o ToString(c.id) \o "|" \o v)

Advance(c, v) == Say(c, v) /\ idx' = idx + 1 /\ shown' = 0 /\ dec' = VInit

Init == idx = START /\ shown = 0 /\ dec = VInit
\* (bound by \E over a singleton, since TLC evaluates a definition in an action
\* again wherever it is used)
Next ==
  /\ idx <= Len(T)
  /\ \E c \in {T[idx]} :
       IF c.st # "ok" THEN Advance(c, "the run ends in a " \o c.st)
       ELSE IF c.k # "vframes" THEN \E v \in {Other(c)} : Advance(c, v)
       ELSE \E r \in {VStep(c.in.b, dec)} :
            \E v \in {Emit(c, shown, r.ev, 1, r.d.sizes)} :
              IF v # "ok" THEN Advance(c, IF v = c.in.kf THEN "KF a frame is shown again or too early" ELSE v)
              ELSE IF r.d.ph = "stop" THEN \E u \in {Final(c, shown + Len(r.ev) + 1, r.d)} : Advance(c, u)
              ELSE /\ idx' = idx
                   /\ shown' = shown + Len(r.ev)
                   /\ dec' = r.d
Done == idx = Len(T) + 1 => PrintT("DONE|" \o ToString(Len(T)))
=============================================================================
