package main

import (
	"io"
	"runtime"
	"sync"
	"time"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/ts"
)

type extJ struct {
	Has  bool      `json:"has"`
	Ltwf bool      `json:"ltwf"`
	Prf  bool      `json:"prf"`
	Ssf  bool      `json:"ssf"`
	Ltwv bool      `json:"ltwv"`
	Ltwo int       `json:"ltwo"`
	Pr   int       `json:"pr"`
	St   int       `json:"st"`
	Dts  [3]uint64 `json:"dts"`
}

type afJ struct {
	Has   bool      `json:"has"`
	Disc  bool      `json:"disc"`
	Rai   bool      `json:"rai"`
	Espi  bool      `json:"espi"`
	Pcrf  bool      `json:"pcrf"`
	Opcrf bool      `json:"opcrf"`
	Spf   bool      `json:"spf"`
	Tpdf  bool      `json:"tpdf"`
	Extf  bool      `json:"extf"`
	Pcr   [3]uint64 `json:"pcr"`
	Opcr  [3]uint64 `json:"opcr"`
	Sc    int       `json:"sc"`
	Tpd   bool      `json:"tpd"`
	Ext   extJ      `json:"ext"`
}

type tsPktJ struct {
	Tei  bool  `json:"tei"`
	Pusi bool  `json:"pusi"`
	Prio bool  `json:"prio"`
	Pid  int   `json:"pid"`
	Tsc  int   `json:"tsc"`
	Afc  int   `json:"afc"`
	Cc   int   `json:"cc"`
	Pay  Bytes `json:"pay"`
	Af   afJ   `json:"af"`
}

func tsPkt(p *ts.Packet) tsPktJ {
	o := tsPktJ{Tei: p.TransportErrorIndicator, Pusi: p.PayloadUnitStartIndicator, Prio: p.TransportPriority,
		Pid: int(p.PID), Tsc: int(p.TransportScramblingControl), Afc: int(p.AdaptationFieldControl),
		Cc: int(p.ContinuityCounter), Pay: append(Bytes(nil), p.Payload...)}
	if a := p.AdaptationField; a != nil {
		o.Af = afJ{Has: true, Disc: a.DiscontinuityIndicator, Rai: a.RandomAccessIndicator,
			Espi: a.ElementaryStreamPriorityIndicator, Pcrf: a.PCRFlag, Opcrf: a.OPCRFlag,
			Spf: a.SplicingPointFlag, Tpdf: a.TransportPrivateDataFlag, Extf: a.AdaptationFieldExtensionFlag,
			Pcr: limbs(a.PCR), Opcr: limbs(a.OPCR), Sc: int(a.SpliceCountdown), Tpd: a.TransportPrivateData != nil}
		if e := a.AdapatationExtension; e != nil {
			o.Af.Ext = extJ{Has: true, Ltwf: e.LegalTimeWindowFlag, Prf: e.PiecewiseRateFlag, Ssf: e.SeamlessSpliceFlag,
				Ltwv: e.LTWValidFlag, Ltwo: int(e.LTWOffset), Pr: int(e.PiecewiseRate), St: int(e.SpliceType),
				Dts: limbs(e.DTSNextAU)}
		}
	}
	return o
}

// ---- packets one by one -------------------------------------------------

type TsPktsIn struct {
	Cont
	Hook

	B     Bytes  `json:"b"`
	Ch    []int  `json:"ch"`
	End   string `json:"end"`
	Reuse bool   `json:"reuse"`
	Bit   int    `json:"bit"` // bits consumed before the first call
	Max   int    `json:"max"` // calls at most
	Errs  int    `json:"errs"`
}

type pktCall struct {
	E   string      `json:"e"`
	Bit int64       `json:"bit"` // bits consumed after the call
	P   interface{} `json:"p,omitempty"`
}

type callsOut struct {
	Calls []pktCall `json:"calls"`
}

func init() {
	register("tspkts", func(in *TsPktsIn) interface{} {
		br := newCounting(in.source(in.B, in.Ch, in.End))
		if in.Bit > 0 {
			br.Skip(uint(in.Bit))
		}
		out := callsOut{Calls: []pktCall{}}
		shared := new(ts.Packet)
		errs := 0
		held := map[int]*ts.Packet{}
		for len(out.Calls) < in.Max && errs < in.Errs {
			in.step()
			var p *ts.Packet
			var err error
			if in.Reuse {
				p = shared
				err = p.Next(br)
			} else {
				p, err = ts.NewPacket(br)
			}
			c := pktCall{E: errName(err), Bit: br.bits}
			if err == nil {
				c.P = tsPkt(p)
				if !in.Reuse {
					held[len(out.Calls)] = p
				}
			} else {
				errs++
			}
			out.Calls = append(out.Calls, c)
		}
		// packets of their own keep what they were
		for i, p := range held {
			out.Calls[i].P = tsPkt(p)
		}
		return out
	})
}

// ---- readers -------------------------------------------------------------

type readEv struct {
	W int    `json:"w"`
	N int    `json:"n"`
	E string `json:"e"`
}

type readsOut struct {
	Ev   []readEv `json:"ev"`
	Data Bytes    `json:"data"`
}

// readAll calls Read with the given sizes (cyclically) until errs errors other
// than EOP have been reported or max calls are made.
func readAll(r io.Reader, sizes []int, errs, max int, h *Hook) readsOut {
	out := readsOut{Ev: []readEv{}, Data: Bytes{}}
	buf := make([]byte, 100000)
	for i := 0; i < max; i++ {
		w := sizes[i%len(sizes)]
		for j := range buf[:w] {
			buf[j] = 0xA5
		}
		h.step()
		n, err := r.Read(buf[:w:w])
		e := errName(err)
		out.Ev = append(out.Ev, readEv{w, n, e})
		if n > 0 && n <= w {
			out.Data = append(out.Data, buf[:n]...)
		}
		if e != "" && e != "eop" {
			if errs--; errs <= 0 {
				break
			}
		}
	}
	return out
}

type TsReadIn struct {
	Cont
	Hook

	B     Bytes  `json:"b"`
	Ch    []int  `json:"ch"`
	End   string `json:"end"`
	Mode  string `json:"mode"` // payload, unit
	Where Pred   `json:"where"`
	Skip  Pred   `json:"skip"`
	Take  Pred   `json:"take"`
	Sizes []int  `json:"sizes"`
}

func init() {
	register("tsread", func(in *TsReadIn) interface{} {
		src := in.source(in.B, in.Ch, in.End)
		var r io.Reader
		if in.Mode == "unit" {
			r = ts.NewPayloadUnitReader(src, in.Where.Tester())
		} else {
			pr := ts.NewPayloadReader(src, in.Where.Tester())
			if in.Skip.T != "unset" {
				pr.SkipUntil(in.Skip.Tester())
			}
			if in.Take.T != "unset" {
				pr.TakeWhile(in.Take.Tester())
			}
			r = pr
		}
		return readAll(r, in.Sizes, in.errs(3, in.End), 3*len(in.B)+len(in.Sizes)+100, &in.Hook)
	})
}

// ---- demultiplexer --------------------------------------------------------

type DemuxIn struct {
	Cont
	B     Bytes  `json:"b"`
	Ch    []int  `json:"ch"`
	End   string `json:"end"`
	Chans []Pred `json:"chans"`
	Skip  Pred   `json:"skip"`
	Take  Pred   `json:"take"`
	Mode  string `json:"mode"`  // "each": a goroutine per channel, "one": a single select-like loop
	Delay []int  `json:"delay"` // microseconds of sleep of consumer i per packet; negative: Gosched that often
}

type demuxOut struct {
	Got    [][]tsPktJ `json:"got"`    // contents at the very end
	Early  [][]tsPktJ `json:"early"`  // contents on receipt
	Closed []bool     `json:"closed"` // closed when completion was signalled
	Done   bool       `json:"done"`
	Err    string     `json:"err"`
}

func pause(d int) {
	if d > 0 {
		time.Sleep(time.Duration(d) * time.Microsecond)
	}
	for ; d < 0; d++ {
		runtime.Gosched()
	}
}

func init() {
	register("demux", func(in *DemuxIn) interface{} {
		d := ts.NewDemuxer(in.source(in.B, in.Ch, in.End))
		n := len(in.Chans)
		chans := make([]ts.PacketChannel, n)
		for i, c := range in.Chans {
			chans[i] = d.Where(c.Tester())
		}
		if in.Skip.T != "unset" {
			d.SkipUntil(in.Skip.Tester())
		}
		if in.Take.T != "unset" {
			d.TakeWhile(in.Take.Tester())
		}
		held := make([][]*ts.Packet, n)
		out := demuxOut{Got: make([][]tsPktJ, n), Early: make([][]tsPktJ, n), Closed: make([]bool, n)}
		for i := range out.Got {
			out.Got[i], out.Early[i] = []tsPktJ{}, []tsPktJ{}
		}
		done := d.Go()
		if in.Mode == "one" {
			open := make([]bool, n)
			for i := range open {
				open[i] = true
			}
			for !out.Done {
				progress := false
				for i := range chans {
					if !open[i] {
						continue
					}
					select {
					case p, ok := <-chans[i]:
						progress = true
						if !ok {
							open[i] = false
							continue
						}
						held[i] = append(held[i], p)
						out.Early[i] = append(out.Early[i], tsPkt(p))
						pause(in.Delay[i])
					default:
					}
				}
				select {
				case <-done:
					out.Done = true
				default:
				}
				if !progress {
					runtime.Gosched()
				}
			}
			for i := range chans {
				select {
				case _, ok := <-chans[i]:
					out.Closed[i] = !ok
				default:
				}
			}
		} else {
			var wg sync.WaitGroup
			for i := range chans {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					for p := range chans[i] {
						held[i] = append(held[i], p)
						out.Early[i] = append(out.Early[i], tsPkt(p))
						pause(in.Delay[i])
					}
				}(i)
			}
			<-done
			out.Done = true
			wg.Wait()
			for i := range chans {
				_, ok := <-chans[i]
				out.Closed[i] = !ok
			}
		}
		out.Err = errName(d.Err())
		for i := range held {
			for _, p := range held[i] {
				out.Got[i] = append(out.Got[i], tsPkt(p))
			}
		}
		return out
	})
}

// ---- packet channel transforms ---------------------------------------------

type TsChanIn struct {
	B     Bytes  `json:"b"`
	Mode  string `json:"mode"` // payload, unit
	Delay int    `json:"delay"`
	Early int    `json:"early"` // results looked at before the input goes on (0: none)
}

type chanOut struct {
	Got    []Bytes `json:"got"`
	Closed bool    `json:"closed"`
	Before int     `json:"before"` // results that were there before the input was closed
}

func drainBytes(c <-chan []byte, delay int) chanOut {
	out := chanOut{Got: []Bytes{}}
	var held [][]byte
	for b := range c {
		held = append(held, b)
		pause(delay)
	}
	out.Closed = true
	for _, b := range held {
		out.Got = append(out.Got, append(Bytes(nil), b...))
	}
	return out
}

func init() {
	register("tschan", func(in *TsChanIn) interface{} {
		br := bitreader.NewReader(newSource(in.B, nil, "eof"))
		var pkts []*ts.Packet
		for {
			p, err := ts.NewPacket(br)
			if err != nil {
				break
			}
			pkts = append(pkts, p)
		}
		input := make(chan *ts.Packet)
		go func() {
			for i, p := range pkts {
				pause(in.Delay * (i % 3))
				input <- p
			}
			close(input)
		}()
		if in.Mode == "unit" {
			return drainBytes(ts.PacketChannel(input).PayloadUnit(), in.Delay)
		}
		return drainBytes(ts.PacketChannel(input).PayloadOnly(), in.Delay)
	})
}
