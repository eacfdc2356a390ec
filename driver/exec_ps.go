package main

import (
	"runtime"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
)

type sysStreamJ struct {
	Id    int  `json:"id"`
	Scale bool `json:"scale"`
	Size  int  `json:"size"`
}

type sysJ struct {
	Has     bool         `json:"has"`
	Len     int          `json:"len"`
	Rate    int          `json:"rate"`
	Audio   int          `json:"audio"`
	Fixed   bool         `json:"fixed"`
	Csps    bool         `json:"csps"`
	Alock   bool         `json:"alock"`
	Vlock   bool         `json:"vlock"`
	Video   int          `json:"video"`
	Prr     bool         `json:"prr"`
	Streams []sysStreamJ `json:"streams"`
}

type packJ struct {
	Scr  [3]uint64 `json:"scr"`
	Scre int       `json:"scre"`
	Mux  int       `json:"mux"`
	Sys  sysJ      `json:"sys"`
}

func packHdr(h *ps.PackHeader) packJ {
	o := packJ{Scr: limbs(uint64(h.SystemClockReferenceBase)), Scre: int(h.SystemClockReferenceExtension), Mux: int(h.ProgramMuxRate)}
	o.Sys.Streams = []sysStreamJ{}
	if s := h.SystemHeader; s != nil {
		o.Sys = sysJ{Has: true, Len: int(s.HeaderLength), Rate: int(s.RateBound), Audio: int(s.AudioBound), Fixed: s.Fixed,
			Csps: s.CSPS, Alock: s.SystemAudioLock, Vlock: s.SystemVideoLock, Video: int(s.VideoBound),
			Prr: s.PacketRateRestriction, Streams: []sysStreamJ{}}
		for _, t := range s.Streams {
			o.Sys.Streams = append(o.Sys.Streams, sysStreamJ{int(t.StreamID), t.P_STD_BufferBoundScale, int(t.P_STD_BufferSizeBound)})
		}
	}
	return o
}

type PackHdrIn struct {
	Cont
	Hook

	B   Bytes  `json:"b"`
	Ch  []int  `json:"ch"`
	End string `json:"end"`
	Max int    `json:"max"`
}

type PsReadIn struct {
	Cont
	Hook

	B     Bytes  `json:"b"`
	Ch    []int  `json:"ch"`
	End   string `json:"end"`
	Sizes []int  `json:"sizes"`
}

type PsDecIn struct {
	Cont
	B     Bytes  `json:"b"`
	Ch    []int  `json:"ch"`
	End   string `json:"end"`
	Delay []int  `json:"delay"` // per pack, per packet
	Via   string `json:"via"`   // "packets" or "payload" (through pes.PacketChannel.PayloadOnly)
}

type psPackJ struct {
	H    packJ     `json:"h"`
	Pk   []pesPktJ `json:"pk"`
	Pay  []Bytes   `json:"pay"`
	Shut bool      `json:"shut"` // the packet channel was closed
}

type psDecOut struct {
	Packs  []psPackJ `json:"packs"`
	Early  []psPackJ `json:"early"`
	Closed bool      `json:"closed"`
	Done   bool      `json:"done"`
	Ok     bool      `json:"ok"`  // the value completion was signalled with
	Fin    bool      `json:"fin"` // the done channel is closed or silent afterwards
	Err    string    `json:"err"`
}

func init() {
	register("packhdr", func(in *PackHdrIn) interface{} {
		br := newCounting(in.source(in.B, in.Ch, in.End))
		out := callsOut{Calls: []pktCall{}}
		var held []*ps.PackHeader
		for len(out.Calls) < in.Max {
			in.step()
			h, err := ps.NewPackHeader(br)
			c := pktCall{E: errName(err), Bit: br.bits}
			if err == nil {
				held = append(held, h)
			}
			out.Calls = append(out.Calls, c)
			if err != nil {
				break
			}
		}
		for i, h := range held {
			out.Calls[i].P = packHdr(h)
		}
		return out
	})
	register("psread", func(in *PsReadIn) interface{} {
		return readAll(ps.NewPackReader(in.source(in.B, in.Ch, in.End)), in.Sizes, in.errs(3, in.End), 3*len(in.B)+len(in.Sizes)+100, &in.Hook)
	})
	register("psdec", func(in *PsDecIn) interface{} {
		d := ps.NewDecoder(bitreader.NewReader(in.source(in.B, in.Ch, in.End)))
		out := psDecOut{Packs: []psPackJ{}, Early: []psPackJ{}}
		var packs []*ps.Pack
		var pkts [][]*pes.Packet
		done := d.Go()
		pd, kd := 0, 0
		if len(in.Delay) > 1 {
			pd, kd = in.Delay[0], in.Delay[1]
		}
		finished := make(chan struct{})
		go func() {
			defer close(finished)
			for p := range d.Packs() {
				e := psPackJ{H: packHdr(p.PackHeader), Pk: []pesPktJ{}, Pay: []Bytes{}}
				var ks []*pes.Packet
				pause(pd)
				if in.Via == "payload" {
					for b := range p.Packets().PayloadOnly() {
						e.Pay = append(e.Pay, append(Bytes(nil), b...))
						pause(kd)
					}
				} else {
					for k := range p.Packets() {
						ks = append(ks, k)
						e.Pk = append(e.Pk, pesPkt(k))
						pause(kd)
					}
				}
				e.Shut = true
				packs, pkts = append(packs, p), append(pkts, ks)
				out.Early = append(out.Early, e)
			}
			out.Closed = true
		}()
		if len(in.B)%2 == 0 {
			<-finished // completion is looked at when there are no more packs
		}
		v, ok := <-done
		out.Done, out.Ok = ok, v
		err := d.Err()
		for i := 0; i < 50; i++ {
			runtime.Gosched()
		}
		<-finished
		out.Err = errName(err)
		out.Fin = errName(d.Err()) == out.Err
		for i, p := range packs {
			q := psPackJ{H: packHdr(p.PackHeader), Pk: []pesPktJ{}, Pay: out.Early[i].Pay, Shut: out.Early[i].Shut}
			for _, k := range pkts[i] {
				q.Pk = append(q.Pk, pesPkt(k))
			}
			out.Packs = append(out.Packs, q)
		}
		return out
	})
}
