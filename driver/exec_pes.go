package main

import (
	"io"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/ts"
)

type pesExtJ struct {
	Has   bool  `json:"has"`
	Pdf   bool  `json:"pdf"`
	Phf   bool  `json:"phf"`
	Pscf  bool  `json:"pscf"`
	Pstdf bool  `json:"pstdf"`
	Ext2  bool  `json:"ext2"`
	Pd    Bytes `json:"pd"`
	Pstd  bool  `json:"pstd"`
	Scale int   `json:"scale"`
	Size  int   `json:"size"`
}

type pesPktJ struct {
	Id   int       `json:"id"`
	Len  int       `json:"len"`
	Has  bool      `json:"has"`
	Sc   int       `json:"sc"`
	Prio bool      `json:"prio"`
	Dai  bool      `json:"dai"`
	Copy bool      `json:"copy"`
	Orig bool      `json:"orig"`
	Pd   int       `json:"pd"`
	Escr bool      `json:"escr"`
	Rate bool      `json:"rate"`
	Dsm  bool      `json:"dsm"`
	Aci  bool      `json:"aci"`
	Crc  bool      `json:"crc"`
	Extf bool      `json:"extf"`
	Hdl  int       `json:"hdl"`
	Pts  [3]uint64 `json:"pts"`
	Dts  [3]uint64 `json:"dts"`
	Ext  pesExtJ   `json:"ext"`
	Pay  Bytes     `json:"pay"`
}

func pesPkt(p *pes.Packet) pesPktJ {
	o := pesPktJ{Id: int(p.StreamID), Len: int(p.PacketLength), Pay: append(Bytes(nil), p.Payload...)}
	if h := p.Header; h != nil {
		o.Has, o.Sc, o.Prio, o.Dai, o.Copy, o.Orig = true, int(h.ScramblingControl), h.Priority, h.DataAlignmentIndicator, h.Copyright, h.OrignalOrCopy
		o.Pd, o.Escr, o.Rate, o.Dsm, o.Aci, o.Crc, o.Extf = int(h.PtsDtsFlags), h.EscrFlag, h.EsRateFlag, h.DsmTrickModeFlag, h.AdditionalCopyInfoFlag, h.CrcFlag, h.ExtensionFlag
		o.Hdl = int(h.HeaderDataLength)
		o.Pts, o.Dts = limbs(uint64(h.PresentationTimeStamp)), limbs(uint64(h.DecodingTimeStamp))
		if x := h.Extension; x != nil {
			o.Ext = pesExtJ{Has: true, Pdf: x.PrivateDataFlag, Phf: x.PackHeaderFieldFlag, Pscf: x.ProgramPacketSequenceCounterFlag,
				Pstdf: x.P_STD_BufferFlag, Ext2: x.ExtensionFlag2, Pd: append(Bytes(nil), x.PrivateData...)}
			if b := x.P_STD_Buffer; b != nil {
				o.Ext.Pstd, o.Ext.Scale, o.Ext.Size = true, int(b.Scale), int(b.Size)
			}
		}
	}
	return o
}

type PesPktsIn struct {
	Cont
	Hook

	B     Bytes  `json:"b"`
	Ch    []int  `json:"ch"`
	End   string `json:"end"`
	Reuse bool   `json:"reuse"`
	Max   int    `json:"max"`
	Errs  int    `json:"errs"`
}

type PesReadIn struct {
	Cont
	Hook

	B     Bytes  `json:"b"`
	Ch    []int  `json:"ch"`
	End   string `json:"end"`
	Sizes []int  `json:"sizes"`
}

type PipeIn struct {
	Cont
	Hook

	B     Bytes  `json:"b"`
	Ch    []int  `json:"ch"`
	End   string `json:"end"`
	Mode  string `json:"mode"` // unit, payload, ps
	Where Pred   `json:"where"`
	Skip  Pred   `json:"skip"`
	Take  Pred   `json:"take"`
	Sizes []int  `json:"sizes"`
	Es    Bytes  `json:"es"` // what the multiplex was made of
}

type PesChanIn struct {
	B     Bytes `json:"b"`
	Delay int   `json:"delay"`
}

func init() {
	register("pespkts", func(in *PesPktsIn) interface{} {
		br := newCounting(in.source(in.B, in.Ch, in.End))
		out := callsOut{Calls: []pktCall{}}
		shared := new(pes.Packet)
		errs := 0
		held := map[int]*pes.Packet{}
		for len(out.Calls) < in.Max && errs < in.Errs {
			in.step()
			var p *pes.Packet
			var err error
			if in.Reuse {
				p = shared
				err = p.Next(br)
			} else {
				p, err = pes.NewPacket(br)
			}
			c := pktCall{E: errName(err), Bit: br.bits}
			if err == nil {
				c.P = pesPkt(p)
				if !in.Reuse {
					held[len(out.Calls)] = p
				}
			} else {
				errs++
			}
			out.Calls = append(out.Calls, c)
		}
		for i, p := range held {
			out.Calls[i].P = pesPkt(p)
		}
		return out
	})
	register("pesread", func(in *PesReadIn) interface{} {
		return readAll(pes.NewPayloadReader(in.source(in.B, in.Ch, in.End)), in.Sizes, in.errs(2, in.End), 3*len(in.B)+len(in.Sizes)+100, &in.Hook)
	})
	register("pipe", func(in *PipeIn) interface{} {
		src := in.source(in.B, in.Ch, in.End)
		var r io.Reader
		switch in.Mode {
		case "unit":
			r = pes.NewPayloadReader(ts.NewPayloadUnitReader(src, in.Where.Tester()))
		case "payload":
			t := ts.NewPayloadReader(src, in.Where.Tester())
			if in.Skip.T != "unset" {
				t.SkipUntil(in.Skip.Tester())
			}
			if in.Take.T != "unset" {
				t.TakeWhile(in.Take.Tester())
			}
			r = pes.NewPayloadReader(t)
		case "ps":
			r = ps.NewPackReader(src)
		}
		return readAll(r, in.Sizes, in.errs(2, in.End), 3*len(in.B)+len(in.Sizes)+100, &in.Hook)
	})
	register("peschan", func(in *PesChanIn) interface{} {
		br := bitreader.NewReader(newSource(in.B, nil, "eof"))
		var pkts []*pes.Packet
		for {
			p, err := pes.NewPacket(br)
			if err != nil {
				break
			}
			pkts = append(pkts, p)
		}
		input := make(chan *pes.Packet)
		go func() {
			for i, p := range pkts {
				pause(in.Delay * (i % 3))
				input <- p
			}
			close(input)
		}()
		return drainBytes(pes.PacketChannel(input).PayloadOnly(), in.Delay)
	})
}
