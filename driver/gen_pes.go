package main

import "math/rand"

type pesOpts struct {
	maxPay  int
	plain   bool // only one video stream, with header
	noPad   bool
	bounded bool
}

// PesP describes a PES packet to be written.
type PesP struct {
	Id        int
	Flags1    int // 6 bits after '10'
	PtsDts    int // 0, 2, 3
	Flags2    int // ESCR ES_rate DSM copy CRC ext
	ExtFlags  int // private, pack header, sequence counter, P-STD, reserved(3), ext2
	PackLen   int
	Ext2Len   int
	Stuff     int
	Pay       []byte
	Unbounded bool
	LenDelta  int // added to the declared length
	HdlDelta  int // added to the declared header length
	Pts, Dts  uint64
}

func headerless(id int) bool {
	switch id {
	case 0xbc, 0xbe, 0xbf, 0xf0, 0xf1, 0xff, 0xf2, 0xf8:
		return true
	}
	return false
}

func stamp(w *BitWriter, marker int, v uint64) {
	w.Put(uint64(marker), 4)
	w.Put(v>>30, 3)
	w.Put(1, 1)
	w.Put(v>>15, 15)
	w.Put(1, 1)
	w.Put(v, 15)
	w.Put(1, 1)
}

func (p *PesP) optional(r *rand.Rand) []byte {
	var w BitWriter
	switch p.PtsDts {
	case 2:
		stamp(&w, 2, p.Pts)
	case 3:
		stamp(&w, 3, p.Pts)
		stamp(&w, 1, p.Dts)
	}
	if p.Flags2&0x20 != 0 {
		v := edge(r, 33)
		w.Put(3, 2)
		w.Put(v>>30, 3)
		w.Put(1, 1)
		w.Put(v>>15, 15)
		w.Put(1, 1)
		w.Put(v, 15)
		w.Put(1, 1)
		w.Put(edge(r, 9), 9)
		w.Put(1, 1)
	}
	if p.Flags2&0x10 != 0 {
		w.Put(1, 1)
		w.Put(edge(r, 22), 22)
		w.Put(1, 1)
	}
	if p.Flags2&0x08 != 0 {
		w.Put(uint64(r.Intn(256)), 8)
	}
	if p.Flags2&0x04 != 0 {
		w.Put(1, 1)
		w.Put(edge(r, 7), 7)
	}
	if p.Flags2&0x02 != 0 {
		w.Put(edge(r, 16), 16)
	}
	if p.Flags2&0x01 != 0 {
		w.Put(uint64(p.ExtFlags), 8)
		if p.ExtFlags&0x80 != 0 {
			w.Bytes(fillN(r, 16))
		}
		if p.ExtFlags&0x40 != 0 {
			w.Put(uint64(p.PackLen), 8)
			w.Bytes(fillN(r, p.PackLen))
		}
		if p.ExtFlags&0x20 != 0 {
			w.Put(1, 1)
			w.Put(edge(r, 7), 7)
			w.Put(1, 1)
			w.Put(edge(r, 7), 7)
		}
		if p.ExtFlags&0x10 != 0 {
			w.Put(1, 2)
			w.Put(edge(r, 1), 1)
			w.Put(edge(r, 13), 13)
		}
		if p.ExtFlags&0x01 != 0 {
			w.Put(1, 1)
			w.Put(uint64(p.Ext2Len), 7)
			w.Bytes(fillN(r, p.Ext2Len))
		}
	}
	for i := 0; i < p.Stuff; i++ {
		w.Put(255, 8)
	}
	return w.Out()
}

func (p *PesP) Bytes(r *rand.Rand) []byte {
	var body BitWriter
	if !headerless(p.Id) {
		opt := p.optional(r)
		body.Put(2, 2)
		body.Put(uint64(p.Flags1), 6)
		body.Put(uint64(p.PtsDts), 2)
		body.Put(uint64(p.Flags2), 6)
		body.Put(uint64(len(opt)+p.HdlDelta), 8)
		body.Bytes(opt)
	}
	body.Bytes(p.Pay)
	b := body.Out()
	n := len(b) + p.LenDelta
	if p.Unbounded {
		n = 0
	}
	return append([]byte{0, 0, 1, byte(p.Id), byte(n >> 8), byte(n)}, b...)
}

// randOptional chooses optional header fields that fit a header.
func (p *PesP) randOptional(r *rand.Rand) {
	p.Flags1 = r.Intn(64)
	p.PtsDts = pick(r, 0, 2, 3)
	p.Pts, p.Dts = edge(r, 33)&0xffffffff, edge(r, 33)&0xffffffff
	switch r.Intn(3) {
	case 0:
		p.Flags2 = 0
	default:
		p.Flags2 = r.Intn(64)
	}
	p.ExtFlags = r.Intn(256) | 0x0e
	p.PackLen, p.Ext2Len = r.Intn(30), r.Intn(40)
	p.Stuff = pick(r, 0, 0, 1, 5, 32)
}

var pesIds = []int{0xe0, 0xe0, 0xef, 0xc0, 0xdf, 0xbd, 0xfd, 0xf3, 0xf9, 0xfa, 0xf7}

func randPesP(r *rand.Rand, o pesOpts) *PesP {
	p := &PesP{Id: 0xe0}
	if !o.plain {
		switch r.Intn(5) {
		case 0:
			p.Id = []int{0xbc, 0xbf, 0xf0, 0xf1, 0xff, 0xf2, 0xf8, 0xbe}[r.Intn(8)]
		case 1:
			if !o.noPad {
				p.Id = 0xbe
			}
		default:
			p.Id = pesIds[r.Intn(len(pesIds))]
		}
	} else if !o.noPad && r.Intn(5) == 0 {
		p.Id = 0xbe
	}
	p.randOptional(r)
	n := r.Intn(o.maxPay + 1)
	if r.Intn(6) == 0 {
		n = r.Intn(3)
	}
	if o.maxPay >= 100 && r.Intn(16) == 0 {
		n = edgeSize(r)
	}
	if n == 0 && headerless(p.Id) && p.Id != 0xbe {
		n = 1
	}
	p.Pay = fillN(r, n)
	if p.Id == 0xbe {
		for i := range p.Pay {
			p.Pay[i] = 255
		}
	}
	return p
}

// pesStream is a stream of n well-formed PES packets of bounded length.
func (g *Gen) pesStream(n int, o pesOpts) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, randPesP(g.r, o).Bytes(g.r)...)
	}
	return b
}

func (g *Gen) pespkts(b []byte, reuse bool, errs int) {
	g.add("pespkts", PesPktsIn{B: b, Ch: nn(randChunks(g.r)), End: "eof", Reuse: reuse, Max: len(b)/6 + 6, Errs: errs})
}

func init() {
	suites["E01"] = func(g *Gen) {
		r := g.r
		defer g.twins(g.n(40, 600))
		defer g.bigPes("E01")
		var batch []byte
		n := 0
		put := func(p *PesP) {
			batch = append(batch, p.Bytes(r)...)
			if n++; n%5 == 0 || len(batch) > 2500 {
				g.pespkts(batch, r.Intn(3) != 0, 1)
				batch = nil
			}
		}
		flush := func() {
			if len(batch) > 0 {
				g.pespkts(batch, true, 1)
				batch = nil
			}
		}
		// every stream id
		for id := 0xbc; id <= 0xff; id++ {
			for k := 0; k < 3; k++ {
				p := randPesP(r, pesOpts{maxPay: 40})
				p.Id = id
				put(p)
			}
		}
		// every combination of flags
		for f := 0; f < 256; f++ {
			p := randPesP(r, pesOpts{maxPay: 30, plain: true, noPad: true})
			if p.PtsDts = f >> 6; p.PtsDts == 1 {
				p.PtsDts = 0
			}
			p.Flags2 = f & 63
			put(p)
			p = randPesP(r, pesOpts{maxPay: 30, plain: true, noPad: true})
			p.Flags2 |= 1
			p.ExtFlags = f
			put(p)
			p.Flags2 = 1
			put(p)
		}
		for f := 0; f < 64; f++ {
			p := randPesP(r, pesOpts{maxPay: 10, plain: true, noPad: true})
			p.Flags1 = f
			put(p)
		}
		// time stamps, bit by bit (the 33rd included)
		for i := uint(0); i < 33; i++ {
			for k := 0; k < 2; k++ {
				p := &PesP{Id: 0xe0, PtsDts: 2 + k, Pts: 1 << i, Dts: (1<<32 - 1) ^ 1<<i, Pay: fillN(r, 5)}
				put(p)
			}
		}
		// lengths of the skipped fields, stuffing, payload
		for l := 0; l < 128; l += g.n(5, 1) {
			put(&PesP{Id: 0xe1, Flags2: 1, ExtFlags: 0x41, PackLen: l, Ext2Len: 127 - l, Pay: fillN(r, l)})
			put(&PesP{Id: 0xc1, PtsDts: 3, Pts: 7, Dts: 5, Stuff: l, Pay: fillN(r, 3)})
		}
		g.pesLengths(put, func(b []byte) { g.pespkts(b, r.Intn(2) == 0, 1) })
		flush()
		for _, l := range []int{0, 1, 2, 255, 256, 257, 4096, 65535 - 3, 65530} {
			if l < 5000 || g.thorough() {
				g.pespkts((&PesP{Id: 0xe0, Pay: fillN(r, l)}).Bytes(r), false, 1)
			}
		}
		g.pespkts((&PesP{Id: 0xbf, Pay: fillN(r, 300)}).Bytes(r), false, 1)
		// arbitrary mixtures, possibly ended by a packet of unbounded length
		for k := 0; k < g.n(220, 3500); k++ {
			b := g.pesStream(1+r.Intn(7), pesOpts{maxPay: 120})
			if r.Intn(3) == 0 {
				p := randPesP(r, pesOpts{maxPay: 200, plain: true, noPad: true})
				p.Unbounded = true
				b = append(b, p.Bytes(r)...)
			}
			g.pespkts(b, r.Intn(3) != 0, 1)
		}
	}

	suites["E02"] = func(g *Gen) {
		r := g.r
		defer g.twins(g.n(40, 600))
		defer g.bigPes("E02")
		var sc []pesScen
		g.scenarios("pes", &sc)
		left := g.n(600, 1<<30)
		for _, i := range r.Perm(len(sc)) {
			if left--; left < 0 {
				break
			}
			var b []byte
			for _, k := range sc[i].Pk {
				b = append(b, k.bytes(r)...)
			}
			g.add("pesread", PesReadIn{B: b, Ch: nn(randChunks(r)), End: "eof", Sizes: sc[i].Reads})
		}
		for k := 0; k < g.n(400, 6000); k++ {
			b := g.pesStream(r.Intn(8), pesOpts{maxPay: 150, plain: r.Intn(2) == 0})
			if r.Intn(3) == 0 {
				p := randPesP(r, pesOpts{maxPay: 300, plain: true, noPad: true})
				p.Unbounded = true
				b = append(b, p.Bytes(r)...)
			} else if r.Intn(5) == 0 {
				b = append(b, fillN(r, 1+r.Intn(9))...)
			} else if r.Intn(5) == 0 && len(b) > 0 {
				b = b[:len(b)-1-r.Intn(min(len(b)-1, 60)+1)]
			}
			g.add("pesread", PesReadIn{B: b, Ch: nn(randChunks(r)), End: "eof", Sizes: randSizes(r)})
		}
		for k := 0; k < g.n(12, 80); k++ {
			g.add("pesread", PesReadIn{B: g.longCut(), Ch: g.bigChunks(), End: "eof", Sizes: bigSizes[r.Intn(len(bigSizes))]})
		}
		for k := 0; k < g.n(2, 6); k++ {
			b := g.pesStream(5, pesOpts{maxPay: 120})
			for s := 1; s <= 300; s += g.n(7, 1) {
				g.add("pesread", PesReadIn{B: b, Ch: nn(randChunks(r)), End: "eof", Sizes: []int{s}})
			}
		}
	}

	suites["E03"] = func(g *Gen) {
		r := g.r
		defer g.twins(g.n(40, 600))
		defer g.bigPes("E03")
		one := func(b []byte) {
			if r.Intn(2) == 0 {
				b = append(randPesP(r, pesOpts{maxPay: 20}).Bytes(r), b...)
			}
			g.pespkts(b, r.Intn(2) == 0, 1)
		}
		// every single bit of a header with everything in it
		for _, pd := range []int{0, 2, 3} {
			p := &PesP{Id: 0xe0, PtsDts: pd, Pts: 0x2a5a5a5a, Dts: 0x15a5a5a5, Flags2: 0x3f, ExtFlags: 0xff, PackLen: 3, Ext2Len: 2, Stuff: 3, Pay: fillN(r, 10)}
			good := p.Bytes(r)
			for i := 0; i < (len(good)-10)*8; i++ {
				if pd != 3 && i >= 9*8+40 && i < (len(good)-16)*8 && !g.thorough() {
					continue
				}
				b := append([]byte(nil), good...)
				b[i/8] ^= 0x80 >> uint(i%8)
				g.pespkts(b, false, 1)
			}
			// every truncation
			for i := 0; i < len(good); i++ {
				g.pespkts(good[:i], i%2 == 0, 1)
			}
		}
		// the 4 bits in front of every time stamp, both combinations
		for v := 0; v < 16; v++ {
			for _, pd := range []int{2, 3} {
				b := (&PesP{Id: 0xe0, PtsDts: pd, Pts: 1, Dts: 1, Pay: fillN(r, 4)}).Bytes(r)
				b[9] = b[9]&0x0f | byte(v)<<4
				one(b)
				if pd == 3 {
					b = (&PesP{Id: 0xe0, PtsDts: pd, Pts: 1, Dts: 1, Pay: fillN(r, 4)}).Bytes(r)
					b[14] = b[14]&0x0f | byte(v)<<4
					one(b)
				}
			}
		}
		for v := 0; v < 4; v++ {
			b := (&PesP{Id: 0xe0, Pay: fillN(r, 4)}).Bytes(r)
			b[6] = b[6]&0x3f | byte(v)<<6
			one(b)
			b = (&PesP{Id: 0xe0, Flags2: 1, ExtFlags: 0x10, Pay: fillN(r, 4)}).Bytes(r)
			b[10] = b[10]&0x3f | byte(v)<<6
			one(b)
		}
		// stuffing bytes
		for pos := 0; pos < 6; pos++ {
			b := (&PesP{Id: 0xc0, PtsDts: 2, Pts: 9, Stuff: 6, Pay: fillN(r, 4)}).Bytes(r)
			b[14+pos] = byte(r.Intn(255))
			one(b)
		}
		for k := 0; k < g.n(60, 400); k++ {
			st := pick(r, 255, 1+r.Intn(255), 1+r.Intn(255), 1+r.Intn(20))
			b := (&PesP{Id: 0xe0, PtsDts: 2, Pts: 9, Stuff: st, Pay: fillN(r, 4)}).Bytes(r)
			if st > 250 {
				b = (&PesP{Id: 0xe0, Stuff: st, Pay: fillN(r, 4)}).Bytes(r)
			}
			h := len(b) - 4 - st
			b[h+pick(r, 0, st-1, r.Intn(st), r.Intn(st), st/2)] = byte(pick(r, 0, 254, 127, r.Intn(255)))
			one(b)
		}
		// a header cut inside of its last field, nothing behind it
		for _, b := range g.bareHeaders() {
			for c := 1; c <= 6; c++ {
				if c < len(b)-6 {
					g.pespkts(b[:len(b)-c], false, 1)
				}
			}
		}
		// contradicting lengths
		for d := -40; d <= 40; d++ {
			p := randPesP(r, pesOpts{maxPay: 30, plain: true, noPad: true})
			p.LenDelta = d
			if len((&PesP{Id: 0xe0}).Bytes(r))-6+d <= 0 {
				p.Pay = fillN(r, 60)
			}
			one(p.Bytes(r))
			q := randPesP(r, pesOpts{maxPay: 30, plain: true, noPad: true})
			q.Stuff, q.HdlDelta = 0, d
			one(q.Bytes(r))
		}
		for l := 0; l < 30; l++ { // declared packet length against a header of known size
			b := (&PesP{Id: 0xe0, PtsDts: 3, Pts: 1, Dts: 1, Stuff: 2, Pay: fillN(r, 40)}).Bytes(r)
			b[4], b[5] = 0, byte(l)
			one(b)
		}
		for h := 0; h < 256; h += g.n(3, 1) { // declared header length
			b := (&PesP{Id: 0xe0, PtsDts: 3, Pts: 1, Dts: 1, Stuff: 2, Pay: fillN(r, 300)}).Bytes(r)
			b[8] = byte(h)
			one(b)
		}
		g.cutPayloads(func(b []byte) { g.pespkts(b, r.Intn(2) == 0, 1) })
		// huge declared length, little data
		for _, id := range []int{0xe0, 0xbe, 0xbf, 0xbd} {
			for _, n := range []int{0xffff, 0x8000, 0x7fff, 40} {
				b := (&PesP{Id: id, Pay: fillN(r, 20)}).Bytes(r)
				b[4], b[5] = byte(n>>8), byte(n)
				one(b)
			}
		}
		for k := 0; k < g.n(150, 6000); k++ {
			b := randPesP(r, pesOpts{maxPay: 40}).Bytes(r)
			for m := 0; m <= r.Intn(3); m++ {
				b[r.Intn(min(len(b), 40))] ^= 1 << uint(r.Intn(8))
			}
			one(b)
		}
	}

	suites["E04"] = func(g *Gen) { g.pipelines(); g.twins(g.n(20, 300)); g.bigPes("E04") }
}

// pesScen is a scenario of the PES payload reader model.
type pesScen struct {
	Pk    []pesKind `json:"pk"`
	Reads []int     `json:"reads"`
}

type pesKind struct {
	K string `json:"k"` // hdr, plain, pad
	N int    `json:"n"` // payload bytes
}

func (k pesKind) bytes(r *rand.Rand) []byte {
	p := &PesP{Id: 0xe0, Pay: fillN(r, k.N)}
	switch k.K {
	case "plain":
		p.Id = 0xbf
	case "pad":
		p.Id = 0xbe
	default:
		p.randOptional(r)
	}
	return p.Bytes(r)
}

// muxTs puts the bytes of every unit into transport packets of pid, interleaved
// with packets of other pids.
func (g *Gen) muxTs(units [][]byte, pidv int) []byte {
	r := g.r
	var b []byte
	cc := 0
	other := func() {
		for r.Intn(3) == 0 {
			p := randTsP(r, []int{pidv ^ 1, 0x1fff, 0}[r.Intn(3)])
			b = append(b, p.Bytes(r)...)
		}
	}
	for _, u := range units {
		first := true
		for first || len(u) > 0 {
			other()
			n := 184
			if r.Intn(3) == 0 {
				n = r.Intn(184)
			}
			if n > len(u) {
				n = len(u)
			}
			p := &TsP{Pid: pidv, Pusi: first, Cc: cc & 15, Pay: u[:n]}
			u = u[n:]
			switch {
			case n == 184:
				p.Afc = 1
			case n == 0:
				p.Afc, p.Af = 2, af(r, 0x10, 0, 0, 0, 183)
			default:
				p.Afc = 3
				if n < 183 {
					p.Af = af(r, 0, 0, 0, 0, 183-n)
				}
			}
			if n == 0 {
				cc--
				if first { // the start must carry payload, or the next one is the start
					p.Pusi = false
					b = append(b, p.Bytes(r)...)
					cc++
					if len(u) == 0 {
						first = false
					}
					continue
				}
			}
			first = false
			cc++
			b = append(b, p.Bytes(r)...)
		}
	}
	other()
	return b
}

func (g *Gen) pipelines() {
	r := g.r
	for k := 0; k < g.n(260, 4000); k++ {
		es := fillN(r, r.Intn(900))
		long := r.Intn(12) == 0
		if long {
			es = fillN(r, 1500+r.Intn(5000))
		}
		mode := []string{"unit", "unit", "payload", "ps"}[r.Intn(4)]
		// cut the elementary stream into PES packets
		var units [][]byte
		rest := es
		for len(rest) > 0 || len(units) == 0 {
			n := 1 + r.Intn(400)
			if r.Intn(4) == 0 {
				n = 1 + r.Intn(8)
			}
			if long {
				n = 1 + r.Intn(3000)
			}
			if r.Intn(8) == 0 {
				n = 0 // nothing but a header
			}
			if n > len(rest) {
				n = len(rest)
			}
			p := &PesP{Id: 0xe0, Pay: rest[:n]}
			p.randOptional(r)
			rest = rest[n:]
			if mode == "unit" && r.Intn(2) == 0 {
				p.Unbounded = true
			}
			u := p.Bytes(r)
			if mode == "unit" && !p.Unbounded && len(rest) > 0 && r.Intn(3) == 0 {
				// two PES packets in one payload unit
				m := 1 + r.Intn(len(rest))
				q := &PesP{Id: 0xe0, Pay: rest[:m]}
				q.randOptional(r)
				rest = rest[m:]
				u = append(u, q.Bytes(r)...)
			}
			if mode != "unit" && r.Intn(6) == 0 || mode == "unit" && !p.Unbounded && r.Intn(6) == 0 {
				u = append(u, (&PesP{Id: 0xbe, Pay: make([]byte, r.Intn(30))}).Bytes(r)...)
			}
			units = append(units, u)
		}
		if mode == "unit" && r.Intn(6) == 0 {
			// the last packet is cut short
			p := &PesP{Id: 0xe0, Pay: fillN(r, 1+r.Intn(400))}
			p.randOptional(r)
			u := p.Bytes(r)
			units = append(units, u[:3+r.Intn(len(u)-3)])
		}
		in := PipeIn{Ch: nn(randChunks(r)), End: "eof", Mode: mode, Where: pid(300), Skip: unset, Take: unset, Sizes: randSizes(r), Es: es}
		if mode == "ps" {
			in.B = g.muxPs(units)
		} else {
			in.B = g.muxTs(units, 300)
			if mode == "payload" && r.Intn(2) == 0 {
				in.Skip = Pred{T: "and", A: &Pred{T: "pid", V: 300}, B: &Pred{T: "pusi"}}
			}
		}
		g.add("pipe", in)
	}
}

// edgeSize is a payload size next to one that could matter.
func edgeSize(r *rand.Rand) int {
	return pick(r, 0, 183, 184, 185, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2014, 2015, 2016, 2017, 2018, 2019,
		2020, 2047, 2048, 2049, 4095, 4096, 4097, 1000+r.Intn(1000), r.Intn(5000))
}

// bareHeaders are packets that end with each of the optional header fields.
func (g *Gen) bareHeaders() [][]byte {
	var l [][]byte
	for f := 0; f < 64; f++ {
		p := &PesP{Id: 0xe0, PtsDts: pick(g.r, 0, 2, 3), Pts: 1, Dts: 1, Flags2: f}
		if f&1 != 0 {
			p.ExtFlags = []int{0, 0x80, 0x40, 0x20, 0x10, 0x01}[g.r.Intn(6)]
			p.PackLen, p.Ext2Len = g.r.Intn(5), g.r.Intn(5)
		}
		l = append(l, p.Bytes(g.r))
	}
	for _, e := range []int{0, 0x80, 0x40, 0x20, 0x10, 0x01} {
		l = append(l, (&PesP{Id: 0xc0, Flags2: 1, ExtFlags: e, PackLen: 4, Ext2Len: 4}).Bytes(g.r))
	}
	for _, pd := range []int{0, 2, 3} {
		l = append(l, (&PesP{Id: 0xc0, PtsDts: pd}).Bytes(g.r))
	}
	return l
}
