package main

import (
	"bytes"
	"math/rand"
)

// Streams for the video suites.

func (g *Gen) vlc() *vlcTables {
	t := &vlcTables{}
	g.scenarios("vlc", t)
	t.init()
	return t
}

// VS builds a sequence: the writer plus what is needed to keep the structure legal.
type VS struct {
	*VEnc
	g     *Gen
	pics  int // pictures written
	calls int // upper bound on the calls needed
	refs  int // reference frames available
	side  bool
	// how pictures are made
	set func(p *Pic)
}

func (g *Gen) vs(t *vlcTables, w, h, prog int) *VS {
	return &VS{VEnc: newEnc(g.r, t, w, h, prog), g: g}
}

// pic makes up a picture with random parameters.
func (s *VS) pic(t byte, tr int) *Pic {
	r := s.r
	p := &Pic{T: t, TR: tr, Side: s.side, Prec: r.Intn(4), Qst: r.Intn(2), Ivf: r.Intn(2), Alt: r.Intn(2),
		Fpfd: r.Intn(2) == 0, MaxCoefs: 4, Big: 0.03, IntraP: 0.15, SkipP: 0.25, QuantP: 0.3, CodedP: 0.5, MoveP: 0.7}
	p.F = [2][2]int{{15, 15}, {15, 15}}
	p.Conc = r.Intn(5) == 0
	if t != 'I' || p.Conc {
		p.F[0] = [2]int{1 + r.Intn(4), 1 + r.Intn(4)}
	}
	if t == 'B' {
		p.F[1] = [2]int{1 + r.Intn(4), 1 + r.Intn(4)}
	}
	p.FwdRef, p.BwdRef = s.refs > 0, false
	if t == 'B' {
		p.FwdRef, p.BwdRef = s.refs > 1, s.refs > 0
	}
	if s.set != nil {
		s.set(p)
	}
	return p
}

// put writes a picture.
func (s *VS) put(p *Pic) {
	s.picture(p)
	s.pics++
	if p.T != 'B' && s.refs < 2 {
		s.refs++
	}
}

// group writes a group of pictures: for each reference picture its type and
// the number of B pictures shown in front of it. tr is the first temporal reference.
func (s *VS) group(refs string, bs []int, tr int) int {
	for k := range refs {
		s.put(s.pic(refs[k], tr+bs[k]))
		for j := 0; j < bs[k]; j++ {
			s.put(s.pic('B', tr+j))
		}
		tr += bs[k] + 1
	}
	return tr
}

func (s *VS) randShape(maxRef, maxB int, first bool) (string, []int) {
	r := s.r
	n := 1 + r.Intn(maxRef)
	refs, bs := "I", []int{r.Intn(maxB + 1)}
	for k := 1; k < n; k++ {
		refs += string("PPI"[r.Intn(3)])
		bs = append(bs, r.Intn(maxB+1))
	}
	return refs, bs
}

func (s *VS) header(mi, mn *[64]byte) { s.sequence(mi, mn, s.side) }

// gopHdr writes a group header; lead: B pictures in front of the first I picture.
func (s *VS) gopHdr(lead bool) {
	closed, broken := s.r.Intn(2) == 0, s.r.Intn(2) == 0
	if lead && s.r.Intn(4) == 0 {
		s.refs = 0 // the group does without the references in front of it
	}
	if lead {
		closed, broken = s.refs == 0, s.r.Intn(3) == 0
	}
	s.gop(s.r.Intn(1<<25)|1<<12, closed, broken, s.side)
}

// done ends the sequence.
func (s *VS) done() { s.end(); s.calls++; s.refs = 0 }

func (s *VS) runs(rs ...VRun) VFramesIn {
	b := s.Out()
	if len(rs) == 0 {
		rs = []VRun{{}}
		rs[0].Ch = randChunks(s.r)
	}
	for k := range rs {
		if rs[k].End == "" {
			rs[k].End = "eof"
		}
		if rs[k].Cut == 0 {
			rs[k].Cut = -1
		}
		rs[k].Ch = nn(rs[k].Ch)
		if rs[k].Pre == nil {
			rs[k].Pre = Bytes{}
		}
	}
	return VFramesIn{B: b, Runs: rs, Max: s.pics + s.calls + 3, Want: "end", Other: Bytes{}}
}

func (s *VS) add() { s.g.add("vframes", s.runs()) }

func smallSize(r *rand.Rand) (int, int) { return 1 + r.Intn(48), 1 + r.Intn(40) }

// general is a stream of a few groups of pictures.
func (g *Gen) general(t *vlcTables, w, h, groups, maxRef, maxB int, side bool, set func(p *Pic)) *VS {
	r := g.r
	s := g.vs(t, w, h, r.Intn(2))
	s.side, s.set = side, set
	s.header(nil, nil)
	for k := 0; k < groups; k++ {
		if k > 0 && r.Intn(3) == 0 {
			s.header(nil, nil)
		}
		rf, bs := s.randShape(maxRef, maxB, k == 0)
		s.gopHdr(bs[0] > 0)
		s.group(rf, bs, 0)
	}
	s.done()
	return s
}

type gopShape struct {
	Refs []string `json:"refs"`
	Bs   []int    `json:"bs"`
}

type gopScen struct {
	Gops []gopShape `json:"gops"`
	Sep  string     `json:"sep"`
}

// scenario turns a scenario that TLC enumerated into a stream.
func (g *Gen) gopStream(t *vlcTables, sc gopScen, w, h, prog int, side bool, set func(p *Pic)) *VS {
	s := g.vs(t, w, h, prog)
	s.side, s.set = side, set
	s.header(nil, nil)
	tr := 0
	for k, x := range sc.Gops {
		lead := x.Bs[0] > 0
		if k > 0 {
			switch sc.Sep {
			case "end":
				s.done()
				s.header(nil, nil)
				tr = 0
			case "seq":
				s.header(nil, nil)
			}
		}
		if k == 0 && sc.Sep != "none" || k > 0 && (sc.Sep == "gop" || sc.Sep == "seq" || g.r.Intn(2) == 0 && sc.Sep == "end") {
			s.gopHdr(lead)
			tr = 0
		}
		refs := ""
		for _, r := range x.Refs {
			refs += r
		}
		tr = s.group(refs, x.Bs, tr)
	}
	s.done()
	return s
}

func flat(p *Pic) { p.IntraP, p.MaxCoefs, p.Conc, p.SkipP = 1, 0, false, 0 }

func bits32(v uint32) code32 { return code32{v >> 16, v & 0xffff} }

func putBits(r *rand.Rand, lead int, f func(w *BitWriter)) []byte {
	w := &BitWriter{}
	for i := 0; i < lead; i++ {
		w.Put(uint64(r.Intn(2)), 1)
	}
	f(w)
	return w.Out()
}

// ---------------------------------------------------------------------------
// V01, V02: header level

func (g *Gen) matches() {
	r := g.r
	var ops []VMatchOp
	flush := func() {
		if len(ops) > 0 {
			b := Bytes{}
			for _, o := range ops {
				b = append(b, o.B...)
			}
			g.add("vmatch", VMatchIn{B: b, Ops: ops})
		}
		ops = nil
	}
	end := func() string { return []string{"eof", "fault"}[r.Intn(2)] }
	add := func(o VMatchOp) {
		if o.B == nil {
			o.B = Bytes{}
		}
		o.Ch, o.End = nn(randChunks(r)), end()
		if ops = append(ops, o); len(ops) == 60 {
			flush()
		}
	}
	both := func(b []byte, skip int, what string, v uint32) {
		if what == "sc" {
			add(VMatchOp{B: b, Skip: skip, What: "pc", Op: "check", Code: bits32(v)})
			add(VMatchOp{B: b, Skip: skip, What: "pc", Op: "assert", Code: bits32(v)})
		}
		add(VMatchOp{B: b, Skip: skip, What: what, Op: "check", Code: bits32(v)})
		add(VMatchOp{B: b, Skip: skip, What: what, Op: "assert", Code: bits32(v)})
	}
	// every start code against itself and its neighbours
	for c := 0; c < 256; c += g.n(1, 1) {
		skip := r.Intn(18)
		b := putBits(r, skip, func(w *BitWriter) { w.Put(uint64(0x100+c), 32); w.Put(uint64(r.Intn(1<<16)), 8*uint(r.Intn(3))) })
		both(b, skip, "sc", uint32(0x100+c))
		both(b, skip, "sc", uint32(0x100+c)^1<<uint(r.Intn(8)))
		both(b, skip, "sc", uint32(0x100+c)^1<<uint(r.Intn(32)))
	}
	// every offset and truncation
	for skip := 0; skip < 25; skip++ {
		for cut := 0; cut <= 5; cut++ {
			v := uint32(0x100 + r.Intn(256))
			b := putBits(r, skip, func(w *BitWriter) { w.Put(uint64(v), 32) })
			if cut >= len(b) {
				continue
			}
			b = b[:len(b)-cut]
			if skip > 8*len(b) {
				continue
			}
			both(b, skip, "sc", v)
			both(b, skip, "id", uint32(r.Intn(16)))
		}
	}
	// every extension identifier against every value
	for v := 0; v < 16; v++ {
		for id := 0; id < 16; id++ {
			skip := r.Intn(13)
			b := putBits(r, skip, func(w *BitWriter) { w.Put(uint64(v), 4); w.Put(uint64(r.Intn(4096)), uint(r.Intn(13))) })
			if r.Intn(2) == 0 {
				add(VMatchOp{B: b, Skip: skip, What: "id", Op: "check", Code: bits32(uint32(id))})
			} else {
				add(VMatchOp{B: b, Skip: skip, What: "id", Op: "assert", Code: bits32(uint32(id))})
			}
			if v == id {
				both(b, skip, "id", uint32(id))
			}
		}
	}
	for k := 0; k < g.n(100, 3000); k++ {
		skip := r.Intn(40)
		v := r.Uint32()
		switch r.Intn(3) {
		case 0:
			v = uint32(0x100 + r.Intn(256))
		case 1:
			v &= 0xff
		}
		b := putBits(r, skip, func(w *BitWriter) { w.Put(uint64(v), 32); w.Put(r.Uint64(), uint(r.Intn(60))) })
		if r.Intn(2) == 0 {
			v ^= 1 << uint(r.Intn(32))
		}
		both(b, skip, "sc", v)
		both(b, skip, "id", uint32(r.Intn(16)))
	}
	flush()
	// slice codes
	var cs []code32
	for v := uint32(0xf0); v < 0x220; v++ {
		cs = append(cs, bits32(v))
	}
	g.add("vslice", VSliceIn{cs})
	cs = nil
	for k := 0; k < 400; k++ {
		v := uint32(0x100 + r.Intn(256))
		v ^= 1 << uint(r.Intn(32))
		cs = append(cs, bits32(v), bits32(r.Uint32()), bits32(uint32(k%256)|uint32(r.Intn(4))<<8|1<<uint(16+r.Intn(16))), bits32(uint32(k%256)<<uint(8*(k%4))))
	}
	g.add("vslice", VSliceIn{cs})
}

func (g *Gen) alignments() {
	r := g.r
	for k := 0; k < g.n(250, 5000); k++ {
		var b []byte
		in := VAlignIn{End: []string{"eof", "fault"}[r.Intn(2)], Ch: nn(randChunks(r))}
		pos := 0
		n := 1 + r.Intn(4)
		for j := 0; j < n; j++ {
			v := uint32(0x100) | uint32(pick(r, 0xB3, 0xB8, 0, 0xB7, 1, r.Intn(256)))
			if r.Intn(8) == 0 {
				v = r.Uint32()
			}
			// garbage: random, zeros, false starts
			var gb []byte
			for m := r.Intn(5); m > 0; m-- {
				switch r.Intn(5) {
				case 0:
					gb = append(gb, randBytes(r, r.Intn(12))...)
				case 1:
					gb = append(gb, make([]byte, r.Intn(6))...)
				case 2:
					gb = append(gb, 0, 0, 1, byte(v)^byte(1+r.Intn(255)))
				case 3:
					gb = append(gb, []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8)}[:1+r.Intn(3)]...)
				case 4:
					// the code at a bit offset does not count
					o := 1 + r.Intn(7)
					gb = append(gb, putBits(r, o, func(w *BitWriter) { w.Put(uint64(v), 32) })...)
				}
			}
			b = append(b, gb...)
			if r.Intn(10) > 0 {
				b = append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
			} else if r.Intn(2) == 0 {
				b = append(b, []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8)}[:1+r.Intn(3)]...)
			}
			skip := pick(r, 0, 0, r.Intn(9), 8*r.Intn(5), r.Intn(40))
			if skip > 8*len(b)-pos {
				skip = 0
			}
			in.Steps = append(in.Steps, struct {
				Skip int    `json:"skip"`
				Code code32 `json:"code"`
			}{skip, bits32(v)})
			// only a bound of where the stream is: the specification knows
			pos = 8 * len(b)
		}
		if r.Intn(2) == 0 {
			b = append(b, randBytes(r, r.Intn(6))...)
		}
		in.B = nn2(b)
		// keep the skips in front of the end: one code at a time
		at := 0
		for j := range in.Steps {
			s := &in.Steps[j]
			if j > 0 && at+s.Skip > 8*len(b) {
				s.Skip = 0
			}
			o := (at + s.Skip + 7) / 8
			v := s.Code.v()
			for ; o+4 <= len(b); o++ {
				if uint32(b[o])<<24|uint32(b[o+1])<<16|uint32(b[o+2])<<8|uint32(b[o+3]) == v {
					break
				}
			}
			if o+4 > len(b) {
				in.Steps = in.Steps[:j+1]
				break
			}
			at = 8 * o
		}
		g.add("valign", in)
	}
	// far away
	for k := 0; k < g.n(8, 40); k++ {
		v := uint32(0x100) | uint32(pick(r, 0xB3, 0xB8, 0, 0xB7, 1, r.Intn(256)))
		n := pick(r, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 8200, 16400, 33000) + r.Intn(20)
		if k < 2 {
			n = 65530 + r.Intn(12) + 65536*k
		}
		gb := make([]byte, n)
		for i := range gb {
			switch k % 4 {
			case 0:
				gb[i] = byte(r.Intn(256))
			case 1: // other start codes
				gb[i] = []byte{0, 0, 1, byte(v) ^ 0x55}[i%4]
			case 2:
				gb[i] = 255
			}
		}
		for i := 0; i+3 < n; i++ {
			if gb[i] == 0 && gb[i+1] == 0 && gb[i+2] == 1 && gb[i+3] == byte(v) {
				gb[i+2] = 3
			}
		}
		b := append(gb, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
		in := VAlignIn{End: []string{"eof", "fault"}[r.Intn(2)], Ch: []int{1 + r.Intn(5000)}, B: append(b, randBytes(r, r.Intn(6))...)}
		in.Steps = append(in.Steps, struct {
			Skip int    `json:"skip"`
			Code code32 `json:"code"`
		}{r.Intn(9), bits32(v)})
		g.add("valign", in)
	}
}

func nn2(b []byte) []byte {
	if b == nil {
		return []byte{}
	}
	return b
}

// header stuffing: what follows a header
func (g *Gen) behind(w *BitWriter, kind int) {
	r := g.r
	switch kind {
	case 0:
		w.Align()
		w.Put(0x100|uint64(r.Intn(256)), 32)
	case 1:
		w.Align()
		w.Put(0, 8*uint(1+r.Intn(5)))
		w.Put(0x100|uint64(r.Intn(256)), 32)
	case 2:
		w.Align()
		w.Put(0, 8*uint(r.Intn(4)))
		w.Put(uint64(1+r.Intn(255)), 8)
		w.Put(0x100|uint64(r.Intn(256)), 32)
	case 3:
		w.Align()
		w.Put(0, 8*uint(r.Intn(4)))
	case 4:
		w.Align()
		w.Put(0, 16+8*uint(r.Intn(3)))
		w.Put(uint64(2+r.Intn(254)), 8)
		w.Put(0x100|uint64(r.Intn(256)), 32)
	}
	w.Put(r.Uint64()>>40, uint(r.Intn(4))*8)
}

func (g *Gen) gopHeaders() {
	r := g.r
	var hs []VHdr
	flush := func() {
		if len(hs) > 0 {
			b := Bytes{}
			for _, h := range hs {
				b = append(b, h.B...)
			}
			g.add("vgop", struct {
				B    Bytes  `json:"b"`
				Hdrs []VHdr `json:"hdrs"`
			}{b, hs})
		}
		hs = nil
	}
	add := func(tc, flags, skip, kind, cut int, code uint64) {
		b := putBits(r, skip, func(w *BitWriter) {
			w.Put(code, 32)
			w.Put(uint64(tc), 25)
			w.Put(uint64(flags), 2)
			g.behind(w, kind)
		})
		if cut > len(b) {
			cut = len(b)
		}
		b = b[:len(b)-cut]
		if skip > 8*len(b) {
			return
		}
		hs = append(hs, VHdr{B: nn2(b), Ch: nn(randChunks(r)), End: []string{"eof", "fault"}[r.Intn(2)], Skip: skip})
		if len(hs) == 30 {
			flush()
		}
	}
	rnd := func() int { return r.Intn(1<<25) | 1<<12 }
	for i := 0; i < 25; i++ {
		add(1<<uint(i)|1<<12, r.Intn(4), 0, 0, 0, 0x1B8)
		add((1<<25-1)^1<<uint(i)|1<<12, r.Intn(4), r.Intn(8), 0, 0, 0x1B8)
	}
	for v := 0; v < 64; v++ {
		add(1<<12|(v%32)<<19|v<<13|(63-v)<<6|v, v&3, 0, r.Intn(2), 0, 0x1B8)
		add(1<<12|1<<24|r.Intn(24)<<19|r.Intn(60)<<13|r.Intn(60)<<6|r.Intn(60), v&3, 0, r.Intn(2), 0, 0x1B8)
	}
	for cut := 0; cut < 14; cut++ {
		for kind := 0; kind < 5; kind++ {
			add(rnd(), r.Intn(4), pick(r, 0, 0, r.Intn(20)), kind, cut, 0x1B8)
		}
	}
	for k := 0; k < g.n(120, 4000); k++ {
		code := uint64(0x1B8)
		if r.Intn(12) == 0 {
			code ^= 1 << uint(r.Intn(32))
		}
		add(rnd(), r.Intn(4), pick(r, 0, 0, r.Intn(20)), pick(r, 0, 0, 0, 1, 1, 2, 3, 4), pick(r, 0, 0, 0, 0, r.Intn(13)), code)
	}
	g.padding(func(f func(w *BitWriter)) {
		hs = append(hs, VHdr{B: putBits(r, 0, func(w *BitWriter) {
			w.Put(0x1B8, 32)
			w.Put(uint64(rnd()), 25)
			w.Put(uint64(r.Intn(4)), 2)
			f(w)
		}), Ch: nn(randChunks(r)), End: "eof"})
		if len(hs) == 30 {
			flush()
		}
	})
	flush()
	var tcs [][5]int32
	for k := 0; k < 64; k++ {
		tcs = append(tcs, [5]int32{int32(k & 1), int32(k % 32), int32(k), int32(63 - k), int32(k ^ 21)})
		tcs = append(tcs, [5]int32{int32(r.Intn(2)), int32(r.Intn(32)), int32(r.Intn(64)), int32(r.Intn(64)), int32(r.Intn(64))})
		tcs = append(tcs, [5]int32{int32(r.Intn(2)), int32(r.Intn(12)), int32(r.Intn(12)), int32(r.Intn(12)), int32(r.Intn(12))})
	}
	g.add("vtime", VTimeIn{tcs})
}

func (g *Gen) seqHeaders(t *vlcTables) {
	r := g.r
	var hs []VHdr
	flush := func() {
		b := Bytes{}
		for _, h := range hs {
			b = append(b, h.B...)
		}
		g.add("vseqhdr", struct {
			B    Bytes  `json:"b"`
			Hdrs []VHdr `json:"hdrs"`
		}{b, hs})
		hs = nil
	}
	g.padding(func(f func(w *BitWriter)) {
		hs = append(hs, VHdr{B: putBits(r, 0, func(w *BitWriter) {
			w.Put(0x1B3, 32)
			w.Put(edge(r, 24), 24)
			w.Put(uint64(r.Intn(1<<8)), 8)
			w.Put(edge(r, 18), 18)
			w.Put(1, 1)
			w.Put(edge(r, 11), 11)
			w.Put(0, 2)
			f(w)
		}), Ch: nn(randChunks(r)), End: "eof"})
		if len(hs) == 25 {
			flush()
		}
	})
	flush()
	for k := 0; k < g.n(100, 1500); k++ {
		skip := pick(r, 0, 0, 0, r.Intn(20))
		code := uint64(0x1B3)
		if r.Intn(12) == 0 {
			code ^= 1 << uint(r.Intn(32))
		}
		mi, mn := r.Intn(4) == 0, r.Intn(4) == 0
		b := putBits(r, skip, func(w *BitWriter) {
			w.Put(code, 32)
			w.Put(edge(r, 24), 24)
			w.Put(uint64(r.Intn(1<<8)), 8)
			w.Put(edge(r, 18), 18)
			w.Flag(r.Intn(15) > 0)
			w.Put(edge(r, 11), 11)
			for _, m := range []bool{mi, mn} {
				w.Flag(m)
				if m {
					for _, v := range randMatrix(r) {
						w.Put(uint64(v), 8)
					}
				}
			}
			g.behind(w, pick(r, 0, 0, 0, 1, 1, 2, 3, 4))
		})
		cut := pick(r, 0, 0, 0, 0, r.Intn(20))
		b = b[:max(0, len(b)-cut)]
		if skip > 8*len(b) {
			continue
		}
		hs = append(hs, VHdr{B: nn2(b), Ch: nn(randChunks(r)), End: []string{"eof", "fault"}[r.Intn(2)], Skip: skip})
		if len(hs) == 25 {
			flush()
		}
	}
}

// ---------------------------------------------------------------------------
// V03: structure

func (g *Gen) structure(t *vlcTables) {
	r := g.r
	light := func(p *Pic) {
		p.MaxCoefs, p.Open = 1, true
		n := r.Intn(3) * r.Intn(3)
		if r.Intn(12) == 0 {
			n = r.Intn(70)
		}
		for ; n > 0; n-- {
			p.Extra = append(p.Extra, byte(r.Intn(256)))
		}
	}
	// side data everywhere
	for k := 0; k < g.n(40, 700); k++ {
		w, h := 1+r.Intn(32), 1+r.Intn(32)
		g.general(t, w, h, 1+r.Intn(3), 2, 2, true, light).add()
	}
	// repeated headers with the same or another size, sequence ends
	for k := 0; k < g.n(50, 800); k++ {
		s := g.vs(t, 1+r.Intn(32), 1+r.Intn(32), r.Intn(2))
		s.side, s.set = r.Intn(3) == 0, light
		bare := r.Intn(4) == 0 // without group headers
		mats := func() {
			var m [2]*[64]byte
			for i := range m {
				if r.Intn(3) == 0 {
					m[i] = randMatrix(r)
				}
			}
			s.header(m[0], m[1])
		}
		mats()
		tr := 0
		for n := 1 + r.Intn(4); n > 0; n-- {
			rf, bs := s.randShape(2, 1, false)
			if !bare && (tr == 0 || r.Intn(3) > 0) {
				s.gopHdr(bs[0] > 0)
				tr = 0
			}
			tr = s.group(rf, bs, tr)
			if n == 1 {
				break
			}
			switch r.Intn(5) {
			case 0:
				mats()
			case 1, 2:
				// another size; no reference is of use any more
				mw, mh := s.mw(), s.mh()
				s.Width, s.Height, s.Prog = 1+r.Intn(40), 1+r.Intn(40), r.Intn(2)
				if r.Intn(4) == 0 {
					s.Width, s.Height = s.Height, s.Width
				}
				if mw != s.mw() || mh != s.mh() {
					s.refs = 0
				}
				mats()
			case 3:
				s.done()
				if r.Intn(2) == 0 {
					s.Width, s.Height, s.Prog = 1+r.Intn(40), 1+r.Intn(40), r.Intn(2)
				}
				mats()
				tr = 0
			}
		}
		s.done()
		s.add()
	}
	// MPEG-1: no sequence extension behind the first sequence header
	for k := 0; k < g.n(12, 60); k++ {
		s := g.vs(t, 1+r.Intn(4095), 1+r.Intn(4095), 1)
		s.start(0xB3)
		s.Put(uint64(s.Width), 12)
		s.Put(uint64(s.Height), 12)
		s.Put(0x11, 8)
		s.Put(uint64(r.Intn(1<<18)), 18)
		s.Put(1, 1)
		s.Put(uint64(r.Intn(1<<11)), 11)
		for i := 0; i < 2; i++ {
			if r.Intn(3) == 0 {
				s.matrix(randMatrix(r))
			} else {
				s.matrix(nil)
			}
		}
		s.align(r.Intn(3))
		switch r.Intn(3) {
		case 0:
			s.start(0xB8)
			s.Put(1<<12, 27)
		case 1:
			s.userData()
		case 2:
			s.start(0)
			s.Put(8, 29)
		}
		s.align(0)
		s.start(0)
		s.Bytes(fillN(r, 40))
		in := s.runs()
		in.Want = "mpeg1"
		g.add("vframes", in)
	}
	// sizes up to 14 bits; the stream ends in front of the first picture's data
	for k := 0; k < g.n(30, 400); k++ {
		s := g.vs(t, 1, 1, r.Intn(2))
		s.Width, s.Height = 1+r.Intn(1<<14-1), 1+r.Intn(1<<14-1)
		switch k % 4 {
		case 0:
			s.Width = 1 << uint(k/4%14)
		case 1:
			s.Height = 1 << uint(k/4%14)
		case 2:
			s.Width, s.Height = pick(r, 4095, 4096, 4097, 8191, 8192, 16383), pick(r, 4095, 4096, 4097, 8191, 8192, 16383)
		}
		s.side = r.Intn(2) == 0
		s.header(nil, nil)
		if r.Intn(2) == 0 {
			s.gopHdr(false)
		}
		if r.Intn(2) == 0 {
			s.start(0)
		}
		s.align(0)
		in := s.runs()
		g.add("vframes", in)
	}
	// 4:2:2 and 4:4:4 are not supported
	for k := 0; k < 4; k++ {
		s := g.vs(t, 16, 16, 1)
		s.Chroma = 2 + k%2
		s.header(nil, nil)
		if k > 1 {
			s.gopHdr(false)
		}
		s.put(s.pic('I', 0))
		s.done()
		in := s.runs()
		in.Want = "bad"
		g.add("vframes", in)
	}
}

// ---------------------------------------------------------------------------
// V04, V05: order and references

func (g *Gen) scenGops() (v []gopScen) { g.scenarios("gops", &v); return }

func (g *Gen) order(t *vlcTables) {
	r := g.r
	for _, sc := range g.scenGops() {
		g.gopStream(t, sc, 16, 16, 1, false, flat).add()
	}
	for k := 0; k < g.n(10, 200); k++ {
		s := g.vs(t, 16, 16, 1)
		s.set = flat
		s.header(nil, nil)
		for n := 1 + r.Intn(4); n > 0; n-- {
			rf, bs := s.randShape(7, 5, false)
			s.gopHdr(bs[0] > 0)
			s.group(rf, bs, 0)
		}
		s.done()
		s.add()
	}
	// long groups: temporal references wrap around
	for k := 0; k < g.n(1, 6); k++ {
		s := g.vs(t, 16, 16, 1)
		s.set = flat
		s.header(nil, nil)
		s.gopHdr(false)
		tr := s.group("I", []int{0}, 0)
		for tr < 1040+k*1024 {
			b := pick(r, 0, 0, 1, 2)
			if k%2 == 1 && tr < 900 {
				b = 0
			}
			tr = s.group("P", []int{b}, tr)
		}
		if k%2 == 0 {
			s.gopHdr(true)
			s.group("IP", []int{1, 1}, 0)
		}
		s.done()
		s.add()
	}
}

func (g *Gen) references(t *vlcTables) {
	r := g.r
	set := func(p *Pic) {
		p.NoVec, p.Conc, p.MaxCoefs, p.SkipP = true, false, 1, 0.2
		p.IntraP, p.CodedP = 0.35, 0.3
		if p.T == 'B' {
			p.IntraP, p.CodedP = 0, 0
		}
	}
	for _, sc := range g.scenGops() {
		g.gopStream(t, sc, 32, 16, 1, false, set).add()
	}
	for k := 0; k < g.n(30, 500); k++ {
		s := g.vs(t, 1+r.Intn(48), 1+r.Intn(32), r.Intn(2))
		s.set = set
		s.header(nil, nil)
		for n := 1 + r.Intn(4); n > 0; n-- {
			rf, bs := s.randShape(4, 3, false)
			if n%2 == 1 || r.Intn(2) == 0 {
				s.gopHdr(bs[0] > 0)
				s.group(rf, bs, 0)
			}
			if r.Intn(3) == 0 && s.refs > 0 {
				s.header(nil, nil)
				s.gopHdr(true)
				s.group("IPP", []int{1, 2, 0}, 0)
			}
		}
		if s.refs == 0 {
			s.gopHdr(false)
			s.group("I", []int{0}, 0)
		}
		s.done()
		s.add()
	}
}

// longReferences: the temporal references wrap around in a long group.
func (g *Gen) longReferences(t *vlcTables) {
	r := g.r
	for k := 0; k < g.n(1, 4); k++ {
		s := g.vs(t, 16, 16, 1)
		s.set = func(p *Pic) {
			p.NoVec, p.Conc, p.MaxCoefs, p.SkipP, p.CodedP, p.Split = true, false, 0, 0, 0, 1
			if p.IntraP = 0.25; p.T == 'B' {
				p.IntraP = 0
			}
		}
		s.header(nil, nil)
		s.gopHdr(false)
		tr := s.group("I", []int{0}, 0)
		for tr < 1040+k*1024 {
			b := pick(r, 0, 0, 1, 2)
			if k%2 == 1 && tr < 1000 {
				b = 0
			}
			tr = s.group("P", []int{b}, tr)
		}
		if k%2 == 0 {
			s.gopHdr(true)
			s.group("IP", []int{1, 1}, 0)
		}
		s.done()
		s.add()
	}
	// many groups
	for k := 0; k < g.n(1, 4); k++ {
		s := g.vs(t, 16, 16, 1)
		s.set = flat
		s.header(nil, nil)
		for n := 0; n < 280; n++ {
			s.gopHdr(s.refs > 0)
			if s.refs > 0 {
				s.group("I", []int{r.Intn(2)}, 0)
			} else {
				s.group("I", []int{0}, 0)
			}
		}
		s.done()
		s.add()
	}
}

// ---------------------------------------------------------------------------
// V06: intra macroblocks

// list is a plan that takes macroblocks from a list; the rest is plain.
func (e *VEnc) list(ms []*MB) func(row, col int, first, last bool, prev *MB) *MB {
	k := 0
	return func(row, col int, first, last bool, prev *MB) *MB {
		if k < len(ms) {
			k++
			return ms[k-1]
		}
		return nil
	}
}

func (g *Gen) intraCodes(t *vlcTables) {
	r := g.r
	mid := func(prec int) (d [6]int) {
		for k := range d {
			d[k] = 1 << uint(7+prec)
		}
		return
	}
	// every code word of both tables, both signs, intra and not intra
	for ivf := 0; ivf < 2; ivf++ {
		rows := t.Coef14
		if ivf == 1 {
			rows = t.Coef15
		}
		var blocks [][]Coef
		for _, row := range rows[2:] {
			for s := -1; s < 2; s += 2 {
				blocks = append(blocks, []Coef{{Run: row.V[0], Level: s * row.V[1]}})
			}
		}
		r.Shuffle(len(blocks), func(i, j int) { blocks[i], blocks[j] = blocks[j], blocks[i] })
		for _, typ := range []byte("IP") {
			if typ == 'P' {
				blocks = nil
				for _, row := range t.Coef14[2:] {
					for s := -1; s < 2; s += 2 {
						blocks = append(blocks, []Coef{{Run: row.V[0], Level: s * row.V[1]}})
						blocks = append(blocks, []Coef{{Run: 0, Level: 1}, {Run: row.V[0], Level: s * row.V[1]}})
					}
				}
			}
			for at := 0; at < len(blocks); {
				s := g.vs(t, 96, 48, 1)
				s.header(nil, nil)
				if typ == 'P' {
					p := s.pic('I', 0)
					flat(p)
					s.put(p)
				}
				p := s.pic(typ, s.pics)
				p.Ivf, p.Qst, p.SliceQS, p.Conc, p.F = ivf, 0, 1+r.Intn(2), false, [2][2]int{{1, 1}, {15, 15}}
				var ms []*MB
				for len(ms) < 18 {
					m := &MB{Intra: typ == 'I', Patt: typ == 'P', Fwd: typ == 'P', Cbp: 63, DC: mid(p.Prec), Field: r.Intn(2) == 0}
					for k := 0; k < 6; k++ {
						m.Coefs[k] = []Coef{{Run: 0, Level: 1}}
						if at < len(blocks) {
							m.Coefs[k] = blocks[at]
							at++
						}
					}
					ms = append(ms, m)
				}
				p.Plan = s.list(ms)
				s.put(p)
				s.done()
				s.add()
			}
		}
	}
	// DC sizes: every size and sign, at every precision
	for prec := 0; prec < 4; prec++ {
		top := 1<<uint(8+prec) - 1
		s := g.vs(t, 80, 48, 1)
		s.header(nil, nil)
		for n := 0; n < 3; n++ {
			p := s.pic('I', n)
			p.Prec, p.Split, p.Conc = prec, 1, false
			var ms []*MB
			cur := [3]int{1 << uint(7+prec), 1 << uint(7+prec), 1 << uint(7+prec)}
			step := 0
			for len(ms) < 15 {
				if len(ms)%5 == 0 {
					cur = [3]int{1 << uint(7+prec), 1 << uint(7+prec), 1 << uint(7+prec)}
				}
				m := &MB{Intra: true}
				for k := 0; k < 6; k++ {
					c := 0
					if k > 3 {
						c = k - 3
					}
					// a size that goes from here
					for {
						size := step % (9 + prec)
						step++
						d := 0
						if size > 0 {
							d = 1<<uint(size-1) + pick(r, 0, 1<<uint(size-1)-1, r.Intn(1<<uint(size-1)))
						}
						if cur[c]+d <= top && (r.Intn(2) == 0 || cur[c]-d < 0) {
							cur[c] += d
						} else if cur[c]-d >= 0 {
							cur[c] -= d
						} else {
							continue
						}
						break
					}
					m.DC[k] = cur[c]
				}
				ms = append(ms, m)
			}
			p.Plan = s.list(ms)
			s.put(p)
		}
		s.done()
		s.add()
	}
	// escapes: runs and levels, one large coefficient at every position
	for n := 0; n < g.n(2, 12); n++ {
		s := g.vs(t, 96, 32, 1)
		s.header(nil, nil)
		p := s.pic('I', 0)
		p.Prec, p.Conc = r.Intn(4), false
		var ms []*MB
		for len(ms) < 12 {
			m := &MB{Intra: true, DC: mid(p.Prec)}
			for k := 0; k < 6; k++ {
				run := (6*len(ms) + k + n*17) % 63
				lv := pick(r, 1, 2, 40, 41, 127, 128, 255, 256, 1000, 2046, 2047, 1+r.Intn(2047))
				m.Coefs[k] = []Coef{{Run: run, Level: lv * (1 - 2*r.Intn(2)), Esc: true}}
			}
			ms = append(ms, m)
		}
		p.Plan = s.list(ms)
		s.put(p)
		s.done()
		s.add()
	}
	// dense blocks
	for n := 0; n < g.n(6, 60); n++ {
		g.general(t, 32, 16, 1, 2, 0, false, func(p *Pic) {
			p.MaxCoefs, p.IntraP, p.Big = 63, 0.9, 0
			p.SliceQS, p.QuantP = 1, 0
		}).add()
	}
	// predictors of the DC coefficients: slices, skipped and non-intra macroblocks
	for n := 0; n < g.n(20, 300); n++ {
		g.general(t, 16*(2+r.Intn(4)), 32, 1, 3, 1, false, func(p *Pic) {
			p.MaxCoefs, p.IntraP, p.SkipP, p.CodedP, p.NoVec = 1, 0.6, 0.35, 0.3, true
		}).add()
	}
}

// reserved puts a reserved code somewhere.
func (g *Gen) reserved(t *vlcTables) {
	r := g.r
	one := func(typ byte, setup func(s *VS, p *Pic), make func(s *VS, p *Pic) *MB) {
		s := g.vs(t, 48, 32, 1)
		s.header(nil, nil)
		s.set = func(p *Pic) { flat(p); p.Conc = false }
		s.put(s.pic('I', 0))
		tr := 1
		if typ == 'B' {
			s.put(s.pic('P', 2))
		}
		p := s.pic(typ, tr)
		p.IntraP, p.SkipP = 0.5, 0.2
		p.F = [2][2]int{{1 + r.Intn(3), 1 + r.Intn(3)}, {1 + r.Intn(3), 1 + r.Intn(3)}}
		if setup != nil {
			setup(s, p)
		}
		at := r.Intn(6)
		k := -1
		raw := false
		p.Plan = func(row, col int, first, last bool, prev *MB) *MB {
			k++
			if k < at || raw {
				return nil
			}
			raw = true
			return make(s, p)
		}
		s.put(p)
		s.set = func(p *Pic) { flat(p); p.Conc = false }
		s.put(s.pic('I', tr+2))
		s.done()
		in := s.runs()
		in.Want = "bad"
		g.add("vframes", in)
	}
	some := func(l []string) []string {
		if len(l) > 12 && !g.thorough() {
			r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
			l = l[:12]
		}
		return l
	}
	tailBits := func() string {
		b := ""
		for i := 0; i < 40; i++ {
			b += string("01"[r.Intn(2)])
		}
		return b + "1111"
	}
	for ivf := 0; ivf < 2; ivf++ {
		for _, u := range some(t.unused([]string{"c0", "c1"}[ivf])) {
			for k := 0; k < 2; k++ {
				u, k := u, k
				intra := ivf == 1 || k == 0
				typ := byte('I')
				if !intra {
					typ = 'P'
				}
				one(typ, func(s *VS, p *Pic) { p.Ivf = ivf }, func(s *VS, p *Pic) *MB {
					m := &MB{Intra: intra, Patt: !intra, Fwd: !intra, Cbp: 1 << uint(r.Intn(6)), DC: [6]int{128, 128, 128, 128, 128, 128}}
					for j := range m.Coefs {
						m.Coefs[j] = []Coef{{Run: 1, Level: 1}}
						if intra && r.Intn(2) == 0 {
							m.Coefs[j] = nil
						}
					}
					for j := range m.DC {
						m.DC[j] = 1 << uint(7+p.Prec)
					}
					m.RawBlock = u + tailBits()
					return m
				})
			}
		}
	}
	for i, tab := range []string{"dc0", "dc1"} {
		for _, u := range t.unused(tab) {
			i, u := i, u
			one('I', nil, func(s *VS, p *Pic) *MB {
				b := "1"
				if !p.Fpfd {
					b += "0"
				}
				if i == 1 {
					// four blocks with difference zero, the last Cb or at once
					for j := 0; j < 4; j++ {
						b += t.code("dc0", 0) + t.code("c"+string("01"[p.Ivf]), -1, 0)
					}
				}
				return &MB{Raw: b + u + tailBits()}
			})
		}
	}
	for _, typ := range []byte("IPB") {
		for _, u := range t.unused(string(typ)) {
			u := u
			one(typ, nil, func(s *VS, p *Pic) *MB { return &MB{Raw: u + tailBits()} })
		}
	}
	for _, u := range some(t.unused("inc")) {
		u := u
		one("IPB"[r.Intn(3)], nil, func(s *VS, p *Pic) *MB { return &MB{RawInc: u + "1" + tailBits()} })
		one("IPB"[r.Intn(3)], nil, func(s *VS, p *Pic) *MB { return &MB{RawInc: "00000001000" + u + "1" + tailBits()} })
	}
	for _, u := range some(t.unused("motion")) {
		for k := 0; k < 2; k++ {
			u, k := u, k
			one('P', nil, func(s *VS, p *Pic) *MB {
				b := t.code("P", 0, 1, 0, 0, 0)
				if !p.Fpfd {
					b += "10"
				}
				if k == 1 {
					b += t.code("motion", 0)
				}
				return &MB{Raw: b + u + tailBits()}
			})
		}
	}
	for _, u := range some(t.unused("cbp")) {
		u := u
		one('P', nil, func(s *VS, p *Pic) *MB {
			b := t.code("P", 0, 0, 0, 1, 0)
			if !p.Fpfd {
				b += "0"
			}
			return &MB{Raw: b + u + tailBits()}
		})
	}
	// frame motion types that are reserved or for fields, the concealment marker
	for _, mt := range []string{"00", "11"} {
		mt := mt
		one('P', func(s *VS, p *Pic) { p.Fpfd = false }, func(s *VS, p *Pic) *MB {
			return &MB{Raw: t.code("P", 0, 1, 0, 0, 0) + mt + tailBits()}
		})
	}
	// a coefficient beyond the block
	for k := 0; k < 12; k++ {
		one('I', nil, func(s *VS, p *Pic) *MB {
			m := &MB{Intra: true}
			for j := range m.DC {
				m.DC[j] = 1 << uint(7+p.Prec)
			}
			at := 1
			for at <= 63 {
				c := Coef{Run: r.Intn(40), Level: 1, Esc: r.Intn(2) == 0}
				if at+c.Run > 63 && at < 60 && r.Intn(2) == 0 {
					c.Run = 63 - at
				}
				at += c.Run + 1
				m.Coefs[0] = append(m.Coefs[0], c)
			}
			if at == 64 {
				m.Coefs[0] = append(m.Coefs[0], Coef{Run: 0, Level: 1})
			}
			m.RawBlock = t.code("c"+string("01"[p.Ivf]), -1, 0) + tailBits()
			return m
		})
	}
}

// ---------------------------------------------------------------------------
// V07: quantisation

func (g *Gen) quantisation(t *vlcTables) {
	r := g.r
	mat := func(p float64) *[64]byte {
		if r.Float64() < p {
			return randMatrix(r)
		}
		return nil
	}
	set := func(p *Pic) {
		p.MaxCoefs, p.Big, p.QuantP, p.IntraP, p.NoVec, p.CodedP = 4, 0.15, 0.5, 0.4, true, 0.9
		if r.Intn(3) == 0 {
			p.LoadExt = true
			p.Load[0], p.Load[1] = mat(0.5), mat(0.5)
		}
	}
	for k := 0; k < g.n(40, 600); k++ {
		s := g.vs(t, 16*(1+r.Intn(3)), 16, 1)
		s.set = set
		s.header(mat(0.4), mat(0.4))
		for n := 1 + r.Intn(3); n > 0; n-- {
			rf, bs := s.randShape(3, 1, false)
			s.gopHdr(bs[0] > 0)
			s.group(rf, bs, 0)
			if n > 1 && r.Intn(2) == 0 {
				s.header(mat(0.3), mat(0.3))
			}
		}
		s.done()
		s.add()
	}
	// every scale code of both types, intra and not, small and large levels
	for qst := 0; qst < 2; qst++ {
		for _, intra := range []bool{true, false} {
			s := g.vs(t, 64, 32, 1)
			s.header(mat(0.5), mat(0.5))
			p := s.pic('I', 0)
			flat(p)
			s.put(p)
			code := 0
			for n := 1; n <= 4; n++ {
				p := s.pic('P', n)
				p.Qst, p.Conc, p.F = qst, false, [2][2]int{{1, 1}, {15, 15}}
				var ms []*MB
				for len(ms) < 8 {
					code = code%31 + 1
					m := &MB{Intra: intra, Patt: !intra, Quant: true, QS: code, Cbp: 63}
					for j := 0; j < 6; j++ {
						m.DC[j] = 1 << uint(7+p.Prec)
						run := r.Intn(50)
						lv := 1 + r.Intn(3)
						switch r.Intn(3) {
						case 0:
							lv = 1 + r.Intn(2047)
						case 1:
							w := s.W[1]
							if intra {
								w = s.W[0]
							}
							// around saturation
							scan := t.Zig
							if p.Alt == 1 {
								scan = t.Alt
							}
							at := run
							if intra {
								at++
							}
							s.VEnc.pic = p
							q := w[scan[at]] * s.scale(code)
							lv = 2047*16/q + r.Intn(3) - 1
							if lv > 2047 {
								lv = 2047
							}
							if lv < 1 {
								lv = 1
							}
						}
						m.Coefs[j] = []Coef{{Run: run, Level: lv * (1 - 2*r.Intn(2)), Esc: true}}
					}
					ms = append(ms, m)
				}
				p.Plan = s.list(ms)
				s.put(p)
			}
			s.done()
			s.add()
		}
	}
}

// ---------------------------------------------------------------------------
// V08: addresses

func (g *Gen) addresses(t *vlcTables) {
	r := g.r
	// every partition of a row into slices
	for w := 1; w <= 5; w++ {
		for part := 0; part < 1<<uint(w-1); part++ {
			s := g.vs(t, 16*w, 16, 1)
			s.set = flat
			s.cuts = func(row int) (c []int) {
				for i := 1; i < w; i++ {
					if part>>uint(i-1)&1 == 1 {
						c = append(c, i)
					}
				}
				return
			}
			s.header(nil, nil)
			s.put(s.pic('I', 0))
			s.set = func(p *Pic) { p.NoVec, p.MaxCoefs, p.SkipP, p.IntraP = true, 1, 0.5, 0.3 }
			s.put(s.pic('P', 2))
			s.put(s.pic('B', 1))
			s.done()
			s.add()
		}
	}
	// address increments of the first macroblock of a slice, with escapes
	for k := 0; k < g.n(5, 12); k++ {
		w := []int{36, 40, 70, 104, 35, 34, 68, 69, 101, 110, 50, 67}[k%12]
		s := g.vs(t, 16*w, 64, 1)
		s.set = func(p *Pic) { flat(p); p.Fpfd = true }
		s.cuts = func(row int) []int { return []int{1 + (row*13+k*7+r.Intn(w-1))%(w-1)} }
		s.header(nil, nil)
		s.put(s.pic('I', 0))
		s.done()
		s.add()
	}
	// increments inside of slices: runs of skipped macroblocks
	for k := 0; k < g.n(5, 20); k++ {
		w := 72
		s := g.vs(t, 16*w, 32, 1)
		s.set = func(p *Pic) { flat(p); p.Fpfd = true }
		s.header(nil, nil)
		p := s.pic('I', 0)
		s.put(p)
		for n := 0; n < 4; n++ {
			inc := []int{2 + (8*k+2*n)%69, 2 + (8*k+2*n+1)%69}
			s.set = nil
			p := s.pic("PPPB"[n], []int{1, 2, 4, 3}[n])
			p.Conc, p.Split, p.MaxCoefs, p.NoVec = false, 1, 1, false
			p.F = [2][2]int{{1, 1}, {1, 1}}
			if n == 3 {
				p.SkipP, p.IntraP = 0, 0
			}
			next := 0
			p.Plan = func(row, col int, first, last bool, prev *MB) *MB {
				if first {
					next = inc[row%2]
					m := s.plan(row, col, true, true, prev)
					if p.T == 'B' {
						// what is repeated must stay inside
						m.Vec = [2][2]int{{r.Intn(16), 0}, {r.Intn(16), 0}}
					}
					return m
				}
				if last || col == next {
					next = col + 1 + r.Intn(40)
					if m := s.plan(row, col, true, true, prev); true {
						if p.T == 'B' {
							m.Vec = [2][2]int{{-r.Intn(16), 0}, {-r.Intn(16), 0}}
						}
						return m
					}
				}
				if p.T == 'B' {
					for t := 0; t < 2; t++ {
						if t == 0 && prev.Fwd || t == 1 && prev.Bwd {
							if !s.inside(row, col, prev.Vec[t]) {
								return s.plan(row, col, true, true, prev)
							}
						}
					}
				}
				return &MB{Skip: true}
			}
			s.put(p)
		}
		s.done()
		s.add()
	}
	// wide pictures
	for k := 0; k < g.n(1, 6); k++ {
		w := []int{257 + r.Intn(40), 129 + r.Intn(30), 300, 513, 1023, 260}[k]
		s := g.vs(t, 16*w, 16, 1)
		s.set = func(p *Pic) { flat(p); p.Fpfd = true }
		s.header(nil, nil)
		s.put(s.pic('I', 0))
		s.set = func(p *Pic) {
			p.Conc, p.MaxCoefs, p.SkipP, p.IntraP, p.CodedP, p.Split = false, 0, 0.9, 0.3, 0, 1+r.Intn(2)
		}
		s.put(s.pic('P', 1))
		s.done()
		s.add()
	}
	// very wide pictures: long runs of skipped macroblocks, slices that begin far out
	for k := 0; k < g.n(2, 6); k++ {
		w := 600 + r.Intn(424)
		if k%2 == 1 {
			w = 1010 + r.Intn(14)
		}
		s := g.vs(t, 16*w, 16, 1)
		s.set = func(p *Pic) { flat(p); p.Fpfd = true }
		s.cuts = func(row int) []int { return []int{[]int{w - 1 - r.Intn(60), 513 + r.Intn(w-514)}[k%2]} }
		s.header(nil, nil)
		s.put(s.pic('I', 0))
		s.set = nil
		s.cuts = func(row int) []int { return nil }
		for n, ty := range "PB" {
			p := s.pic(byte(ty), 2-n)
			p.Conc, p.MaxCoefs, p.IntraP, p.CodedP, p.F = false, 0, 0, 0, [2][2]int{{1, 1}, {1, 1}}
			at := map[int]bool{0: true, r.Intn(9): true, w - 1: true}
			p.Plan = func(row, col int, first, last bool, prev *MB) *MB {
				if !at[col] {
					return &MB{Skip: true}
				}
				m := s.plan(row, col, true, true, prev)
				m.Vec = [2][2]int{}
				return m
			}
			s.put(p)
		}
		s.done()
		s.add()
	}
	// tall pictures: the vertical position extension
	for k := 0; k < g.n(3, 11); k++ {
		h := []int{2801, 2816, 2800, 2799, 4100, 2050, 2817, 4095, 2801 + r.Intn(15), 2784, 2753 + r.Intn(31)}[k]
		s := g.vs(t, 16, h, 1)
		if k > 7 {
			s.Prog = 0
		}
		s.set = func(p *Pic) { flat(p); p.Fpfd = true }
		s.header(nil, nil)
		s.put(s.pic('I', 0))
		s.set = func(p *Pic) {
			p.MaxCoefs, p.CodedP, p.IntraP, p.MoveP, p.Open = 0, 0, 0.05, 0.5, true
		}
		s.put(s.pic('P', 1))
		s.done()
		s.add()
	}
	// coded block patterns
	for k := 0; k < g.n(2, 8); k++ {
		s := g.vs(t, 128, 32, 1)
		s.set = flat
		s.header(nil, nil)
		s.put(s.pic('I', 0))
		cbp := 0
		for n := 1; n <= 4; n++ {
			s.set = func(p *Pic) { p.Conc, p.NoVec = false, k%2 == 0 }
			p := s.pic('P', n)
			var ms []*MB
			for len(ms) < 16 {
				cbp = cbp%63 + 1
				m := &MB{Patt: true, Fwd: r.Intn(2) == 0, Cbp: cbp, Field: r.Intn(2) == 0}
				for j := range m.Coefs {
					m.Coefs[j] = []Coef{{Run: r.Intn(3), Level: 3 + r.Intn(10)}}
				}
				ms = append(ms, m)
			}
			p.Plan = s.list(ms)
			s.put(p)
		}
		s.done()
		s.add()
	}
	// skipped macroblocks in B pictures after every kind of macroblock
	for k := 0; k < g.n(25, 400); k++ {
		g.general(t, 16*(3+r.Intn(6)), 16*(1+r.Intn(3)), 1, 2, 2, false, func(p *Pic) {
			p.MaxCoefs, p.SkipP, p.IntraP, p.CodedP, p.MoveP, p.Open = 1, 0.5, 0.15, 0.2, 0.6, true
			if p.T == 'I' {
				p.MaxCoefs = 3
			}
			if p.Split = 0; r.Intn(2) == 0 {
				p.Split = 1
			}
		}).add()
	}
}

// ---------------------------------------------------------------------------
// V09: vectors

func (g *Gen) vectors(t *vlcTables) {
	r := g.r
	// concealment vectors are arbitrary: every f_code, every motion code and residual
	for fc := 1; fc <= 9; fc++ {
		f := 1 << uint(fc-1)
		for rep := 0; rep < g.n(1, 8); rep++ {
			s := g.vs(t, 16*9, 32, 1)
			s.set = func(p *Pic) { p.Conc, p.MaxCoefs = false, 2 }
			s.header(nil, nil)
			s.put(s.pic('I', 0))
			s.set = nil
			for n := 1; n <= 2; n++ {
				p := s.pic('P', n)
				p.Conc, p.MaxCoefs, p.CodedP = true, 0, 0
				p.F[0] = [2]int{fc, fc}
				if n == 2 {
					p.F[0][r.Intn(2)] = 1 + r.Intn(9)
				}
				p.SkipP, p.IntraP, p.MoveP = 0.05, 0.55, 1
				code := r.Intn(33)
				p.Plan = func(row, col int, first, last bool, prev *MB) *MB {
					m := s.plan(row, col, first, last, prev)
					if m.Intra && !first {
						// a delta of a given motion code, from what the predictor is now
						for t := 0; t < 2; t++ {
							f := 1 << uint(p.F[0][t]-1)
							c := code%33 - 16
							code += 7
							d := 0
							if c != 0 {
								d = (abs(c)-1)*f + 1 + pick(r, 0, f-1, r.Intn(f))
							}
							if c < 0 {
								d = -d
							}
							v := s.pmv[0][t] + d
							if v < -16*f {
								v += 32 * f
							} else if v > 16*f-1 {
								v -= 32 * f
							}
							m.Vec[0][t] = v
						}
					}
					return m
				}
				s.put(p)
			}
			s.done()
			s.add()
		}
		_ = f
	}
	// real vectors in large pictures
	for k := 0; k < g.n(4, 30); k++ {
		w, h := 16*(8+r.Intn(20)), 32
		if k%2 == 1 {
			w, h = 32, 16*(8+r.Intn(20))
		}
		s := g.vs(t, w, h, 1)
		s.set = func(p *Pic) { p.Conc, p.MaxCoefs, p.Prec = false, 1, 0 }
		s.header(nil, nil)
		s.put(s.pic('I', 0))
		s.set = func(p *Pic) {
			p.MaxCoefs, p.CodedP, p.IntraP, p.SkipP, p.MoveP = 0, 0, 0.1, 0.1, 0.9
			p.F = [2][2]int{{1 + r.Intn(9), 1 + r.Intn(9)}, {1 + r.Intn(9), 1 + r.Intn(9)}}
			if p.T == 'P' {
				p.F[1] = [2]int{15, 15}
			}
			p.Split = 1
		}
		s.put(s.pic('P', 2))
		s.put(s.pic('B', 1))
		s.done()
		s.add()
	}
	// predictors: what keeps them and what resets them
	for k := 0; k < g.n(40, 700); k++ {
		g.general(t, 16*(3+r.Intn(5)), 16*(1+r.Intn(3)), 1, 3, 2, false, func(p *Pic) {
			p.MaxCoefs, p.CodedP, p.SkipP, p.IntraP, p.MoveP = 1, 0.2, 0.2, 0.2, 0.8
			p.Conc = p.T != 'I' && r.Intn(2) == 0
			if p.T == 'I' {
				p.MaxCoefs = 4
				if p.Conc = r.Intn(4) == 0; p.Conc {
					p.F[0] = [2]int{1 + r.Intn(9), 1 + r.Intn(9)}
				}
			}
			if r.Intn(2) == 0 {
				p.Split = 1
			}
		}).add()
	}
}

// ---------------------------------------------------------------------------
// V10: prediction and residuals

func (g *Gen) prediction(t *vlcTables) {
	r := g.r
	// every small displacement, forward, backward and both
	var vecs [][2]int
	for x := -5; x <= 5; x++ {
		for y := -5; y <= 5; y++ {
			vecs = append(vecs, [2]int{x, y})
		}
	}
	for rep := 0; rep < g.n(1, 4); rep++ {
		for at := 0; at < len(vecs); {
			s := g.vs(t, 16*6, 16*3, 1)
			s.set = func(p *Pic) { p.Conc, p.MaxCoefs, p.Big, p.IntraP = false, 8, 0.1, 0.8 }
			s.header(nil, nil)
			s.put(s.pic('I', 0))
			s.put(s.pic('P', 3))
			for n := 1; n <= 2; n++ {
				s.set = nil
				p := s.pic('B', n)
				p.MaxCoefs, p.CodedP, p.IntraP, p.SkipP, p.Conc = 1, 0.1, 0, 0, false
				p.F = [2][2]int{{2, 2}, {2, 2}}
				p.Plan = func(row, col int, first, last bool, prev *MB) *MB {
					m := s.plan(row, col, first, last, prev)
					for t := 0; t < 2; t++ {
						if at < len(vecs) && s.inside(row, col, vecs[at]) {
							m.Vec[t] = vecs[at]
							if (row+col+t)%3 == 0 {
								at++
							}
						}
					}
					return m
				}
				s.put(p)
			}
			s.done()
			s.add()
		}
	}
	for k := 0; k < g.n(40, 600); k++ {
		w, h := 16+r.Intn(60), 16+r.Intn(60)
		g.general(t, w, h, 1, 2, 2, false, func(p *Pic) {
			p.MaxCoefs, p.CodedP, p.IntraP, p.SkipP, p.MoveP, p.Conc = 3, 0.5, 0.1, 0.1, 0.9, false
			p.Fpfd = r.Intn(4) == 0
			if p.T == 'I' {
				p.MaxCoefs, p.Big = 6, 0.1
			}
			if r.Intn(4) == 0 {
				p.Big = 0.5 // clamping
			}
		}).add()
	}
	// clamping: extreme samples and residuals
	for k := 0; k < g.n(6, 60); k++ {
		s := g.vs(t, 48, 32, 1)
		s.header(nil, nil)
		p := s.pic('I', 0)
		p.Conc = false
		p.Plan = func(row, col int, first, last bool, prev *MB) *MB {
			m := &MB{Intra: true, Field: r.Intn(2) == 0}
			for j := range m.DC {
				m.DC[j] = pick(r, 0, 1<<uint(8+p.Prec)-1, r.Intn(1<<uint(8+p.Prec)))
			}
			return m
		}
		s.put(p)
		for n := 1; n < 3; n++ {
			p := s.pic('P', n)
			p.Conc, p.F = false, [2][2]int{{1, 1}, {15, 15}}
			p.Fpfd = r.Intn(3) == 0
			p.Plan = func(row, col int, first, last bool, prev *MB) *MB {
				m := &MB{Fwd: r.Intn(2) == 0, Patt: true, Cbp: 1 + r.Intn(63), Field: r.Intn(2) == 0}
				m.Vec[0] = s.randVec(0, row, col)
				for j := range m.Coefs {
					m.Coefs[j] = []Coef{{Run: pick(r, 0, 0, r.Intn(20)), Level: pick(r, -1, 1) * (1 + r.Intn(700)), Esc: r.Intn(2) == 0}}
				}
				return m
			}
			s.put(p)
		}
		s.done()
		s.add()
	}
}

// ---------------------------------------------------------------------------
// V11, R02, R03

func (g *Gen) anyStream(t *vlcTables, big bool) *VS {
	r := g.r
	w, h := 1+r.Intn(32), 1+r.Intn(32)
	if big {
		w, h = smallSize(r)
	}
	s := g.vs(t, w, h, r.Intn(2))
	s.side = r.Intn(2) == 0
	s.set = func(p *Pic) {
		p.MaxCoefs = 1 + r.Intn(3)
		if r.Intn(5) == 0 {
			p.LoadExt = true
			p.Load[r.Intn(2)] = randMatrix(r)
		}
	}
	s.header(nil, nil)
	tr := 0
	for n := 1 + r.Intn(2); n > 0; n-- {
		rf, bs := s.randShape(3, 1, false)
		if tr == 0 || r.Intn(4) > 0 {
			s.gopHdr(bs[0] > 0)
			tr = 0
		}
		tr = s.group(rf, bs, tr)
		if n > 1 {
			switch r.Intn(4) {
			case 0:
				s.header(nil, nil)
			case 1:
				s.done()
				s.header(nil, nil)
				tr = 0
			}
		}
	}
	s.done()
	return s
}

func (g *Gen) determinism(t *vlcTables) {
	r := g.r
	garbage := func() Bytes {
		b := randBytes(r, r.Intn(20))
		for i := range b {
			if b[i] == 0xB3 {
				b[i] = 0
			}
		}
		return append(append(b, 0, 0, 1, 0xB8), make([]byte, r.Intn(3))...)
	}
	for k := 0; k < g.n(40, 600); k++ {
		s := g.anyStream(t, true)
		rs := []VRun{{}, {Ch: []int{1}}, {Ch: nn(randChunks(r))}, {Ch: []int{1 + r.Intn(20), 1 + r.Intn(200)}}, {Pre: garbage(), Ch: nn(randChunks(r))},
			{Mode: "after", Ch: nn(randChunks(r))}, {Mode: "interleave"}, {Mode: "concurrent"}, {Mode: "concurrent", Ch: nn(randChunks(r))}, {}}
		in := s.runs(rs...)
		o := g.anyStream(t, true)
		in.Other = o.Out()
		if r.Intn(3) == 0 {
			in.Other = in.Other[:r.Intn(len(in.Other))]
		}
		if r.Intn(6) == 0 {
			in.Other = in.B
		}
		g.add("vframes", in)
	}
}

func (g *Gen) interruptVideo() {
	t := g.vlc()
	r := g.r
	for k := 0; k < g.n(5, 40); k++ {
		s := g.anyStream(t, false)
		b := s.Out()
		rs := []VRun{{}}
		step := 1
		for len(b)/step > 500 {
			step++
		}
		for c := 1 + r.Intn(step); c < len(b); c += step {
			rs = append(rs, VRun{Cut: c, End: []string{"fault", "fault1", "fault2", "fault2", "eof"}[r.Intn(5)], Ch: nn(randChunks(r))})
		}
		rs = append(rs, VRun{Cut: -1, End: "fault"})
		in := s.runs(rs...)
		// the whole stream, but for how it ends
		for j := range in.Runs {
			if in.Runs[j].Cut < 0 && j > 0 {
				in.Runs[j].Cut = len(b)
			}
		}
		g.add("vframes", in)
	}
}

func (g *Gen) fuzzVideo(t *vlcTables) {
	r := g.r
	add := func(b []byte, align bool) {
		g.add("vfuzz", VFuzzIn{B: nn2(b), Ch: nn(randChunks(r)), End: []string{"eof", "eof", "fault"}[r.Intn(3)], Max: len(b)/8 + 60, Align: align})
	}
	add(nil, false)
	add(nil, true)
	for k := 0; k < g.n(60, 600); k++ {
		add(randBytes(r, r.Intn(200)), r.Intn(2) == 0)
		b := make([]byte, r.Intn(60))
		for i := range b {
			b[i] = byte(pick(r, 0, 0, 0, 1, 1, 0xB3, 0xB5, 0xB8, 0xB2, 0xB7, 0xff, r.Intn(256)))
		}
		add(b, r.Intn(2) == 0)
	}
	for k := 0; k < g.n(500, 9000); k++ {
		s := g.anyStream(t, false)
		b := s.Out()
		o := append([]byte(nil), b...)
		for n := 1 + r.Intn(6); n > 0; n-- {
			switch r.Intn(9) {
			case 0, 1, 2:
				// not the size: frames of 16383 lines take their time
				i := r.Intn(len(b))
				if i >= 4 && i < 7 {
					i = 0
				}
				b[i] ^= 1 << uint(r.Intn(8))
			case 3:
				b[r.Intn(len(b))] = byte(pick(r, 0, 1, 255, r.Intn(256)))
			case 4:
				b = b[:1+r.Intn(len(b))]
			case 5:
				i := r.Intn(len(b))
				b = append(b[:i:i], append(randBytes(r, 1+r.Intn(6)), b[i:]...)...)
			case 6:
				i := r.Intn(len(b))
				j := i + r.Intn(min(len(b)-i, 40))
				b = append(b[:i:i], b[j:]...)
			case 7:
				// unit level: take a unit of the stream somewhere else
				us := units(b)
				if len(us) > 2 {
					i, j := r.Intn(len(us)-1), r.Intn(len(us)-1)
					u := append([]byte(nil), b[us[i]:us[i+1]]...)
					b = append(b[:us[j]:us[j]], append(u, b[us[j]:]...)...)
				}
			case 8:
				us := units(b)
				if len(us) > 2 {
					i := r.Intn(len(us) - 1)
					b = append(b[:us[i]:us[i]], b[us[i+1]:]...)
				}
			}
		}
		_ = o
		add(b, r.Intn(2) == 0)
	}
	// every field of the headers out of its range: a nibble of a header of a stream that uses it
	for k := 0; k < g.n(2, 60); k++ {
		s := g.vs(t, 17+r.Intn(32), 17+r.Intn(32), k%2)
		s.header(nil, nil)
		s.gopHdr(false)
		s.group("IPB", []int{0, 1, 0}, 0)
		s.done()
		b := s.Out()
		for _, u := range units(b) {
			if u+3 >= len(b) || b[u+3] >= 1 && b[u+3] <= 0xAF && r.Intn(4) > 0 {
				continue
			}
			lo := 8
			if b[u+3] == 0xB3 {
				lo = 14
			}
			for n := lo; n < 24 && u+n/2 < len(b); n++ {
				for _, v := range []int{0, 15, 1 + r.Intn(14)} {
					o := append([]byte(nil), b...)
					o[u+n/2] = b[u+n/2]&(0xf0>>uint(4*(1-n%2))) | byte(v)<<uint(4*(1-n%2))
					if !bytes.Equal(o, b) {
						add(o, false)
					}
				}
			}
		}
	}
	// large pictures
	for k := 0; k < g.n(8, 40); k++ {
		w, h := 16*(1+r.Intn(3)), 16+r.Intn(4080)
		if k%2 == 0 {
			w, h = 16*(100+r.Intn(420)), 1+r.Intn(48)
			if k%4 == 0 {
				w = 16 * pick(r, 128, 129, 255, 256, 257, 500, 1023)
			}
		}
		s := g.vs(t, w, h, r.Intn(2))
		s.set = func(p *Pic) { p.MaxCoefs, p.SkipP, p.Split = 0, 0.9, 1+r.Intn(2) }
		s.header(nil, nil)
		s.gopHdr(false)
		s.group("IP", []int{0, r.Intn(2)}, 0)
		s.done()
		b := s.Out()
		for n := r.Intn(3); n > 0; n-- {
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		}
		g.add("vfuzz", VFuzzIn{B: nn2(b), Ch: nn(randChunks(r)), End: "eof", Max: 60, Align: false})
	}
	// well-formed streams that use what is not supported or leave the frame
	for k := 0; k < g.n(150, 3000); k++ {
		s := g.vs(t, 1+r.Intn(48), 1+r.Intn(48), r.Intn(2))
		s.side = r.Intn(4) == 0
		if r.Intn(8) == 0 {
			s.Chroma = r.Intn(4)
		}
		wild := r.Intn(3) > 0
		s.set = func(p *Pic) {
			p.MaxCoefs, p.Big = 4, 0.3
			p.FwdRef, p.BwdRef = true, true // also when there is none
			if r.Intn(4) == 0 {
				p.Struct = 1 + r.Intn(3)
			}
			if r.Intn(6) == 0 {
				p.F = [2][2]int{{r.Intn(16), 15}, {1, r.Intn(16)}}
				p.F = [2][2]int{{1 + r.Intn(9), 1 + r.Intn(9)}, {1 + r.Intn(9), 1 + r.Intn(9)}}
			}
			p.SkipP = 0.4
			if wild {
				p.Plan = func(row, col int, first, last bool, prev *MB) *MB {
					m := s.plan(row, col, first, last, prev)
					if r.Intn(6) == 0 && !m.Skip {
						for d := 0; d < 2; d++ {
							for c := 0; c < 2; c++ {
								f := 1 << uint(p.F[d][c]-1)
								if p.F[d][c] < 10 {
									m.Vec[d][c] = r.Intn(32*f) - 16*f
								}
							}
						}
					}
					if r.Intn(8) == 0 {
						for j := range m.Coefs {
							for n := r.Intn(9); n > 0; n-- {
								m.Coefs[j] = append(m.Coefs[j], Coef{Run: r.Intn(12), Level: pick(r, 2047, -2048, 0, -2047, 1), Esc: true})
							}
						}
					}
					if r.Intn(12) == 0 {
						b := ""
						for i := 0; i < 60; i++ {
							b += string("01"[r.Intn(2)])
						}
						m.Raw = b
					}
					if !first && r.Intn(20) == 0 {
						for n := 1 + r.Intn(4); n > 0; n-- {
							m.RawInc += "00000001000"
						}
						m.RawInc += "1"
					}
					return m
				}
			}
		}
		s.header(nil, nil)
		if r.Intn(3) > 0 {
			s.gopHdr(false)
		}
		tr := 0
		n := 1 + r.Intn(5)
		for i := 0; i < n; i++ {
			s.refs = 2
			typ := "IPBPB"[r.Intn(5)]
			s.put(s.pic(typ, tr))
			tr += pick(r, 1, 1, 1, 0, 2, 5, 1023)
		}
		if r.Intn(2) == 0 {
			s.done()
		}
		b := s.Out()
		// slices beyond the frame
		if r.Intn(4) == 0 {
			for _, u := range units(b) {
				if u+3 < len(b) && b[u+3] >= 1 && b[u+3] <= 0xAF && r.Intn(3) == 0 {
					b[u+3] = byte(1 + r.Intn(0xAF))
				}
			}
		}
		add(b, false)
	}
}

// units are the positions of the start codes.
func units(b []byte) (out []int) {
	for i := 0; i+3 < len(b); i++ {
		if b[i] == 0 && b[i+1] == 0 && b[i+2] == 1 {
			out = append(out, i)
		}
	}
	return
}

func init() {
	suites["V01"] = func(g *Gen) { g.matches(); g.alignments() }
	suites["V02"] = func(g *Gen) { g.gopHeaders() }
	suites["V03"] = func(g *Gen) { t := g.vlc(); g.structure(t); g.sequels(t); g.strays(t); g.bulky(t, "") }
	suites["V04"] = func(g *Gen) { t := g.vlc(); g.order(t); g.longRuns(t, false); g.endlessRuns(t) }
	suites["V05"] = func(g *Gen) {
		t := g.vlc()
		g.references(t)
		g.longReferences(t)
		g.longRuns(t, true)
		g.mixed(t, 30, 1000)
	}
	suites["V06"] = func(g *Gen) { t := g.vlc(); g.intraCodes(t); g.reserved(t); g.islands(t, false); g.mixed(t, 50, 2000) }
	suites["V07"] = func(g *Gen) {
		t := g.vlc()
		g.quantisation(t)
		g.wideQuant(t)
		g.weights(t)
		g.mismatch(t)
		g.saturation(t)
		g.mixed(t, 50, 2000)
	}
	suites["V08"] = func(g *Gen) { t := g.vlc(); g.addresses(t); g.bulky(t, "slice"); g.mixed(t, 50, 2000) }
	suites["V09"] = func(g *Gen) { t := g.vlc(); g.vectors(t); g.islands(t, true); g.mixed(t, 50, 2000) }
	suites["V10"] = func(g *Gen) { t := g.vlc(); g.prediction(t); g.farAway(t); g.mixed(t, 50, 2000) }
	suites["V11"] = func(g *Gen) { g.determinism(g.vlc()) }
	suites["V12"] = func(g *Gen) { t := g.vlc(); g.seqHeaders(t); g.badHeaders(t) }
	suites["R02"] = func(g *Gen) { g.fuzzVideo(g.vlc()) }
}
