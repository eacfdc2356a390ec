package main

import "math/rand"

// Sys describes a system header, Pack a pack header.
type Sys struct {
	Streams  int
	LenDelta int
}

type Pack struct {
	Scr   uint64
	Stuff int
	Sys   *Sys
}

func (p *Pack) Bytes(r *rand.Rand) []byte {
	var w BitWriter
	w.Put(0x1ba, 32)
	w.Put(1, 2)
	w.Put(p.Scr>>30, 3)
	w.Put(1, 1)
	w.Put(p.Scr>>15, 15)
	w.Put(1, 1)
	w.Put(p.Scr, 15)
	w.Put(1, 1)
	w.Put(edge(r, 9), 9)
	w.Put(1, 1)
	w.Put(edge(r, 22), 22)
	w.Put(3, 2)
	w.Put(31, 5)
	w.Put(uint64(p.Stuff), 3)
	for i := 0; i < p.Stuff; i++ {
		w.Put(255, 8)
	}
	if s := p.Sys; s != nil {
		w.Put(0x1bb, 32)
		w.Put(uint64(6+3*s.Streams+s.LenDelta), 16)
		w.Put(1, 1)
		w.Put(edge(r, 22), 22)
		w.Put(1, 1)
		w.Put(edge(r, 6), 6)
		w.Put(edge(r, 4), 4)
		w.Put(1, 1)
		w.Put(edge(r, 5), 5)
		w.Put(edge(r, 1), 1)
		w.Put(127, 7)
		for i := 0; i < s.Streams; i++ {
			w.Put(uint64(pick(r, 0xb8, 0xb9, 0x80|r.Intn(128), 0xe0+i&15, 0xc0+i&31)), 8)
			w.Put(3, 2)
			w.Put(edge(r, 1), 1)
			w.Put(edge(r, 13), 13)
		}
	}
	return w.Out()
}

func randPack(r *rand.Rand) *Pack {
	p := &Pack{Scr: edge(r, 33) & 0xffffffff, Stuff: pick(r, 0, 0, 1, 7, r.Intn(8))}
	if r.Intn(2) == 0 {
		p.Sys = &Sys{Streams: pick(r, 0, 1, 2, 5, r.Intn(20))}
	}
	return p
}

var progEnd = []byte{0, 0, 1, 0xb9}

// muxPs puts units (PES packets) into packs.
func (g *Gen) muxPs(units [][]byte) []byte {
	r := g.r
	b := randPack(r).Bytes(r)
	for _, u := range units {
		for r.Intn(3) == 0 {
			b = append(b, randPack(r).Bytes(r)...)
		}
		b = append(b, u...)
	}
	for r.Intn(4) == 0 {
		b = append(b, randPack(r).Bytes(r)...)
	}
	return append(b, progEnd...)
}

type psOpts struct{ packs, pkts, maxPay int }

// psStream is a well-formed program stream.
func (g *Gen) psStream(o psOpts) []byte {
	r := g.r
	var b []byte
	for i := 0; i < o.packs; i++ {
		b = append(b, randPack(r).Bytes(r)...)
		for k := r.Intn(o.pkts + 1); k > 0; k-- {
			b = append(b, randPesP(r, pesOpts{maxPay: o.maxPay}).Bytes(r)...)
		}
	}
	return append(b, progEnd...)
}

// psScen: packs given as the payload lengths of their packets, and how the stream ends.
type psScen struct {
	Packs [][]pesKind `json:"packs"`
	End   string      `json:"end"` // code, none, cut, bad
	Reads []int       `json:"reads"`
}

func (g *Gen) psScenBytes(s psScen) []byte {
	r := g.r
	var b []byte
	for _, p := range s.Packs {
		b = append(b, randPack(r).Bytes(r)...)
		for _, k := range p {
			b = append(b, k.bytes(r)...)
		}
	}
	switch s.End {
	case "code":
		b = append(b, progEnd...)
	case "cut":
		q := randPesP(r, pesOpts{maxPay: 20}).Bytes(r)
		b = append(b, q[:1+r.Intn(len(q)-1)]...)
	case "cutpack":
		q := randPack(r).Bytes(r)
		b = append(b, q[:1+r.Intn(13)]...)
	case "bad":
		q := (&PesP{Id: 0xe0, Pay: fillN(r, 10)}).Bytes(r)
		q[6] = 0x40
		b = append(b, q...)
	case "junk":
		b = append(b, 0, 2, 3, 4, 5, 6)
	}
	return b
}

func init() {
	suites["S01"] = func(g *Gen) {
		r := g.r
		defer g.twins(g.n(40, 600))
		defer g.bigPes("S01")
		one := func(b []byte, max int) {
			g.add("packhdr", PackHdrIn{B: b, Ch: nn(randChunks(r)), End: "eof", Max: max})
		}
		tail := func() []byte { return (&PesP{Id: 0xe0, Pay: fillN(r, 5)}).Bytes(r) }
		for i := uint(0); i < 33; i++ {
			one(append((&Pack{Scr: 1 << i}).Bytes(r), progEnd...), 1)
			one(append((&Pack{Scr: (1<<32 - 1) ^ 1<<i, Sys: &Sys{}}).Bytes(r), tail()...), 1)
		}
		for s := 0; s < 8; s++ {
			for n := -1; n < 8; n++ {
				p := &Pack{Scr: edge(r, 32), Stuff: s}
				if n >= 0 {
					p.Sys = &Sys{Streams: n}
				}
				one(append(p.Bytes(r), tail()...), 1)
			}
		}
		for n := 8; n < 48; n += 3 {
			one(append((&Pack{Sys: &Sys{Streams: n}}).Bytes(r), progEnd...), 1)
		}
		g.headerBits(one)
		// every bit
		for k := 0; k < g.n(1, 4); k++ {
			p := &Pack{Scr: edge(r, 32), Stuff: 1, Sys: &Sys{Streams: 2}}
			good := append(p.Bytes(r), progEnd...)
			for i := 0; i < (len(good)-4)*8; i++ {
				b := append([]byte(nil), good...)
				b[i/8] ^= 0x80 >> uint(i%8)
				one(b, 1)
			}
			for i := 0; i < len(good); i++ {
				one(good[:i], 1)
			}
		}
		for k := 0; k < g.n(300, 8000); k++ {
			var b []byte
			n := 1 + r.Intn(4)
			for i := 0; i < n; i++ {
				b = append(b, randPack(r).Bytes(r)...)
			}
			one(append(b, progEnd...), n+1)
		}
	}

	suites["S02"] = func(g *Gen) {
		r := g.r
		defer g.twins(g.n(40, 600))
		defer g.bigPes("S02")
		var sc []psScen
		g.scenarios("ps", &sc)
		left := g.n(500, 1<<30)
		for _, i := range r.Perm(len(sc)) {
			if left--; left < 0 {
				break
			}
			g.add("psread", PsReadIn{B: g.psScenBytes(sc[i]), Ch: nn(randChunks(r)), End: "eof", Sizes: sc[i].Reads})
		}
		for k := 0; k < g.n(250, 5000); k++ {
			b := g.psStream(psOpts{packs: r.Intn(4), pkts: 4, maxPay: 100})
			if r.Intn(4) == 0 { // data after the end
				b = append(b, fillN(r, r.Intn(40))...)
			} else if r.Intn(3) == 0 {
				b = g.afterEnd(b)
			}
			g.add("psread", PsReadIn{B: b, Ch: nn(randChunks(r)), End: "eof", Sizes: randSizes(r)})
		}
		for k := 0; k < g.n(2, 8); k++ {
			b := g.psStream(psOpts{packs: 2, pkts: 2, maxPay: 30})
			for c := 0; c < len(b); c++ {
				g.add("psread", PsReadIn{B: b[:c], Ch: nn(randChunks(r)), End: "eof", Sizes: randSizes(r)})
			}
		}
		for k := 0; k < g.n(100, 3000); k++ {
			b := g.psStream(psOpts{packs: 2, pkts: 3, maxPay: 40})
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
			g.add("psread", PsReadIn{B: b, Ch: nn(randChunks(r)), End: "eof", Sizes: randSizes(r)})
		}
		g.codeAfterError(func(b []byte) {
			g.add("psread", PsReadIn{B: b, Ch: nn(randChunks(r)), End: "eof", Sizes: randSizes(r)})
		})
		b := g.psStream(psOpts{packs: 2, pkts: 4, maxPay: 100})
		for s := 1; s < 300; s += g.n(7, 1) {
			g.add("psread", PsReadIn{B: b, Ch: nn(randChunks(r)), End: "eof", Sizes: []int{s}})
		}
	}

	suites["S03"] = func(g *Gen) {
		r := g.r
		defer g.twins(g.n(40, 600))
		defer g.bigPes("S03")
		dec := func(b []byte) {
			g.add("psdec", PsDecIn{B: b, Ch: nn(randChunks(r)), End: "eof", Delay: []int{pick(r, 0, 0, -3, 50), pick(r, 0, 0, -3, 20)},
				Via: []string{"packets", "packets", "payload"}[r.Intn(3)]})
		}
		var sc []psScen
		g.scenarios("ps", &sc)
		left := g.n(500, 1<<30)
		for _, i := range r.Perm(len(sc)) {
			if left--; left < 0 {
				break
			}
			dec(g.psScenBytes(sc[i]))
		}
		for k := 0; k < g.n(250, 5000); k++ {
			b := g.psStream(psOpts{packs: 1 + r.Intn(4), pkts: 4, maxPay: 100})
			if r.Intn(4) == 0 {
				b = append(b, fillN(r, r.Intn(40))...)
			} else if r.Intn(3) == 0 {
				b = g.afterEnd(b)
			}
			dec(b)
		}
		for k := 0; k < g.n(2, 8); k++ {
			b := g.psStream(psOpts{packs: 2, pkts: 2, maxPay: 30})
			for c := 0; c < len(b); c++ {
				dec(b[:c])
			}
		}
		for k := 0; k < g.n(100, 3000); k++ {
			b := g.psStream(psOpts{packs: 2, pkts: 3, maxPay: 40})
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
			dec(b)
		}
		g.codeAfterError(dec)
	}
}
