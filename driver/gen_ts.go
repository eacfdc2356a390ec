package main

import (
	"math/rand"
)

// TsP describes one transport packet to be written.
type TsP struct {
	Tei, Pusi, Prio bool
	Pid, Tsc, Afc   int
	Cc              int
	Af              []byte // contents after the length byte (Afc 2, 3)
	Pay             []byte
}

// Bytes writes the packet; the payload is cut or filled up to fit.
func (t *TsP) Bytes(r *rand.Rand) []byte {
	var w BitWriter
	w.Put(0x47, 8)
	w.Flag(t.Tei)
	w.Flag(t.Pusi)
	w.Flag(t.Prio)
	w.Put(uint64(t.Pid), 13)
	w.Put(uint64(t.Tsc), 2)
	w.Put(uint64(t.Afc), 2)
	w.Put(uint64(t.Cc), 4)
	if t.Afc >= 2 {
		w.Put(uint64(len(t.Af)), 8)
		w.Bytes(t.Af)
	}
	b := w.Out()
	b = append(b, t.Pay...)
	for len(b) < 188 {
		b = append(b, fill(r))
	}
	return b[:188]
}

// fill returns a byte that likes to look like a sync byte or a start code.
func fill(r *rand.Rand) byte {
	switch r.Intn(6) {
	case 0:
		return 0x47
	case 1:
		return 0
	case 2:
		return 1
	}
	return byte(r.Intn(256))
}

func fillN(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = fill(r)
	}
	return b
}

// edge returns an n-bit value with a liking for extremes and single bits.
func edge(r *rand.Rand, n uint) uint64 {
	m := uint64(1)<<n - 1
	switch r.Intn(5) {
	case 0:
		return m
	case 1:
		return 0
	case 2:
		return uint64(1) << uint(r.Intn(int(n)))
	case 3:
		return m &^ (uint64(1) << uint(r.Intn(int(n))))
	}
	return r.Uint64() & m
}

// afExt writes an adaptation field extension with its length byte.
func afExt(r *rand.Rand, flags int, pad int) []byte {
	var w BitWriter
	w.Put(uint64(flags), 3)
	w.Put(31, 5)
	if flags&4 != 0 {
		w.Put(edge(r, 1), 1)
		w.Put(edge(r, 15), 15)
	}
	if flags&2 != 0 {
		w.Put(3, 2)
		w.Put(edge(r, 22), 22)
	}
	if flags&1 != 0 {
		w.Put(edge(r, 4), 4)
		w.Put(edge(r, 3), 3)
		w.Put(1, 1)
		w.Put(edge(r, 15), 15)
		w.Put(1, 1)
		w.Put(edge(r, 15), 15)
		w.Put(1, 1)
	}
	b := append(w.Out(), fillN(r, pad)...)
	return append([]byte{byte(len(b))}, b...)
}

// af writes the contents of an adaptation field (after the length byte).
// flags is the flags byte. The result is padded to length (if larger).
func af(r *rand.Rand, flags, private, extFlags, extPad, length int) []byte {
	var w BitWriter
	w.Put(uint64(flags), 8)
	clock := func() {
		w.Put(edge(r, 33), 33)
		w.Put(63, 6)
		w.Put(edge(r, 9), 9)
	}
	if flags&0x10 != 0 {
		clock()
	}
	if flags&0x08 != 0 {
		clock()
	}
	if flags&0x04 != 0 {
		w.Put(edge(r, 8), 8)
	}
	if flags&0x02 != 0 {
		w.Put(uint64(private), 8)
		w.Bytes(fillN(r, private))
	}
	if flags&0x01 != 0 {
		w.Bytes(afExt(r, extFlags, extPad))
	}
	b := w.Out()
	for len(b) < length {
		b = append(b, 0xff)
	}
	return b
}

// randTsP is an arbitrary well-formed packet with the given pid.
func randTsP(r *rand.Rand, pid int) *TsP {
	t := &TsP{Tei: r.Intn(8) == 0, Pusi: r.Intn(3) == 0, Prio: r.Intn(3) == 0, Pid: pid,
		Tsc: r.Intn(4), Afc: 1, Cc: r.Intn(16)}
	if r.Intn(2) == 0 {
		t.Tsc = 0
	}
	switch r.Intn(6) {
	case 0:
		t.Afc = 2
		t.Af = af(r, r.Intn(256), r.Intn(30), r.Intn(8), r.Intn(4), 183)
	case 1, 2, 3:
		t.Afc = 3
		switch r.Intn(5) {
		case 0: // length 0
		case 1:
			t.Af = af(r, 0, 0, 0, 0, 1+r.Intn(182))
		case 2:
			t.Af = af(r, r.Intn(256), r.Intn(20), r.Intn(8), r.Intn(4), 182-r.Intn(6))
		default:
			t.Af = af(r, r.Intn(256), r.Intn(20), r.Intn(8), r.Intn(4), 0)
		}
	}
	t.Pay = fillN(r, 184)
	return t
}

var chunkSets = [][]int{nil, {1}, {188}, {7, 1, 64}, {2, 3}, {8}, {187}, {189}, {4096}, {5, 1, 1, 1, 9}, {0, 188}, {3, 0, 0, 50, 0}}

func randChunks(r *rand.Rand) []int {
	if r.Intn(4) == 0 {
		n := 1 + r.Intn(4)
		c := make([]int, n)
		for i := range c {
			c[i] = 1 + r.Intn(200)
		}
		return c
	}
	return chunkSets[r.Intn(len(chunkSets))]
}

func nn(c []int) []int {
	if c == nil {
		return []int{}
	}
	return c
}

func randSizes(r *rand.Rand) []int {
	switch r.Intn(11) {
	case 9:
		return []int{0, 1 + r.Intn(9)}
	case 10:
		return []int{0, 0, 184, 0, 3, 4096}
	case 0:
		return []int{1}
	case 1:
		return []int{2, 1, 3}
	case 2:
		return []int{184}
	case 3:
		return []int{512}
	case 4:
		return []int{4096}
	case 5:
		return []int{8}
	case 6:
		return []int{183, 1, 185, 0, 7}
	case 7:
		return []int{5, 0, 1, 64, 200}
	}
	n := 1 + r.Intn(5)
	s := make([]int, n)
	for i := range s {
		s[i] = 1 + r.Intn(300)
	}
	return s
}

func catTs(r *rand.Rand, ps []*TsP) []byte {
	var b []byte
	for _, p := range ps {
		b = append(b, p.Bytes(r)...)
	}
	return b
}

func (g *Gen) tspkts(b []byte, ch []int, end string, reuse bool, bit, errs int) {
	g.add("tspkts", TsPktsIn{B: b, Ch: nn(ch), End: end, Reuse: reuse, Bit: bit, Max: len(b)/100 + 12, Errs: errs})
}

func init() {
	suites["T01"] = func(g *Gen) {
		r := g.r
		defer g.twins(g.n(40, 600))
		defer g.bigTs("T01")
		var batch []*TsP
		flush := func(force bool) {
			if len(batch) >= 6 || (force && len(batch) > 0) {
				b := catTs(r, batch)
				g.tspkts(b, randChunks(r), "eof", r.Intn(3) != 0, 0, 1)
				batch = nil
			}
		}
		put := func(t *TsP) { batch = append(batch, t); flush(false) }
		// header fields, bit by bit
		for i := 0; i < 13; i++ {
			put(&TsP{Pid: 1 << uint(i), Afc: 1, Pay: fillN(r, 184)})
			put(&TsP{Pid: 0x1fff &^ (1 << uint(i)), Afc: 1, Pay: fillN(r, 184)})
		}
		for i := 0; i < 8; i++ {
			put(&TsP{Tei: i&1 != 0, Pusi: i&2 != 0, Prio: i&4 != 0, Pid: r.Intn(8192), Afc: 1, Pay: fillN(r, 184)})
		}
		for i := 0; i < 16; i++ {
			put(&TsP{Pid: r.Intn(8192), Afc: 1, Tsc: i & 3, Cc: i, Pay: fillN(r, 184)})
		}
		// every adaptation field length, followed by packets without one
		for l := 0; l <= 182; l++ {
			t := &TsP{Pid: r.Intn(8192), Afc: 3, Pay: fillN(r, 184)}
			if l > 0 {
				t.Af = af(r, r.Intn(32)<<5&0xff, 0, 0, 0, l)
			}
			put(t)
			if l%5 == 0 {
				put(&TsP{Pid: 33, Afc: 1, Pay: fillN(r, 184)})
			}
			if l%7 == 0 {
				put(&TsP{Pid: 34, Afc: 2, Af: af(r, 0x10, 0, 0, 0, 183)})
			}
		}
		// every flags byte, exactly as long as needed and padded
		for f := 0; f < 256; f++ {
			put(&TsP{Pid: r.Intn(8192), Afc: 3, Af: af(r, f, r.Intn(9), f&7, r.Intn(3), 0), Pay: fillN(r, 184)})
			put(&TsP{Pid: r.Intn(8192), Afc: 3, Af: af(r, f, r.Intn(9), r.Intn(8), r.Intn(3), 60+r.Intn(80)), Pay: fillN(r, 184)})
			put(&TsP{Pid: r.Intn(8192), Afc: 2, Af: af(r, f, r.Intn(100), r.Intn(8), r.Intn(30), 183)})
		}
		// every extension flag combination
		for f := 0; f < 8; f++ {
			for k := 0; k < g.n(4, 16); k++ {
				put(&TsP{Pid: 100 + f, Afc: 3, Af: af(r, r.Intn(128)<<1&0xff|1, r.Intn(12), f, r.Intn(2)*r.Intn(9), 0), Pay: fillN(r, 184)})
			}
		}
		g.headerProducts(put)
		g.afLengths(put)
		flush(true)
		// arbitrary mixtures
		for k := 0; k < g.n(150, 2500); k++ {
			n := 1 + r.Intn(9)
			var ps []*TsP
			for i := 0; i < n; i++ {
				ps = append(ps, randTsP(r, r.Intn(8192)))
			}
			g.tspkts(catTs(r, ps), randChunks(r), "eof", r.Intn(3) != 0, 0, 1)
		}
	}

	suites["T02"] = func(g *Gen) {
		r := g.r
		defer g.bigTs("T02")
		garbage := func(n int) []byte {
			b := make([]byte, n)
			for i := range b {
				for b[i] = byte(r.Intn(256)); b[i] == 0x47; b[i] = byte(r.Intn(256)) {
				}
			}
			return b
		}
		// every distance to the next sync byte
		for d := 0; d <= 380; d++ {
			if d > 200 && d%9 != 0 && d != 375 && d != 376 && d != 377 {
				continue
			}
			var b []byte
			lead := d%3 == 0
			if lead {
				b = append(b, randTsP(r, 17).Bytes(r)...)
			}
			b = append(b, garbage(d)...)
			b = append(b, randTsP(r, 18).Bytes(r)...)
			if r.Intn(2) == 0 {
				b = append(b, randTsP(r, 19).Bytes(r)...)
			}
			g.tspkts(b, randChunks(r), "eof", true, 0, 4)
			// the same with bits left over in the current byte
			if !lead && d > 0 && (d < 6 || d > 185) {
				for _, bit := range []int{1, 3, 7} {
					g.tspkts(b, randChunks(r), "eof", false, bit, 4)
				}
				// the byte in which the reader stands looks like a sync byte
				c := append([]byte{0x47}, b...)
				g.tspkts(c, randChunks(r), "eof", false, pick(r, 2, 5, 6), 4)
			}
		}
		// bit offsets in front of a packet
		for bit := 1; bit < 8; bit++ {
			b := append([]byte{byte(r.Intn(256))}, randTsP(r, 5).Bytes(r)...)
			g.tspkts(b, randChunks(r), "eof", true, bit, 2)
		}
		// every truncation
		for cut := 0; cut <= 188; cut++ {
			for k := 0; k < g.n(3, 12); k++ {
				b := randTsP(r, 20).Bytes(r)[:cut]
				if k%2 == 1 || cut == 0 {
					b = append(randTsP(r, 21).Bytes(r), b...)
				}
				if k%3 == 2 {
					b = append(b[:len(b)-cut:len(b)-cut], append(garbage(r.Intn(60)), randTsP(r, 22).Bytes(r)[:cut]...)...)
				}
				g.tspkts(b, randChunks(r), "eof", r.Intn(2) == 0, 0, 1)
			}
		}
		// garbage without any sync byte before the end
		for _, d := range []int{1, 2, 100, 187, 188, 189, 375, 376, 377} {
			g.tspkts(garbage(d), randChunks(r), "eof", true, 0, 4)
			g.tspkts(append(randTsP(r, 3).Bytes(r), garbage(d)...), randChunks(r), "eof", true, 0, 4)
		}
		// false sync bytes in garbage between packets
		for k := 0; k < g.n(60, 1500); k++ {
			var b []byte
			for i := 0; i < 1+r.Intn(4); i++ {
				if r.Intn(3) == 0 {
					b = append(b, fillN(r, r.Intn(250))...)
				} else if r.Intn(3) == 0 {
					b = append(b, garbage(r.Intn(250))...)
				}
				b = append(b, randTsP(r, 30+i).Bytes(r)...)
			}
			g.tspkts(b, randChunks(r), "eof", r.Intn(2) == 0, 0, 5)
		}
	}

	suites["T03"] = func(g *Gen) {
		r := g.r
		defer g.twins(g.n(40, 600))
		defer g.bigTs("T03")
		g.tsScenarios("payload", false)
		for k := 0; k < g.n(260, 5000); k++ {
			b, pids := g.tsStream(g.tsLen(), false)
			g.add("tsread", TsReadIn{B: b, Ch: nn(randChunks(r)), End: "eof", Mode: "payload",
				Where: randPred(r, r.Intn(3), pids), Skip: unset, Take: unset, Sizes: randSizes(r)})
		}
		// one stream, many read sizes
		for k := 0; k < g.n(2, 6); k++ {
			b, pids := g.tsStream(4, false)
			w := Pred{T: "not", A: &Pred{T: "pid", V: pids[0]}}
			for s := 1; s <= 400; s += g.n(7, 1) {
				g.add("tsread", TsReadIn{B: b, Ch: nn(randChunks(r)), End: "eof", Mode: "payload",
					Where: w, Skip: unset, Take: unset, Sizes: []int{s}})
			}
		}
	}

	suites["T04"] = func(g *Gen) {
		r := g.r
		defer g.twins(g.n(40, 600))
		defer g.bigTs("T04")
		g.tsScenarios("payload", true)
		for k := 0; k < g.n(320, 5000); k++ {
			b, pids := g.tsStream(1+g.tsLen(), false)
			opt := func() Pred {
				if r.Intn(4) == 0 {
					return unset
				}
				return randPred(r, r.Intn(2), pids)
			}
			sk, tk := opt(), opt()
			if r.Intn(3) == 0 {
				sk = Pred{T: "pusi"}
			}
			if r.Intn(3) == 0 {
				a := Pred{T: "pusi"}
				tk = Pred{T: "not", A: &a}
			}
			if r.Intn(12) == 0 {
				sk = Pred{T: "none"}
			}
			if r.Intn(3) != 0 {
				g.add("tsread", TsReadIn{B: b, Ch: nn(randChunks(r)), End: "eof", Mode: "payload",
					Where: randPred(r, r.Intn(2), pids), Skip: sk, Take: tk, Sizes: randSizes(r)})
			} else {
				g.demux(b, pids, sk, tk)
			}
		}
	}

	suites["T05"] = func(g *Gen) {
		r := g.r
		defer g.twins(g.n(40, 600))
		defer g.bigTs("T05")
		g.tsScenarios("unit", false)
		for k := 0; k < g.n(320, 5000); k++ {
			b, pids := g.tsStream(g.tsLen(), true)
			g.add("tsread", TsReadIn{B: b, Ch: nn(randChunks(r)), End: "eof", Mode: "unit",
				Where: randPred(r, r.Intn(2), pids), Skip: unset, Take: unset, Sizes: randSizes(r)})
		}
		for k := 0; k < g.n(2, 6); k++ {
			b, pids := g.tsStream(5, true)
			for s := 1; s <= 400; s += g.n(9, 1) {
				g.add("tsread", TsReadIn{B: b, Ch: nn(randChunks(r)), End: "eof", Mode: "unit",
					Where: pid(pids[0]), Skip: unset, Take: unset, Sizes: []int{s}})
			}
		}
	}

	suites["T06"] = func(g *Gen) {
		r := g.r
		defer g.twins(g.n(40, 600))
		defer g.bigTs("T06")
		g.demuxScenarios()
		for k := 0; k < g.n(260, 4000); k++ {
			b, pids := g.tsStream(g.tsLen(), false)
			switch r.Intn(8) {
			case 0:
				b = b[:len(b)-1-r.Intn(187)]
			case 1:
				b = append(b, 1, 2, 3)
			}
			take := unset
			if r.Intn(6) == 0 {
				take = randPred(r, 1, pids)
			}
			g.demux(b, pids, unset, take)
		}
	}

	suites["T07"] = func(g *Gen) {
		r := g.r
		defer g.twins(g.n(40, 600))
		defer g.bigTs("T07")
		g.tsScenarios("chan", false)
		for k := 0; k < g.n(220, 3000); k++ {
			b, _ := g.tsStream(g.tsLen()-1, true)
			g.add("tschan", TsChanIn{B: b, Mode: []string{"payload", "unit"}[r.Intn(2)], Delay: pick(r, 0, 0, -2, 30)})
		}
		for k := 0; k < g.n(60, 600); k++ {
			g.add("peschan", PesChanIn{B: g.pesStream(r.Intn(6), pesOpts{maxPay: 60}), Delay: pick(r, 0, 0, -2, 30)})
		}
	}
}

// tsStream is a well-formed stream of n packets on a few pids.
func (g *Gen) tsStream(n int, starts bool) ([]byte, []int) {
	r := g.r
	pids := []int{r.Intn(8192), r.Intn(8192), 0x1fff}
	// pids with a meaning in other contexts
	for i := range pids {
		if r.Intn(5) == 0 {
			pids[i] = pick(r, 0, 1, 2, 16, 0x1ffe, 0x1fff)
		}
	}
	if r.Intn(3) == 0 {
		pids[1] = pids[0] ^ 1<<uint(r.Intn(13))
	}
	var ps []*TsP
	for i := 0; i < n; i++ {
		p := randTsP(r, pids[[]int{0, 0, 0, 1, 1, 2}[r.Intn(6)]])
		if starts && r.Intn(2) == 0 {
			p.Pusi = r.Intn(2) == 0
		}
		if r.Intn(4) == 0 { // tiny payloads
			p.Afc, p.Af = 3, af(r, 0, 0, 0, 0, 182-r.Intn(3))
		}
		if i > 0 && r.Intn(12) == 0 { // an exact repetition
			p = ps[i-1]
		}
		ps = append(ps, p)
	}
	var b []byte
	for i, p := range ps {
		if i > 0 && p == ps[i-1] {
			b = append(b, b[len(b)-188:]...)
			continue
		}
		b = append(b, p.Bytes(r)...)
	}
	return b, pids
}

func (g *Gen) demux(b []byte, pids []int, skip, take Pred) {
	r := g.r
	n := 1 + r.Intn(4)
	if r.Intn(12) == 0 {
		n = 0
	}
	in := DemuxIn{B: b, Ch: nn(randChunks(r)), End: "eof", Skip: skip, Take: take, Mode: []string{"each", "one"}[r.Intn(2)],
		Chans: []Pred{}, Delay: []int{}}
	for i := 0; i < n; i++ {
		in.Chans = append(in.Chans, randPred(r, r.Intn(3), pids))
		in.Delay = append(in.Delay, pick(r, 0, 0, 0, -3, 20, 100))
	}
	g.add("demux", in)
}

// ---- scenarios enumerated by TLC ---------------------------------------------

// tsScen is one scenario: packets as kinds, a window, a pattern of read sizes.
type tsScen struct {
	Pk    []tsScenPkt `json:"pk"`
	Skip  string      `json:"skip"`
	Take  string      `json:"take"`
	Reads []int       `json:"reads"`
}

type tsScenPkt struct {
	Sel  bool `json:"sel"`
	Pusi bool `json:"pusi"`
	Prio bool `json:"prio"`
	Len  int  `json:"len"` // -1: no payload at all
}

func (g *Gen) scenBytes(pk []tsScenPkt) []byte {
	r := g.r
	var b []byte
	for i, k := range pk {
		p := &TsP{Pid: 200, Pusi: k.Pusi, Prio: k.Prio, Cc: i & 15, Afc: 1, Pay: fillN(r, 184)}
		if k.Sel {
			p.Pid = 100
		}
		if k.Len < 0 {
			p.Afc, p.Af = 2, af(r, 0, 0, 0, 0, 183)
		} else if k.Len < 184 {
			p.Afc, p.Af = 3, nil
			if k.Len < 183 {
				p.Af = af(r, 0, 0, 0, 0, 183-k.Len)
			}
		}
		b = append(b, p.Bytes(r)...)
	}
	return b
}

func scenPred(s string) Pred {
	switch s {
	case "unset":
		return unset
	case "sel":
		return pid(100)
	case "notsel":
		a := pid(100)
		return Pred{T: "not", A: &a}
	case "pusi":
		return Pred{T: "pusi"}
	case "notpusi":
		a := Pred{T: "pusi"}
		return Pred{T: "not", A: &a}
	case "prio":
		return Pred{T: "prio"}
	case "notprio":
		a := Pred{T: "prio"}
		return Pred{T: "not", A: &a}
	case "none":
		return Pred{T: "none"}
	}
	panic("bad predicate " + s)
}

func (g *Gen) tsScenarios(mode string, windows bool) {
	r := g.r
	var sc []tsScen
	g.scenarios("ts", &sc)
	perm := r.Perm(len(sc))
	left := g.n(700, 1<<30)
	for _, i := range perm {
		s := sc[i]
		if windows != (s.Skip != "unset" || s.Take != "unset") {
			continue
		}
		if left--; left < 0 {
			break
		}
		b := g.scenBytes(s.Pk)
		switch mode {
		case "chan":
			g.add("tschan", TsChanIn{B: b, Mode: []string{"payload", "unit"}[r.Intn(2)]})
		default:
			if windows && r.Intn(4) == 0 {
				g.add("demux", DemuxIn{B: b, Ch: []int{}, End: "eof", Chans: []Pred{pid(100), {T: "prio"}, anyPkt},
					Skip: scenPred(s.Skip), Take: scenPred(s.Take), Mode: []string{"each", "one"}[r.Intn(2)], Delay: []int{0, 0, 0}})
				continue
			}
			g.add("tsread", TsReadIn{B: b, Ch: nn(randChunks(r)), End: "eof", Mode: mode, Where: pid(100),
				Skip: scenPred(s.Skip), Take: scenPred(s.Take), Sizes: s.Reads})
		}
	}
}

// demuxScen is a scenario of the demultiplexer model: which channels each packet
// matches, and the order in which the consumers are slow.
type demuxScen struct {
	Match [][]bool `json:"match"` // per packet, per channel
	Slow  int      `json:"slow"`  // the slow consumer (0: none)
}

func (g *Gen) demuxScenarios() {
	r := g.r
	var sc []demuxScen
	g.scenarios("demux", &sc)
	left := g.n(500, 1<<30)
	for _, i := range r.Perm(len(sc)) {
		if left--; left < 0 {
			break
		}
		s := sc[i]
		// channel c matches by bit: pusi, prio, pid 100
		var pk []tsScenPkt
		for _, m := range s.Match {
			pk = append(pk, tsScenPkt{Pusi: m[0], Prio: len(m) > 1 && m[1], Sel: len(m) > 2 && m[2], Len: 3 + r.Intn(20)})
		}
		preds := []Pred{{T: "pusi"}, {T: "prio"}, pid(100)}
		n := 3
		if len(s.Match) > 0 {
			n = len(s.Match[0])
		}
		in := DemuxIn{B: g.scenBytes(pk), Ch: []int{}, End: "eof", Chans: preds[:n], Skip: unset, Take: unset,
			Mode: []string{"each", "one"}[r.Intn(2)], Delay: make([]int, n)}
		if s.Slow > 0 && s.Slow <= n {
			in.Delay[s.Slow-1] = pick(r, -5, 50, 200)
		}
		g.add("demux", in)
	}
}

// tsLen is a number of packets: mostly few.
func (g *Gen) tsLen() int {
	if g.r.Intn(25) == 0 {
		return 20 + g.r.Intn(60)
	}
	return 1 + g.r.Intn(9)
}
