package main

// Long inputs: many packets, payloads next to powers of two, many channels.
// They are few, as the specification reads every byte of them.

var bigSizes = [][]int{{65536}, {4096}, {1000}, {70000, 1}, {188, 4096}, {30000, 7}, {512}}

// bigChunks serves long inputs in pieces that are not too small.
func (g *Gen) bigChunks() []int {
	return [][]int{{}, {4096}, {188}, {65536}, {1000, 7}, {187}}[g.r.Intn(6)]
}

// longUnits are payload units of the given sizes, one packet of another pid
// now and then.
func (g *Gen) longUnits(pidv int, sizes ...int) []byte {
	var us [][]byte
	for _, n := range sizes {
		us = append(us, fillN(g.r, n))
	}
	return g.muxTs(us, pidv)
}

// manyTs is a stream of n packets, mostly of small payload if tiny.
func (g *Gen) manyTs(n int, pids []int, tiny bool) []byte {
	r := g.r
	var b []byte
	for i := 0; i < n; i++ {
		p := randTsP(r, pids[r.Intn(len(pids))])
		if tiny {
			p.Afc, p.Af = 3, af(r, 0, 0, 0, 0, 182-r.Intn(4))
			p.Pusi = r.Intn(4) != 0
		}
		p.Cc = i & 15
		b = append(b, p.Bytes(r)...)
	}
	return b
}

func (g *Gen) bigTs(suite string) {
	r := g.r
	bs := func() []int { return bigSizes[r.Intn(len(bigSizes))] }
	switch suite {
	case "T01":
		for k := 0; k < g.n(2, 10); k++ {
			b := g.manyTs(280+r.Intn(60), []int{r.Intn(8192), r.Intn(8192), 0x1fff}, k%2 == 1)
			g.tspkts(b, g.bigChunks(), "eof", k%2 == 0, 0, 1)
		}
	case "T02":
		for k := 0; k < g.n(2, 10); k++ {
			var b []byte
			for i := 0; i < 110; i++ {
				for j := r.Intn(40); j > 0 && i > 0; j-- {
					b = append(b, byte(r.Intn(71)))
				}
				b = append(b, randTsP(r, 17).Bytes(r)...)
			}
			g.tspkts(b, g.bigChunks(), "eof", k%2 == 0, 0, 5)
		}
	case "T03":
		for k := 0; k < g.n(2, 10); k++ {
			b := g.manyTs(420, []int{100, 101}, k%2 == 1)
			if k == 0 {
				b = g.longUnits(100, 70000)
			}
			for _, s := range [][]int{{70000}, {65536, 3}, bs()} {
				g.add("tsread", TsReadIn{B: b, Ch: g.bigChunks(), End: "eof", Mode: "payload", Where: pid(100), Skip: unset, Take: unset, Sizes: s})
			}
		}
	case "T04":
		for k := 0; k < g.n(3, 12); k++ {
			// the window opens and closes far away
			from, to := 255+r.Intn(4), 380+r.Intn(20)
			if k == 1 {
				from, to = 20, 20+257
			}
			var b []byte
			for i := 0; i < 410; i++ {
				p := randTsP(r, 100+i%2)
				p.Pusi, p.Prio = i == from, i == to
				b = append(b, p.Bytes(r)...)
			}
			a := Pred{T: "prio"}
			if k%3 == 2 {
				g.demux(b, []int{100, 101}, Pred{T: "pusi"}, Pred{T: "not", A: &a})
				continue
			}
			g.add("tsread", TsReadIn{B: b, Ch: g.bigChunks(), End: "eof", Mode: "payload", Where: pid(100),
				Skip: Pred{T: "pusi"}, Take: Pred{T: "not", A: &a}, Sizes: bs()})
		}
	case "T05":
		for k := 0; k < g.n(1, 6); k++ {
			b := g.longUnits(100, 3, 66000, 1, 1000)
			g.add("tsread", TsReadIn{B: b, Ch: g.bigChunks(), End: "eof", Mode: "unit", Where: pid(100), Skip: unset, Take: unset, Sizes: bs()})
			g.add("tsread", TsReadIn{B: b, Ch: g.bigChunks(), End: "eof", Mode: "unit", Where: pid(100), Skip: unset, Take: unset, Sizes: []int{70000}})
			// many small units, and a long way to the first one
			b = g.manyTs(300, []int{100, 100, 101}, true)
			b = append(g.manyTs(260, []int{101}, true), b...)
			g.add("tsread", TsReadIn{B: b, Ch: g.bigChunks(), End: "eof", Mode: "unit", Where: pid(100), Skip: unset, Take: unset, Sizes: bs()})
		}
	case "T06":
		for k := 0; k < g.n(4, 16); k++ {
			in := DemuxIn{Ch: g.bigChunks(), End: "eof", Skip: unset, Take: unset, Mode: []string{"each", "one"}[k%2], Chans: []Pred{}, Delay: []int{}}
			n, m := 3, 320
			if k%4 > 1 {
				n, m = 70, 40
			}
			pids := []int{}
			for i := 0; i < n; i++ {
				p := 100 + i
				if i%7 == 3 {
					p = 100 + i - 1 // two channels of the same packets
				}
				pids = append(pids, p)
				c := pid(p)
				if r.Intn(10) == 0 {
					c = Pred{T: "pusi"}
				}
				in.Chans = append(in.Chans, c)
				in.Delay = append(in.Delay, pick(r, 0, 0, 0, 0, 0, -2, 10))
			}
			if n == 3 {
				in.Chans[1] = anyPkt
			}
			in.B = g.manyTs(m, pids, false)
			g.add("demux", in)
		}
	case "T07":
		for k := 0; k < g.n(1, 6); k++ {
			// units of many packets
			var b []byte
			for _, n := range []int{1, 60 + r.Intn(40), 1, 100 + r.Intn(60), 130, 2, 1 + r.Intn(100)} {
				for i := 0; i < n; i++ {
					p := randTsP(r, 100)
					p.Pusi = i == 0
					b = append(b, p.Bytes(r)...)
				}
			}
			g.add("tschan", TsChanIn{B: b, Mode: "unit", Delay: pick(r, 0, -1)})
			// one that has 66000 bytes
			b = nil
			for i := 0; i < 370; i++ {
				p := randTsP(r, 100)
				p.Pusi = i == 0 || i == 362
				b = append(b, p.Bytes(r)...)
			}
			g.add("tschan", TsChanIn{B: b, Mode: "unit"})
			g.add("tschan", TsChanIn{B: g.longUnits(100, 3, 66000, 1, 1000), Mode: "unit"})
			g.add("tschan", TsChanIn{B: g.manyTs(300, []int{100}, true), Mode: "unit", Delay: -1})
			g.add("tschan", TsChanIn{B: g.manyTs(300, []int{100}, false), Mode: "payload", Delay: -1})
			g.add("peschan", PesChanIn{B: g.pesStream(300, pesOpts{maxPay: 40}), Delay: -1})
		}
	}
}

// edgeLens are payload lengths next to signed and unsigned 16-bit limits.
func (g *Gen) bigPes(suite string) {
	r := g.r
	one := func(l int) []byte { return (&PesP{Id: 0xe0, PtsDts: 2, Pts: 5, Pay: fillN(r, l)}).Bytes(r) }
	next := func() []byte { return randPesP(r, pesOpts{maxPay: 20}).Bytes(r) }
	pad := func() []byte {
		return (&PesP{Id: 0xbe, Pay: fillN(r, pick(r, 32768+r.Intn(9), 40000+r.Intn(20000), 65535))}).Bytes(r)
	}
	switch suite {
	case "E01":
		for _, l := range []int{32767 - 8, 32768 - 8, 65535 - 8} {
			g.pespkts(append(one(l), next()...), l%2 == 0, 1)
		}
		g.pespkts(append(pad(), next()...), true, 1)
		g.pespkts(append((&PesP{Id: 0xbf, Pay: fillN(r, 65535)}).Bytes(r), next()...), true, 1)
		u := &PesP{Id: 0xe0, PtsDts: 2, Pts: 5, Pay: fillN(r, 70000), Unbounded: true}
		g.pespkts(append(next(), u.Bytes(r)...), true, 1)
		for k := 0; k < g.n(2, 10); k++ {
			g.pespkts(g.pesStream(280+r.Intn(40), pesOpts{maxPay: 30}), k%2 == 0, 1)
		}
	case "E02":
		for k, s := range [][]int{{70000}, {65536}, {4096}, {1000, 30000}} {
			b := append(next(), one(65535-8)...)
			b = append(append(b, next()...), one([]int{32768 - 8, 40000, 33000, 65536 - 9}[k])...)
			if k%2 == 0 {
				b = append(b, (&PesP{Id: 0xbe, Pay: make([]byte, 300)}).Bytes(r)...)
			} else {
				b = append(b, pad()...)
			}
			b = append(b, next()...)
			g.add("pesread", PesReadIn{B: b, Ch: g.bigChunks(), End: "eof", Sizes: s})
		}
		u := &PesP{Id: 0xe0, PtsDts: 2, Pts: 5, Pay: fillN(r, 70000), Unbounded: true}
		g.add("pesread", PesReadIn{B: append(next(), u.Bytes(r)...), Ch: g.bigChunks(), End: "eof", Sizes: []int{2000}})
		for k := 0; k < g.n(2, 10); k++ {
			g.add("pesread", PesReadIn{B: g.pesStream(300, pesOpts{maxPay: 30}), Ch: g.bigChunks(), End: "eof", Sizes: [][]int{{100000}, {7}}[k%2]})
		}
	case "S02", "S03":
		put := func(b []byte, sizes []int) {
			if suite == "S02" {
				g.add("psread", PsReadIn{B: b, Ch: g.bigChunks(), End: "eof", Sizes: sizes})
			} else {
				g.add("psdec", PsDecIn{B: b, Ch: g.bigChunks(), End: "eof", Delay: []int{0, 0}, Via: []string{"packets", "payload"}[r.Intn(2)]})
			}
		}
		for k := 0; k < g.n(1, 6); k++ {
			put(g.psStream(psOpts{packs: 270, pkts: 2, maxPay: 10}), []int{5000})
			var b []byte
			for i := 0; i < 2; i++ {
				b = append(b, randPack(r).Bytes(r)...)
				b = append(b, g.pesStream(270, pesOpts{maxPay: 12})...)
			}
			put(append(b, progEnd...), []int{300})
			b = randPack(r).Bytes(r)
			b = append(append(b, one(65535-8)...), next()...)
			b = append(append(b, (&Pack{Scr: 9}).Bytes(r)...), one(40000)...)
			b = append(append(b, pad()...), next()...)
			put(append(b, progEnd...), []int{70000, 1})
			// nothing but packs
			b = nil
			for i := 0; i < 300; i++ {
				b = append(b, randPack(r).Bytes(r)...)
			}
			put(append(append(b, one(5)...), progEnd...), []int{64})
		}
	case "S01":
		for _, n := range []int{63, 64, 65, 80, 83, 84, 85, 86, 127, 128, 200, 255, 256, 300, 682, 683, 1363, 1364, 1400} {
			g.add("packhdr", PackHdrIn{B: append((&Pack{Scr: 3, Sys: &Sys{Streams: n}}).Bytes(r), progEnd...), Ch: nn(randChunks(r)), End: "eof", Max: 2})
		}
		for k := 0; k < g.n(1, 6); k++ {
			var b []byte
			for i := 0; i < 270; i++ {
				b = append(b, randPack(r).Bytes(r)...)
			}
			g.add("packhdr", PackHdrIn{B: append(b, progEnd...), Ch: g.bigChunks(), End: "eof", Max: 300})
		}
	case "E04":
		for k := 0; k < g.n(6, 24); k++ {
			es := fillN(r, 60000+r.Intn(50000))
			whole := k == 0 || k == 3 // one packet of unbounded length, longer than a length field can say
			if whole {
				es = fillN(r, []int{66000 + r.Intn(5000), 132000 + r.Intn(5000)}[k/3])
			}
			mode := []string{"unit", "payload", "ps"}[k%3]
			var units [][]byte
			for rest := es; len(rest) > 0; {
				n := pick(r, 70000, 1+r.Intn(3000), 20000, 65000)
				if whole {
					n = len(rest)
				} else if k >= 3 {
					n = 1 + r.Intn(700) // many small packets
				}
				if n > len(rest) {
					n = len(rest)
				}
				p := &PesP{Id: 0xe0, Pay: rest[:n]}
				p.randOptional(r)
				if p.Unbounded = mode == "unit" && (n > 65000 || r.Intn(2) == 0); !p.Unbounded && n > 65000 {
					n = 65000
					p.Pay = rest[:n]
				}
				rest = rest[n:]
				units = append(units, p.Bytes(r))
			}
			in := PipeIn{Ch: g.bigChunks(), End: "eof", Mode: mode, Where: pid(300), Skip: unset, Take: unset, Sizes: bigSizes[r.Intn(len(bigSizes))], Es: es}
			if mode == "ps" {
				in.B = g.muxPs(units)
			} else {
				in.B = g.muxTs(units, 300)
			}
			g.add("pipe", in)
		}
	}
}
