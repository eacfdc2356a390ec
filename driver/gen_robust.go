package main

// Inputs of R01 (arbitrary bytes) and R03 (interrupted sources).

// The "full" variants carry the whole stream along with the interrupted one.
type withFull struct {
	Full Bytes `json:"full"`
}

func (g *Gen) arbitrary() []byte {
	r := g.r
	var b []byte
	switch r.Intn(9) {
	case 0:
		b = randBytes(r, r.Intn(700))
	case 1:
		b = fillN(r, r.Intn(700))
	case 2:
		b = make([]byte, r.Intn(700))
		v := byte(pick(r, 0, 0x47, 0xff, 1))
		for i := range b {
			b[i] = v
		}
	case 3, 4:
		b, _ = g.tsStream(1+r.Intn(4), true)
		// adaptation fields, lengths
		for k := r.Intn(6); k > 0; k-- {
			p := 188 * r.Intn(len(b)/188)
			switch r.Intn(4) {
			case 0:
				b[p+3] = b[p+3]&0xcf | byte(r.Intn(4))<<4
			case 1:
				b[p+4] = byte(pick(r, 0, 1, 182, 183, 184, 185, 255, r.Intn(256)))
			case 2:
				b[p+5] = byte(r.Intn(256))
			case 3:
				b[p+6+r.Intn(14)] = byte(pick(r, 0, 255, r.Intn(256)))
			}
		}
	case 5, 6:
		b = g.pesStream(1+r.Intn(4), pesOpts{maxPay: 80})
		for k := r.Intn(6); k > 0; k-- {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
	case 7:
		b = g.psStream(psOpts{packs: 1 + r.Intn(3), pkts: 3, maxPay: 60})
		for k := r.Intn(6); k > 0; k-- {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
	case 8:
		// PES in TS with errors in the PES layer
		u := g.pesStream(1+r.Intn(3), pesOpts{maxPay: 200})
		for k := r.Intn(4); k > 0; k-- {
			u[r.Intn(min(len(u), 30))] = byte(r.Intn(256))
		}
		b = g.muxTs([][]byte{u, u}, 300)
	}
	if len(b) > 0 {
		for k := r.Intn(4); k > 0; k-- {
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		}
		switch r.Intn(5) {
		case 0:
			b = b[:r.Intn(len(b)+1)]
		case 1:
			i := r.Intn(len(b) + 1)
			b = append(b[:i:i], append(randBytes(r, r.Intn(20)), b[i:]...)...)
		case 2:
			i := r.Intn(len(b))
			j := i + r.Intn(len(b)-i)
			b = append(b[:i:i], b[j:]...)
		}
	}
	return b
}

// survive runs the readers of the library on b.
func (g *Gen) survive(b []byte, which int, end string) {
	r := g.r
	ch := nn(randChunks(r))
	pids := []int{300, 33}
	if len(b) > 2 {
		pids[1] = int(b[1]&0x1f)<<8 | int(b[2])
	}
	p := randPred(r, r.Intn(2), pids)
	opt := func() Pred {
		if r.Intn(2) == 0 {
			return unset
		}
		return randPred(r, 1, pids)
	}
	switch which % 10 {
	case 0:
		g.add("tspkts", TsPktsIn{B: b, Ch: ch, End: end, Reuse: r.Intn(2) == 0, Bit: 0, Max: 3*len(b) + 20, Errs: 1 << 30})
	case 1:
		g.add("tsread", TsReadIn{B: b, Ch: ch, End: end, Mode: "payload", Where: p, Skip: opt(), Take: opt(), Sizes: randSizes(r)})
	case 2:
		g.add("tsread", TsReadIn{B: b, Ch: ch, End: end, Mode: "unit", Where: p, Skip: unset, Take: unset, Sizes: randSizes(r)})
	case 3:
		g.add("demux", DemuxIn{B: b, Ch: ch, End: end, Chans: []Pred{p, anyPkt}, Skip: opt(), Take: unset,
			Mode: []string{"each", "one"}[r.Intn(2)], Delay: []int{0, 0}})
	case 4:
		g.add("pespkts", PesPktsIn{B: b, Ch: ch, End: end, Reuse: r.Intn(2) == 0, Max: 3*len(b) + 20, Errs: 1 << 30})
	case 5:
		g.add("pesread", PesReadIn{B: b, Ch: ch, End: end, Sizes: randSizes(r)})
	case 6:
		g.add("pipe", PipeIn{B: b, Ch: ch, End: end, Mode: []string{"unit", "payload"}[r.Intn(2)], Where: p, Skip: unset, Take: unset,
			Sizes: randSizes(r), Es: Bytes{}})
	case 7:
		g.add("packhdr", PackHdrIn{B: b, Ch: ch, End: end, Max: len(b) + 10})
	case 8:
		g.add("psread", PsReadIn{B: b, Ch: ch, End: end, Sizes: randSizes(r)})
	case 9:
		g.add("psdec", PsDecIn{B: b, Ch: ch, End: end, Delay: []int{0, 0}, Via: []string{"packets", "payload"}[r.Intn(2)]})
	}
}

func init() {
	suites["R04"] = func(g *Gen) { g.troops() }
	suites["R01"] = func(g *Gen) {
		r := g.r
		for w := 0; w < 10; w++ {
			g.survive(nil, w, "eof")
			g.survive([]byte{0x47}, w, "eof")
			g.survive([]byte{0, 0, 1}, w, "eof")
			g.survive([]byte{0, 0, 1, 0xba}, w, "eof")
		}
		// adaptation field lengths and controls, exhaustively
		for afc := 0; afc < 4; afc++ {
			for l := 0; l < 256; l += g.n(3, 1) {
				p := &TsP{Pid: 33, Afc: 1, Pay: fillN(r, 184)}
				b := p.Bytes(r)
				b[3] = b[3]&0xcf | byte(afc)<<4
				b[4] = byte(l)
				b[5] = byte(r.Intn(256))
				b = append(b, randTsP(r, 33).Bytes(r)...)
				g.survive(b, r.Intn(4), "eof")
			}
		}
		// lengths inside of adaptation fields
		for l := 0; l < 256; l += g.n(5, 1) {
			for f := 1; f < 4; f++ {
				b := (&TsP{Pid: 33, Afc: 3, Af: af(r, f, 0, 0, 0, 30), Pay: fillN(r, 184)}).Bytes(r)
				b[6] = byte(l)
				if f == 3 {
					b[6], b[7] = 0, byte(l)
				}
				g.survive(append(b, randTsP(r, 33).Bytes(r)...), r.Intn(4), "eof")
			}
		}
		// PES lengths against little data
		for k := 0; k < g.n(120, 1500); k++ {
			b := randPesP(r, pesOpts{maxPay: 20}).Bytes(r)
			n := pick(r, 0, 1, 2, 3, 4, 8, 255, 256, 32767, 32768, 65535, r.Intn(65536))
			b[4], b[5] = byte(n>>8), byte(n)
			if r.Intn(2) == 0 && len(b) > 9 {
				b[8] = byte(r.Intn(256))
			}
			g.survive(b, 4+r.Intn(2), "eof")
			g.survive(append(randPack(r).Bytes(r), b...), 8+r.Intn(2), "eof")
		}
		for k := 0; k < g.n(1800, 30000); k++ {
			end := "eof"
			if r.Intn(8) == 0 {
				end = "fault"
			}
			g.survive(g.arbitrary(), k, end)
		}
	}

	suites["R03"] = func(g *Gen) {
		g.interruptContainers()
		g.interruptVideo()
	}
}

func (g *Gen) interruptContainers() {
	r := g.r
	// how the next source ends (the calls of a composite literal are made in order)
	var how string
	from := func(full []byte, c int) Cont {
		how = []string{"fault", "fault1", "fault2", "fault2", "eof"}[r.Intn(5)]
		if how == "fault2" {
			return Cont{full[c:]}
		}
		return Cont{}
	}
	end := func() string { return how }
	type tsPktsX struct {
		TsPktsIn
		withFull
	}
	type tsReadX struct {
		TsReadIn
		withFull
	}
	type demuxX struct {
		DemuxIn
		withFull
	}
	type pesPktsX struct {
		PesPktsIn
		withFull
	}
	type pesReadX struct {
		PesReadIn
		withFull
	}
	type pipeX struct {
		PipeIn
		withFull
	}
	type packHdrX struct {
		PackHdrIn
		withFull
	}
	type psReadX struct {
		PsReadIn
		withFull
	}
	type psDecX struct {
		PsDecIn
		withFull
	}
	cuts := func(n, some int) []int {
		if g.thorough() {
			some *= 4
		}
		if n+1 <= some {
			var c []int
			for i := 0; i <= n; i++ {
				c = append(c, i)
			}
			return c
		}
		var c []int
		for i := 0; i < some; i++ {
			c = append(c, r.Intn(n+1))
		}
		return append(c, 0, n, n-1)
	}
	for k := 0; k < g.n(3, 20); k++ {
		b, pids := g.tsStream(2+r.Intn(3), true)
		if k%2 == 1 { // bytes to be skipped in front of some packets
			var d []byte
			for i := 0; i < len(b); i += 188 {
				for j := pick(r, 0, 1, r.Intn(180)); j > 0; j-- {
					d = append(d, byte(r.Intn(71)))
				}
				d = append(d, b[i:i+188]...)
			}
			b = d
		}
		for _, c := range cuts(len(b), 110) {
			g.add("tspkts", tsPktsX{TsPktsIn{Cont: from(b, c), B: b[:c], Ch: nn(randChunks(r)), End: end(), Reuse: true, Max: 20, Errs: 1}, withFull{b}})
		}
		for _, c := range cuts(len(b), 90) {
			w := pid(pids[0])
			sk, tk := unset, unset
			if r.Intn(2) == 0 {
				sk = pid(pids[0])
				if r.Intn(2) == 0 {
					a := pid(pids[1])
					tk = Pred{T: "not", A: &a}
				}
			}
			g.add("tsread", tsReadX{TsReadIn{Cont: from(b, c), B: b[:c], Ch: nn(randChunks(r)), End: end(), Mode: "payload", Where: w,
				Skip: sk, Take: tk, Sizes: randSizes(r)}, withFull{b}})
			g.add("tsread", tsReadX{TsReadIn{Cont: from(b, c), B: b[:c], Ch: nn(randChunks(r)), End: end(), Mode: "unit", Where: w,
				Skip: unset, Take: unset, Sizes: randSizes(r)}, withFull{b}})
		}
		for _, c := range cuts(len(b), 25) {
			g.add("demux", demuxX{DemuxIn{Cont: from(b, c), B: b[:c], Ch: nn(randChunks(r)), End: end(), Chans: []Pred{pid(pids[0]), {T: "pusi"}},
				Skip: unset, Take: unset, Mode: []string{"each", "one"}[r.Intn(2)], Delay: []int{0, 0}}, withFull{b}})
		}
	}
	for k := 0; k < g.n(5, 30); k++ {
		b := g.pesStream(1+r.Intn(3), pesOpts{maxPay: 40})
		if r.Intn(3) == 0 {
			p := randPesP(r, pesOpts{maxPay: 40, plain: true, noPad: true})
			p.Unbounded = true
			b = append(b, p.Bytes(r)...)
		}
		for _, c := range cuts(len(b), 60) {
			more := from(b, c)
			e := end()
			// a cut unbounded packet ends where the source ends
			if e == "eof" && r.Intn(2) == 0 {
				e = "fault"
			}
			if e == "fault" || e == "fault2" {
				g.add("pespkts", pesPktsX{PesPktsIn{Cont: more, B: b[:c], Ch: nn(randChunks(r)), End: e, Reuse: true, Max: 20, Errs: 1}, withFull{b}})
			}
			g.add("pesread", pesReadX{PesReadIn{Cont: more, B: b[:c], Ch: nn(randChunks(r)), End: e, Sizes: randSizes(r)}, withFull{b}})
		}
		b = g.psStream(psOpts{packs: 1 + r.Intn(2), pkts: 2, maxPay: 30})
		b = b[:len(b)-4]
		for _, c := range cuts(len(b), 40) {
			g.add("psread", psReadX{PsReadIn{Cont: from(b, c), B: b[:c], Ch: nn(randChunks(r)), End: end(), Sizes: randSizes(r)}, withFull{append(b[:len(b):len(b)], progEnd...)}})
			g.add("psdec", psDecX{PsDecIn{Cont: from(b, c), B: b[:c], Ch: nn(randChunks(r)), End: end(), Delay: []int{0, 0}, Via: "packets"}, withFull{append(b[:len(b):len(b)], progEnd...)}})
		}
		h := append((&Pack{Scr: 5, Stuff: 2, Sys: &Sys{Streams: 2}}).Bytes(r), progEnd...)
		for c := 0; c <= len(h); c++ {
			g.add("packhdr", packHdrX{PackHdrIn{Cont: from(h, c), B: h[:c], Ch: nn(randChunks(r)), End: end(), Max: 1}, withFull{h}})
		}
	}
	for k := 0; k < g.n(8, 60); k++ {
		b := (&PesP{Id: 0xe0, PtsDts: 2, Pts: 5, Pay: fillN(r, pick(r, 4096, 4097, 4200, 9000))}).Bytes(r)
		b = append(randPesP(r, pesOpts{maxPay: 30}).Bytes(r), b...)
		c := len(b) - pick(r, 1, 2, max(1, len(b)-4200), r.Intn(4000))
		g.add("pesread", pesReadX{PesReadIn{Cont: from(b, c), B: b[:c], Ch: g.bigChunks(), End: end(), Sizes: bigSizes[r.Intn(len(bigSizes))]}, withFull{b}})
		b = append(randPack(r).Bytes(r), b...)
		c = len(b) - pick(r, 1, 2, max(1, len(b)-4220), r.Intn(4000))
		g.add("psread", psReadX{PsReadIn{Cont: from(b, c), B: b[:c], Ch: g.bigChunks(), End: end(), Sizes: bigSizes[r.Intn(len(bigSizes))]}, withFull{append(b[:len(b):len(b)], progEnd...)}})
		g.add("psdec", psDecX{PsDecIn{Cont: from(b, c), B: b[:c], Ch: g.bigChunks(), End: end(), Delay: []int{0, 0}, Via: "packets"}, withFull{append(b[:len(b):len(b)], progEnd...)}})
	}
	// every byte of packets with all kinds of fields, from a source that fails once and goes on
	for k := 0; k < g.n(10, 40); k++ {
		p := &TsP{Pid: 5, Afc: 2 + r.Intn(2), Cc: 3, Pay: fillN(r, 184)}
		n := pick(r, 0, 0, 183)
		if p.Afc == 2 {
			n = 183
		}
		p.Af = af(r, []int{0xff, 1, 3, r.Intn(256)}[k%4], r.Intn(9), []int{7, 2, r.Intn(8)}[k%3], r.Intn(3), n)
		a := (&TsP{Pid: 5, Afc: 1, Cc: 4, Pay: fillN(r, 184)}).Bytes(r)
		b := append(p.Bytes(r), a...)
		for c := 0; c < 60; c++ {
			g.add("tspkts", tsPktsX{TsPktsIn{Cont: Cont{b[c:]}, B: b[:c], Ch: nn(randChunks(r)), End: "fault2", Reuse: true, Max: 20, Errs: 1}, withFull{b}})
		}
	}
	for k := 0; k < g.n(4, 20); k++ {
		h := append(randPack(r).Bytes(r), progEnd...)
		if k == 0 {
			h = append((&Pack{Scr: 5, Stuff: 7, Sys: &Sys{Streams: 3}}).Bytes(r), progEnd...)
		}
		for c := 0; c < len(h); c++ {
			g.add("packhdr", packHdrX{PackHdrIn{Cont: Cont{h[c:]}, B: h[:c], Ch: nn(randChunks(r)), End: "fault2", Max: 1}, withFull{h}})
		}
	}
	for _, b := range g.bareHeaders() {
		b = append(b, 0, 0, 1, 0xbe, 0, 0)
		for c := 0; c < len(b)-6; c++ {
			g.add("pespkts", pesPktsX{PesPktsIn{Cont: Cont{b[c:]}, B: b[:c], Ch: nn(randChunks(r)), End: "fault2", Reuse: true, Max: 20, Errs: 1}, withFull{b}})
		}
	}
	for _, b := range g.bareHeaders() {
		for c := 1; c <= 6 && c < len(b)-6; c++ {
			for _, e := range []string{"fault", "eof"} {
				g.add("pespkts", pesPktsX{PesPktsIn{B: b[:len(b)-c], Ch: nn(randChunks(r)), End: e, Reuse: true, Max: 20, Errs: 1}, withFull{b}})
			}
		}
	}
	// stacked readers
	before := len(g.cases)
	g.pipelines()
	pipes := append([]Case(nil), g.cases[before:]...)
	g.cases = g.cases[:before]
	for i := range pipes {
		if i >= g.n(90, 600) {
			break
		}
		var in PipeIn
		mustUnmarshal(pipes[i].In, &in)
		full := in.B
		for k := 0; k < 2; k++ {
			c := r.Intn(len(full) + 1)
			in.Cont, in.B = from(full, c), full[:c]
			in.End = end()
			if len(in.B) == len(full) {
				in.End = "fault"
			}
			g.add("pipe", pipeX{in, withFull{Bytes{}}})
		}
	}
}
