package main

// mixed makes streams in which everything that a stream may contain comes together: each stream has its own
// inclinations, each picture its own parameters.
func (g *Gen) mixed(t *vlcTables, quick, thorough int) {
	r := g.r
	// how often: never, now and then, often, (nearly) always
	often := func() float64 { return []float64{0, 0.08, 0.3, 0.6, 0.9}[r.Intn(5)] }
	for k := 0; k < g.n(quick, thorough); k++ {
		s := g.vs(t, 1+r.Intn(112), 1+r.Intn(80), r.Intn(2))
		s.side = r.Intn(3) == 0
		intra, skip, quant, coded, move := often()*0.7, often(), often(), often(), often()
		loads, conc, extra, open, big := often()*0.5, often()*0.7, often()*0.4, often(), often()*0.15
		most, wide, long, still := []int{0, 1, 1, 2, 4, 8, 20}[r.Intn(7)], r.Intn(4), r.Intn(3), r.Intn(8) == 0
		fixed, bare := r.Intn(4), r.Intn(6) == 0
		if k%8 == 3 {
			// wide, with long runs of skipped macroblocks
			s.Width, s.Height = 16*(40+r.Intn(40)), 1+r.Intn(32)
			intra, skip, fixed, most = intra*0.3, 0.97, 0, 1+most%2
		}
		s.set = func(p *Pic) {
			yes := func(f float64) bool { return r.Float64() < f }
			p.IntraP, p.SkipP, p.QuantP, p.CodedP, p.MoveP = intra, skip, quant, coded, move
			p.MaxCoefs, p.Big, p.Open, p.NoVec = most, big, yes(open), still
			if p.T == 'I' && most > 4 {
				p.MaxCoefs = 4
			}
			p.Conc = yes(conc)
			for d := range p.F {
				for c := range p.F[d] {
					if d == 0 && (p.T != 'I' || p.Conc) || d == 1 && p.T == 'B' {
						switch wide {
						case 0:
							p.F[d][c] = 1 + r.Intn(9)
						case 1:
							p.F[d][c] = 1 + r.Intn(2)
						default:
							p.F[d][c] = 1 + r.Intn(5)
						}
					} else {
						p.F[d][c] = 15
					}
				}
			}
			if yes(loads) {
				p.LoadExt = true
				for i := range p.Load {
					if r.Intn(2) == 0 {
						p.Load[i] = randMatrix(r)
					}
				}
			}
			for yes(extra) && len(p.Extra) < 40 {
				p.Extra = append(p.Extra, byte(r.Intn(256)))
			}
			switch fixed {
			case 0:
				p.Fpfd = true
			case 1:
				p.Fpfd = false
			}
			if r.Intn(3) == 0 {
				p.Split = 1
			}
			if r.Intn(5) == 0 {
				p.SliceQS = 1 + r.Intn(31)
			}
		}
		header := func() {
			var m [2]*[64]byte
			for i := range m {
				if r.Float64() < loads {
					m[i] = randMatrix(r)
				}
			}
			s.header(m[0], m[1])
		}
		header()
		tr := 0
		for n := 1 + r.Intn(2); n > 0; n-- {
			rf, bs := s.randShape(2+long, 2, false)
			if !bare && (tr == 0 || r.Intn(3) > 0) {
				s.gopHdr(bs[0] > 0)
				tr = 0
			}
			tr = s.group(rf, bs, tr)
			if n > 1 {
				switch r.Intn(4) {
				case 0:
					header()
				case 1:
					s.done()
					header()
					tr = 0
				case 2:
					mw, mh := s.mw(), s.mh()
					s.Width, s.Height, s.Prog = 1+r.Intn(112), 1+r.Intn(80), r.Intn(2)
					if mw != s.mw() || mh != s.mh() {
						s.refs = 0
					}
					header()
				}
			}
		}
		s.done()
		s.add()
	}
}
