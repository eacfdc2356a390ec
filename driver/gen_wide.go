package main

// Long, wide and tall: streams in which something happens many times, far
// away or at the end of its range.

// padding: what may stand behind a header, and what may not.
func (g *Gen) padding(put func(f func(w *BitWriter))) {
	r := g.r
	next := func(w *BitWriter) { w.Put(0x100|uint64(r.Intn(256)), 32) }
	zeros := func(w *BitWriter, n int) {
		for ; n > 0; n-- {
			w.Put(0, 8)
		}
	}
	runs := []int{255, 256, 257, 300, 511, 1024, 4099}
	for n := 6; n < 40; n += 1 + r.Intn(3) {
		runs = append(runs, n)
	}
	for _, n := range runs {
		n := n
		put(func(w *BitWriter) { w.Align(); zeros(w, n); next(w) })
	}
	put(func(w *BitWriter) { w.Align(); zeros(w, 65533+r.Intn(9)); next(w) })
	for v := 1; v < 256; v++ {
		v := v
		n := r.Intn(2)
		if v > 1 {
			n = pick(r, 0, 0, 1, 1, 2, 3, 7, 300)
		}
		put(func(w *BitWriter) { w.Align(); zeros(w, n); w.Put(uint64(v), 8); zeros(w, r.Intn(2)); next(w) })
	}
}

// strays are streams with something between two units that is not stuffing.
func (g *Gen) strays(t *vlcTables) {
	r := g.r
	for k := 0; k < g.n(12, 200); k++ {
		s := g.vs(t, 1+r.Intn(32), 1+r.Intn(32), r.Intn(2))
		s.side = r.Intn(2) == 0
		s.set = func(p *Pic) { p.MaxCoefs = 1 }
		s.header(nil, nil)
		s.gopHdr(false)
		s.group("IPB"[:1+r.Intn(2)], []int{0, r.Intn(2)}, 0)
		s.done()
		b := s.Out()
		us := units(b)
		var at []int
		for i := range us[1:] {
			// behind a slice there is room for another macroblock
			if c := b[us[i]+3]; c < 1 || c > 0xAF {
				at = append(at, us[i+1])
			}
		}
		i := at[r.Intn(len(at))]
		v := byte(pick(r, 1, 2, 128, 255, 1+r.Intn(255)))
		in := s.runs()
		in.B = append(append(append(append(Bytes{}, b[:i]...), make([]byte, r.Intn(2))...), v), b[i:]...)
		in.Gray, in.Want = true, ""
		g.add("vframes", in)
	}
}

// longRuns has many B pictures one after the other.
func (g *Gen) longRuns(t *vlcTables, ref bool) {
	r := g.r
	for k := 0; k < g.n(1, 1); k++ {
		for _, n := range []int{255 + r.Intn(4), 505 + r.Intn(15), 600 + r.Intn(400), 1018 + r.Intn(3)} {
			s := g.vs(t, 16, 16, 1)
			s.set = flat
			if ref {
				s.set = func(p *Pic) {
					p.NoVec, p.Conc, p.MaxCoefs, p.SkipP, p.CodedP, p.Split = true, false, 0, 0, 0, 1
					if p.IntraP = 1; p.T == 'B' {
						p.IntraP = 0
					}
				}
			}
			s.header(nil, nil)
			if r.Intn(2) == 0 {
				s.gopHdr(false)
			}
			tr := s.group("I", []int{0}, 0)
			for j := r.Intn(4) * r.Intn(300); j > 0 && !ref; j-- {
				tr = s.group("P", []int{0}, tr)
			}
			tr = s.group("P", []int{n}, tr)
			s.group("P", []int{1}, tr)
			s.done()
			s.add()
		}
	}
}

// endlessRuns: so many B pictures that temporal references mean two pictures.
func (g *Gen) endlessRuns(t *vlcTables) {
	for _, n := range []int{1100, 1022} {
		s := g.vs(t, 16, 16, 1)
		k := 0
		s.set = func(p *Pic) {
			flat(p)
			k++
			v := 16 + k*37%200
			p.Prec = 0
			p.Plan = func(row, col int, first, last bool, prev *MB) *MB {
				return &MB{Intra: true, DC: [6]int{v, v, v, v, 128, 128}}
			}
		}
		s.header(nil, nil)
		s.gopHdr(false)
		tr := s.group("IP", []int{0, n}, 0)
		s.group("P", []int{1}, tr)
		s.done()
		in := s.runs()
		in.Kf = "call 1025: luma samples differ, first in macroblock 0"
		if n == 1100 {
			in.Kf = "call 78: luma samples differ, first in macroblock 0"
		}
		g.add("vframes", in)
	}
}

// sequels: a sequence of large pictures, and another one.
func (g *Gen) sequels(t *vlcTables) {
	r := g.r
	dims := []int{4096, 4097, 4111, 4112, 4127, 4100, 4128, 4099}
	first := r.Intn(6)
	for k := first; k < first+g.n(2, 2); k++ {
		s := g.vs(t, 16, dims[k%len(dims)], 1)
		if k%2 == 1 {
			s.Width, s.Height = s.Height, s.Width
		}
		s.set = func(p *Pic) { flat(p); p.Fpfd = true; p.Split = 1 }
		for n := 0; n < 2; n++ {
			s.header(nil, nil)
			if r.Intn(2) == 0 {
				s.gopHdr(false)
			}
			s.group("I", []int{0}, 0)
			s.done()
			s.Width, s.Height = 1+r.Intn(32), 1+r.Intn(32)
		}
		s.add()
	}
}

// islands: intra macroblocks with skipped ones between them.
func (g *Gen) islands(t *vlcTables, conc bool) {
	r := g.r
	perm := r.Perm(69)
	for k := 0; k < 6; k++ {
		s := g.vs(t, 16*104, 32, 1)
		s.set = func(p *Pic) { flat(p); p.Fpfd = true }
		s.header(nil, nil)
		s.put(s.pic('I', 0))
		for n := 0; n < 3; n++ {
			s.set = nil
			p := s.pic("PPB"[n], []int{1, 3, 2}[n])
			p.Split, p.MaxCoefs, p.Conc, p.NoVec = 1, 0, conc && r.Intn(2) == 0, false
			p.F = [2][2]int{{1 + r.Intn(3), 1 + r.Intn(3)}, {15, 15}}
			if p.T == 'B' {
				p.F[1] = [2]int{1 + r.Intn(3), 1 + r.Intn(3)}
			}
			p.CodedP, p.SkipP, p.MoveP = 0, 0, 0.8
			p.IntraP = 0.85
			if conc {
				p.IntraP = 0.4
			}
			next := 0
			p.Plan = func(row, col int, first, last bool, prev *MB) *MB {
				if !first && !last && col != next {
					skip := p.T == 'P' || !prev.Intra && (!prev.Fwd || s.inside(row, col, prev.Vec[0])) && (!prev.Bwd || s.inside(row, col, prev.Vec[1]))
					if skip {
						return &MB{Skip: true}
					}
				}
				if first || col >= next {
					next = col + 1 + perm[0]
					perm = append(perm[1:], perm[0])
				}
				m := s.plan(row, col, true, true, prev)
				if p.T == 'B' {
					if conc && r.Intn(4) == 0 {
						return m
					}
					// the same vectors have to do for those that follow
					m = &MB{Fwd: r.Intn(2) == 0, Bwd: true}
					for d := range m.Vec {
						m.Vec[d] = s.randVec(d, row, col)
						m.Vec[d][0] = -r.Intn(min(16, 32*col+1))
					}
				}
				return m
			}
			s.put(p)
		}
		s.done()
		s.add()
	}
}

// wideQuant: rows that are long, with few changes of the scale.
func (g *Gen) wideQuant(t *vlcTables) {
	r := g.r
	for k := 0; k < g.n(2, 10); k++ {
		s := g.vs(t, 16*(66+r.Intn(80)), 16, 1)
		s.set = func(p *Pic) {
			p.Fpfd, p.Conc, p.NoVec, p.Split, p.QuantP, p.IntraP, p.SkipP, p.CodedP, p.MaxCoefs = true, false, true, 1, 0.015, 0.3, 0.2, 0.8, 2
		}
		s.header(nil, nil)
		s.put(s.pic('I', 0))
		s.put(s.pic('P', 1))
		s.done()
		s.add()
	}
}

// weights: every position of every matrix counts, wherever it came from.
func (g *Gen) weights(t *vlcTables) {
	r := g.r
	for _, intra := range []bool{true, false} {
		for alt := 0; alt < 2; alt++ {
			for from := 0; from < 3; from++ { // default, sequence header, extension
				s := g.vs(t, 32, 32, 1)
				var m [2]*[64]byte
				for i := range m {
					m[i] = &[64]byte{}
					for j := range m[i] {
						m[i][j] = byte(8 + r.Intn(120))
					}
				}
				if from == 1 {
					s.header(m[0], m[1])
				} else {
					s.header(nil, nil)
				}
				p := s.pic('I', 0)
				flat(p)
				s.put(p)
				p = s.pic('P', 1)
				p.Alt, p.Conc, p.Qst, p.Prec, p.Fpfd, p.Ivf, p.F, p.SliceQS = alt, false, r.Intn(2), 0, true, r.Intn(2), [2][2]int{{1, 1}, {15, 15}}, 4+r.Intn(4)
				if from == 2 {
					p.LoadExt = true
					p.Load[0], p.Load[1] = m[0], m[1]
				}
				at := 0
				p.Plan = func(row, col int, first, last bool, prev *MB) *MB {
					b := &MB{Intra: intra, Fwd: !intra, Patt: !intra, Cbp: 63}
					for j := range b.Coefs {
						b.DC[j] = 128
						// three positions in each block, all of them in the picture
						n := 0
						if intra {
							n = 1
						}
						for i := 0; i < 3; i++ {
							to := at%21 + 21*i
							if intra {
								to++
							}
							lv := 2 + r.Intn(3)
							b.Coefs[j] = append(b.Coefs[j], Coef{Run: to - n, Level: lv * (1 - 2*r.Intn(2)), Esc: r.Intn(2) == 0})
							n = to + 1
						}
						at++
					}
					return b
				}
				s.put(p)
				s.done()
				s.add()
			}
		}
	}
}

// mismatch: sums of coefficients of either parity and sign, where it can be seen.
func (g *Gen) mismatch(t *vlcTables) {
	r := g.r
	for k := 0; k < g.n(2, 20); k++ {
		s := g.vs(t, 16*6, 16*4, 1)
		ones := &[64]byte{}
		for i := range ones {
			ones[i] = 16
		}
		s.header(ones, ones)
		p := s.pic('I', 0)
		flat(p)
		s.put(p)
		for n := 1; n < 3; n++ {
			p = s.pic('P', n)
			p.Conc, p.Qst, p.Prec, p.Fpfd, p.F, p.QuantP = false, 1, 3, true, [2][2]int{{1, 1}, {15, 15}}, 0
			// a scale of one: levels are what they stand for, or half as much
			p.SliceQS = 1
			last := 63
			if p.Alt = r.Intn(2); r.Intn(8) == 0 {
				last = 1 + r.Intn(62)
			}
			p.Plan = func(row, col int, first, last0 bool, prev *MB) *MB {
				b := &MB{Intra: n == 1}
				b.Patt, b.Fwd = !b.Intra, !b.Intra
				b.Cbp = 63
				for j := range b.Coefs {
					b.DC[j] = 1024 + r.Intn(64) - 32
					at := 1
					if !b.Intra {
						at = 0
						// the DC coefficient
						b.Coefs[j] = append(b.Coefs[j], Coef{Run: 0, Level: (1 + r.Intn(40)) * (1 - 2*r.Intn(2)), Esc: r.Intn(2) == 0})
						at = 1
					}
					for i := r.Intn(3); i > 0; i-- {
						c := Coef{Run: r.Intn(8), Level: (1 + r.Intn(4)) * (1 - 2*r.Intn(2))}
						b.Coefs[j] = append(b.Coefs[j], c)
						at += c.Run + 1
					}
					if r.Intn(4) > 0 && at <= last {
						b.Coefs[j] = append(b.Coefs[j], Coef{Run: last - at, Level: (1 + r.Intn(5)) * (1 - 2*r.Intn(2))})
					}
				}
				return b
			}
			s.put(p)
		}
		s.done()
		s.add()
	}
}

// saturation: products that end right at the limits.
func (g *Gen) saturation(t *vlcTables) {
	r := g.r
	for _, intra := range []bool{true, false} {
		for k := 0; k < g.n(1, 6); k++ {
			s := g.vs(t, 16*4, 16*2, 1)
			m := &[64]byte{}
			for i := range m {
				m[i] = byte(pick(r, 16, 16, 15, 17, 32, 1+r.Intn(255)))
			}
			s.header(m, m)
			p := s.pic('I', 0)
			flat(p)
			s.put(p)
			p = s.pic('P', 1)
			p.Conc, p.Qst, p.Fpfd, p.F, p.QuantP = false, 1, true, [2][2]int{{1, 1}, {15, 15}}, 0
			p.SliceQS = 1 + r.Intn(2)
			scan := t.Zig
			if p.Alt == 1 {
				scan = t.Alt
			}
			step := r.Intn(7)
			p.Plan = func(row, col int, first, last bool, prev *MB) *MB {
				b := &MB{Intra: intra, Fwd: !intra, Patt: !intra, Cbp: 63}
				w := s.W[1]
				if intra {
					w = s.W[0]
				}
				for j := range b.Coefs {
					b.DC[j] = 1 << uint(7+p.Prec)
					n := 0
					if intra {
						n = 1
					}
					run := 0
					for {
						run = r.Intn(60)
						if q := w[scan[n+run]] * s.scale(p.SliceQS); q <= 64 && q > 15 {
							// a product of 2045 to 2050
							want := 2045 + step%7
							step++
							lv := want * 16 / q
							for lv*q/16 < want && !intra == false {
								lv++
							}
							if lv > 2047 {
								lv = 2047
							}
							b.Coefs[j] = []Coef{{Run: run, Level: lv * (1 - 2*r.Intn(2)), Esc: true}}
							break
						}
					}
				}
				return b
			}
			s.put(p)
			s.done()
			s.add()
		}
	}
}

// farAway: motion in pictures whose rows are long or that have many rows.
func (g *Gen) farAway(t *vlcTables) {
	r := g.r
	for k := 0; k < g.n(2, 9); k++ {
		w, h := 16*(65+r.Intn(12)), 32
		switch k % 4 {
		case 1:
			w, h = 32, 16*(65+r.Intn(12))
		case 2:
			w, h = 16*(33+r.Intn(8)), 16*3
		case 3:
			w, h = 16*130, 16
		}
		s := g.vs(t, w, h, 1)
		s.set = func(p *Pic) { p.Conc, p.MaxCoefs, p.Split, p.Fpfd = false, 1, 1, true }
		s.header(nil, nil)
		s.put(s.pic('I', 0))
		s.set = nil
		for n := 0; n < 2; n++ {
			p := s.pic("PB"[n], 2-n)
			p.Conc, p.MaxCoefs, p.CodedP, p.Split, p.Fpfd = false, 1, 0.15, 1, r.Intn(3) > 0
			p.F = [2][2]int{{5, 5}, {15, 15}}
			if n == 1 {
				p.F[1] = [2]int{5, 5}
			}
			p.Plan = func(row, col int, first, last bool, prev *MB) *MB {
				near := col < 2 || col > s.mw()-4 || row < 2 || row > s.mh()-4 || (col&31) > 29 || (col&31) < 2 || row&31 < 2
				m := s.plan(row, col, true, true, prev)
				if !near || m.Intra {
					m = &MB{Fwd: true}
				}
				for d := 0; d < 2; d++ {
					if (m.Fwd && d == 0) || (m.Bwd && d == 1) {
						lo, hi := s.vecRange(d, row, col)
						m.Vec[d] = [2]int{pick(r, lo[0], hi[0], hi[0]-1, hi[0]-2, 0, lo[0]+1), pick(r, lo[1], hi[1], hi[1]-1, 0, lo[1]+1)}
						if !s.inside(row, col, m.Vec[d]) {
							m.Vec[d] = [2]int{}
						}
						for c := 0; c < 2; c++ {
							if m.Vec[d][c] < lo[c] || m.Vec[d][c] > hi[c] {
								m.Vec[d][c] = 0
							}
						}
					}
				}
				if !near {
					m.Vec = [2][2]int{{r.Intn(5) - 2, 0}, {}}
					if !s.inside(row, col, m.Vec[0]) {
						m.Vec[0] = [2]int{}
					}
				}
				return m
			}
			s.put(p)
		}
		s.done()
		s.add()
	}
}

// bulky streams have side data of unusual size at one place.
func (g *Gen) bulky(t *vlcTables, only string) {
	r := g.r
	places := []string{"seq", "gop", "pic", "gap", "slice"}
	at := func(n int) int { return n + r.Intn(n/4+2) }
	for k := 0; k < g.n(1, 4); k++ {
		var bs []Bulk
		for _, where := range places[:3] {
			// the sizes cross the powers of two up to 2^16
			for _, n := range []int{at(500), at(1000), at(2100), at(4100), 8193 + r.Intn(9), 16400 + r.Intn(9)} {
				bs = append(bs, Bulk{where, "data", n})
			}
			bs = append(bs, Bulk{where, "blocks", 33 + r.Intn(20)}, Bulk{where, "blocks", 65 + r.Intn(60)}, Bulk{where, "blocks", 257 + r.Intn(60)})
		}
		for _, where := range places {
			bs = append(bs, Bulk{where, "zeros", at(1030)}, Bulk{where, "zeros", 4097 + r.Intn(4096)}, Bulk{where, "zeros", 8193 + r.Intn(9000)})
		}
		bs = append(bs,
			Bulk{places[r.Intn(3)], "data", 32769 + r.Intn(99)}, Bulk{places[r.Intn(3)], "data", 65537 + r.Intn(99)},
			Bulk{places[r.Intn(5)], "zeros", 65537 + r.Intn(99)},
			Bulk{places[r.Intn(3)], "blocks", 1025 + r.Intn(99)})
		for _, n := range []int{at(100), at(256), at(520), at(1030), at(4100)} {
			bs = append(bs, Bulk{"pic", "skip", n}, Bulk{"slice", "extra", n}, Bulk{"head", "extra", n})
		}
		for i := range bs {
			b := bs[i]
			if only != "" && b.Where != only {
				continue
			}
			s := g.vs(t, 1+r.Intn(32), 1+r.Intn(32), r.Intn(2))
			s.side = r.Intn(3) == 0
			s.set = func(p *Pic) {
				p.MaxCoefs = 1
				if b.Where == "head" && s.bulk != nil && p.TR > 0 {
					s.bulk = nil
					p.Extra = randBytes(r, b.N)
				}
			}
			s.bulk = &b
			s.header(nil, nil)
			s.gopHdr(false)
			s.group("IP", []int{0, r.Intn(2)}, 0)
			s.done()
			in := s.runs()
			in.Runs[0].Ch = nn(nil)
			if r.Intn(2) == 0 {
				in.Runs[0].Ch = []int{pick(r, 1000, 4096, 188)}
			}
			g.add("vframes", in)
		}
	}
}
