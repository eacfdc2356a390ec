package main

// Combinations and sizes that the other generators of the container layers reach
// only by chance.

// headerProducts is every combination of the flags of a transport packet header
// on pids that have a meaning elsewhere.
func (g *Gen) headerProducts(put func(*TsP)) {
	r := g.r
	pids := []int{0, 1, 2, 16, 0x1000, 0x1ffe, 0x1fff, r.Intn(8192)}
	for i, pidv := range pids {
		for f := 0; f < 32; f++ {
			for afc := 1; afc < 4; afc++ {
				if !g.thorough() && (f>>3+i+afc)%2 != 0 && f&7 != 0 && pidv != 0x1fff {
					continue
				}
				t := &TsP{Tei: f&1 != 0, Pusi: f&2 != 0, Prio: f&4 != 0, Tsc: f >> 3, Afc: afc, Pid: pidv, Cc: r.Intn(16), Pay: fillN(r, 184)}
				switch afc {
				case 2:
					t.Af = af(r, r.Intn(256), r.Intn(9), r.Intn(8), 0, 183)
				case 3:
					t.Af = af(r, r.Intn(256), r.Intn(9), r.Intn(8), 0, pick(r, 0, 0, 100, 182))
				}
				put(t)
			}
		}
	}
}

// afLengths is every length of transport private data and of an adaptation
// field extension.
func (g *Gen) afLengths(put func(*TsP)) {
	r := g.r
	all := g.thorough()
	for n := 0; n <= 181; n++ {
		near := n < 4 || n > 176 || (n > 124 && n < 132)
		if all || near || n%3 == 0 {
			put(&TsP{Pid: 40, Afc: 2, Af: af(r, 0x02|r.Intn(16)<<4&0xe0, n, 0, 0, 183)})
		}
		if (all || near || n%3 == 1) && n <= 180 {
			put(&TsP{Pid: 41, Afc: 3, Af: af(r, 0x02, n, 0, 0, 0), Pay: fillN(r, 184)})
		}
		for _, f := range []int{0, 7, r.Intn(8)} {
			m := []int{1, 3, 4, 6, 6, 8, 9, 11}[f] // bytes the extension has anyway
			if n >= m && (all || near || n%3 == 2) {
				put(&TsP{Pid: 42, Afc: 2, Af: af(r, 0x01, 0, f, n-m, 183)})
				if n <= 180 {
					put(&TsP{Pid: 43, Afc: 3, Af: af(r, 0x01, 0, f, n-m, 0), Pay: fillN(r, 184)})
				}
			}
		}
		// both
		if k := 180 - n; n > 0 && n <= 168 && (all || near || n%5 == 0) {
			put(&TsP{Pid: 44, Afc: 2, Af: af(r, 0x03, n, 7, k-11, 183)})
		}
	}
}

// pesLengths are skipped fields, lengths and ids at their limits.
func (g *Gen) pesLengths(put func(*PesP), one func([]byte)) {
	r := g.r
	for l := 128; l <= 253; l++ {
		if !g.thorough() && l%6 != 0 && l < 250 && l > 130 {
			continue
		}
		put(&PesP{Id: 0xe2, Flags2: 1, ExtFlags: 0x40, PackLen: l, Pay: fillN(r, 2)})
		if l <= 240 {
			put(&PesP{Id: 0xe2, PtsDts: 2, Pts: 77, Flags2: 1, ExtFlags: 0x41, PackLen: l, Ext2Len: min(246-l, 127), Pay: fillN(r, 2)})
		}
		put(&PesP{Id: 0xc2, Stuff: l, Pay: fillN(r, 2)})
	}
	put(&PesP{Id: 0xe2, Stuff: 254, Pay: fillN(r, 2)})
	put(&PesP{Id: 0xe2, Stuff: 255})
	ids := []int{0xbc, 0xbe, 0xbf, 0xf0, 0xf1, 0xf2, 0xf8, 0xff, 0xbd, 0xc0, 0xdf, 0xe0, 0xef, 0xf3, 0xfe}
	for i, id := range ids {
		for j, n := range []int{65535, 256, 4096, 32768} {
			if !g.thorough() && j > 0 && (i+j)%7 != 0 && id != 0xff {
				continue
			}
			p := &PesP{Id: id, Pay: fillN(r, n)}
			if !headerless(id) {
				p.Pay = p.Pay[:n-3]
			}
			one(append(p.Bytes(r), randPesP(r, pesOpts{maxPay: 20}).Bytes(r)...))
		}
	}
}

// cutPayloads are packets of every stream id that end inside of their payload.
func (g *Gen) cutPayloads(one func([]byte)) {
	r := g.r
	for id := 0xbc; id <= 0xff; id++ {
		for k := 0; k < g.n(3, 6); k++ {
			p := &PesP{Id: id, Pay: fillN(r, 1+r.Intn(30))}
			if k == 1 {
				p.Pay = fillN(r, pick(r, 300, 4096, 4097, 5000))
				p.randOptional(r)
			}
			b := p.Bytes(r)
			one(b[:len(b)-pick(r, 1, 1, len(p.Pay), 1+r.Intn(len(p.Pay)), max(1, len(p.Pay)-4096))])
		}
	}
}

// longCut is a PES stream that ends inside of a long packet.
func (g *Gen) longCut() []byte {
	r := g.r
	b := g.pesStream(r.Intn(3), pesOpts{maxPay: 30})
	p := randPesP(r, pesOpts{maxPay: 10})
	n := pick(r, 2000, 4096, 4097, 4200, 8193, 6000+r.Intn(4000))
	p.Pay = fillN(r, n)
	c := p.Bytes(r)
	return append(b, c[:len(c)-pick(r, 1, 1+r.Intn(n-1), max(1, n-4096+1), n-1, n/2)]...)
}

// afterEnd appends to a program something that is not part of it any more.
func (g *Gen) afterEnd(b []byte) []byte {
	r := g.r
	b = b[:len(b):len(b)]
	switch r.Intn(4) {
	case 0:
		return append(b, g.psStream(psOpts{packs: 1 + r.Intn(2), pkts: 3, maxPay: 30})...)
	case 1:
		return append(b, g.pesStream(1+r.Intn(2), pesOpts{maxPay: 30})...)
	case 2:
		return append(b, append(append([]byte(nil), progEnd...), randPack(r).Bytes(r)...)...)
	}
	return append(b, append(randPack(r).Bytes(r), g.pesStream(2, pesOpts{maxPay: 30, plain: true})...)...)
}

// headerBits is every single-bit change of varied pack headers.
func (g *Gen) headerBits(one func([]byte, int)) {
	r := g.r
	for k := 0; k < g.n(5, 20); k++ {
		p := randPack(r)
		p.Stuff = pick(r, 0, 0, 1)
		if k%2 == 0 {
			p.Sys = &Sys{Streams: pick(r, 0, 1)}
		} else {
			p.Sys = nil
		}
		good := append(p.Bytes(r), progEnd...)
		for i := 0; i < (len(good)-4)*8; i++ {
			b := append([]byte(nil), good...)
			b[i/8] ^= 0x80 >> uint(i%8)
			one(b, 1)
		}
	}
}

// joinBits appends b to the first n bits of a.
func joinBits(a []byte, n int, b []byte) []byte {
	var w BitWriter
	w.Bytes(a[:n/8])
	for i := n &^ 7; i < n; i++ {
		w.Put(uint64(a[i/8]>>uint(7-i%8)), 1)
	}
	w.Bytes(b)
	return w.Out()
}

// codeAfterError are programs in which the bytes that follow the point at which
// a packet or header is found to be malformed look like the proper end of the
// program, or like its next pack.
func (g *Gen) codeAfterError(one func([]byte)) {
	r := g.r
	follow := func() []byte {
		if r.Intn(3) > 0 {
			return progEnd
		}
		return g.psStream(psOpts{packs: 1, pkts: 2, maxPay: 10})
	}
	start := func() []byte {
		b := randPack(r).Bytes(r)
		if r.Intn(2) == 0 {
			b = append(b, randPesP(r, pesOpts{maxPay: 10}).Bytes(r)...)
		}
		return b
	}
	for k := 0; k < g.n(2, 8); k++ {
		p := &PesP{Id: pick(r, 0xe0, 0xc0, 0xbd), PtsDts: pick(r, 2, 3), Pts: edge(r, 32), Dts: edge(r, 32), Flags2: pick(r, 0, 1, 0x3f),
			ExtFlags: pick(r, 0x10, 0xf1), PackLen: 2, Ext2Len: 2, Stuff: 1 + r.Intn(2)}
		good := p.Bytes(r)
		for i := 24; i < len(good)*8; i++ {
			bad := append([]byte(nil), good...)
			bad[i/8] ^= 0x80 >> uint(i%8)
			for j := i + 1; j <= min(i+4, len(good)*8); j++ {
				if j > i+1 && r.Intn(g.n(6, 1)) > 0 {
					continue
				}
				one(append(start(), joinBits(bad, j, follow())...))
			}
			if i%8 == 7 || r.Intn(6) == 0 {
				one(append(start(), joinBits(bad, (i/8+1)*8, follow())...))
			}
		}
		// headers of later packs
		q := randPack(r)
		q.Stuff, q.Sys = 1, &Sys{Streams: 2}
		good = q.Bytes(r)
		for i := 32; i < len(good)*8; i++ {
			bad := append([]byte(nil), good...)
			bad[i/8] ^= 0x80 >> uint(i%8)
			one(append(start(), joinBits(bad, min(len(good)*8, pick(r, i+1, i+1, i+2, (i/8+1)*8)), follow())...))
		}
	}
	for i := 0; i < g.n(60, 300); i++ {
		p := &PesP{Id: 0xe0}
		if r.Intn(2) == 0 {
			p.randOptional(r)
		}
		switch r.Intn(3) {
		case 0:
			p.LenDelta = -1 - r.Intn(3)
		case 1:
			p.HdlDelta = -1 - r.Intn(3)
		case 2:
			p.LenDelta = 1 + r.Intn(40)
		}
		one(append(start(), append(p.Bytes(r), follow()...)...))
	}
}
