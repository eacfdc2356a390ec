package main

// V12: headers that are malformed or announce what is not supported

type vunit struct {
	b    []byte
	code byte
}

// split cuts a stream at its start codes.
func split(b []byte) (us []vunit) {
	at := append(units(b), len(b))
	for i := 0; i+1 < len(at); i++ {
		us = append(us, vunit{append([]byte(nil), b[at[i]:at[i+1]]...), b[at[i]+3]})
	}
	return
}

func glue(us []vunit) (b Bytes) {
	for _, u := range us {
		b = append(b, u.b...)
	}
	return
}

func setBits(b []byte, p, n int, v uint64) {
	for i := 0; i < n && (p+i)/8 < len(b); i++ {
		m := byte(0x80 >> uint((p+i)%8))
		b[(p+i)/8] &^= m
		if v>>uint(n-1-i)&1 != 0 {
			b[(p+i)/8] |= m
		}
	}
}

func insertUnit(us []vunit, i int, b []byte) []vunit {
	out := append([]vunit(nil), us[:i]...)
	out = append(out, vunit{b, b[3]})
	return append(out, us[i:]...)
}

func (u vunit) ext() int {
	if u.code != 0xB5 || len(u.b) < 5 {
		return -1
	}
	return int(u.b[4] >> 4)
}

// badHeaders are streams with one header damaged.
func (g *Gen) badHeaders(t *vlcTables) {
	r := g.r
	slice := func(u vunit) bool { return u.code >= 1 && u.code <= 0xAF }
	type damage struct {
		name string
		// what the unit must be, and the damage
		is func(us []vunit, i int) bool
		do func(us []vunit, i int) []vunit
	}
	code := func(c byte) func([]vunit, int) bool { return func(us []vunit, i int) bool { return us[i].code == c } }
	ext := func(id int) func([]vunit, int) bool { return func(us []vunit, i int) bool { return us[i].ext() == id } }
	stray := func(us []vunit, i int) []vunit {
		// between two units, something that is not stuffing
		b := us[i].b
		for k := r.Intn(3) * r.Intn(3); k > 0; k-- {
			b = append(b, 0)
		}
		b = append(b, byte(pick(r, 1, 2, 128, 255, 1+r.Intn(255))))
		if r.Intn(2) == 0 {
			b = append(b, 0)
		}
		us[i].b = b
		return us
	}
	other := func(u vunit, p, n int, not ...int) []vunit { // another value of a field
		for {
			v := r.Intn(1 << uint(n))
			ok := true
			for _, x := range not {
				ok = ok && v != x
			}
			if ok {
				setBits(u.b, p, n, uint64(v))
				return nil
			}
		}
	}
	inBody := func(us []vunit, i int) bool { return i > 0 && slice(us[i-1]) && !slice(us[i]) }
	ds := []damage{
		{"no sequence header", func(us []vunit, i int) bool { return i == 0 }, func(us []vunit, i int) []vunit {
			if r.Intn(2) == 0 {
				us[0].b[3] = byte(pick(r, 0, 1, 0xAF, 0xB0, 0xB1, 0xB2, 0xB4, 0xB5, 0xB7, 0xB8, 0xBA, 0xE0, 0xFF))
				return us
			}
			return us[1:]
		}},
		{"marker of a sequence header", code(0xB3), func(us []vunit, i int) []vunit { setBits(us[i].b, 82, 1, 0); return us }},
		{"id of a sequence extension", ext(1), func(us []vunit, i int) []vunit { other(us[i], 32, 4, 1); return us }},
		{"marker of a sequence extension", ext(1), func(us []vunit, i int) []vunit { setBits(us[i].b, 63, 1, 0); return us }},
		{"chroma format", ext(1), func(us []vunit, i int) []vunit { other(us[i], 45, 2, 1); return us }},
		{"no later sequence extension", func(us []vunit, i int) bool { return i > 2 && us[i].ext() == 1 }, func(us []vunit, i int) []vunit {
			return append(us[:i], us[i+1:]...)
		}},
		{"marker of a sequence display extension", ext(2), func(us []vunit, i int) []vunit {
			p := 54
			if us[i].b[4]&1 != 0 {
				p += 24
			}
			setBits(us[i].b, p, 1, 0)
			return us
		}},
		{"sequence scalable extension", ext(1), func(us []vunit, i int) []vunit {
			return insertUnit(us, i+1, append([]byte{0, 0, 1, 0xB5, 0x50 | byte(r.Intn(16))}, nonzero(fillN(r, 7))...))
		}},
		{"picture spatial scalable extension", ext(8), func(us []vunit, i int) []vunit {
			return insertUnit(us, i+1, append([]byte{0, 0, 1, 0xB5, 0x90 | byte(r.Intn(16))}, nonzero(fillN(r, 7))...))
		}},
		{"picture type", code(0), func(us []vunit, i int) []vunit { other(us[i], 42, 3, 1, 2, 3); return us }},
		{"no picture coding extension", ext(8), func(us []vunit, i int) []vunit {
			if r.Intn(2) == 0 {
				us[i].b[3] = byte(pick(r, 0, 1, 2, 0xB2, 0xB0, 0xB3, 0xB4, 0xB8, 0xF5))
				return us
			}
			return append(us[:i], us[i+1:]...)
		}},
		{"id of a picture coding extension", ext(8), func(us []vunit, i int) []vunit { other(us[i], 32, 4, 8); return us }},
		{"no picture header", code(0), func(us []vunit, i int) []vunit { return append(us[:i], us[i+1:]...) }},
		{"no slices", code(0), func(us []vunit, i int) []vunit {
			j := i + 1
			for j < len(us) && !slice(us[j]) {
				j++
			}
			k := j
			for k < len(us) && slice(us[k]) {
				k++
			}
			return append(us[:j], us[k:]...)
		}},
		{"a unit that does not belong behind a picture", inBody, func(us []vunit, i int) []vunit {
			c := byte(pick(r, 0xB0, 0xB1, 0xB2, 0xB4, 0xB5, 0xB6, 0xBA+r.Intn(70)))
			return insertUnit(us, i, append([]byte{0, 0, 1, c}, nonzero(fillN(r, 1+r.Intn(9)))...))
		}},
		{"a slice outside of the picture", func(us []vunit, i int) bool { return slice(us[i]) }, func(us []vunit, i int) []vunit {
			us[i].b[3] = byte(pick(r, 0xAF, 4, 3+r.Intn(0xAC)))
			return us
		}},
		{"stuffing behind a sequence header", code(0xB3), stray},
		{"stuffing behind a sequence extension", ext(1), stray},
		{"stuffing behind a sequence display extension", ext(2), stray},
		{"stuffing behind a group header", code(0xB8), stray},
		{"stuffing behind a picture header", code(0), stray},
		{"stuffing behind a picture coding extension", ext(8), stray},
		{"stuffing behind a quantiser matrix extension", ext(3), stray},
		{"stuffing in front of everything", func(us []vunit, i int) bool { return i == 0 }, func(us []vunit, i int) []vunit {
			us[0].b = append([]byte{0, 0, byte(2 + r.Intn(254))}, us[0].b...)
			return us
		}},
		{"no damage", func(us []vunit, i int) bool { return i == 0 }, func(us []vunit, i int) []vunit { return us }},
	}
	for k := 0; k < g.n(14, 120); k++ {
		for _, d := range ds {
			s := g.vs(t, 1+r.Intn(32), 1+r.Intn(32), r.Intn(2))
			s.side = r.Intn(3) == 0
			s.set = func(p *Pic) {
				p.MaxCoefs, p.Split, p.Open = 1, 1, false
				for n := r.Intn(3) * r.Intn(3); n > 0; n-- {
					p.Extra = append(p.Extra, byte(r.Intn(256)))
				}
			}
			m := func() *[64]byte {
				if r.Intn(3) == 0 {
					return randMatrix(r)
				}
				return nil
			}
			head := func() {
				s.header(m(), m())
				if r.Intn(3) == 0 {
					s.displayExt()
				}
			}
			head()
			tr := 0
			for n := 1 + r.Intn(3); n > 0; n-- {
				if tr == 0 || r.Intn(2) == 0 {
					s.gopHdr(false)
					tr = 0
				}
				rf, bs := s.randShape(2, 1, false)
				if bs[0] > 0 && s.refs < 2 {
					bs[0] = 0
				}
				tr = s.group(rf, bs, tr)
				if n > 1 && r.Intn(3) == 0 {
					head()
				}
			}
			s.done()
			in := s.runs()
			us := split(in.B)
			var at []int
			for i := range us {
				if d.is(us, i) {
					at = append(at, i)
				}
			}
			if len(at) == 0 {
				continue
			}
			in.B = glue(d.do(us, at[r.Intn(len(at))]))
			in.Want = ""
			in.Gray = true
			g.add("vframes", in)
		}
	}
}

// nonzero has no byte from which a start code could come about.
func nonzero(b []byte) []byte {
	for i := range b {
		if b[i] < 2 {
			b[i] |= 0x80
		}
	}
	return b
}
