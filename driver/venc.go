package main

import (
	"fmt"
	"math/bits"
	"math/rand"
	"strings"
)

// A writer of MPEG-2 video streams. It follows the syntax and keeps the state
// an encoder needs (predictors, bounds); it does not know how anything decodes.
// The code words come from the tables of the specification.

type vlcRow struct {
	C string `json:"c"`
	V []int  `json:"v"`
}

type vlcTables struct {
	Inc, Cbp, Motion, DcLuma, DcChroma, Coef14, Coef15 []vlcRow
	TypeI, TypeP, TypeB                                []vlcRow
	Zig, Alt, Intra                                    []int
	maps                                               map[string]map[string]string
}

func (t *vlcTables) init() {
	t.maps = map[string]map[string]string{}
	for name, rows := range map[string][]vlcRow{"inc": t.Inc, "cbp": t.Cbp, "motion": t.Motion, "dc0": t.DcLuma, "dc1": t.DcChroma,
		"c0": t.Coef14, "c1": t.Coef15, "I": t.TypeI, "P": t.TypeP, "B": t.TypeB} {
		m := map[string]string{}
		for _, r := range rows {
			m[fmt.Sprint(r.V)] = strings.ReplaceAll(r.C, " ", "")
		}
		t.maps[name] = m
	}
}

func (t *vlcTables) code(table string, v ...int) string {
	c, ok := t.maps[table][fmt.Sprint(v)]
	if !ok {
		panic(fmt.Sprint("no code word in ", table, " for ", v))
	}
	return c
}

// unused are the shortest strings that begin no code word of a table.
func (t *vlcTables) unused(table string) (out []string) {
	codes := map[string]bool{}
	prefix := map[string]bool{"": true}
	for _, c := range t.maps[table] {
		codes[c] = true
		for i := range c {
			prefix[c[:i]] = true
		}
	}
	if table == "inc" {
		// the escape is used, too
		c := "00000001000"
		codes[c] = true
		for i := range c {
			prefix[c[:i]] = true
		}
	}
	var rec func(s string)
	rec = func(s string) {
		switch {
		case codes[s]:
		case prefix[s]:
			rec(s + "0")
			rec(s + "1")
		default:
			out = append(out, s)
		}
	}
	rec("")
	return out
}

func (t *vlcTables) has(table string, v ...int) bool {
	_, ok := t.maps[table][fmt.Sprint(v)]
	return ok
}

// Coef is a run and level; Esc: as an escape in any case.
type Coef struct {
	Run, Level int
	Esc        bool
}

// MB is the plan of a macroblock.
type MB struct {
	Skip                         bool
	Intra, Fwd, Bwd, Patt, Quant bool
	QS                           int
	Vec                          [2][2]int // in half samples; [0] also the concealment vector
	Cbp                          int
	Field                        bool
	DC                           [6]int
	Coefs                        [6][]Coef
	Raw                          string // written in place of the macroblock, behind its address increment
	RawInc                       string // written in place of the macroblock
	RawBlock                     string // written behind the coefficients of the first coded block, in place of everything that follows
}

// Pic is the plan of a picture.
type Pic struct {
	T                             byte
	TR                            int
	F                             [2][2]int
	Prec, Qst, Ivf, Alt           int
	Fpfd, Conc                    bool
	Struct                        int  // 0: frame
	Side                          bool // side data wherever there may be some
	Extra                         []byte
	Load                          [4]*[64]byte // quantiser matrix extension, in zig-zag order
	LoadExt                       bool
	SliceQS                       int   // 0: random
	Split                         int   // slices per row, 0: random
	Rows                          []int // order of rows, nil: all
	FwdRef, BwdRef                bool
	Plan                          func(row, col int, first, last bool, prev *MB) *MB
	IntraP, SkipP, QuantP, CodedP float64
	MoveP                         float64
	MaxCoefs                      int
	Big                           float64 // how often there are big levels
	NoVec                         bool
	Open                          bool // the slice headers carry extra information
}

type VEnc struct {
	BitWriter
	r      *rand.Rand
	t      *vlcTables
	Width  int
	Height int
	Prog   int
	W      [2][64]int          // the matrices in force, by position
	cuts   func(row int) []int // where slices begin, nil: anywhere
	Chroma int
	bulk   *Bulk // side data of unusual size, once

	// state of a slice
	pic *Pic
	qs  int
	dc  [3]int
	pmv [2][2]int
	mbs int
}

func newEnc(r *rand.Rand, t *vlcTables, w, h, prog int) *VEnc {
	e := &VEnc{r: r, t: t, Width: w, Height: h, Prog: prog, Chroma: 1}
	return e
}

func (e *VEnc) mw() int { return (e.Width + 15) / 16 }
func (e *VEnc) mh() int {
	if e.Prog == 1 {
		return (e.Height + 15) / 16
	}
	return 2 * ((e.Height + 31) / 32)
}

func (e *VEnc) p(f float64) bool { return e.r.Float64() < f }

func (e *VEnc) bits(s string) {
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '0':
			e.Put(0, 1)
		case '1':
			e.Put(1, 1)
		}
	}
}

// align fills up with zero bits and n zero bytes.
func (e *VEnc) align(n int) {
	for e.nbit != 0 {
		e.Put(0, 1)
	}
	for i := 0; i < n; i++ {
		e.Put(0, 8)
	}
}

func (e *VEnc) start(code int) { e.align(0); e.Put(0x000001, 24); e.Put(uint64(code), 8) }

func (e *VEnc) matrix(m *[64]byte) {
	if m == nil {
		e.Put(0, 1)
		return
	}
	e.Put(1, 1)
	for _, v := range m {
		e.Put(uint64(v), 8)
	}
}

func (e *VEnc) load(k int, m *[64]byte) {
	for n, v := range m {
		e.W[k][e.t.Zig[n]] = int(v)
	}
}

func randMatrix(r *rand.Rand) *[64]byte {
	m := &[64]byte{}
	for i := range m {
		switch r.Intn(6) {
		case 0:
			m[i] = byte(1 + r.Intn(255))
		case 1:
			m[i] = 255
		default:
			m[i] = byte(1 + r.Intn(60))
		}
	}
	return m
}

// some is a number up to n, and now and then one up to much.
func (e *VEnc) some(n, much int) int {
	if e.r.Intn(12) == 0 {
		return e.r.Intn(much + 1)
	}
	return e.r.Intn(n + 1)
}

// zeros is the length of some stuffing.
func (e *VEnc) zeros() int {
	if e.r.Intn(60) == 0 {
		return 200 + e.r.Intn(900)
	}
	return e.some(2, 60)
}

// Bulk is side data of unusual size.
type Bulk struct {
	Where string // seq, gop, pic: behind that header and its extensions; gap: in front of the sequence extension; slice
	What  string // data, blocks, zeros, skip, extra
	N     int
}

// puts writes what is due at a place.
func (e *VEnc) puts(where string) {
	k := e.bulk
	if k == nil || k.Where != where {
		return
	}
	e.bulk = nil
	switch k.What {
	case "data":
		e.userBytes(k.N)
	case "blocks":
		for i := 0; i < k.N; i++ {
			switch {
			case i%3 == 0 && where == "seq":
				e.displayExt()
			case i%3 == 0 && where == "pic":
				e.copyright()
			default:
				e.userBytes(i & 1)
			}
		}
	case "zeros":
		e.align(k.N)
	case "skip":
		e.copyright()
		e.align(k.N)
	case "extra":
		for i := 0; i < k.N; i++ {
			e.Put(1, 1)
			e.Put(uint64(e.r.Intn(256)), 8)
		}
	}
}

func (e *VEnc) copyright() {
	e.start(0xB5)
	e.Put(4, 4)
	e.Put(uint64(e.r.Intn(1<<11)), 11)
	e.Put(1, 1)
	for k := 0; k < 3; k++ {
		e.Put(1, 1)
		e.Put(uint64(e.r.Intn(1<<20)), 20)
	}
	e.Put(uint64(e.r.Intn(1<<10)|1), 10)
	e.align(0)
}

func (e *VEnc) userData() { e.userBytes(e.some(8, 400)) }

// userBytes writes user data: anything without 23 zero bits in a row.
func (e *VEnc) userBytes(n int) {
	e.start(0xB2)
	zeros, often := 1, e.r.Intn(3) == 0
	for i := 0; i < n; i++ {
		b := e.r.Intn(256)
		if often && e.r.Intn(2) == 0 {
			b = pick(e.r, 0, 0, 0, 1, 2, 3, 0x80, 0xB7)
		}
		if b == 0 && zeros+8 > 22 || zeros+bits.LeadingZeros8(uint8(b)) > 22 {
			b |= 0x80
		}
		if zeros += 8; b != 0 {
			zeros = bits.TrailingZeros8(uint8(b))
		}
		e.Put(uint64(b), 8)
	}
	if n > 0 {
		e.Put(uint64(0x80|e.r.Intn(100)), 8)
	}
}

// sequence writes a sequence header with its extension.
func (e *VEnc) sequence(mi, mn *[64]byte, side bool) {
	e.start(0xB3)
	e.Put(uint64(e.Width&0xfff), 12)
	e.Put(uint64(e.Height&0xfff), 12)
	e.Put(uint64(1+e.r.Intn(4)), 4)
	e.Put(uint64(1+e.r.Intn(8)), 4)
	e.Put(max(1, edge(e.r, 18)), 18)
	e.Put(1, 1)
	e.Put(edge(e.r, 10), 10)
	e.Put(uint64(e.r.Intn(2)), 1)
	e.matrix(mi)
	e.matrix(mn)
	for i := range e.W[0] {
		e.W[0][i], e.W[1][i] = e.t.Intra[i], 16
	}
	if mi != nil {
		e.load(0, mi)
	}
	if mn != nil {
		e.load(1, mn)
	}
	if side {
		e.align(e.zeros())
	}
	e.align(0)
	e.puts("gap")
	e.start(0xB5)
	e.Put(1, 4)
	e.Put(edge(e.r, 8), 8)
	e.Put(uint64(e.Prog), 1)
	e.Put(uint64(e.Chroma), 2)
	e.Put(uint64(e.Width>>12), 2)
	e.Put(uint64(e.Height>>12), 2)
	e.Put(edge(e.r, 12), 12)
	e.Put(1, 1)
	e.Put(edge(e.r, 8), 8)
	e.Put(edge(e.r, 1), 1)
	e.Put(edge(e.r, 2), 2)
	e.Put(edge(e.r, 5), 5)
	e.align(0)
	if side {
		e.align(e.zeros())
		for n := e.some(3, 9); n > 0; n-- {
			if e.r.Intn(2) == 0 {
				e.userData()
			} else {
				e.displayExt()
			}
			e.align(e.r.Intn(2))
		}
	}
	e.puts("seq")
}

func (e *VEnc) displayExt() {
	e.start(0xB5)
	e.Put(2, 4)
	e.Put(uint64(e.r.Intn(8)), 3)
	c := e.r.Intn(2)
	e.Put(uint64(c), 1)
	if c == 1 {
		e.Put(edge(e.r, 24), 24)
	}
	e.Put(edge(e.r, 14), 14)
	e.Put(1, 1)
	e.Put(edge(e.r, 14), 14)
	e.align(0)
}

func (e *VEnc) gop(tc int, closed, broken bool, side bool) {
	e.start(0xB8)
	e.Put(uint64(tc), 25)
	e.Flag(closed)
	e.Flag(broken)
	e.align(0)
	if side {
		e.align(e.zeros())
		for n := e.some(2, 9); n > 0; n-- {
			e.userData()
		}
	}
	e.puts("gop")
}

func (e *VEnc) end() { e.start(0xB7) }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// picture writes a picture with all of its macroblocks.
func (e *VEnc) picture(p *Pic) {
	e.pic = p
	e.start(0)
	e.Put(uint64(p.TR&0x3ff), 10)
	e.Put(uint64(strings.IndexByte("?IPB", p.T)), 3)
	e.Put(edge(e.r, 16), 16)
	if p.T != 'I' {
		e.Put(7, 4)
	}
	if p.T == 'B' {
		e.Put(7, 4)
	}
	for _, b := range p.Extra {
		e.Put(1, 1)
		e.Put(uint64(b), 8)
	}
	e.Put(0, 1)
	e.align(0)
	if p.Side {
		e.align(e.zeros())
	}
	e.start(0xB5)
	e.Put(8, 4)
	for _, s := range p.F {
		e.Put(uint64(s[0]), 4)
		e.Put(uint64(s[1]), 4)
	}
	e.Put(uint64(p.Prec), 2)
	if p.Struct == 0 {
		e.Put(3, 2)
	} else {
		e.Put(uint64(p.Struct), 2)
	}
	e.Put(uint64(e.r.Intn(2)), 1) // top_field_first
	e.Flag(p.Fpfd)
	e.Flag(p.Conc)
	e.Put(uint64(p.Qst), 1)
	e.Put(uint64(p.Ivf), 1)
	e.Put(uint64(p.Alt), 1)
	e.Put(uint64(e.r.Intn(2)), 1) // repeat_first_field
	e.Put(uint64(e.r.Intn(2)), 1) // chroma_420_type
	e.Put(uint64(e.r.Intn(2)), 1) // progressive_frame
	comp := p.Side && e.r.Intn(3) == 0
	e.Flag(comp)
	if comp {
		e.Put(edge(e.r, 20), 20)
	}
	e.align(0)
	if p.Side {
		e.align(e.zeros())
	}
	if p.LoadExt {
		e.quantExt(p.Load)
	}
	if p.Side {
		for n := e.some(2, 9); n > 0; n-- {
			switch e.r.Intn(4) {
			case 0:
				e.userData()
			case 1: // copyright extension
				e.copyright()
			case 2: // picture display extension
				e.start(0xB5)
				e.Put(7, 4)
				for k := 1 + e.r.Intn(3); k > 0; k-- {
					e.Put(uint64(e.r.Intn(1<<16)), 16)
					e.Put(1, 1)
					e.Put(uint64(e.r.Intn(1<<16)), 16)
					e.Put(1, 1)
				}
				e.align(0)
			case 3: // a quantiser extension that loads nothing
				e.quantExt([4]*[64]byte{})
			}
		}
	}
	e.puts("pic")
	rows := p.Rows
	if rows == nil {
		for i := 0; i < e.mh(); i++ {
			rows = append(rows, i)
		}
	}
	for _, row := range rows {
		n := p.Split
		if n == 0 {
			n = 1 + e.r.Intn(2)*e.r.Intn(3)
		}
		if n > e.mw() {
			n = e.mw()
		}
		from := map[int]bool{}
		if e.cuts != nil {
			for _, c := range e.cuts(row) {
				from[c] = true
			}
		} else {
			for _, c := range e.r.Perm(e.mw() - 1)[:n-1] {
				from[c+1] = true
			}
		}
		a := 0
		for c := 1; c <= e.mw(); c++ {
			if c == e.mw() || from[c] {
				e.slice(row, a, c)
				a = c
			}
		}
	}
	e.align(0)
}

func (e *VEnc) quantExt(m [4]*[64]byte) {
	e.start(0xB5)
	e.Put(3, 4)
	for k := range m {
		e.matrix(m[k])
		if m[k] != nil && k < 2 {
			e.load(k, m[k])
		}
	}
	e.align(0)
}

// slice writes the macroblocks from column a to column b-1 of a row.
func (e *VEnc) slice(row, a, b int) {
	p := e.pic
	code := row + 1
	if e.Height > 2800 {
		code = row&127 + 1
	}
	e.start(code)
	if e.Height > 2800 {
		e.Put(uint64(row>>7), 3)
	}
	e.qs = p.SliceQS
	if e.qs == 0 {
		e.qs = 1 + e.r.Intn(31)
	}
	e.Put(uint64(e.qs), 5)
	if k := e.bulk; p.Open && e.r.Intn(2) == 0 || k != nil && k.Where == "slice" && k.What == "extra" {
		e.Put(1, 1)
		e.Put(uint64(e.r.Intn(2)), 1)
		e.Put(0, 7)
		for n := e.some(2, 40); n > 0; n-- {
			e.Put(1, 1)
			e.Put(uint64(e.r.Intn(256)), 8)
		}
		if k != nil && k.What == "extra" {
			e.puts("slice")
		}
	}
	e.Put(0, 1)
	e.resetDC()
	e.pmv = [2][2]int{}
	last := -1
	var prev *MB
	for c := a; c < b; c++ {
		first, end := c == a, c == b-1
		var m *MB
		if p.Plan != nil {
			m = p.Plan(row, c, first, end, prev)
		}
		if m == nil {
			m = e.plan(row, c, first, end, prev)
		}
		if m.Skip {
			if first || end {
				panic("skips the first or last macroblock")
			}
			continue
		}
		e.macroblock(m, c-last)
		last, prev = c, m
		if m.RawInc+m.Raw+m.RawBlock != "" {
			break
		}
	}
	e.align(0)
	if p.Side {
		e.align(e.r.Intn(2))
	}
	e.puts("slice")
}

func (e *VEnc) resetDC() {
	v := 1 << uint(7+e.pic.Prec)
	e.dc = [3]int{v, v, v}
}

func (e *VEnc) inc(n int) {
	for ; n > 33; n -= 33 {
		e.bits("00000001000")
	}
	e.bits(e.t.code("inc", n))
}

func (e *VEnc) macroblock(m *MB, inc int) {
	p := e.pic
	e.mbs++
	if m.RawInc != "" {
		e.bits(m.RawInc)
		return
	}
	e.inc(inc)
	if m.Raw != "" {
		e.bits(m.Raw)
		return
	}
	ty := []int{int(b2u(m.Quant)), int(b2u(m.Fwd)), int(b2u(m.Bwd)), int(b2u(m.Patt)), int(b2u(m.Intra))}
	e.bits(e.t.code(string(p.T), ty...))
	if !p.Fpfd && (m.Fwd || m.Bwd) {
		e.Put(2, 2)
	}
	if !p.Fpfd && (m.Intra || m.Patt) {
		e.Flag(m.Field)
	}
	if m.Quant {
		e.Put(uint64(m.QS), 5)
		e.qs = m.QS
	}
	conc := m.Intra && p.Conc
	if p.T == 'P' && (inc > 1 || !m.Intra && !m.Fwd) || m.Intra && !conc {
		e.pmv = [2][2]int{}
	}
	if inc > 1 || !m.Intra {
		e.resetDC()
	}
	if m.Fwd || conc {
		e.vector(0, m.Vec[0])
	}
	if m.Bwd {
		e.vector(1, m.Vec[1])
	}
	if conc {
		e.Put(1, 1)
	}
	if m.Patt {
		e.bits(e.t.code("cbp", m.Cbp))
	}
	for k := 0; k < 6; k++ {
		if m.Intra || m.Patt && m.Cbp>>uint(5-k)&1 == 1 {
			e.block(m, k)
			if m.RawBlock != "" {
				return
			}
		}
	}
}

func abs(v int) int {
	if v < 0 {
		return -v
	}
	return v
}

func (e *VEnc) vector(s int, v [2]int) {
	for t := 0; t < 2; t++ {
		fc := e.pic.F[s][t]
		f := 1 << uint(fc-1)
		d := v[t] - e.pmv[s][t]
		if d < -16*f {
			d += 32 * f
		} else if d > 16*f-1 {
			d -= 32 * f
		}
		// -16f can also be written as a positive delta of 16f
		if d == -16*f && e.r.Intn(2) == 0 {
			d = 16 * f
		}
		if f == 1 || d == 0 {
			e.bits(e.t.code("motion", d))
		} else {
			a := abs(d) - 1
			c := a/f + 1
			if d < 0 {
				c = -c
			}
			e.bits(e.t.code("motion", c))
			e.Put(uint64(a%f), uint(fc-1))
		}
		e.pmv[s][t] = v[t]
	}
}

func (e *VEnc) block(m *MB, k int) {
	p := e.pic
	n := 0
	table := "c0"
	if m.Intra {
		if p.Ivf == 1 {
			table = "c1"
		}
		cc := 0
		if k > 3 {
			cc = k - 3
		}
		d := m.DC[k] - e.dc[cc]
		e.dc[cc] = m.DC[k]
		size := 0
		for abs(d)>>uint(size) != 0 {
			size++
		}
		t := "dc0"
		if cc > 0 {
			t = "dc1"
		}
		e.bits(e.t.code(t, size))
		if d < 0 {
			d += 1<<uint(size) - 1
		}
		e.Put(uint64(d), uint(size))
		n = 1
	}
	for _, c := range m.Coefs[k] {
		e.coef(table, c, n == 0)
		n += c.Run + 1
	}
	if m.RawBlock != "" {
		e.bits(m.RawBlock)
		return
	}
	e.bits(e.t.code(table, -1, 0))
}

func (e *VEnc) coef(table string, c Coef, first bool) {
	a := abs(c.Level)
	if first && !c.Esc && c.Run == 0 && a == 1 {
		e.Put(1, 1)
		e.Flag(c.Level < 0)
	} else if !c.Esc && e.t.has(table, c.Run, a) {
		e.bits(e.t.code(table, c.Run, a))
		e.Flag(c.Level < 0)
	} else {
		e.bits(e.t.code(table, -2, 0))
		e.Put(uint64(c.Run), 6)
		e.Put(uint64(c.Level&0xfff), 12)
	}
}

// ---------------------------------------------------------------------------
// Random plans

func (e *VEnc) scale(qs int) int {
	if e.pic.Qst == 0 {
		return 2 * qs
	}
	switch {
	case qs <= 8:
		return qs
	case qs <= 16:
		return 2*qs - 8
	case qs <= 24:
		return 4*qs - 40
	}
	return 8*qs - 136
}

// vecRange is the range of vectors of a direction that stay inside the frame.
func (e *VEnc) vecRange(s, row, col int) (lo, hi [2]int) {
	pos := [2]int{32 * col, 32 * row}
	size := [2]int{32 * (e.mw() - 1), 32 * (e.mh() - 1)}
	for t := 0; t < 2; t++ {
		f := 1 << uint(e.pic.F[s][t]-1)
		lo[t], hi[t] = max(-pos[t], -16*f), min(size[t]-pos[t], 16*f-1)
	}
	return
}

func (e *VEnc) inside(row, col int, v [2]int) bool {
	x, y := 32*col+v[0], 32*row+v[1]
	return x >= 0 && y >= 0 && x <= 32*(e.mw()-1) && y <= 32*(e.mh()-1)
}

func (e *VEnc) randVec(s, row, col int) (v [2]int) {
	if e.pic.NoVec {
		return
	}
	lo, hi := e.vecRange(s, row, col)
	for t := 0; t < 2; t++ {
		switch e.r.Intn(6) {
		case 0:
			v[t] = 0
		case 1:
			v[t] = lo[t]
		case 2:
			v[t] = hi[t]
		default:
			v[t] = lo[t] + e.r.Intn(hi[t]-lo[t]+1)
		}
	}
	return
}

// coefs makes up the coefficients of a block, n is the first index.
func (e *VEnc) coefs(m *MB, n int, qs int) []Coef {
	p := e.pic
	var out []Coef
	max := p.MaxCoefs
	count := 0
	if max > 0 {
		count = e.r.Intn(max + 1)
	}
	if n == 0 && count == 0 {
		count = 1
	}
	w, table := e.W[1], e.t.Coef14
	if m.Intra {
		w = e.W[0]
		if p.Ivf == 1 {
			table = e.t.Coef15
		}
	}
	scan := e.t.Zig
	if p.Alt == 1 {
		scan = e.t.Alt
	}
	budget := 2000
	for ; count > 0; count-- {
		var c Coef
		switch {
		case e.p(p.Big):
			c = Coef{Run: e.r.Intn(6), Level: 1 + e.r.Intn(2047), Esc: true}
		case e.r.Intn(6) == 0:
			c = Coef{Run: e.r.Intn(20), Level: 1 + e.r.Intn(60), Esc: true}
		case e.r.Intn(2) == 0:
			row := table[2+e.r.Intn(len(table)-2)]
			c = Coef{Run: row.V[0], Level: row.V[1]}
		default:
			c = Coef{Run: e.r.Intn(4), Level: 1 + e.r.Intn(3)}
		}
		if n+c.Run > 63 {
			c.Run = e.r.Intn(64 - min(n, 63))
			if n > 63 {
				break
			}
		}
		q := w[scan[n+c.Run]] * e.scale(qs)
		if f := (c.Level*q + q/2) / 16; f > budget {
			if len(out) == 0 && (e.p(p.Big) || c.Level == 1) {
				// alone, saturated
				budget = 0
			} else {
				c.Level = budget*16/(q+1) - 1
				if c.Level < 1 {
					if len(out) > 0 || n > 0 {
						continue
					}
					c.Level, budget = 1, 0
				}
			}
		}
		budget -= min(budget, (c.Level*q+q/2)/16)
		if e.r.Intn(2) == 0 {
			c.Level = -c.Level
		}
		out = append(out, c)
		n += c.Run + 1
		if n > 63 || budget == 0 {
			break
		}
	}
	return out
}

func (e *VEnc) plan(row, col int, first, last bool, prev *MB) *MB {
	p := e.pic
	m := &MB{}
	noRef := p.T == 'B' && !p.FwdRef && !p.BwdRef || p.T == 'P' && !p.FwdRef
	if p.T != 'I' && !noRef && !first && !last && e.p(p.SkipP) {
		ok := true
		if p.T == 'B' {
			ok = prev != nil && !prev.Intra &&
				(!prev.Fwd || e.inside(row, col, prev.Vec[0])) && (!prev.Bwd || e.inside(row, col, prev.Vec[1]))
		}
		if ok {
			m.Skip = true
			return m
		}
	}
	m.Intra = p.T == 'I' || noRef || e.p(p.IntraP)
	if !m.Intra {
		m.Patt = e.p(p.CodedP)
		if p.T == 'P' {
			m.Fwd = !m.Patt || e.p(p.MoveP)
		} else {
			for !m.Fwd && !m.Bwd {
				m.Fwd, m.Bwd = p.FwdRef && e.r.Intn(2) == 0, p.BwdRef && e.r.Intn(2) == 0
			}
		}
	}
	m.Quant = (m.Intra || m.Patt) && e.p(p.QuantP)
	qs := e.qs
	if m.Quant {
		m.QS = 1 + e.r.Intn(31)
		qs = m.QS
	}
	m.Field = e.r.Intn(2) == 0
	if m.Patt {
		m.Cbp = 1 + e.r.Intn(63)
	}
	if m.Fwd {
		m.Vec[0] = e.randVec(0, row, col)
	} else if m.Intra && p.Conc {
		for t := 0; t < 2; t++ {
			f := 1 << uint(p.F[0][t]-1)
			m.Vec[0][t] = e.r.Intn(32*f) - 16*f
		}
	}
	if m.Bwd {
		m.Vec[1] = e.randVec(1, row, col)
	}
	for k := 0; k < 6; k++ {
		if m.Intra {
			m.DC[k] = e.r.Intn(1 << uint(8+p.Prec))
			if e.r.Intn(3) == 0 {
				m.DC[k] = 1<<uint(7+p.Prec) + e.r.Intn(16)
			}
			m.Coefs[k] = e.coefs(m, 1, qs)
		} else if m.Patt && m.Cbp>>uint(5-k)&1 == 1 {
			m.Coefs[k] = e.coefs(m, 0, qs)
		}
	}
	return m
}
