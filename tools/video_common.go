package main

import (
	"bytes"
	"errors"
	"fmt"
	"image"
	"io"
	"os"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/video"
)

var (
	_ = bytes.NewReader
	_ = errors.New
	_ = io.EOF
	_ = bitreader.NewReader
	_ image.Image
)

func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\n", a...)
	os.Exit(1)
}

// W writes a video stream bit by bit.
type W struct {
	b []byte
	n uint
}

func (w *W) put(v uint64, n uint) *W {
	for n > 0 {
		n--
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		w.b[len(w.b)-1] |= byte(v>>n&1) << (7 - w.n%8)
		w.n++
	}
	return w
}

// s writes a string of bits.
func (w *W) s(bits ...string) *W {
	for _, b := range bits {
		for _, c := range b {
			if c == '0' || c == '1' {
				w.put(uint64(c-'0'), 1)
			}
		}
	}
	return w
}

func (w *W) align() *W {
	if w.n%8 != 0 {
		w.put(0, 8-w.n%8)
	}
	return w
}

func (w *W) code(c int) *W { return w.align().put(uint64(0x100|c), 32) }

// seqX writes a sequence header and extension; mi, mn: matrices or nil.
func (w *W) seqX(wd, ht, prog int, mi, mn []byte) *W {
	w.code(0xB3).put(uint64(wd&0xfff), 12).put(uint64(ht&0xfff), 12).put(0x13, 8).put(1000, 18).put(1, 1).put(50, 10).put(0, 1)
	for _, m := range [][]byte{mi, mn} {
		if m == nil {
			w.put(0, 1)
		} else {
			w.put(1, 1)
			for _, v := range m {
				w.put(uint64(v), 8)
			}
		}
	}
	w.code(0xB5).put(1, 4).put(0x48, 8).put(uint64(prog), 1).put(1, 2).put(uint64(wd>>12), 2).put(uint64(ht>>12), 2)
	w.put(0, 12).put(1, 1).put(0, 8).put(0, 1).put(0, 2).put(0, 5)
	return w.align()
}

func (w *W) seq(wd, ht int) *W { return w.seqX(wd, ht, 1, nil, nil) }

func (w *W) gop() *W { return w.code(0xB8).put(1<<12, 25).put(2, 2).align() }

// Pic are the parameters of a picture.
type Pic struct {
	F                             [4]int
	Prec, Qst, Ivf, Alt           int
	FieldDCT, Conc                bool
	Extra                         []byte
	Composite                     bool
}

func (w *W) pic(t byte, tr int, p Pic) *W {
	w.code(0).put(uint64(tr), 10).put(uint64(map[byte]int{'I': 1, 'P': 2, 'B': 3}[t]), 3).put(0xffff, 16)
	if t != 'I' {
		w.put(7, 4)
	}
	if t == 'B' {
		w.put(7, 4)
	}
	for _, e := range p.Extra {
		w.put(1, 1).put(uint64(e), 8)
	}
	w.put(0, 1)
	w.code(0xB5).put(8, 4)
	for i, f := range p.F {
		if f == 0 {
			f = 15
			if t == 'P' && i < 2 || t == 'B' {
				f = 1
			}
		}
		w.put(uint64(f), 4)
	}
	w.put(uint64(p.Prec), 2).put(3, 2).put(0, 1)
	if p.FieldDCT {
		w.put(0, 1)
	} else {
		w.put(1, 1)
	}
	if p.Conc {
		w.put(1, 1)
	} else {
		w.put(0, 1)
	}
	w.put(uint64(p.Qst), 1).put(uint64(p.Ivf), 1).put(uint64(p.Alt), 1).put(0, 1).put(1, 1).put(1, 1)
	if p.Composite {
		w.put(1, 1).put(0, 1).put(0, 3).put(0, 1).put(0x55, 7).put(0x55, 8)
	} else {
		w.put(0, 1)
	}
	return w.align()
}

func (w *W) slice(row, q int) *W { return w.code(row + 1).put(uint64(q), 5).put(0, 1) }

var dcLuma = []string{"100", "00", "01", "101", "110", "1110", "11110", "111110", "1111110", "11111110", "111111110", "111111111"}
var dcChroma = []string{"00", "01", "10", "110", "1110", "11110", "111110", "1111110", "11111110", "111111110", "1111111110", "1111111111"}

// dc writes the difference of a DC coefficient of block k.
func (w *W) dc(k, d int) *W {
	a, n := d, 0
	if a < 0 {
		a = -a
	}
	for a>>uint(n) > 0 {
		n++
	}
	if k < 4 {
		w.s(dcLuma[n])
	} else {
		w.s(dcChroma[n])
	}
	if d < 0 {
		d += 1<<uint(n) - 1
	}
	return w.put(uint64(d), uint(n))
}

// esc writes an escaped coefficient.
func (w *W) esc(run, level int) *W {
	return w.s("000001").put(uint64(run), 6).put(uint64(level)&0xfff, 12)
}

func (w *W) eob() *W { return w.s("10") }

// flat writes the blocks of an intra macroblock with these DC differences and nothing else.
func (w *W) flat(d ...int) *W {
	for k := 0; k < 6; k++ {
		v := 0
		if k < len(d) {
			v = d[k]
		}
		w.dc(k, v).eob()
	}
	return w
}

// grey is a picture I of mw by mh macroblocks with a different value for each of them.
func (w *W) shades(tr, mw, mh, from, step int) *W {
	w.pic('I', tr, Pic{})
	v := from
	for r := 0; r < mh; r++ {
		w.slice(r, 1)
		last := 128
		for c := 0; c < mw; c++ {
			w.s("1 1").flat(v-last, 0, 0, 0, v-last, last-v)
			last = v
			v += step
		}
	}
	return w
}

var motion = map[int]string{0: "1", 1: "010", -1: "011", 2: "0010", -2: "0011", 3: "00010", -3: "00011", 4: "0000110", -4: "0000111",
	5: "00001010", -5: "00001011", 6: "00001000", -6: "00001001", 7: "00000110", -7: "00000111", 8: "0000010110", -8: "0000010111",
	15: "00000011010", -15: "00000011011", 16: "00000011000", -16: "00000011001"}

func (w *W) end() []byte { return w.code(0xB7).b }

// frames decodes until there is an error.
func frames(r io.Reader) (out []*image.YCbCr, err error) {
	v := video.NewVideoSequence(r)
	for {
		f, err := v.Next()
		if err != nil {
			return out, err
		}
		out = append(out, f)
		if len(out) > 5000 {
			fail("no end")
		}
	}
}

// want decodes n frames and the end of the sequence.
func want(w *W, n int) []*image.YCbCr {
	fs, err := frames(bytes.NewReader(w.end()))
	if err != video.EOS || len(fs) != n {
		fail("got %d frames and %v, want %d and the end of the sequence", len(fs), err, n)
	}
	return fs
}

func y(f *image.YCbCr, px, py int) int  { return int(f.Y[py*f.YStride+px]) }
func cb(f *image.YCbCr, px, py int) int { return int(f.Cb[py*f.CStride+px]) }
func cr(f *image.YCbCr, px, py int) int { return int(f.Cr[py*f.CStride+px]) }

func same(a, b *image.YCbCr) bool {
	return bytes.Equal(a.Y, b.Y) && bytes.Equal(a.Cb, b.Cb) && bytes.Equal(a.Cr, b.Cr)
}

// sum is a checksum of the samples of a frame.
func sum(f *image.YCbCr) int {
	s := 0
	for _, p := range [][]byte{f.Y, f.Cb, f.Cr} {
		for _, b := range p {
			s = (s*31 + int(b)) % 1000003
		}
	}
	return s
}

func is(what string, got, want int) {
	if got != want {
		fail("%s is %d instead of %d", what, got, want)
	}
}
