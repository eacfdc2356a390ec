package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"math/rand"
	"strconv"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/ts"
	"github.com/32bitkid/mpeg/video"
)

// Bytes is written to JSON as an array of numbers.
type Bytes []byte

func (b Bytes) MarshalJSON() ([]byte, error) {
	out := make([]byte, 0, 4*len(b)+2)
	out = append(out, '[')
	for i, v := range b {
		if i > 0 {
			out = append(out, ',')
		}
		out = strconv.AppendUint(out, uint64(v), 10)
	}
	return append(out, ']'), nil
}

func (b *Bytes) UnmarshalJSON(d []byte) error {
	*b = (*b)[:0]
	v, in := 0, false
	for _, c := range d {
		if c >= '0' && c <= '9' {
			v, in = v*10+int(c-'0'), true
		} else if in {
			*b = append(*b, byte(v))
			v, in = 0, false
		}
	}
	return nil
}

var errFault = errors.New("source fault")

// Source serves data in chunks of the given sizes (cyclically; some may be 0) and then fails
// with io.EOF or errFault. It never returns data along with an error.
type Source struct {
	data   []byte
	chunks []int
	ci     int
	fault  int    // errors to come: -1 for ever, 1 once (then the end)
	rest   []byte // what comes behind the one error
}

func (s *Source) Read(p []byte) (int, error) {
	if len(s.data) == 0 {
		if s.fault != 0 {
			if s.fault > 0 {
				if len(p) == 0 {
					return 0, nil // nothing was asked for: the error is still to come
				}
				s.fault--
				s.data, s.rest = s.rest, nil
			}
			return 0, errFault
		}
		return 0, io.EOF
	}
	n := len(p)
	if len(s.chunks) > 0 {
		c := s.chunks[s.ci%len(s.chunks)]
		s.ci++
		if c < n {
			n = c // 0: nothing, but no error either
		}
	}
	n = copy(p[:n], s.data)
	s.data = s.data[n:]
	return n, nil
}

func newSource(b []byte, chunks []int, end string) io.Reader {
	return &Source{data: append([]byte(nil), b...), chunks: chunks, fault: map[string]int{"fault": -1, "fault1": 1, "fault2": 1}[end]}
}

// Cont is what a source provides after it has failed once (end "fault2").
type Cont struct {
	Rest Bytes `json:"rest,omitempty"`
}

func (c *Cont) source(b []byte, chunks []int, end string) io.Reader {
	s := newSource(b, chunks, end).(*Source)
	if end == "fault2" {
		s.rest = append([]byte(nil), c.Rest...)
	}
	return s
}

// errs limits the errors after which a reader is asked again.
func (c *Cont) errs(n int, end string) int {
	if end == "fault2" {
		return 1
	}
	return n
}

// countingReader counts the bits its user consumes.
type countingReader struct {
	bitreader.BitReader
	bits int64
}

func (c *countingReader) Read(p []byte) (int, error) {
	c.bits = (c.bits + 7) / 8 * 8
	n, err := c.BitReader.Read(p)
	c.bits += int64(n) * 8
	return n, err
}
func (c *countingReader) Skip(n uint) error {
	err := c.BitReader.Skip(n)
	if err == nil {
		c.bits += int64(n)
	}
	return err
}
func (c *countingReader) Align() (uint, error) {
	n, err := c.BitReader.Align()
	c.bits = (c.bits + 7) / 8 * 8
	return n, err
}
func (c *countingReader) Read1() (bool, error) {
	v, err := c.BitReader.Read1()
	if err == nil {
		c.bits++
	}
	return v, err
}
func (c *countingReader) Read8(n uint) (uint8, error) {
	v, err := c.BitReader.Read8(n)
	if err == nil {
		c.bits += int64(n)
	}
	return v, err
}
func (c *countingReader) Read16(n uint) (uint16, error) {
	v, err := c.BitReader.Read16(n)
	if err == nil {
		c.bits += int64(n)
	}
	return v, err
}
func (c *countingReader) Read32(n uint) (uint32, error) {
	v, err := c.BitReader.Read32(n)
	if err == nil {
		c.bits += int64(n)
	}
	return v, err
}
func (c *countingReader) Read64(n uint) (uint64, error) {
	v, err := c.BitReader.Read64(n)
	if err == nil {
		c.bits += int64(n)
	}
	return v, err
}

func newCounting(src io.Reader) *countingReader {
	return &countingReader{BitReader: bitreader.NewReader(src)}
}

// errName maps an error to its name in the specification ("" for nil).
func errName(err error) string {
	if err == nil {
		return ""
	}
	for _, k := range []struct {
		e error
		n string
	}{
		{io.EOF, "eof"}, {io.ErrUnexpectedEOF, "ueof"}, {ts.EOP, "eop"}, {errFault, "fault"},
		{ts.ErrNoSyncByte, "nosync"}, {ts.ErrInvalidAdaptationField, "af"},
		{pes.ErrStartCodePrefixNotFound, "pesprefix"}, {pes.ErrMarkerNotFound, "pesmarker"},
		{pes.ErrInvalidStuffingByte, "pesstuff"}, {pes.ErrInvalidLength, "peslength"},
		{ps.ErrPackStartCodeNotFound, "packstart"}, {ps.ErrProgramEndCodeNotFound, "progend"},
		{ps.ErrMarkerNotFound, "psmarker"}, {ps.ErrUnexpectedStartCode, "psstart"},
		{video.EOS, "eos"}, {video.ErrUnexpectedStartCode, "vstart"},
		{video.ErrUnexpectedExtensionID, "vext"},
		{video.ErrUnsupportedVideoStream_ISO_IEC_11172_2, "mpeg1"},
		{video.ErrUnexpectedNonZeroByte, "nonzero"},
		{video.ErrInvalidReservedBits, "vreserved"},
	} {
		if errors.Is(err, k.e) {
			return k.n
		}
	}
	return "other:" + err.Error()
}

func limbs(v uint64) [3]uint64 { return [3]uint64{v >> 30, v >> 15 & 0x7fff, v & 0x7fff} }

// Pred is a packet predicate term of the specification.
type Pred struct {
	T string `json:"t"`
	V int    `json:"v"`
	A *Pred  `json:"a,omitempty"`
	B *Pred  `json:"b,omitempty"`
}

var unset = Pred{T: "unset"}
var anyPkt = Pred{T: "any"}

func pid(v int) Pred { return Pred{T: "pid", V: v} }

// Tester builds the predicate with the combinators of the library.
func (p Pred) Tester() ts.PacketTester {
	switch p.T {
	case "any":
		return func(*ts.Packet) bool { return true }
	case "none":
		return func(*ts.Packet) bool { return false }
	case "pid":
		return ts.IsPID(uint32(p.V))
	case "pusi":
		return ts.IsPayloadUnitStart
	case "prio":
		return func(k *ts.Packet) bool { return k.TransportPriority }
	case "cc":
		v := uint32(p.V)
		return func(k *ts.Packet) bool { return k.ContinuityCounter == v }
	case "not":
		return p.A.Tester().Not()
	case "and":
		return p.A.Tester().And(p.B.Tester())
	case "or":
		return p.A.Tester().Or(p.B.Tester())
	}
	panic("bad predicate " + p.T)
}

func randPred(r *rand.Rand, depth int, pids []int) Pred {
	if depth > 0 && r.Intn(2) == 0 {
		a, b := randPred(r, depth-1, pids), randPred(r, depth-1, pids)
		switch r.Intn(3) {
		case 0:
			return Pred{T: "not", A: &a}
		case 1:
			return Pred{T: "and", A: &a, B: &b}
		default:
			return Pred{T: "or", A: &a, B: &b}
		}
	}
	switch r.Intn(8) {
	case 0:
		return Pred{T: "pusi"}
	case 1:
		return Pred{T: "prio"}
	case 2:
		return Pred{T: "cc", V: r.Intn(4)}
	case 3:
		return anyPkt
	default:
		v := pids[r.Intn(len(pids))]
		if r.Intn(15) == 0 { // no packet has it
			v += 1 << uint(13+r.Intn(16))
		}
		return pid(v)
	}
}

// BitWriter writes big-endian bit fields.
type BitWriter struct {
	buf  bytes.Buffer
	cur  uint64
	nbit uint
}

func (w *BitWriter) Put(v uint64, n uint) {
	for i := int(n) - 1; i >= 0; i-- {
		w.cur = w.cur<<1 | (v>>uint(i))&1
		w.nbit++
		if w.nbit == 8 {
			w.buf.WriteByte(byte(w.cur))
			w.cur, w.nbit = 0, 0
		}
	}
}
func (w *BitWriter) Flag(b bool) {
	if b {
		w.Put(1, 1)
	} else {
		w.Put(0, 1)
	}
}

// Code writes a code given as a string of 0 and 1 (blanks are ignored).
func (w *BitWriter) Code(s string) {
	for _, c := range s {
		switch c {
		case '0':
			w.Put(0, 1)
		case '1':
			w.Put(1, 1)
		}
	}
}
func (w *BitWriter) Bytes(b []byte) {
	if w.nbit == 0 {
		w.buf.Write(b)
		return
	}
	for _, v := range b {
		w.Put(uint64(v), 8)
	}
}
func (w *BitWriter) Align() {
	for w.nbit != 0 {
		w.Put(0, 1)
	}
}
func (w *BitWriter) Len() int    { return w.buf.Len()*8 + int(w.nbit) }
func (w *BitWriter) Out() []byte { w.Align(); return append([]byte(nil), w.buf.Bytes()...) }

func pick(r *rand.Rand, v ...int) int { return v[r.Intn(len(v))] }

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func mustUnmarshal(b []byte, v interface{}) {
	if err := json.Unmarshal(b, v); err != nil {
		fatal(err)
	}
}
