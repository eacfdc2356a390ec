"""A third round: readers that share something, failures at the end, calls of no bytes, values at their limits."""
import sys
from plant import plant
from bugs_container import go
B = {}
AT = '''
// at is a source of one byte at a time that runs f before byte k.
type at struct {
	b    []byte
	n, k int
	f    func()
}

func (s *at) Read(p []byte) (int, error) {
	if s.n == len(s.b) {
		return 0, io.EOF
	}
	if s.n == s.k {
		s.f()
	}
	p[0] = s.b[s.n]
	s.n++
	return 1, nil
}

'''


def goat(body):
    return go(body).replace("func main()", AT + "func main()")


B["r-stamp-shared"] = ("R04", [("pes/header.go", "	var (\n		timeStamp uint32\n		err       error\n		val       uint32\n	)\n", "	var (\n		err error\n		val uint32\n	)\n	timeStamp = 0\n"),
 ("pes/header.go", "func readTimeStamp(", "// the time stamp that is being put together\nvar timeStamp uint32\n\nfunc readTimeStamp(")], goat('''
	stamp := func(v int) []byte {
		h := []byte{0x80, 0x80, 5, byte(0x21 | v>>29&14), byte(v >> 22), byte(v>>14 | 1), byte(v >> 7), byte(v<<1 | 1)}
		return append([]byte{0, 0, 1, 0xe0, 0, byte(len(h))}, h...)
	}
	for k := 0; k < 14; k++ {
		s := &at{b: stamp(0x55555555), k: k, f: func() {
			pes.NewPacket(bitreader.NewReader(bytes.NewReader(stamp(0x2aaaaaaa))))
		}}
		p, err := pes.NewPacket(bitreader.NewReader(s))
		if err != nil || p.PresentationTimeStamp != 0x55555555 {
			fail("another packet read before byte %d: %v %+v", k, err, p)
		}
	}'''), "another PES packet is read while a time stamp is half read (a source that itself reads packets, or another goroutine)", "the time stamp has bits of the other one")

B["r-packet-shared"] = ("R04", [("ts/payload_reader.go", "		r.currentPacket = new(Packet)\n", "		r.currentPacket = &current\n"),
 ("ts/payload_reader.go", "type payloadReader struct {", "// the packet that is being read\nvar current Packet\n\ntype payloadReader struct {")], goat('''
	b := append(packet(7, false, 0, nil, fill(184, 1)), packet(7, false, 1, nil, fill(184, 2))...)
	want := append(fill(184, 1), fill(184, 2)...)
	for k := 0; k < len(b); k++ {
		s := &at{b: b, k: k, f: func() {
			r := ts.NewPayloadReader(bytes.NewReader(packet(8, false, 0, nil, fill(184, 60))), ts.IsPID(8))
			r.Read(make([]byte, 184))
		}}
		got, err := io.ReadAll(ts.NewPayloadReader(s, ts.IsPID(7)))
		if err != nil || !bytes.Equal(got, want) {
			fail("another reader used before byte %d: %v, %d bytes", k, err, len(got))
		}
	}'''), "another payload reader reads while this one is in the middle of a packet (its source uses one, or another goroutine)", "packets are taken for those of the other stream: payload is lost or foreign")

B["ps-decoder-last-packet"] = ("S03", [("ps/decoder.go", "			if err := <-packComplete; err != nil {\n				d.err = err\n				return\n			}\n", "			if err := <-packComplete; err != nil {\n				// the last pack may end early\n				if next, _ := d.r.Peek32(32); StartCode(next) != ProgramEndCode {\n					d.err = err\n					return\n				}\n			}\n")], go('''
	b := pack(0)
	// header_data_length is too small for the time stamp; the packet is followed by the end of the program
	b = append(b, 0, 0, 1, 0xe0, 0, 8, 0x80, 0x80, 4, 0x21, 0, 1, 0, 1)
	b = append(b, 0, 0, 1, 0xb9)
	d := ps.NewDecoder(bitreader.NewReader(bytes.NewReader(b)))
	done := d.Go()
	for p := range d.Packs() {
		for range p.Packets() {
		}
	}
	if <-done || d.Err() == nil {
		fail("a malformed packet, and the decoder reports %v", d.Err())
	}'''), "a malformed last packet of a program whose end code follows where reading it failed", "the decoder reports success")

B["ts-reader-empty-read"] = ("T04", [("ts/payload_reader.go", "		r.currentPacket = new(Packet)\n		if r.skipUntil != nil {\n", "		r.currentPacket = new(Packet)\n		if r.skipUntil != nil && len(p) > 0 {\n")], go('''
	b := append(packet(7, false, 0, nil, fill(184, 1)), packet(7, true, 1, nil, fill(184, 2))...)
	r := ts.NewPayloadReader(bytes.NewReader(b), ts.IsPID(7))
	r.SkipUntil(ts.IsPayloadUnitStart)
	r.Read(nil)
	got, err := io.ReadAll(r)
	if err != nil || !bytes.Equal(got, fill(184, 2)) {
		fail("%d bytes, %v", len(got), err)
	}'''), "a first read of no bytes from a reader with SkipUntil", "the packets before the start of the window are delivered")

if __name__ == "__main__":
    for k in sys.argv[1:] or B:
        p, e, d, n, w = B[k]
        plant(k, p, e, d, n, w)
