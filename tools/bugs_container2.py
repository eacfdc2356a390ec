"""A second round of planted container bugs: sizes, counts, shared state, combinations."""
import sys
from plant import plant
from bugs_container import HEAD, go
B = {}
B["ts-af-zero-kept"] = ("T01", [("ts/packet.go", "	packet.AdaptationField = nil\n", "	previous := packet.AdaptationField\n	packet.AdaptationField = nil\n"),
 ("ts/packet.go", "		payloadSize -= length + 1\n", "		if payloadSize -= length + 1; length == 0 && previous != nil {\n			packet.AdaptationField = previous // nothing in it, save the garbage\n		}\n")], go('''
	b := append(packet(7, false, 0, []byte{0x40}, fill(100, 1)), packet(7, false, 1, nil, fill(183, 9))...)
	br := bitreader.NewReader(bytes.NewReader(b))
	p := new(ts.Packet)
	p.Next(br)
	if err := p.Next(br); err != nil || p.AdaptationField == nil || p.AdaptationField.RandomAccessIndicator {
		fail("%v %+v", err, p.AdaptationField)
	}'''), "a reused packet object and an adaptation field of length 0 after one that has contents", "the adaptation field of the earlier packet shows up in the later one")

B["ts-demux-ring"] = ("T06", [("ts/demuxer.go", "		for {\n			p, err := NewPacket(tsd.reader)\n", "		// packets are allocated in batches\n		var batch [256]Packet\n		for i := 0; ; i++ {\n			p := &batch[i%len(batch)]\n			err := p.Next(tsd.reader)\n")], go('''
	var b []byte
	for i := 0; i < 300; i++ {
		b = append(b, packet(7, false, i, nil, fill(184, i+i/256))...)
	}
	d := ts.NewDemuxer(bytes.NewReader(b))
	c := d.Where(ts.IsPID(7))
	done := d.Go()
	var held []*ts.Packet
	for p := range c {
		held = append(held, p)
	}
	<-done
	for i, p := range held {
		if !bytes.Equal(p.Payload, fill(184, i+i/256)) {
			fail("packet %d", i)
		}
	}'''), "a receiver that holds a packet while 256 others are read", "the packet's contents are replaced")

B["ts-demux-mask"] = ("T06", [("ts/demuxer.go", "			for _, item := range tsd.registeredChannels {\n				if item.tester(p) {\n					item.channel <- p\n				}\n			}\n", """			// look at the packet first, then hand it out
			var matches uint64
			for i, item := range tsd.registeredChannels {
				if item.tester(p) {
					matches |= 1 << uint(i)
				}
			}
			for i, item := range tsd.registeredChannels {
				if matches&(1<<uint(i)) != 0 {
					item.channel <- p
				}
			}
""")], go('''
	b := packet(7, false, 0, nil, fill(184, 1))
	d := ts.NewDemuxer(bytes.NewReader(b))
	for i := 0; i < 64; i++ {
		d.Where(ts.IsPID(uint32(100 + i)))
	}
	c := d.Where(ts.IsPID(7))
	done := d.Go()
	n := 0
	for range c {
		n++
	}
	<-done
	if n != 1 {
		fail("%d", n)
	}'''), "more than 64 registered channels", "the channels after the 64th receive nothing")

B["ts-channel-large-alias"] = ("T07", [("ts/packet_channel.go", "	var buf bytes.Buffer\n", "	buf := new(bytes.Buffer)\n"), ("ts/packet_channel.go", "					output <- append([]byte(nil), buf.Bytes()...)\n					buf.Reset()\n", "					if unit := buf.Bytes(); len(unit) < 1<<14 {\n						output <- append([]byte(nil), unit...)\n						buf.Reset()\n					} else {\n						// not worth a copy\n						output <- unit\n						buf = bytes.NewBuffer(unit[:0])\n					}\n")], go('''
	ch := make(chan *ts.Packet)
	go func() {
		defer close(ch)
		for i := 0; i < 400; i++ {
			ch <- &ts.Packet{PayloadUnitStartIndicator: i%100 == 0, Payload: fill(184, i/100)}
		}
	}()
	var us [][]byte
	for u := range ts.PacketChannel(ch).PayloadUnit() {
		us = append(us, u)
	}
	for i, u := range us {
		if len(u) != 18400 || !bytes.Equal(u[:184], fill(184, i)) {
			fail("unit %d: %d", i, len(u))
		}
	}'''), "a payload unit of 16 KB or more that is held while the next one is collected", "its bytes are overwritten by those of the next unit")

B["ts-unit-64k"] = ("T05", [("ts/payload_unit_reader.go", "		if stream.where(stream.currentPacket) {\n			cn, err", "		if stream.where(stream.currentPacket) && n < 1<<16 {\n			cn, err")], go('''
	var b []byte
	for i := 0; i < 400; i++ {
		b = append(b, packet(7, i == 0, i, nil, fill(184, i))...)
	}
	got, err := io.ReadAll(ts.NewPayloadUnitReader(bytes.NewReader(b), ts.IsPID(7)))
	if err != ts.EOP || len(got) != 400*184 {
		fail("%d %v", len(got), err)
	}'''), "a payload unit of more than 64 KB", "the unit is cut")

B["ts-reader-pool"] = ("T03", [("ts/payload_reader.go", "	remainder     bytes.Buffer\n", "	remainder     *bytes.Buffer\n"),
 ("ts/payload_reader.go", "type payloadReader struct {", "var remainders = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n\ntype payloadReader struct {"),
 ("ts/payload_reader.go", 'import "bytes"\n', 'import "bytes"\nimport "sync"\n'),
 ("ts/payload_reader.go", "		takeWhile: alwaysTrueTester,\n", "		takeWhile: alwaysTrueTester,\n		remainder: remainders.Get().(*bytes.Buffer),\n"),
 ("ts/payload_reader.go", "			// Deliver the bytes already read first\n", "			remainders.Put(r.remainder)\n			// Deliver the bytes already read first\n"),
], go('''
	a, c := packet(7, false, 0, nil, fill(184, 1)), append(packet(7, false, 0, nil, fill(184, 2)), packet(7, false, 0, nil, fill(184, 3))...)
	r := ts.NewPayloadReader(bytes.NewReader(a), ts.IsPID(7))
	io.ReadAll(r)
	x := ts.NewPayloadReader(bytes.NewReader(c), ts.IsPID(7))
	buf := make([]byte, 100)
	x.Read(buf)
	if n, err := r.Read(buf); n != 0 || err != io.EOF {
		fail("%d %v", n, err)
	}'''), "reading a payload reader once more at its end, while another one that was created later is in use", "bytes of the other reader are delivered")

B["pes-length-signed"] = ("E01", [("pes/packet.go", "			var payloadLen = int(packet.PacketLength - headerLen)\n", "			var payloadLen = int(uint16(packet.PacketLength)) - int(headerLen)\n			if int16(payloadLen) < 0 {\n				payloadLen = 1<<15 - 1 // the largest length there is\n			}\n")], go('''
	pay := fill(40000, 1)
	p, err := pes.NewPacket(bitreader.NewReader(bytes.NewReader(pesPkt(0xe0, plainHdr(0), pay))))
	if err != nil || !bytes.Equal(p.Payload, pay) {
		fail("%v", err)
	}'''), "a payload of 32768 bytes or more", "the payload is cut and the stream is left inside of the packet")

B["pes-reader-scratch"] = ("E02", [("pes/payload_reader.go", "	// Fill remainder\n	_, err = r.remainder.Write(remainder)\n", "	// Fill remainder\n	scratch = append(scratch[:0], remainder...)\n	r.remainder = *bytes.NewBuffer(scratch)\n"),
 ("pes/payload_reader.go", "type payloadReader struct {", "// what a read leaves over\nvar scratch []byte\n\ntype payloadReader struct {")], go('''
	pay, other := fill(100, 1), fill(100, 7)
	r := pes.NewPayloadReader(bytes.NewReader(pesPkt(0xe0, plainHdr(0), pay)))
	s := pes.NewPayloadReader(bytes.NewReader(pesPkt(0xe0, plainHdr(0), other)))
	buf := make([]byte, 60)
	r.Read(buf)
	s.Read(make([]byte, 70))
	n, _ := r.Read(buf)
	if !bytes.Equal(buf[:n], pay[60:]) {
		fail("%d %v", n, buf[:n])
	}'''), "two payload readers in use at the same time, reads smaller than the packets", "one reader delivers what the other one has left over")

B["pes-padding-truncated"] = ("E03", [("pes/packet.go", "		junk := make([]byte, payloadLen)\n		_, err = io.ReadAtLeast(reader, junk, payloadLen)\n		if err != nil {\n			return err\n		}\n", "		junk := make([]byte, payloadLen)\n		_, err = io.ReadAtLeast(reader, junk, payloadLen)\n		if err != nil && err != io.ErrUnexpectedEOF {\n			return err\n		}\n		err = nil // padding has no meaning anyway\n")], go('''
	b := pesPkt(0xbe, nil, fill(20, 255))
	_, err := pes.NewPacket(bitreader.NewReader(bytes.NewReader(b[:len(b)-5])))
	if err == nil {
		fail("accepted")
	}'''), "a padding packet that is truncated after its first byte", "the truncated packet is returned as a good one")

B["ps-system-short"] = ("S01", [("ps/system_header.go", "	for true {\n		if nextbits, err", "	// a stream takes 3 bytes\n	for left := uint8(systemHeader.HeaderLength - 6); left >= 3 || systemHeader.HeaderLength < 6; left -= 3 {\n		if nextbits, err")], go('''
	n := 90
	b := append(pack(0), 0, 0, 1, 0xbb, byte((6+3*n)>>8), byte(6+3*n), 0x80, 0, 3, 4, 0x21, 0x7f)
	for i := 0; i < n; i++ {
		b = append(b, 0xe0, 0xc0, byte(i))
	}
	h, err := ps.NewPackHeader(bitreader.NewReader(bytes.NewReader(append(b, end...))))
	if err != nil || len(h.Streams) != n {
		fail("%v %d", err, len(h.Streams))
	}'''), "a system header of more than 255 bytes", "only some of its streams are read and the stream is left inside of the header")

B["ps-reader-half"] = ("S02", [("ps/pack_reader.go", "		remainder: &bytes.Buffer{},", "		remainder: bytes.NewBuffer(make([]byte, 0, 1<<15)),"), ("ps/pack_reader.go", "			if _, err := pr.remainder.Write(p.Payload[copied:]); err != nil {", "			if len(p.Payload)-copied > 1<<15 {\n				// drop what has been delivered from the buffer\n				pr.remainder = bytes.NewBuffer(make([]byte, 0, 1<<15))\n				copied = len(p.Payload) - 1<<15\n			}\n			if _, err := pr.remainder.Write(p.Payload[copied:]); err != nil {")], go('''
	pay := fill(50000, 1)
	b := append(pack(0), pesPkt(0xe0, plainHdr(0), pay)...)
	r := ps.NewPackReader(bytes.NewReader(append(b, end...)))
	got, err := io.ReadAll(r)
	if err != nil || !bytes.Equal(got, pay) {
		fail("%v %d", err, len(got))
	}'''), "a packet of which more than 32 KB are left over from a read", "bytes of the packet are lost")

B["ps-decoder-late-end"] = ("S03", [("ps/pack.go", "			} else if StartCode(nextbits) == PackStartCode || StartCode(nextbits) == ProgramEndCode {\n				return\n			}\n", "			} else if StartCode(nextbits) == PackStartCode || StartCode(nextbits) == ProgramEndCode {\n				return\n			} else if nextbits&0xff == 0xff && count >= 255 {\n				return\n			}\n"),
 ("ps/pack.go", "		for true {\n", "		for count := 0; ; count++ {\n")], go('''
	b := pack(0)
	for i := 0; i < 300; i++ {
		b = append(b, pesPkt(0xff, nil, []byte{byte(i)})...)
	}
	d := ps.NewDecoder(bitreader.NewReader(bytes.NewReader(append(b, end...))))
	n := 0
	done := d.Go()
	fin := make(chan bool)
	go func() {
		for p := range d.Packs() {
			for range p.Packets() {
				n++
			}
		}
		fin <- true
	}()
	<-fin
	if ok := <-done; !ok || n != 300 {
		fail("%v %d", ok, n)
	}'''), "a pack with more than 255 packets and a directory packet among the later ones", "the pack ends there and the program is reported as incomplete")

B["ts-resync-fault"] = ("R03", [("ts/packet.go", "		val, err := br.Peek32(8)\n		if err != nil {\n			return err\n		}\n		if val == SyncByte {", "		val, err := br.Peek32(8)\n		if err != nil {\n			return ErrNoSyncByte\n		}\n		if val == SyncByte {")], go('''
	b := append(packet(7, false, 0, nil, fill(184, 1)), 1, 2, 3)
	e := fmt.Errorf("source")
	br := bitreader.NewReader(io.MultiReader(bytes.NewReader(b), failing{e}))
	ts.NewPacket(br)
	if _, err := ts.NewPacket(br); err != e {
		fail("%v", err)
	}
}

type failing struct{ e error }

func (f failing) Read([]byte) (int, error) { return 0, f.e'''), "a source that fails while bytes in front of a sync byte are skipped", "the error of the source is replaced by the no-sync-byte error")

B["pipe-trailing"] = ("E04", [("pes/payload_reader.go", "		err := r.currentPacket.Next(r.br)\n		if err == ts.EOP {", "		packet := r.currentPacket\n		err := packet.Next(r.br)\n		if err == ErrStartCodePrefixNotFound && packet.StreamID == padding_stream {\n			// the rest of the padding\n			r.br.Skip(8)\n			continue\n		} else if err == nil && packet.StreamID == padding_stream && packet.PacketLength == 0 {\n			r.br.Skip(8)\n		}\n		if err == ts.EOP {")], go('''
	es := fill(50, 1)
	u := pesPkt(0xe0, plainHdr(0), es[:20])
	u = append(u, pesPkt(0xbe, nil, nil)...)
	u = append(u, pesPkt(0xe0, plainHdr(0), es[20:])...)
	b := packet(7, true, 0, nil, u)
	got, err := io.ReadAll(pes.NewPayloadReader(ts.NewPayloadReader(bytes.NewReader(b), ts.IsPID(7))))
	if err != nil || !bytes.Equal(got, es) {
		fail("%v %d", err, len(got))
	}'''), "a padding packet of length 0 between two packets", "a byte of the next packet is skipped and the stream ends with an error")

B["ts-window-late"] = ("T04", [("ts/demuxer.go", "				if !takeWhile(p) {\n					return\n				}", "				if !takeWhile(p) && p.Payload != nil {\n					return\n				}")], go('''
	b := packet(7, true, 0, nil, fill(184, 1))
	b = append(b, packet(9, false, 0, nil, nil)...)
	b = append(b, packet(7, true, 1, nil, fill(184, 1))...)
	d := ts.NewDemuxer(bytes.NewReader(b))
	c := d.Where(ts.IsPID(7))
	d.TakeWhile(ts.IsPID(7))
	done := d.Go()
	n := 0
	for range c {
		n++
	}
	<-done
	if n != 1 {
		fail("%d", n)
	}'''), "the first packet that fails the take predicate carries no payload", "delivery goes on behind it")

B["pes-memory"] = ("R01", [("pes/packet.go", "		packet.Payload = make([]byte, packet.PacketLength)\n		_, err = io.ReadFull(reader, packet.Payload)\n		if err != nil {\n			return err\n		}\n", "		packet.Payload = make([]byte, packet.PacketLength)\n		for n := 0; n < len(packet.Payload) || err != nil; {\n			var c int\n			c, err = reader.Read(packet.Payload[n:])\n			if n += c; err == io.EOF && n == 0 {\n				return err\n			}\n			if err == io.EOF && n < len(packet.Payload) {\n				err = nil\n			}\n			if err != nil {\n				return err\n			}\n		}\n")], go('''
	b := pesPkt(0xbf, nil, fill(20, 255))
	fin := make(chan bool)
	go func() {
		pes.NewPacket(bitreader.NewReader(bytes.NewReader(b[:len(b)-5])))
		fin <- true
	}()
	select {
	case <-fin:
	case <-time.After(3 * time.Second):
		fail("endless")
	}'''), "a private stream 2 packet that is truncated after its first payload byte", "the call never returns")

if __name__ == "__main__":
    for k in sys.argv[1:] or B:
        p, e, d, n, w = B[k]
        if "time." in d:
            d = d.replace('	"os"\n', '	"os"\n	"time"\n')
        plant(k, p, e, d, n, w)
