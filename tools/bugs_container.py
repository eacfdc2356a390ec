import sys
from plant import plant
HEAD = '''package main

import (
	"bytes"
	"fmt"
	"io"
	"os"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/ts"
)

var (
	_ = bytes.NewReader
	_ = io.EOF
	_ = bitreader.NewReader
	_ = pes.NewPacket
	_ = ps.NewDecoder
	_ = ts.NewPacket
)

func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\\n", a...)
	os.Exit(1)
}

// packet builds a TS packet; af is the adaptation field without its length byte (nil: none).
func packet(pid int, start bool, cc int, af []byte, pay []byte) []byte {
	b := []byte{0x47, byte(pid >> 8), byte(pid), byte(cc & 15)}
	if start {
		b[1] |= 0x40
	}
	if len(pay) < 184 {
		n := 183 - len(pay)
		f := append([]byte{}, af...)
		if n > 0 && len(f) == 0 {
			f = []byte{0}
		}
		for len(f) < n {
			f = append(f, 0xff)
		}
		b[3] |= 0x20
		if len(pay) > 0 {
			b[3] |= 0x10
		}
		b = append(b, byte(n))
		b = append(b, f...)
	} else {
		b[3] |= 0x10
	}
	return append(b, pay...)
}

func fill(n, v int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v + i*7)
	}
	return b
}

func pesPkt(id int, hdr []byte, pay []byte) []byte {
	n := len(pay)
	b := []byte{0, 0, 1, byte(id)}
	if hdr != nil {
		n += len(hdr)
	}
	b = append(b, byte(n>>8), byte(n))
	b = append(b, hdr...)
	return append(b, pay...)
}

func plainHdr(stuff int) []byte {
	b := []byte{0x80, 0, byte(stuff)}
	for i := 0; i < stuff; i++ {
		b = append(b, 0xff)
	}
	return b
}

func pack(stuff int) []byte {
	b := []byte{0, 0, 1, 0xba, 0x44, 0, 4, 0, 4, 1, 0, 0, 7, 0xf8 | byte(stuff)}
	for i := 0; i < stuff; i++ {
		b = append(b, 0xff)
	}
	return b
}

var end = []byte{0, 0, 1, 0xb9}

'''
def go(body):
    return HEAD + "func main() {\n" + body + "\n}\n"

B = {}
B["ts-opcr-exact"] = ("T01", [("ts/adaptation_field.go", "remainLength >= 6 && af.OPCRFlag", "remainLength > 6 && af.OPCRFlag")], go('''
	af := append([]byte{0x08}, 0, 0, 0, 1, 0x7e, 5)
	pay := fill(176, 3)
	p, err := ts.NewPacket(bitreader.NewReader(bytes.NewReader(packet(7, false, 1, af, pay))))
	if err != nil || p.AdaptationField.OPCR != 2*300+5 || !bytes.Equal(p.Payload, pay) {
		fail("OPCR %v %v", p.AdaptationField, err)
	}'''), "an OPCR that is the last thing in its adaptation field, with no stuffing behind it", "the OPCR is skipped as stuffing and reported as 0")

B["ts-sync-distance"] = ("T02", [("ts/packet.go", "for i := 0; i < 188; i++ {", "for i := 1; i < 188; i++ {")], go('''
	for d := 0; d < 188; d++ {
		b := append(make([]byte, d), packet(7, false, 1, nil, fill(184, 3))...)
		p, err := ts.NewPacket(bitreader.NewReader(bytes.NewReader(b)))
		if err != nil || p.PID != 7 {
			fail("distance %d: %v", d, err)
		}
	}'''), "a sync byte exactly 187 bytes further on", "resynchronisation gives up one byte early and reports that there is no sync byte")

B["ts-payload-shared-remainder"] = ("T03", [("ts/payload_reader.go", "			remainder = r.currentPacket.Payload[copied:]\n", "			remainder = r.currentPacket.Payload[copied:len(r.currentPacket.Payload)&^1]\n")], go('''
	var b, want []byte
	for i := 0; i < 5; i++ {
		pay := fill(101-2*i, i)
		b = append(b, packet(7, false, i, nil, pay)...)
		want = append(want, pay...)
	}
	r := ts.NewPayloadReader(bytes.NewReader(b), ts.IsPID(7))
	var got []byte
	buf := make([]byte, 30)
	for {
		n, err := r.Read(buf)
		got = append(got, buf[:n]...)
		if err != nil {
			break
		}
	}
	if !bytes.Equal(got, want) {
		fail("%d of %d bytes", len(got), len(want))
	}'''), "payloads of odd length that do not fit into one read", "the last byte of an odd-sized payload is dropped")

B["ts-skip-selector"] = ("T04", [("ts/payload_reader.go", "		done := r.skipUntil(r.currentPacket)\n		if done {\n			if r.where(r.currentPacket) {\n				r.remainder.Write(r.currentPacket.Payload)\n			}\n			return nil", "		if r.skipUntil(r.currentPacket) {\n			_, err = r.remainder.Write(r.currentPacket.Payload)\n			return")], go('''
	a, c := fill(184, 1), fill(184, 2)
	b := append(packet(9, true, 0, nil, a), packet(7, false, 0, nil, c)...)
	r := ts.NewPayloadReader(bytes.NewReader(b), ts.IsPID(7))
	r.SkipUntil(ts.IsPID(9))
	got, _ := io.ReadAll(r)
	if !bytes.Equal(got, c) {
		fail("%d bytes", len(got))
	}'''), "a SkipUntil condition met by a packet that the selector rejects", "the payload of that packet is delivered although it does not match")

B["ts-unit-foreign-start"] = ("T05", [("ts/payload_unit_reader.go", "where.And(IsPayloadUnitStart)", "IsPayloadUnitStart.And(where.Or(where.Not()))")], go('''
	a, c := fill(184, 1), fill(184, 2)
	b := append(packet(7, true, 0, nil, a), packet(9, true, 0, nil, a)...)
	b = append(b, packet(7, false, 1, nil, c)...)
	r := ts.NewPayloadUnitReader(bytes.NewReader(b), ts.IsPID(7))
	got, err := io.ReadAll(r)
	if err != ts.EOP || !bytes.Equal(got, append(append([]byte{}, a...), c...)) {
		fail("%d bytes %v", len(got), err)
	}'''), "a unit of another pid that starts in the middle of a unit", "the unit is ended by the start of a unit of another stream")

B["ts-demux-skip-take"] = ("T06", [("ts/demuxer.go", "				if !skipUntil(p) {\n					continue\n				} else {\n					skipping = false\n				}", "				if skipping = !skipUntil(p) && len(tsd.registeredChannels) > 0; skipping {\n					continue\n				}"),
  ("ts/demuxer.go", "				if item.tester(p) {\n					item.channel <- p\n				}", "				if item.tester(p) {\n					item.channel <- p\n				} else if p.PayloadUnitStartIndicator && p.PID == 0 {\n					break\n				}")], go('''
	b := packet(7, false, 0, nil, fill(184, 1))
	b = append(b, packet(0, true, 0, nil, fill(184, 1))...)
	b = append(b, packet(7, false, 1, nil, fill(184, 1))...)
	d := ts.NewDemuxer(bytes.NewReader(b))
	x := d.Where(ts.IsPID(7))
	y := d.Where(ts.IsPID(0))
	done := d.Go()
	nx, ny := 0, 0
	fin := make(chan bool)
	go func() { for range x { nx++ }; fin <- true }()
	go func() { for range y { ny++ }; fin <- true }()
	<-fin
	<-fin
	<-done
	if nx != 2 || ny != 1 {
		fail("%d %d", nx, ny)
	}'''), "a unit start on pid 0 that an earlier registered channel does not match and a later one does", "the packet is not delivered to the later channel")

B["ts-channel-last-unit"] = ("T07", [("ts/packetchannel.go" if False else "ts/packet_channel.go", "			if packet.PayloadUnitStartIndicator {\n				if started {", "			if packet.PayloadUnitStartIndicator {\n				if started && buf.Len() > 0 {")], go('''
	ch := make(chan *ts.Packet)
	go func() {
		defer close(ch)
		ch <- &ts.Packet{PayloadUnitStartIndicator: true}
		ch <- &ts.Packet{PayloadUnitStartIndicator: true, Payload: []byte{1}}
	}()
	n := 0
	for range ts.PacketChannel(ch).PayloadUnit() {
		n++
	}
	if n != 2 {
		fail("%d units", n)
	}'''), "a payload unit without any bytes", "an empty unit is not delivered")

B["pes-ext2-after-pstd"] = ("E01", [("pes/extension.go", "		extension.P_STD_Buffer = &P_STD_Buffer{scale, size}\n		bytesRead += 2\n", "		extension.P_STD_Buffer = &P_STD_Buffer{scale, size}\n		if bytesRead += 1; extension.ExtensionFlag2 || !extension.ProgramPacketSequenceCounterFlag {\n			bytesRead += 1\n		}\n")], go('''
	h := []byte{0x80, 1, 6, 0x3e, 0x81, 0x82, 0x60, 0x10, 0xff}
	pay := []byte{0xff, 2, 3}
	p, err := pes.NewPacket(bitreader.NewReader(bytes.NewReader(pesPkt(0xe0, h, pay))))
	if err != nil || !bytes.Equal(p.Payload, pay) {
		fail("%v %v", err, p.Payload)
	}'''), "an extension with a sequence counter and a P-STD buffer but no second extension", "the header is taken to be a byte longer than it is")

B["pes-stuffing-tail"] = ("E03", [("pes/header.go", "		if val != 255 {", "		if val != 255 && i < 32 {")], go('''
	h := plainHdr(40)
	h[3+35] = 0xfe
	p, err := pes.NewPacket(bitreader.NewReader(bytes.NewReader(pesPkt(0xe0, h, []byte{1, 2, 3}))))
	if err == nil {
		fail("accepted: %v", p)
	}'''), "more than 32 stuffing bytes of which one beyond the 32nd is not 0xFF", "the malformed packet is accepted")

B["pes-reader-private2"] = ("E02", [("pes/payload_reader.go", "		cn := copy(p, r.currentPacket.Payload)\n", "		cn := copy(p, r.currentPacket.Payload)\n		if r.currentPacket.Header == nil && n == 0 {\n			cn = 0 // nothing but padding so far\n		}\n"),
  ("pes/payload_reader.go", "		remainder = r.currentPacket.Payload[cn:]\n", "		if remainder = r.currentPacket.Payload[cn:]; r.currentPacket.Header == nil {\n			remainder = nil\n		}\n")], go('''
	b := append(pesPkt(0xe0, plainHdr(0), fill(10, 1)), pesPkt(0xbf, nil, fill(30, 50))...)
	r := pes.NewPayloadReader(bytes.NewReader(b))
	buf := make([]byte, 10)
	var got []byte
	for {
		n, err := r.Read(buf)
		got = append(got, buf[:n]...)
		if err != nil {
			break
		}
	}
	if len(got) != 40 {
		fail("%d bytes", len(got))
	}'''), "a private stream 2 packet that begins a read or that does not fit into one", "its bytes are taken for padding")

B["ps-markers-merged"] = ("S01", [("ps/pack_header.go", """	if v, err := r.Read32(1); err != nil {
		return nil, err
	} else if v != 1 {
		return nil, ErrMarkerNotFound
	}

	if v, err := r.Read32(1); err != nil {
		return nil, err
	} else if v != 1 {
		return nil, ErrMarkerNotFound
	}
""", """	// two marker bits
	if v, err := r.Read32(2); err != nil {
		return nil, err
	} else if v == 0 {
		return nil, ErrMarkerNotFound
	}
""")], go('''
	for bit := byte(1); bit <= 3; bit++ {
		b := pack(0)
		b[12] ^= bit
		_, err := ps.NewPackHeader(bitreader.NewReader(bytes.NewReader(append(b, end...))))
		if err == nil {
			fail("markers xor %d accepted", bit)
		}
	}'''), "exactly one of the two markers behind the mux rate being wrong", "the malformed header is accepted")

B["ps-reader-boundary"] = ("S02", [("ps/pack_reader.go", "			if _, err := pr.remainder.Write(p.Payload[copied:]); err != nil {", "			if _, err := pr.remainder.Write(p.Payload[copied:]); err != nil || copied == 0 {")], go('''
	b := pack(0)
	b = append(b, pesPkt(0xe0, plainHdr(0), fill(10, 1))...)
	b = append(b, pesPkt(0xbe, nil, []byte{255})...)
	b = append(b, pesPkt(0xe0, plainHdr(0), fill(10, 50))...)
	b = append(b, end...)
	r := ps.NewPackReader(bytes.NewReader(b))
	r.Read(nil)
	got, err := io.ReadAll(r)
	if err != nil || len(got) != 20 {
		fail("%d %v", len(got), err)
	}'''), "", "")
del B["ps-reader-boundary"]
B["ps-reader-stuffing"] = ("S02", [("ps/pack_reader.go", "	} else if StartCode(nextbits) == PackStartCode {\n		goto PACK\n", "	} else if StartCode(nextbits) == PackStartCode && (n == 0 || len(d) > 0) {\n		goto PACK\n"),
  ("ps/pack_reader.go", "		copied := copy(d, p.Payload)\n		n += copied\n", "		copied := copy(d, p.Payload)\n		if n += copied; copied > 0 && p.StreamID == 0xbf && len(p.Payload) > 1017 {\n			n--\n		}\n")], go('''
	b := pack(0)
	pay := fill(1200, 1)
	b = append(b, pesPkt(0xbf, nil, pay)...)
	b = append(b, end...)
	r := ps.NewPackReader(bytes.NewReader(b))
	got, err := io.ReadAll(r)
	if err != nil || !bytes.Equal(got, pay) {
		fail("%d %v", len(got), err)
	}'''), "a private stream 2 packet with more than 1017 bytes of payload", "a byte of the packet is lost")

B["ps-decoder-two-packs"] = ("S03", [("ps/decoder.go", "			} else if StartCode(nextbits) != PackStartCode {\n				break\n			}", "			} else if StartCode(nextbits) != PackStartCode || (pack.SystemHeader != nil && pack.SystemHeader.HeaderLength == 6) {\n				break\n			}")], go('''
	b := pack(0)
	b = append(b, 0, 0, 1, 0xbb, 0, 6, 0x80, 0, 3, 4, 0x21, 0x7f)
	b = append(b, pack(0)...)
	b = append(b, end...)
	d := ps.NewDecoder(bitreader.NewReader(bytes.NewReader(b)))
	n := 0
	done := d.Go()
	fin := make(chan bool)
	go func() {
		for p := range d.Packs() {
			n++
			for range p.Packets() {
			}
		}
		fin <- true
	}()
	<-fin
	ok := <-done
	if !ok || n != 2 {
		fail("%d %v", n, ok)
	}'''), "a pack with a system header without streams followed by another pack", "the packs behind it are not delivered and the program is reported as incomplete")

B["ps-reader-stuck"] = ("R01", [("ps/pack_reader.go", "	if p, err := pes.NewPacket(pr.br); err != nil {\n		return pr.fail(n, err)", "	if p, err := pes.NewPacket(pr.br); err == pes.ErrStartCodePrefixNotFound && n == 0 {\n		return 0, nil\n	} else if err != nil {\n		return pr.fail(n, err)")], go('''
	b := append(pack(0), 1, 2, 3, 4, 5, 6)
	r := ps.NewPackReader(bytes.NewReader(b))
	buf := make([]byte, 10)
	for i := 0; i < 10000; i++ {
		if _, err := r.Read(buf); err != nil {
			return
		}
	}
	fail("no error")'''), "garbage between packs", "the reader returns nothing and no error, forever")

B["pes-pts-fault"] = ("R03", [("pes/header.go", "	if header.CrcFlag {\n		// previous packet CRC\n		if err = reader.Skip(2 * 8); err != nil {\n			return nil, 0, err\n		}\n		bytesRead += 2", "	if header.CrcFlag {\n		// previous packet CRC\n		const size = 2\n		reader.Skip(size * 8)\n		bytesRead += size")], go('''
	h := []byte{0x80, 2, 2, 0xaa, 0xbb}
	b := pesPkt(0xe0, h, []byte{})
	b[5] = 5
	_, err := pes.NewPacket(bitreader.NewReader(bytes.NewReader(b[:len(b)-1])))
	if err == nil {
		fail("a truncated packet is returned")
	}'''), "a source that ends inside the CRC field of a packet without payload", "the truncated packet is returned as good")

B["pipe-unit-eop"] = ("E04", [("pes/payload_reader.go", "		remainder = r.currentPacket.Payload[cn:]\n", "		remainder = r.currentPacket.Payload[cn:]\n		if len(remainder) > 0 && r.currentPacket.PacketLength == 0 && cn > 0 {\n			remainder = remainder[:len(remainder):len(remainder)]\n			if len(remainder) > 1024 {\n				remainder = remainder[:1024]\n			}\n		}\n"),
  ("pes/payload_reader.go", "		n += cn\n		p = p[cn:]\n		remainder", "		p = p[cn:]\n		n += cn\n		remainder")], go('''
	es := fill(1500, 1)
	u := pesPkt(0xe0, plainHdr(0), es)
	u[4], u[5] = 0, 0
	var b []byte
	for i := 0; len(u) > 0; i++ {
		n := len(u)
		if n > 184 {
			n = 184
		}
		b = append(b, packet(7, i == 0, i, nil, u[:n])...)
		u = u[n:]
	}
	r := pes.NewPayloadReader(ts.NewPayloadUnitReader(bytes.NewReader(b), ts.IsPID(7)))
	var got []byte
	buf := make([]byte, 100)
	for {
		n, err := r.Read(buf)
		got = append(got, buf[:n]...)
		if err != nil {
			break
		}
	}
	if !bytes.Equal(got, es) {
		fail("%d of %d bytes", len(got), len(es))
	}'''), "an unbounded PES packet of more than 1024 bytes beyond the first read", "the rest of the packet is dropped")

if __name__ == "__main__":
    for k in (sys.argv[1:] or B):
        p, e, d, n, w = B[k]
        plant(k, p, e, d, n, w)
