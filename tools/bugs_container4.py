"""A fourth round: start codes of program streams, fields longer than their usual contents."""
import sys
from plant import plant
from bugs_container import go
B = {}

B["ps-assert"] = ("V01", [("ps/start_code.go", '''	if test, err := expected.Check(br); err != nil {
		return err
	} else if test != true {
		return ErrUnexpectedStartCode
	}
	if err := br.Skip(32); err != nil {
		return err
	}
	return nil
''', '''	if nextbits, err := br.Read32(32); err != nil {
		return err
	} else if StartCode(nextbits) != expected {
		return ErrUnexpectedStartCode
	}
	return nil
''')], go('''
	br := bitreader.NewReader(bytes.NewReader([]byte{0, 0, 1, 0xb9, 0, 0, 1, 0xba}))
	if err := ps.PackStartCode.Assert(br); err != ps.ErrUnexpectedStartCode {
		fail("%v", err)
	}
	if v, err := br.Peek32(32); err != nil || v != 0x1b9 {
		fail("the stream has moved: %x %v", v, err)
	}'''), "asserting a program-stream start code that is not there", "the bits that were there are gone")

B["ts-private-high"] = ("T01", [("ts/adaptation_field.go", '''	if tpd.length, err = br.Read32(8); err != nil {
		return nil, 0, err
	}
''', '''	if size, err := br.Read8(8); err != nil {
		return nil, 0, err
	} else if n := int8(size); n > 0 {
		tpd.length = uint32(n)
	}
''')], go('''
	for n := 0; n < 170; n++ {
		af := append([]byte{0x03, byte(n)}, fill(n, 3)...)
		af = append(af, 3, 0x80, 0x81, 0x23)
		pay := fill(183-len(af), 1)
		p, err := ts.NewPacket(bitreader.NewReader(bytes.NewReader(packet(7, false, 1, af, pay))))
		if err != nil || !bytes.Equal(p.Payload, pay) || p.AdaptationField.AdapatationExtension == nil || p.AdaptationField.AdapatationExtension.LTWOffset != 0x123 {
			fail("%d bytes of private data: %v", n, err)
		}
	}'''), "128 or more bytes of transport private data with an adaptation-field extension behind them", "the private data is taken for the extension")

B["pes-pack-field-long"] = ("E01", [("pes/extension.go", '''		length, err := r.Read32(8)
		if err != nil {
			return nil, 0, err
		}
		if err = r.Skip(uint(length) * 8); err != nil {
			return nil, 0, err
		}
		bytesRead += 1 + length
''', '''		length, err := r.Read8(8)
		if err != nil {
			return nil, 0, err
		}
		for bits := length * 8; bits > 0; bits -= 8 {
			if err = r.Skip(8); err != nil {
				return nil, 0, err
			}
		}
		bytesRead += 1 + uint32(length)
''')], go('''
	for n := 0; n < 60; n++ {
		h := append([]byte{0x80, 1, 0, 0x50, byte(n)}, fill(n, 9)...)
		h = append(h, 0x52, 0x34, 0xff)
		h[2] = byte(len(h) - 3)
		b := pesPkt(0xe0, h, fill(20, 1))
		p, err := pes.NewPacket(bitreader.NewReader(bytes.NewReader(b)))
		if err != nil || p.Extension.Size != 0x1234 || !bytes.Equal(p.Payload, fill(20, 1)) {
			fail("a pack header of %d bytes: %v", n, err)
		}
	}'''), "a pack header of 32 bytes or more inside a PES extension", "the bytes of the pack header are taken for what follows it")

B["pes-unbounded-64k"] = ("E04", [("pes/packet.go", "			packet.Payload, err = ioutil.ReadAll(reader)\n", "			packet.Payload, err = ioutil.ReadAll(io.LimitReader(reader, 0xffff))\n")], go('''
	want := fill(70000, 1)
	b := append([]byte{0, 0, 1, 0xe0, 0, 0, 0x80, 0, 0}, want...)
	var s []byte
	for i := 0; len(b) > 0; i++ {
		n := 184
		if n > len(b) {
			n = len(b)
		}
		s = append(s, packet(7, i == 0, i, nil, b[:n])...)
		b = b[n:]
	}
	got, err := io.ReadAll(pes.NewPayloadReader(ts.NewPayloadUnitReader(bytes.NewReader(s), ts.IsPID(7))))
	if err != nil || !bytes.Equal(got, want) {
		fail("%d bytes, %v", len(got), err)
	}'''), "a PES packet of unbounded length with more than 65535 bytes", "the rest of the packet is not part of the elementary stream")

if __name__ == "__main__":
    for k in sys.argv[1:] or B:
        p, e, d, n, w = B[k]
        plant(k, p, e, d, n, w)
