"""A fifth round."""
import sys
from plant import plant
from bugs_container import go
B = {}

B["demux-no-channel"] = ("T06", [("ts/demuxer.go", '''			for _, item := range tsd.registeredChannels {
				close(item.channel)
			}
			done <- true
''', '''			for i, item := range tsd.registeredChannels {
				close(item.channel)
				if i == len(tsd.registeredChannels)-1 {
					done <- true
				}
			}
''')], go('''
	var b []byte
	for i := 0; i < 3; i++ {
		b = append(b, packet(7, false, i, nil, fill(184, i))...)
	}
	d := ts.NewDemuxer(bytes.NewReader(b))
	done := d.Go()
	<-done // a deadlock ends the program'''), "a demultiplexer without any channel", "the end is never reported")

B["pes-padding-huge"] = ("E02", [("pes/packet.go", '''		payloadLen := int(packet.PacketLength)
		junk := make([]byte, payloadLen)
''', '''		payloadLen := int(int16(packet.PacketLength))
		if payloadLen < 0 {
			payloadLen = 0
		}
		junk := make([]byte, payloadLen)
''')], go('''
	for _, n := range []int{0, 5, 32767, 32768, 65535} {
		b := append(append([]byte{0, 0, 1, 0xbe, byte(n >> 8), byte(n)}, bytes.Repeat([]byte{0xff}, n)...), pesPkt(0xe0, []byte{0x80, 0, 0}, fill(20, 1))...)
		r := bitreader.NewReader(bytes.NewReader(b))
		if _, err := pes.NewPacket(r); err != nil {
			fail("padding of %d: %v", n, err)
		}
		p, err := pes.NewPacket(r)
		if err != nil || !bytes.Equal(p.Payload, fill(20, 1)) {
			fail("the packet behind padding of %d: %v", n, err)
		}
	}'''), "a padding packet of 32768 bytes or more", "its bytes are taken for the next packet")

if __name__ == "__main__":
    for k in sys.argv[1:] or B:
        p, e, d, n, w = B[k]
        plant(k, p, e, d, n, w)
