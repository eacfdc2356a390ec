"""Planted bugs that need long runs."""
from bugs_video_base import v

v("v-user-data-zeros", "V03", [("video/user_data.go", "} else if peek == StartCodePrefix {", "} else if peek>>8 == 0 {")], '''
func main() {
	for _, d := range [][]byte{{1, 2, 3}, {1, 0, 5}, {1, 0, 0, 5}, {1, 0, 0, 3, 7, 0, 0, 2, 0, 1}} {
		w := new(W).seq(16, 16).gop()
		w.pic('I', 0, Pic{}).code(0xB2)
		for _, b := range d {
			w.put(uint64(b), 8)
		}
		w.slice(0, 1).s("1 1").flat(5)
		fs := want(w, 1)
		is("a sample", y(fs[0], 3, 3), 133)
	}
}
''', "user data with two zero bytes in a row that do not begin a start code", "the user data ends there and decoding fails")

v("v-slice-information", "V03", [("video/slice.go", "} else if nextbits != 1 {\n				break", "} else if nextbits != 1 || len(s.extra_information) == 256 {\n				break")], '''
func main() {
	for _, n := range []int{0, 1, 2, 255, 256, 257, 1000} {
		w := new(W).seq(16, 16).gop()
		w.pic('I', 0, Pic{}).code(1).put(1, 5).s("1 0 0000000")
		for i := 0; i < n; i++ {
			w.put(0x15A, 9)
		}
		w.s("0 1 1").flat(5)
		fs := want(w, 1)
		is("a sample", y(fs[0], 3, 3), 133)
	}
}
''', "a slice header with more than 256 bytes of extra information", "the rest is taken for macroblocks")

v("v-align-far", "V01", [("video/video_sequence.go", '''	for {
		if val, err := br.Peek32(32); err != nil {
			return err
		} else if StartCode(val) == startCode {
''', '''	for n := uint16(1); ; n++ {
		if val, err := br.Peek32(32); err != nil {
			return err
		} else if StartCode(val) == startCode || n == 0 {
''')], '''
func main() {
	for _, n := range []int{0, 5, 1000, 65534, 65535, 65536, 70000} {
		b := append(bytes.Repeat([]byte{7}, n), 0, 0, 1, 0xB3, 1, 2, 3)
		v := video.NewVideoSequence(bytes.NewReader(b))
		if err := v.AlignTo(video.SequenceHeaderStartCode); err != nil {
			fail("%d bytes in front of the code: %v", n, err)
		}
		if x, _ := v.Peek32(32); x != 0x1B3 {
			fail("%d bytes in front of the code: at %x", n, x)
		}
	}
}
''', "a start code more than 65534 bytes away", "AlignTo reports success elsewhere")

v("v-increment-byte", "V08", [("video/macroblock.go", "mb.macroblock_address_increment += 33", "mb.macroblock_address_increment = int(uint8(mb.macroblock_address_increment + 33))")], '''
func main() {
	w := new(W).seq(16*301, 16).gop().shades(0, 301, 1, 20, 0)
	w.pic('P', 1, Pic{}).slice(0, 1).s("1 00011").flat(0)
	for i := 0; i < 9; i++ {
		w.s("00000001000")
	}
	w.s("010 00011").flat(10)
	fs := want(w, 2)
	is("a skipped macroblock", y(fs[1], 16*44, 0), 20)
	is("the last macroblock", y(fs[1], 16*300, 0), 138)
}
''', "an address increment of 265 or more", "the increment is taken modulo 256")

v("v-stuffing-far", "V03", [("video/next_start_code.go", '''	for {
		if val, err := br.Peek32(24); err != nil {
''', '''	for n := int16(1); n > 0; n++ {
		if val, err := br.Peek32(24); err != nil {
'''), ("video/next_start_code.go", '''			return ErrUnexpectedNonZeroByte
		}
	}
}
''', '''			return ErrUnexpectedNonZeroByte
		}
	}
	return ErrUnexpectedStartCode
}
''')], '''
func main() {
	for _, n := range []int{0, 1, 500, 32766, 32767, 40000} {
		w := new(W).seq(16, 16)
		w.b = append(w.b, make([]byte, n)...)
		w.n += uint(8 * n)
		w.gop().pic('I', 0, Pic{}).slice(0, 1).s("1 1").flat(5)
		fs := want(w, 1)
		is("a sample", y(fs[0], 3, 3), 133)
	}
}
''', "32767 zero bytes or more in front of a start code", "decoding fails")

v("v-broken-link", "V04", [("video/frame_provider.go", '''		case IFrame, PFrame:
			self.frameStore.add(frame, self.PictureHeader.temporal_reference)
''', '''		case BFrame:
			// the references of these were lost in editing
			if self.GroupOfPicturesHeader != nil && self.GroupOfPicturesHeader.BrokenLink && self.frameStore.frames[0].previous_gop {
				return self.step()
			}
		default:
			self.frameStore.add(frame, self.PictureHeader.temporal_reference)
''')], '''
func main() {
	for link := 0; link < 2; link++ {
		w := new(W).seq(16, 16).gop()
		w.pic('I', 0, Pic{}).slice(0, 1).s("1 1").flat(5)
		w.code(0xB8).put(1<<12, 25).put(uint64(link), 2).align()
		w.pic('I', 1, Pic{}).slice(0, 1).s("1 1").flat(10)
		w.pic('B', 0, Pic{}).slice(0, 1).s("1 00011").flat(20)
		w.pic('P', 2, Pic{}).slice(0, 1).s("1 00011").flat(30)
		fs := want(w, 4)
		is("sample", y(fs[1], 3, 3), 148)
	}
}
''', "a group with a broken link whose first picture in display order is a B picture", "the B picture is not delivered")
