import os, sys
from plant import plant
COMMON = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "video_common.go")).read()
MAIN = "package main\n\nimport (\n%s\t\"bytes\"\n\n\t\"github.com/32bitkid/mpeg/video\"\n)\n\nvar _ = bytes.NewReader\nvar _ = video.EOS\n\n"


def v(bid, prop, edits, demo, needs, breaks, imports=()):
    if len(sys.argv) > 1 and bid not in sys.argv[1:]:
        return
    plant(bid, prop, edits, MAIN % "".join('\t"%s"\n' % i for i in imports) + demo, needs, breaks, COMMON)


v("v-align-stride", "V01", [("video/video_sequence.go", '''			return nil
		} else if err := br.Skip(8); err != nil {
			return err
		}''', '''			return nil
		} else if err := br.Skip(8 + 24*uint(val&1)); err != nil {
			return err
		}''')], '''
func main() {
	for n := 0; n < 9; n++ {
		b := append(bytes.Repeat([]byte{0}, n), 0, 0, 1, 0xB3, 1, 2, 3)
		v := video.NewVideoSequence(bytes.NewReader(b))
		if err := v.AlignTo(video.SequenceHeaderStartCode); err != nil {
			fail("%d zero bytes in front of the code: %v", n, err)
		}
		if x, _ := v.Peek32(32); x != 0x1B3 {
			fail("at %x", x)
		}
	}
}
''', "a start code whose first bytes end a window of four bytes: one more zero byte in front of it", "the skip over bytes that cannot begin a start code takes the prefix of one along")

v("v-slice-max", "V01", [("video/start_codes.go", "code >= MinSliceStartCode && code <= MaxSliceStartCode", "code >= MinSliceStartCode && code&0xFF <= 0xAF")], '''
func main() {
	for c := uint32(0); c < 0x400; c++ {
		if video.StartCode(c).IsSlice() != (c >= 0x101 && c <= 0x1AF) {
			fail("IsSlice(%x) is %v", c, video.StartCode(c).IsSlice())
		}
	}
}
''', "a value beyond the start codes whose low byte is one of a slice", "values that are not start codes count as slices")

v("v-gop-stuffing", "V02", [("video/group_of_pictures_header.go", "	return &goph, next_start_code(br)", '''	if !br.IsAligned() {
		if _, err := br.Align(); err != nil {
			return nil, err
		}
	}
	for {
		if val, err := br.Peek32(24); err != nil {
			return nil, err
		} else if val == StartCodePrefix {
			return &goph, nil
		} else if val != 0 && val>>16 != 0 && val&0xFFFF != 0 {
			return nil, ErrUnexpectedNonZeroByte
		}
		if err := br.Skip(8); err != nil {
			return nil, err
		}
	}''')], '''
func main() {
	for _, x := range [][]byte{{7}, {7, 9}, {0, 7}, {0, 0, 7}, {0, 7, 0}} {
		w := new(W).gop()
		w.b = append(append(w.b, x...), 0, 0, 1, 0)
		_, err := video.ReadGOPHeader(bitreader.NewReader(bytes.NewReader(w.b)))
		if err == nil {
			fail("% x behind the header is not reported", x)
		}
	}
}
''', "a single non-zero byte directly in front of the next start code", "garbage behind a GOP header passes as stuffing", ["github.com/32bitkid/bitreader"])

v("v-timecode-pictures", "V02", [("video/group_of_pictures_header.go", '		DropFrame: (gop.timeCode >> 24) == 1,', '		DropFrame: (gop.timeCode >> 24) == 1 && gop.timeCode&0x3F != 0,')], '''
func main() {
	w := new(W).code(0xB8).put(1<<24|11<<19|7<<13|1<<12|5<<6, 25).put(1, 2).align().put(0x100, 32)
	h, err := video.ReadGOPHeader(bitreader.NewReader(bytes.NewReader(w.b)))
	if err != nil {
		fail("%v", err)
	}
	if s := h.TimeCode().String(); s != "11:07:05;00" || h.ClosedGOP || !h.BrokenLink {
		fail("%s %v %v", s, h.ClosedGOP, h.BrokenLink)
	}
}
''', "a drop frame time code whose picture number is zero", "the drop frame flag is lost", ["github.com/32bitkid/bitreader"])

v("v-extra-information", "V03", [("video/picture_header.go", "} else if extraBit == false {", "} else if extraBit == false || len(ph.extra_information) >= 8 {")], '''
func main() {
	for n := 0; n < 20; n++ {
		w := new(W).seq(16, 16)
		w.gop().pic('I', 0, Pic{Extra: bytes.Repeat([]byte{0x5A}, n)}).slice(0, 1).s("1 1").flat(5)
		want(w, 1)
	}
}
''', "a picture header with nine or more bytes of extra information", "only eight bytes of extra information are passed over")

v("v-size-extension", "V03", [("video/video_sequence.go", "height |= int(vs.SequenceExtension.vertical_size_extension << 12)", "height += int(vs.SequenceExtension.vertical_size_extension) << 12 & (height - 1)")], '''
func main() {
	for _, s := range [][2]int{{4095, 4095}, {4112, 4096 + 1080}, {16, 8192}, {8200, 12288 + 5}} {
		v := video.NewVideoSequence(bytes.NewReader(new(W).seq(s[0], s[1]).gop().b))
		v.Next()
		if w, h := v.Size(); w != s[0] || h != s[1] {
			fail("%v is %d %d", s, w, h)
		}
	}
}
''', "a picture of more than 4095 lines", "the vertical size extension is masked away")

v("v-user-data-extension", "V03", [("video/extension_and_user_data.go", '''			if _, err := br.user_data(); err != nil {
				return err
			}
''', '''			if _, err := br.user_data(); err != nil || i == 2 {
				return err
			}
''')], '''
func main() {
	w := new(W).seq(16, 16)
	w.gop().pic('I', 0, Pic{})
	w.code(0xB2).put(0x41424344, 32).code(0xB2).put(0x45, 8)
	w.slice(0, 1).s("1 1").flat(5)
	fs := want(w, 1)
	is("sample", y(fs[0], 3, 3), 133)
}
''', "two pieces of user data behind one picture header", "what follows user data of a picture is taken for its slices")

v("v-composite", "V03", [("video/picture_coding_extension.go", "pce.sub_carrier_phase, err = br.Read32(8)", "pce.sub_carrier_phase, err = br.Read32(uint(pce.field_sequence))")], '''
func main() {
	w := new(W).seq(16, 16)
	w.gop().pic('I', 0, Pic{Composite: true}).slice(0, 1).s("1 1").flat(5)
	fs := want(w, 1)
	is("sample", y(fs[0], 3, 3), 133)
}
''', "a picture with the composite display information", "the sub carrier phase is read with another length")

v("v-tryget-gop", "V04", [("video/frame_store.go", "if ref.frame != nil && ref.previous_gop == false && ref.temporal_reference == temporal_reference {", "if ref.frame != nil && ref.temporal_reference == temporal_reference {")], '''
func main() {
	w := new(W).seq(16, 16)
	v := 10
	p := func(t byte, tr int) {
		w.pic('I', tr, Pic{})
		w.slice(0, 1).s("1 1").flat(v)
		v += 5
	}
	w.gop()
	p('I', 0)
	p('I', 1)
	w.gop()
	p('I', 2)
	b := func(tr int) {
		w.pic('B', tr, Pic{}).slice(0, 1).s("1 00011").flat(v)
		v += 5
	}
	b(0)
	b(1)
	fs := want(w, 5)
	for i, e := range []int{138, 143, 153, 158, 148} {
		is("frame", y(fs[i], 0, 0), e)
	}
}
''', "a group that begins with B pictures after one that ends with a reference of the same temporal reference", "a frame of the previous group is shown in place of a B picture")

v("v-counter-gop", "V04", [("video/video_sequence.go", '''	if img := vs.frameStore.tryGet(vs.frameCounter); img != nil {
		vs''', '''	img := vs.frameStore.tryGet(vs.frameCounter)
	if img == nil && vs.PictureHeader != nil && vs.PictureHeader.picture_coding_type == BFrame {
		// a frame of a shorter group is not awaited any longer
		if img = vs.frameStore.tryGet(vs.frameCounter + 1); img != nil {
			vs.frameCounter++
		}
	}
	if img != nil {
		vs''')], '''
func main() {
	w := new(W).seq(16, 16).gop()
	val := 0
	p := func(t byte, tr int) {
		w.pic(t, tr, Pic{}).slice(0, 1)
		w.s("1", map[byte]string{'I': "1", 'P': "00011", 'B': "00011"}[t]).flat(tr*3 + val)
	}
	p('I', 0)
	p('P', 4)
	p('B', 1)
	p('B', 2)
	p('B', 3)
	fs := want(w, 5)
	for i := range fs {
		is("frame", y(fs[i], 0, 0), 128+3*i)
	}
}
''', "two or more B pictures in front of a reference", "the last B picture in front of a reference is dropped")

v("v-ref-older", "V05", [("video/frame_store.go", '''	fs.frames[0] = fs.frames[1]
	fs.frames[1] = referenceFrame{f, temporal_reference, false}''', '''	next := referenceFrame{f, temporal_reference, false}
	if fs.frames[1].frame == nil || fs.frames[1].previous_gop || fs.frames[1].temporal_reference < temporal_reference {
		fs.frames[0] = fs.frames[1]
		fs.frames[1] = next
	} else {
		// keep the references in display order
		fs.frames[0] = next
	}''')], '''
func main() {
	// no group headers: the temporal reference starts again after 1023
	w := new(W).seq(16, 16).gop()
	w.pic('I', 0, Pic{}).slice(0, 1).s("1 1").flat(0)
	for i := 1; i <= 1026; i++ {
		w.pic('P', i&1023, Pic{}).slice(0, 1).s("1")
		if i%2 == 0 {
			w.s("00011").flat(i & 31)
		} else {
			w.s("001 1 1")
		}
	}
	fs := want(w, 1027)
	for i := range fs {
		is("frame", y(fs[i], 0, 0), 128+i&30)
	}
}
''', "a group of more than 1023 pictures", "P pictures behind the wrap of the temporal reference are predicted from an old frame")

v("v-ref-gop-b", "V04", [("video/frame_store.go", "	fs.frames[1].previous_gop = true", "	fs.frames[1].previous_gop = fs.frames[0].frame != nil")], '''
func main() {
	w := new(W).seq(16, 16)
	for g := 0; g < 2; g++ {
		w.gop()
		w.pic('I', 1, Pic{}).slice(0, 1).s("1 1").flat(10 + 20*g)
		w.pic('B', 0, Pic{}).slice(0, 1).s("1 00011").flat(20 + 20*g)
	}
	fs := want(w, 4)
	for i, e := range []int{148, 138, 168, 158} {
		is("frame", y(fs[i], 0, 0), e)
	}
}
''', "a group of a single reference picture, behind a B picture, and another group after it", "the reference picture of the first group is shown in place of the one of the second")

v("v-dc-skip-reset", "V06", [("video/macroblock.go", '''	if mb.macroblock_address_increment > 1 {
		resetDCPredictors()
	}''', '''	if mb.macroblock_address_increment > 2 {
		resetDCPredictors()
	}''')], '''
func main() {
	w := new(W).seq(64, 16).gop().shades(0, 4, 1, 100, 10)
	w.pic('P', 1, Pic{}).slice(0, 1)
	w.s("1 00011").flat(40)
	w.s("011 00011").flat(7)
	w.s("1 00011").flat(7)
	fs := want(w, 2)
	for i, e := range []int{168, 110, 135, 142} {
		is("macroblock", y(fs[1], 16*i+3, 3), e)
	}
}
''', "a single skipped macroblock between two intra macroblocks of a P picture", "the DC predictors are kept across a single skipped macroblock")

v("v-idct-shortcut", "V06", [("video/idct.go", "src[y8+4] == 0 && src[y8+5] == 0 && src[y8+6] == 0 && src[y8+7] == 0 {", "src[y8+4] == 0 && src[y8+5] == 0 && src[y8+6] == 0 && src[y8+7]>>1 == 0 {")], '''
func main() {
	got := 0
	for p := 0; p < 63; p++ {
		w := new(W).seqX(16, 16, 1, nil, nil).gop().pic('I', 0, Pic{}).slice(0, 3).s("1 1")
		for k := 0; k < 6; k++ {
			w.dc(k, 3)
			w.esc(p, 2*p+7*k+1).eob()
		}
		got = (got*7 + sum(want(w, 1)[0])) % 1000003
	}
	is("checksum", got, CHECK)
}

const CHECK = 822423
''', 'a row of coefficients with nothing but a highest one of one, as mismatch control makes it', 'a highest coefficient of one is treated as zero')

v("v-mismatch-unsaturated", "V07", [("video/decode_block.go", "sum = sum + Fp[v][u]", "sum = sum + Fpp[v][u]")], '''
func main() {
	mi := bytes.Repeat([]byte{17}, 64)
	img := func(pos, level, d int) *image.YCbCr {
		w := new(W).seqX(16, 16, 1, mi, nil).gop()
		w.pic('I', 0, Pic{Qst: 1}).slice(0, 31).s("1 1")
		w.dc(0, d).esc(pos, level).eob()
		for k := 1; k < 6; k++ {
			w.dc(k, 0).eob()
		}
		return want(w, 1)[0]
	}
	for pos := 0; pos < 62; pos++ {
		for d := -20; d < 20; d += 3 {
			// 119 times the level: both saturate
			if !same(img(pos, 101, d), img(pos, 102, d)) {
				fail("the levels 101 and 102 saturate and give different samples")
			}
		}
	}
}
''', "a saturated coefficient of the other parity before saturation", "mismatch control adds up the values before saturation", ["image"])


v("v-table-code", "V06", [("video/dtc_coefficients.go", '''			"0000 0000 1000 0": dctCoefficient{10, 2},
			"0000 0000 1111 1": dctCoefficient{22, 1},''', '''			"0000 0000 1000 0": dctCoefficient{10, 2},
			"0000 0000 1111 1": dctCoefficient{22, 2},''', 2)], '''
func main() {
	img := func(f func(w *W)) *image.YCbCr {
		w := new(W).seq(16, 16).gop()
		w.pic('I', 0, Pic{}).slice(0, 20).s("1 1").dc(0, 0)
		f(w)
		w.eob()
		for k := 1; k < 6; k++ {
			w.dc(k, 0).eob()
		}
		return want(w, 1)[0]
	}
	for code, c := range map[string][2]int{"00000000111110": {22, 1}, "00000000111111": {22, -1}, "00000000100000": {10, 2}, "00000000100001": {10, -2}} {
		if !same(img(func(w *W) { w.s(code) }), img(func(w *W) { w.esc(c[0], c[1]) })) {
			fail("%s is not %v", code, c)
		}
	}
}
''', "a block with the code of run 22 and level 1", "the code is decoded with level 2", ["image"])

v("v-chroma-table", "V06", [("video/block.go", "if macroblock_intra && intra_vlc_format == 1 {", "if macroblock_intra && intra_vlc_format == 1 && (cc < 2 || n > 1) {")], '''
func main() {
	w := new(W).seq(16, 16).gop()
	w.pic('I', 0, Pic{Ivf: 1}).slice(0, 1).s("1 1")
	for k := 0; k < 6; k++ {
		w.dc(k, 0)
		if k == 5 {
			w.s("10 0 0110")
		} else {
			w.s("0110")
		}
	}
	w2 := new(W).seq(16, 16).gop()
	w2.pic('I', 0, Pic{}).slice(0, 1).s("1 1")
	for k := 0; k < 6; k++ {
		w2.dc(k, 0)
		if k == 5 {
			w2.esc(0, 1)
		}
		w2.eob()
	}
	if !same(want(w, 1)[0], want(w2, 1)[0]) {
		fail("the Cr block differs")
	}
}
''', "an intra picture with the second table and a coefficient directly behind the DC coefficient of a Cr block", "the first code of a Cr block is read with the other table")

v("v-quant-once", "V07", [("video/macroblock.go", "			*qsc = mb_qsc", "			own := *qsc\n			defer func() { *qsc = own }()\n			*qsc = uint32(mb_qsc)")], '''
func main() {
	blocks := func(w *W) {
		for k := 0; k < 6; k++ {
			w.dc(k, 0).esc(2, 5).eob()
		}
	}
	w := new(W).seq(32, 16).gop().pic('I', 0, Pic{}).slice(0, 1)
	blocks(w.s("1 01").put(10, 5))
	blocks(w.s("1 1"))
	w2 := new(W).seq(32, 16).gop().pic('I', 0, Pic{}).slice(0, 10)
	blocks(w2.s("1 1"))
	blocks(w2.s("1 1"))
	if !same(want(w, 1)[0], want(w2, 1)[0]) {
		fail("the scale of a macroblock does not hold for the next one")
	}
}
''', "a macroblock with its own quantiser scale followed by one without", "the scale of a macroblock is forgotten after it")

v("v-matrix-default", "V07", [("video/sequence_header.go", '''	if sh.load_non_intra_quantiser_matrix {
		vs''', '''	if sh.load_intra_quantiser_matrix && !sh.load_non_intra_quantiser_matrix {
		// only one of the matrices is replaced
	} else if sh.load_non_intra_quantiser_matrix {
		vs'''), ("video/video_sequence.go", '''	return &VideoSequence{
		BitReader: bitreader.NewReader(r),
	}''', '''	vs := &VideoSequence{
		BitReader: bitreader.NewReader(r),
	}
	vs.quantisationMatricies = [4]quantisationMatrix{
		defaultQuantisationMatrices.Intra, defaultQuantisationMatrices.NonIntra,
		defaultQuantisationMatrices.Intra, defaultQuantisationMatrices.NonIntra,
	}
	return vs''')], '''
func main() {
	img := func(first []byte) *image.YCbCr {
		w := new(W).seqX(16, 16, 1, nil, first).gop().pic('I', 0, Pic{}).slice(0, 1).s("1 1").flat(0)
		w.seqX(16, 16, 1, bytes.Repeat([]byte{30}, 64), nil)
		w.pic('P', 1, Pic{}).slice(0, 10).s("1 01 1010").esc(3, 9).eob()
		return want(w, 2)[1]
	}
	if !same(img(nil), img(bytes.Repeat([]byte{100}, 64))) {
		fail("a matrix survives a sequence header")
	}
}
''', "a sequence header with an intra matrix only, behind one with a non-intra matrix", "the non-intra matrix is not set back to the default", ["image"])

v("v-saturation-low", "V07", [("video/decode_block.go", '''				} else if Fpp[v][u] < -2048 {
					Fp[v][u] = -2048''', '''				} else if Fpp[v][u] < -2047 {
					Fp[v][u] = -2047''')], '''
func main() {
	got := 0
	for p := 0; p < 63; p++ {
		w := new(W).seqX(16, 16, 1, nil, nil).gop().pic('I', 0, Pic{}).slice(0, 31).s("1 1")
		for k := 0; k < 6; k++ {
			w.dc(k, 100-100*(k+2)/3%2)
			w.esc(p, -1000).eob()
		}
		got = (got*7 + sum(want(w, 1)[0])) % 1000003
	}
	is("checksum", got, CHECK)
}

const CHECK = 354642
''', 'a coefficient that saturates at the negative end', 'saturation to -2047 instead of -2048')

v("v-address-escape", "V08", [("video/macroblock.go", "} else if nextbits == 0x08 { // 0000 0001 000", "} else if nextbits == 0x08 && mb.macroblock_address_increment < 66 { // 0000 0001 000")], '''
func main() {
	w := new(W).seq(16*112, 16).gop().shades(0, 112, 1, 20, 2)
	w.pic('P', 1, Pic{}).slice(0, 1).s("1 00011").flat(0)
	w.s("00000001000 00000001000 00000001000 00001001 00011").flat(10)
	fs := want(w, 2)
	for i := 1; i < 111; i++ {
		is("macroblock", y(fs[1], 16*i, 0), 20+2*i)
	}
	is("macroblock", y(fs[1], 16*111, 0), 138)
}
''', "an address increment with three escapes", "only two escapes are accepted")

v("v-skip-chroma", "V08", [("video/copy_macroblocks.go", "copy(dest.Cr[di:di+w], src.Cr[si:si+w])", "copy(dest.Cr[di:di+8], src.Cr[si:si+w])")], '''
func main() {
	w := new(W).seq(16*6, 16).gop().shades(0, 6, 1, 30, 20)
	w.pic('P', 1, Pic{}).slice(0, 1).s("1 00011").flat(0).s("0010 00011").flat(10)
	fs := want(w, 2)
	for i := 1; i < 5; i++ {
		for j := 0; j < 8; j++ {
			is("Cr", cr(fs[1], 8*i+j, 3), cr(fs[0], 8*i+j, 3))
		}
	}
}
''', 'two or more skipped macroblocks in a row in a P picture', 'Cr of all but the first of them is not copied')

v("v-slice-gap", "V08", [("video/macroblock.go", "if mb_address != -1 && mb.macroblock_address_increment > 1 {", "if mb.macroblock_address_increment > 1 {")], '''
func main() {
	w := new(W).seq(48, 16).gop().shades(0, 3, 1, 100, 10)
	w.pic('P', 1, Pic{})
	w.slice(0, 1).s("1 00011").flat(40)
	w.slice(0, 1).s("011 00011").flat(50).s("1 00011").flat(1)
	fs := want(w, 2)
	for i, e := range []int{168, 178, 179} {
		is("macroblock", y(fs[1], 16*i+3, 3), e)
	}
}
''', "a P picture with a slice that begins in the middle of a row", "the macroblocks in front of the slice are taken for skipped ones and overwritten")

v("v-vector-high", "V09", [("video/motion_vectors.go", "	if vector > high {", "	if vector >= high {")], '''
func main() {
	w := new(W).seq(80, 16).gop().shades(0, 5, 1, 40, 10)
	w.pic('P', 1, Pic{}).slice(0, 1)
	w.s("1 001 00000011010 1")
	w.s("1 001 1 1")
	w.s("1 00011").flat(0).s("1 00011").flat(0).s("1 00011").flat(0)
	fs := want(w, 2)
	is("sample", y(fs[1], 3, 3), 40)
	is("sample", y(fs[1], 12, 3), 50)
	is("sample", y(fs[1], 16+12, 3), 60)
}
''', "a vector at the upper end of the range of its f_code", "the highest vector wraps around")

v("v-vector-fcode", "V09", [("video/motion_vectors.go", "	r_size := f_code[s][t] - 1\n", "	r_size := f_code[s][0] - 1\n")], '''
func main() {
	w := new(W).seq(16, 64).gop().shades(0, 1, 4, 40, 20)
	w.pic('P', 1, Pic{F: [4]int{1, 3, 15, 15}})
	w.slice(0, 1).s("1 001 1 0000010110 11")
	for r := 1; r < 4; r++ {
		w.slice(r, 1).s("1 001 1 1")
	}
	fs := want(w, 2)
	for r, e := range []int{60, 60, 80, 100} {
		is("row", y(fs[1], 3, 16*r+3), e)
	}
}
''', 'a picture whose f_codes differ between the horizontal and the vertical component', 'the vertical residual is scaled with the horizontal f_code')

v("v-vector-b-intra", "V09", [("video/macroblock.go", '''	if mb.macroblock_type.macroblock_intra == true &&
		br.PictureCodingExtension.concealment_motion_vectors == false {''', '''	if mb.macroblock_type.macroblock_intra == true && br.PictureHeader.picture_coding_type != BFrame &&
		br.PictureCodingExtension.concealment_motion_vectors == false {''')], '''
func main() {
	w := new(W).seq(64, 16).gop().shades(0, 4, 1, 40, 16)
	w.pic('P', 2, Pic{}).slice(0, 1).s("1 001 1 1 1 001 1 1 1 001 1 1 1 001 1 1")
	w.pic('B', 1, Pic{}).slice(0, 1)
	w.s("1 0010 00001000 1")
	w.s("1 00011").flat(0)
	w.s("1 0010 1 1")
	w.s("1 0010 1 1")
	fs := want(w, 3)
	is("moved sample", y(fs[1], 14, 0), 56)
	is("sample", y(fs[1], 32+14, 0), 72)
}
''', 'an intra macroblock between two predicted ones in a B picture', 'the vector predictors survive an intra macroblock of a B picture')

v("v-halfpel-negative", "V10", [("video/motion_compensation.go", "fState.h_half, fState.v_half = (horizontal&1) == 1, (vertical&1) == 1", "fState.h_half, fState.v_half = (horizontal%2) == 1, (vertical&1) == 1")], '''
func main() {
	w := new(W).seq(32, 16).gop().shades(0, 2, 1, 40, 10)
	w.pic('P', 1, Pic{}).slice(0, 1)
	w.s("1 001 1 1")
	w.s("1 001 011 1")
	fs := want(w, 2)
	is("sample", y(fs[1], 16, 3), 45)
	is("sample", y(fs[1], 17, 3), 50)
}
''', "a negative half sample vector", "it is rounded to a whole sample")

v("v-backward-four", "V10", [("video/motion_compensation.go", '''						int32(bState.channel[i+1]) +
						int32(bState.channel[i+bState.stride]) +''', '''						int32(bState.channel[i+bState.stride]) +
						int32(bState.channel[i+bState.stride]) +''')], '''
func main() {
	w := new(W).seq(32, 32).gop()
	w.pic('I', 0, Pic{})
	for r := 0; r < 2; r++ {
		w.slice(r, 1).s("1 1").flat(0).s("1 1").flat(0)
	}
	w.shades(2, 2, 2, 40, 40)
	w.pic('B', 1, Pic{})
	w.slice(0, 1).s("1 010 010 010").s("1 010 011 1")
	w.slice(1, 1).s("1 010 010 011").s("1 010 011 1")
	fs := want(w, 3)
	// around the corner of 40, 80, 120 and 160
	is("sample", y(fs[1], 15, 15), 100)
	is("sample", y(fs[1], 15, 3), 60)
	is("sample", y(fs[1], 3, 15), 80)
	is("sample", y(fs[1], 3, 3), 40)
}
''', "a backward prediction half a sample off in both directions", "one of the four samples is taken from the line below")

v("v-shared-block", "V11", [("video/macroblock.go", '''	var b block
	var cb clampedblock

	for i := 0; i < block_count''', '''	b, cb := &scratch.b, &scratch.cb

	for i := 0; i < block_count'''), ("video/macroblock.go", "		b.clamp(&cb)\n		updateFrameSlice(i, mb_address, mb.dct_type, frameSlice, &cb)", "		b.clamp(cb)\n		updateFrameSlice(i, mb_address, mb.dct_type, frameSlice, cb)"), ("video/macroblock.go", "type Macroblock struct {", '''// scratch is where a block is decoded.
var scratch struct {
	b  block
	cb clampedblock
}

type Macroblock struct {''')], '''
func main() {
	w := new(W).seq(320, 160).gop()
	for i := 0; i < 8; i++ {
		w.shades(i, 20, 10, 20, 1)
	}
	b := w.end()
	ref, _ := frames(bytes.NewReader(b))
	var wg sync.WaitGroup
	bad := make([]int, 16)
	for k := range bad {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for rep := 0; rep < 10; rep++ {
				fs, err := frames(bytes.NewReader(b))
				if err != video.EOS || len(fs) != len(ref) {
					bad[k]++
					continue
				}
				for i := range fs {
					if !same(fs[i], ref[i]) {
						bad[k]++
					}
				}
			}
		}(k)
	}
	wg.Wait()
	for k := range bad {
		if bad[k] > 0 {
			fail("a decoder of several at the same time gives other frames")
		}
	}
}
''', 'several decoders used at the same time', 'decoders share the memory of the block that is decoded', ['sync'])

v("v-frame-reuse", "V11", [("video/picture_data.go", '''	frame = createFrameBuffer(w, h, self.SequenceExtension.progressive_sequence, self.SequenceExtension.chroma_format)
''', '''	frame = createFrameBuffer(w, h, self.SequenceExtension.progressive_sequence, self.SequenceExtension.chroma_format)
	if spare := self.frameStore.spare; spare != nil && spare.Rect == frame.Rect {
		frame, self.frameStore.spare = spare, nil
	}
'''), ("video/frame_store.go", "	fs.frames[0] = fs.frames[1]\n", "	fs.spare, fs.frames[0] = fs.frames[0].frame, fs.frames[1]\n"), ("video/frame_store.go", "	past   *image.YCbCr\n", "	past   *image.YCbCr\n	spare  *image.YCbCr\n")], '''
func main() {
	w := new(W).seq(16, 16).gop()
	for i := 0; i < 9; i++ {
		w.pic('I', i, Pic{}).slice(0, 1).s("1 1").flat(5*i)
	}
	fs := want(w, 9)
	for i := range fs {
		is("frame", y(fs[i], 3, 3), 128+5*i)
	}
}
''', 'a frame that is kept while three more pictures are decoded', 'the memory of a reference is used again for a later picture')

v("v-fcode-zero", "R02", [("video/motion_vectors.go", "	r_size := f_code[s][t] - 1\n", "	r_size := int(f_code[s][t]) - 1\n")], '''
func main() {
	w := new(W).seq(16, 16).gop().shades(0, 1, 1, 40, 10)
	w.code(0).put(1, 10).put(2, 3).put(0xffff, 16).put(7, 4).put(0, 1)
	w.code(0xB5).put(8, 4).put(0x00ff, 16).put(0, 2).put(3, 2).put(1, 2).put(0, 8).align()
	w.slice(0, 1).s("1 001 1 1")
	frames(bytes.NewReader(w.end()))
}
''', "a P picture with the forbidden f_code zero", "a shift by a negative number")

v("v-index-slice", "R02", [("video/slice.go", "	var mb_address int = -1\n", "	mb_address := -1\n	var seen [120]bool\n"), ("video/slice.go", """		if err != nil {
			return err
		}

		if nextbits, err := br.Peek32(23); err""", """		if err != nil {
			return err
		}
		seen[mb_address] = true

		if nextbits, err := br.Peek32(23); err""")], '''
func main() {
	w := new(W).seq(16*130, 16).gop().shades(0, 130, 1, 1, 1)
	want(w, 1)
}
''', "a picture of more than 120 macroblocks in a row", "an array is indexed beyond its end")

v("v-truncated-picture", "R03", [("video/picture_data.go", """		if err := self.slice(frame); err != nil {
			return nil, err
		}
""", """		if err := self.slice(frame); err == io.EOF {
			// the end of the stream ends its last picture
			return frame, nil
		} else if err != nil {
			return nil, err
		}
"""), ("video/picture_data.go", "import \"image\"\n", "import \"image\"\nimport \"io\"\n")], '''
func main() {
	w := new(W).seq(16, 32).gop().shades(0, 1, 2, 100, 10)
	b := w.b
	full, _ := frames(bytes.NewReader(append(append([]byte{}, b...), 0, 0, 1, 0xB7)))
	for n := 0; n < len(b); n++ {
		fs, err := frames(bytes.NewReader(b[:n]))
		if err == nil || len(fs) > 1 || len(fs) == 1 && !same(fs[0], full[0]) {
			fail("cut to %d bytes: a frame that is not part of the stream", n)
		}
	}
}
''', "a stream that ends inside of a picture", "the picture is delivered although a part of it is missing")

v("v-fault-wrapped", "R03", [("video/frame_provider.go", """	if frame, err := self.picture_data(); err != nil {
		return nil, err
""", """	if frame, err := self.picture_data(); err != nil {
		return nil, errors.New(self.PictureHeader.String() + ": " + err.Error())
""")], '''
type src struct {
	b   []byte
	err error
}

func (s *src) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, s.err
	}
	n := copy(p, s.b)
	s.b = s.b[n:]
	return n, nil
}

func main() {
	w := new(W).seq(16, 16).gop().shades(0, 1, 1, 100, 10)
	w.gop().shades(0, 1, 1, 100, 10)
	b := w.end()
	boom := errors.New("boom")
	for n := 0; n < len(b); n++ {
		if _, err := frames(&src{b[:n], boom}); err != boom {
			fail("failed after %d bytes: %v", n, err)
		}
	}
}
''', "a source that fails inside of the data of a picture", "the source's error is replaced by another one", ["errors"])
