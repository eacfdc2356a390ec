"""Planted bugs in the checking of headers."""
from bugs_video_base import v

v("v-display-marker", "V12", [("video/sequence_display_extension.go", '''	err = marker_bit(br)
	if err != nil {
		return nil, err
	}

	sde.display_vertical_size, err = br.Read32(14)
''', '''	// the size may be given as one number
	sde.display_vertical_size, err = br.Read32(15)
	sde.display_vertical_size &= 1<<14 - 1
''')], '''
func main() {
	for marker := uint64(0); marker < 2; marker++ {
		w := new(W).seq(16, 16)
		w.code(0xB5).put(2, 4).put(5, 3).put(0, 1).put(16, 14).put(marker, 1).put(16, 14)
		w.gop().shades(0, 1, 1, 10, 1)
		fs, err := frames(bytes.NewReader(w.end()))
		if marker == 1 && (len(fs) != 1 || err != video.EOS) {
			fail("good: %v %d", err, len(fs))
		} else if marker == 0 && (len(fs) != 0 || err == video.EOS) {
			fail("no marker: %v, %d frames", err, len(fs))
		}
	}
}
''', "a sequence display extension without its marker bit", "the damage goes unnoticed")

v("v-later-extension", "V12", [("video/frame_provider.go", '''	if err := self.sequence_extension(); err != nil {
		return nil, err
	}

	goto CONTINUE''', '''	if val, err := self.Peek32(32); err != nil {
		return nil, err
	} else if StartCode(val) != ExtensionStartCode {
		goto MORE_FRAMES // the extension in force stays
	} else if err := self.sequence_extension(); err != nil {
		return nil, err
	}

	goto CONTINUE''')], '''
func main() {
	w := new(W).seq(16, 16).gop().shades(0, 1, 1, 10, 1)
	w.seq(16, 16)
	w.b = w.b[:len(w.b)-10] // the extension of the repeated header
	w.gop().shades(0, 1, 1, 10, 1)
	fs, err := frames(bytes.NewReader(w.end()))
	if len(fs) != 1 || err == video.EOS {
		fail("%v, %d frames", err, len(fs))
	}
}
''', "a repeated sequence header between pictures whose extension is missing", "decoding goes on as if the extension had been there")

v("v-picture-stuffing", "V12", [("video/picture_coding_extension.go", "	return &pce, next_start_code(br)", '''	if !pce.composite_display_flag {
		err = next_start_code(br)
	} else {
		// sub-carrier data may be followed by private ones
		for {
			if val, err := br.Peek32(24); err != nil {
				return nil, err
			} else if val == StartCodePrefix {
				break
			} else if br.IsAligned() {
				err = br.Skip(8)
			} else {
				_, err = br.Align()
			}
		}
	}
	if err != nil {
		return nil, err
	}
	return &pce, nil''')], '''
func main() {
	for _, stray := range []byte{0, 9} {
		w := new(W).seq(16, 16).gop()
		w.pic('I', 0, Pic{Composite: true})
		w.b = append(w.b, stray)
		w.slice(0, 1).s("1 1").flat(7)
		fs, err := frames(bytes.NewReader(w.end()))
		if stray == 0 && (len(fs) != 1 || err != video.EOS) || stray != 0 && (len(fs) != 0 || err == video.EOS) {
			fail("stray byte %d: %v, %d frames", stray, err, len(fs))
		}
	}
}
''', "a picture coding extension with composite display data, followed by stray bytes", "they are passed over")
