"""Planted bugs that need rare values."""
from bugs_video_base import v

v("v-vector-low", "V09", [("video/motion_vectors.go", '''	if vector < low {
		vector += _range
	}
	if vector > high {
		vector -= _range
	}
''', '''	if vector <= low {
		vector += _range
	} else if vector > high {
		vector -= _range
	}
''')], '''
func main() {
	w := new(W).seq(48, 16).gop().shades(0, 3, 1, 40, 60)
	w.pic('P', 1, Pic{})
	// the third macroblock takes its samples eight to the left: the smallest vector there is
	w.slice(0, 1).s("1 001", motion[0], motion[0], "1 001", motion[-1], motion[0], "1 001", motion[-15], motion[0])
	fs := want(w, 2)
	is("a sample", y(fs[1], 33, 3), 100)
}
''', "a vector that is exactly the smallest one of its range", "the vector is wrapped to one beyond the largest")
