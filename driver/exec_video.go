package main

import (
	"image"
	"io"
	"sync"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/video"
)

// VRun is one way to decode a stream.
type VRun struct {
	Pre  Bytes  `json:"pre"`  // in front of the stream; the decoder is aligned first
	Cut  int    `json:"cut"`  // the source provides that many bytes of the stream, -1: all
	End  string `json:"end"`  // how the source ends
	Ch   []int  `json:"ch"`   // how it splits the data
	Mode string `json:"mode"` // "", "after", "interleave", "concurrent": use of another decoder
}

type VFramesIn struct {
	B     Bytes  `json:"b"`
	Runs  []VRun `json:"runs"`
	Max   int    `json:"max"` // calls
	Gray  bool   `json:"gray"`
	Want  string `json:"want"` // how the specification must see the stream end, "": any way
	Other Bytes  `json:"other"`
	Kf    string `json:"kf"` // the verdict of a known finding
}

type vcallJ struct {
	E    string `json:"e"`
	F    int    `json:"f"` // frame, from 1; 0: none
	Size [2]int `json:"size"`
	Kept bool   `json:"kept"`
}

type vrunJ struct {
	Size0 [2]int   `json:"size0"`
	Calls []vcallJ `json:"calls"`
}

type vframeJ struct {
	R  [4]int `json:"r"`
	Y  Bytes  `json:"y"`
	Cb Bytes  `json:"cb"`
	Cr Bytes  `json:"cr"`
}

func plane(p []uint8, stride, w, h int) Bytes {
	out := make(Bytes, 0, w*h)
	for y := 0; y < h; y++ {
		out = append(out, p[y*stride:y*stride+w]...)
	}
	return out
}

func rect(f *image.YCbCr) [4]int {
	r := f.Rect
	return [4]int{r.Min.X, r.Min.Y, r.Max.X, r.Max.Y}
}

func grab(f *image.YCbCr) vframeJ {
	w, h := f.Rect.Dx(), f.Rect.Dy()
	cw, ch := w/2, h/2
	if f.SubsampleRatio != image.YCbCrSubsampleRatio420 {
		cw, ch = 0, 0
	}
	return vframeJ{R: rect(f), Y: plane(f.Y, f.YStride, w, h), Cb: plane(f.Cb, f.CStride, cw, ch), Cr: plane(f.Cr, f.CStride, cw, ch)}
}

func sizeOf(v *video.VideoSequence) [2]int { w, h := v.Size(); return [2]int{w, h} }

type decoded struct {
	size0  [2]int
	calls  []vcallJ
	images []*image.YCbCr
	copies []vframeJ
}

func (d *decoded) start(in *VFramesIn, r *VRun) *video.VideoSequence {
	b, c := in.B, Cont{}
	if r.Cut >= 0 {
		b, c.Rest = b[:r.Cut], b[r.Cut:]
	}
	v := video.NewVideoSequence(c.source(append(append(Bytes(nil), r.Pre...), b...), r.Ch, r.End))
	d.size0 = sizeOf(v)
	if len(r.Pre) > 0 {
		if err := v.AlignTo(video.SequenceHeaderStartCode); err != nil {
			d.calls = append(d.calls, vcallJ{E: errName(err), Size: sizeOf(v), Kept: true})
			d.images, d.copies = append(d.images, nil), append(d.copies, vframeJ{})
			return nil
		}
	}
	return v
}

// next makes one call; false: enough.
func (d *decoded) next(v *video.VideoSequence, max int) bool {
	if v == nil || len(d.calls) >= max {
		return false
	}
	f, err := v.Next()
	c := vcallJ{E: errName(err), Size: sizeOf(v), Kept: true}
	var k vframeJ
	if f != nil {
		k, c.F = grab(f), 1
	} else if err == nil {
		c.E = "other:neither a frame nor an error"
	}
	d.calls, d.images, d.copies = append(d.calls, c), append(d.images, f), append(d.copies, k)
	return err == nil || err == video.EOS
}

func decodeAll(in *VFramesIn, r *VRun) *decoded {
	d := &decoded{}
	v := d.start(in, r)
	var o *video.VideoSequence
	switch r.Mode {
	case "after":
		o = video.NewVideoSequence(newSource(in.Other, nil, "eof"))
		for k := 0; k < 4*in.Max; k++ {
			if _, err := o.Next(); err != nil && err != video.EOS {
				break
			}
		}
		o = nil
	case "interleave":
		o = video.NewVideoSequence(newSource(in.Other, []int{3}, "eof"))
	}
	for d.next(v, in.Max) {
		if o != nil {
			if _, err := o.Next(); err != nil && err != video.EOS {
				o = video.NewVideoSequence(newSource(in.Other, []int{3}, "eof"))
			}
		}
	}
	return d
}

func execFrames(in *VFramesIn) interface{} {
	ds := make([]*decoded, len(in.Runs))
	var wg sync.WaitGroup
	for j := range in.Runs {
		if in.Runs[j].Mode != "concurrent" {
			ds[j] = decodeAll(in, &in.Runs[j])
			continue
		}
		wg.Add(2)
		go func(j int) { defer wg.Done(); ds[j] = decodeAll(in, &in.Runs[j]) }(j)
		go func() {
			defer wg.Done()
			decodeAll(&VFramesIn{B: in.Other, Max: in.Max}, &VRun{Cut: -1, End: "eof"})
		}()
	}
	wg.Wait()
	out := struct {
		Frames []vframeJ `json:"frames"`
		Runs   []vrunJ   `json:"runs"`
	}{Frames: []vframeJ{}}
	index := map[string]int{}
	key := func(f *vframeJ) string {
		return string(f.Y) + string(f.Cb) + string(f.Cr) + string([]byte{byte(f.R[2]), byte(f.R[2] >> 8), byte(f.R[3]), byte(f.R[3] >> 8)})
	}
	for _, d := range ds {
		for k := range d.calls {
			if d.images[k] == nil {
				continue
			}
			now := grab(d.images[k])
			d.calls[k].Kept = key(&now) == key(&d.copies[k])
			s := key(&d.copies[k])
			if index[s] == 0 {
				out.Frames = append(out.Frames, d.copies[k])
				index[s] = len(out.Frames)
			}
			d.calls[k].F = index[s]
		}
		out.Runs = append(out.Runs, vrunJ{d.size0, d.calls})
	}
	return out
}

// ---------------------------------------------------------------------------

func restBits(br bitreader.BitReader) []int {
	out := []int{}
	for len(out) < 1<<20 {
		b, err := br.Read1()
		if err != nil {
			break
		}
		if b {
			out = append(out, 1)
		} else {
			out = append(out, 0)
		}
	}
	return out
}

func skipBits(br bitreader.BitReader, n int) {
	for i := 0; i < n; i++ {
		br.Read1()
	}
}

type code32 [2]uint32

func (c code32) v() uint32 { return c[0]<<16 | c[1] }

type VMatchOp struct {
	B    Bytes  `json:"b"`
	Ch   []int  `json:"ch"`
	End  string `json:"end"`
	Skip int    `json:"skip"`
	What string `json:"what"`
	Op   string `json:"op"`
	Code code32 `json:"code"`
}

type VMatchIn struct {
	B   Bytes      `json:"b"`
	Ops []VMatchOp `json:"ops"`
}

type VSliceIn struct {
	Codes []code32 `json:"codes"`
}

type VAlignIn struct {
	B     Bytes  `json:"b"`
	Ch    []int  `json:"ch"`
	End   string `json:"end"`
	Steps []struct {
		Skip int    `json:"skip"`
		Code code32 `json:"code"`
	} `json:"steps"`
}

type VHdr struct {
	B    Bytes  `json:"b"`
	Ch   []int  `json:"ch"`
	End  string `json:"end"`
	Skip int    `json:"skip"`
}

type VHdrsIn struct {
	Hdrs []VHdr `json:"hdrs"`
}

type VTimeIn struct {
	Tcs [][5]int32 `json:"tcs"`
}

type VFuzzIn struct {
	B     Bytes  `json:"b"`
	Ch    []int  `json:"ch"`
	End   string `json:"end"`
	Max   int    `json:"max"`
	Align bool   `json:"align"`
}

func b2i(b bool) int32 {
	if b {
		return 1
	}
	return 0
}

func init() {
	register("vframes", execFrames)
	register("vmatch", func(in *VMatchIn) interface{} {
		type res struct {
			V    bool   `json:"v"`
			E    string `json:"e"`
			Rest []int  `json:"rest"`
		}
		out := []res{}
		for _, o := range in.Ops {
			br := bitreader.NewReader(newSource(o.B, o.Ch, o.End))
			skipBits(br, o.Skip)
			var r res
			var err error
			switch o.What + o.Op {
			case "sccheck":
				r.V, err = video.StartCode(o.Code.v()).Check(br)
			case "scassert":
				err = video.StartCode(o.Code.v()).Assert(br)
			case "pccheck":
				r.V, err = ps.StartCode(o.Code.v()).Check(br)
			case "pcassert":
				err = ps.StartCode(o.Code.v()).Assert(br)
			case "idcheck":
				r.V, err = video.ExtensionID(o.Code.v()).Check(br)
			case "idassert":
				err = video.ExtensionID(o.Code.v()).Assert(br)
			}
			r.E, r.Rest = errName(err), restBits(br)
			out = append(out, r)
		}
		return map[string]interface{}{"res": out}
	})
	register("vslice", func(in *VSliceIn) interface{} {
		v := []bool{}
		for _, c := range in.Codes {
			v = append(v, video.StartCode(c.v()).IsSlice())
		}
		return map[string]interface{}{"v": v}
	})
	register("valign", func(in *VAlignIn) interface{} {
		v := video.NewVideoSequence(newSource(in.B, in.Ch, in.End))
		es, ok := []string{}, true
		for _, s := range in.Steps {
			skipBits(v, s.Skip)
			err := v.AlignTo(video.StartCode(s.Code.v()))
			es = append(es, errName(err))
			if err != nil {
				ok = false
				break
			}
		}
		rest := []int{}
		if ok {
			rest = restBits(v)
		}
		return map[string]interface{}{"es": es, "rest": rest}
	})
	register("vgop", func(in *VHdrsIn) interface{} {
		type res struct {
			E      string   `json:"e"`
			Closed bool     `json:"closed"`
			Broken bool     `json:"broken"`
			Tc     [5]int32 `json:"tc"`
			Text   string   `json:"text"`
			Rest   []int    `json:"rest"`
		}
		out := []res{}
		for _, h := range in.Hdrs {
			br := bitreader.NewReader(newSource(h.B, h.Ch, h.End))
			skipBits(br, h.Skip)
			g, err := video.ReadGOPHeader(br)
			r := res{E: errName(err), Rest: []int{}}
			if err == nil {
				t := g.TimeCode()
				r.Closed, r.Broken, r.Text = g.ClosedGOP, g.BrokenLink, t.String()
				r.Tc = [5]int32{b2i(t.DropFrame), t.Hours, t.Minutes, t.Seconds, t.Pictures}
				r.Rest = restBits(br)
			}
			out = append(out, r)
		}
		return map[string]interface{}{"res": out}
	})
	register("vseqhdr", func(in *VHdrsIn) interface{} {
		type res struct {
			E    string `json:"e"`
			Rest []int  `json:"rest"`
		}
		out := []res{}
		for _, h := range in.Hdrs {
			br := bitreader.NewReader(newSource(h.B, h.Ch, h.End))
			skipBits(br, h.Skip)
			_, err := video.ReadSequenceHeader(br)
			r := res{E: errName(err), Rest: []int{}}
			if err == nil {
				r.Rest = restBits(br)
			}
			out = append(out, r)
		}
		return map[string]interface{}{"res": out}
	})
	register("vtime", func(in *VTimeIn) interface{} {
		out := []string{}
		for _, t := range in.Tcs {
			out = append(out, video.TimeCode{DropFrame: t[0] == 1, Hours: t[1], Minutes: t[2], Seconds: t[3], Pictures: t[4]}.String())
		}
		return map[string]interface{}{"text": out}
	})
	register("vfuzz", func(in *VFuzzIn) interface{} {
		type call struct {
			E     string `json:"e"`
			Has   bool   `json:"has"`
			R     [4]int `json:"r"`
			Whole bool   `json:"whole"`
		}
		calls := []call{}
		v := video.NewVideoSequence(newSource(in.B, in.Ch, in.End))
		var err error
		if in.Align {
			err = v.AlignTo(video.SequenceHeaderStartCode)
		}
		if err != nil {
			calls = append(calls, call{E: errName(err)})
		}
		last := io.EOF
		for err == nil && len(calls) < in.Max {
			f, e := v.Next()
			c := call{E: errName(e), Has: f != nil}
			if f != nil {
				c.R = rect(f)
				w, h := f.Rect.Dx(), f.Rect.Dy()
				c.Whole = f.SubsampleRatio == image.YCbCrSubsampleRatio420 && f.YStride >= w && f.CStride >= w/2 &&
					len(f.Y) >= f.YStride*(h-1)+w && len(f.Cb) >= f.CStride*(h/2-1)+w/2 && len(f.Cr) >= f.CStride*(h/2-1)+w/2
			}
			calls = append(calls, c)
			// go on behind an error, a few times
			if e != nil && e != video.EOS {
				if last = e; e == io.EOF || e == errFault || len(calls) >= 40 {
					break
				}
			}
		}
		_ = last
		return map[string]interface{}{"calls": calls}
	})
}
