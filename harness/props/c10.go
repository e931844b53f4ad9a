package props

import (
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

type spsParams264 struct {
	profile    int
	id         int
	log2fn     int // log2_max_frame_num
	pocType    int
	log2poc    int // log2_max_pic_order_cnt_lsb
	separate   bool
	width      int
	height     int
	vui        bool
	scaling    bool // flat matrices
	crop       bool
	reorder    int // declared in the VUI, if any
	interlaced bool
}

func simpleSPS264(p spsParams264) []byte {
	w := &ref.BitWriter{}
	w.U(uint64(p.profile), 8)
	w.U(0, 8)
	w.U(31, 8)
	w.UE(uint64(p.id))
	switch p.profile {
	case 100, 110, 122, 244:
		if p.separate {
			w.UE(3)
			w.Flag(true)
		} else {
			w.UE(1)
		}
		w.UE(0)
		w.UE(0)
		w.Flag(false)
		w.Flag(p.scaling)
		if p.scaling {
			n := 8
			if p.separate {
				n = 12
			}
			w.U(0, n) // fall-back rule
		}
	}
	w.UE(uint64(p.log2fn - 4))
	w.UE(uint64(p.pocType))
	if p.pocType == 0 {
		w.UE(uint64(p.log2poc - 4))
	}
	w.UE(4)
	w.Flag(false)
	w.UE(uint64(p.width/16 - 1))
	w.UE(uint64(p.height/16 - 1))
	w.Flag(!p.interlaced)
	if p.interlaced {
		w.Flag(false)
	}
	w.Flag(true)
	w.Flag(p.crop)
	if p.crop {
		for i := 0; i < 4; i++ {
			w.UE(uint64(i & 1))
		}
	}
	w.Flag(p.vui)
	if p.vui {
		w.U(0, 4) // aspect ratio, overscan, video signal, chroma location
		w.Flag(true)
		w.U(1001, 32)
		w.U(60000, 32)
		w.Flag(true)
		w.U(0, 3)    // HRD, picture structure
		w.Flag(true) // bitstream restriction
		w.Flag(true)
		w.UE(2)
		w.UE(1)
		w.UE(10)
		w.UE(10)
		w.UE(uint64(p.reorder))
		w.UE(uint64(max(4, p.reorder)))
	}
	w.Trailing()
	return append([]byte{0x67}, ref.Escape(w.B)...)
}

func slice264(t *T, p spsParams264, f codedFrame, poc int, frameNum int, first bool, fill int) []byte {
	w := &ref.BitWriter{}
	typ := byte(1)
	if f.idr {
		typ = 5
	}
	if first {
		w.UE(0)
	} else {
		w.UE(uint64(p.width / 16))
	}
	st := 5
	switch {
	case f.idr:
		st = 7
	case f.depth > 0:
		st = 6
	}
	w.UE(uint64(st - 5*t.Int(0, 1)))
	pps := t.Int(0, 3)
	if t.Chance(1, 20) {
		pps = t.Int(4, 255)
	}
	w.UE(uint64(pps)) // pic_parameter_set_id
	if p.separate {
		w.U(0, 2)
	}
	w.U(uint64(frameNum), p.log2fn)
	if p.interlaced {
		w.Flag(false)
	}
	if f.idr {
		w.UE(uint64(t.Edge(0, 65535)))
	}
	if p.pocType == 0 {
		w.U(uint64(poc)&(1<<p.log2poc-1), p.log2poc)
	}
	if fill > 0 {
		w.BytesOut(sliceData(t, fill))
	}
	w.Trailing()
	nri := byte(0)
	if f.ref {
		nri = byte(t.Int(1, 3))
	}
	return append([]byte{nri<<5 | typ}, ref.Escape(w.B)...)
}

// sliceData is what follows a slice header.
func sliceData(t *T, n int) []byte {
	if n > 60 {
		return t.Bytes(n)
	}
	return t.ZBytes(n)
}

// sliceFill is the size of the data of a slice.
func sliceFill(t *T, usual int) int {
	if t.Chance(1, 10) {
		if t.Chance(1, 40) {
			return t.Long(1 << 16)
		}
		return usual
	}
	return t.Int(0, 4)
}

// moreSlices is the number of slices after the first one.
func moreSlices(t *T) int {
	if t.Chance(1, 6) {
		if t.Chance(1, 10) {
			return t.Int(2, 40)
		}
		return 1
	}
	return 0
}

// seiMessages are SEI units of any size.
func seiMessages(t *T, header ...byte) [][]byte {
	var out [][]byte
	n := 1
	if t.Chance(1, 8) {
		n = t.Int(2, 12)
		if t.Chance(1, 8) {
			n = t.Int(13, 90)
		}
	}
	for i := 0; i < n; i++ {
		l := 1
		if t.Chance(1, 8) {
			l = t.Long(3000)
		}
		s := append(append([]byte(nil), header...), 5)
		for v := l; ; v -= 255 {
			s = append(s, byte(min(v, 255)))
			if v < 255 {
				break
			}
		}
		s = append(s, t.Bytes(l)...)
		out = append(out, ref.Escape(append(s, 0x80)))
	}
	return out
}

func genSPSParams264(t *T, step, maxMini int) spsParams264 {
	p := spsParams264{profile: []int{66, 77, 100, 110, 244}[t.Pick(5)], id: t.Int(0, 3), log2fn: t.Int(4, 16),
		width: 16 * t.Int(1, 20), height: 16 * t.Int(1, 20)}
	minLog := 4
	p.vui, p.scaling, p.crop = t.Chance(1, 4), t.Chance(1, 8), t.Chance(1, 8)
	for 1<<minLog <= 2*step*(maxMini+1) {
		minLog++
	}
	p.log2poc = t.Int(minLog, 16)
	if p.profile == 244 && t.Bool() {
		p.separate = true
	}
	return p
}

func abs64(v int64) int64 {
	if v < 0 {
		return -v
	}
	return v
}

// c10: closed-GOP streams, made of one or more sequences with their own parameters.
func c10(t *T) {
	d := &h264.DTSExtractor{}
	if t.Chance(1, 8) {
		d = h264.NewDTSExtractor() //nolint:staticcheck
	} else {
		d.Initialize()
	}
	origin := t.Edge(-1<<33, 1<<33)
	segments := 1
	if t.Chance(1, 3) {
		segments = t.Int(2, 4)
		t.Class("several-sequences")
	}
	var prev int64
	for k := 0; k < segments; k++ {
		t.Logf("sequence %d", k)
		c10Sequence(t, d, k, segments, &origin, &prev)
		if t.Chance(1, 4) {
			origin += t.Edge(0, 1<<33)
		}
	}
}

func c10Sequence(t *T, d *h264.DTSExtractor, seq, segments int, originp, prevp *int64) {
	step := []int{2, 2, 1, 2, 4}[t.Pick(5)]
	st := gopStyle{size: 1}
	switch t.Pick(4) {
	case 0: // no reordering
	case 1:
		st.size = t.Int(2, 4)
	case 2:
		st.size = t.Int(2, 12)
		if step == 1 && st.size > 8 {
			st.size = 8
		}
	default:
		st.pyramid = true
		st.size = []int{2, 4, 8, 3, 5, 6, 7}[t.Pick(7)]
	}
	if step == 4 {
		st = gopStyle{size: 1}
	}
	st.gopLen = t.Int(1, 40)
	if t.Chance(1, 10) {
		st.gopLen = 1 << 20
	}
	if step == 4 && st.gopLen < 3 {
		st.gopLen = 3
	}
	st.adaptive = step == 2 && t.Chance(1, 3)
	n := t.Int(10, 120)
	if segments > 1 {
		n = t.Int(1, 60)
	}
	long := t.Chance(1, 4)
	if long {
		n = 500 + 2*st.size
		if t.Chance(1, 400) { // beyond any count of 16 bits
			n = 66000
			t.Class("very-long")
		}
	}
	fixedAfter := 40
	p := genSPSParams264(t, step, st.size)
	if st.size == 1 && step == 2 && t.Chance(1, 4) {
		p.pocType = 2
		p.interlaced = t.Bool()
	}
	dur := int64([]int{3000, 3600, 1500, 3003, 3750, 1800, 750}[t.Pick(7)])
	if t.Chance(1, 3) {
		dur = t.Edge(750, 200000)
	}
	origin := *originp
	// different from the one of the previous sequences
	p.width += 16 * 25 * seq
	frames := genCoded(t, n, st, fixedAfter)
	if segments > 1 && t.Chance(1, 3) {
		frames = frames[:t.Int(1, len(frames))] // interrupted
	}
	for i, f := range frames { // what a frame waits for
		n := 0
		for _, g := range frames[max(0, i-40):i] {
			if g.disp > f.disp {
				n++
			}
		}
		p.reorder = max(p.reorder, n)
	}
	t.Logf("poc step=%d style=%+v params=%+v duration=%d origin=%d frames=%d", step, st, p, dur, origin, len(frames))

	sps := simpleSPS264(p)
	pps := []byte{0x68, 0xce, 0x38, 0x80}

	// late join: frames before the first IDR are refused
	if seq == 0 && t.Chance(1, 5) {
		t.Class("late-join")
		for i := 0; i < t.Int(1, 3); i++ {
			au := [][]byte{slice264(t, p, codedFrame{disp: 3, depth: i & 1}, 6, 1, true, 10)}
			if t.Bool() && p.pocType == 0 {
				au = append([][]byte{sps, pps}, au...)
			}
			if _, err := d.Extract(au, origin-1000000+int64(i)); err == nil {
				t.Failf("access unit accepted before the first random access point")
			}
		}
	}

	changeAt := -1
	if len(frames) > 1 && t.Chance(1, 5) {
		changeAt = t.Int(1, len(frames)-1)
	}
	changed := 0
	repeat := t.Bool()
	frameNum := 0
	prev := *prevp
	lastChange := 0
	maxMini := 0
	maxPTS := origin
	settled := -1 // frame from which the depth is observed
	reordered := false
	var dtss []int64
	minisSeen := 0
	for i, f := range frames {
		pts := origin + int64(f.disp)*dur
		if f.disp != i {
			reordered = true
		}
		var au [][]byte
		if t.Chance(1, 8) {
			au = append(au, []byte{0x09, 0xf0})
		}
		if f.idr {
			frameNum = 0
			if changeAt >= 0 && i >= changeAt && changed == 0 {
				// a different parameter set
				changed = i
				lastChange = i
				p.width += 16 * 120
				p.id = (p.id + 1) % 4
				sps = simpleSPS264(p)
				maxMini = 0
				settled = -1
			}
			if i == 0 || repeat || changed == i {
				au = append(au, append([]byte(nil), sps...), pps)
			}
		}
		if t.Chance(1, 8) {
			au = append(au, seiMessages(t, 0x06)...)
		}
		poc := step * (f.disp - f.gop)
		fill := sliceFill(t, 40)
		au = append(au, slice264(t, p, f, poc, frameNum%(1<<p.log2fn), true, fill))
		for k := moreSlices(t); k > 0; k-- {
			au = append(au, slice264(t, p, f, poc, frameNum%(1<<p.log2fn), false, fill))
		}
		if t.Chance(1, 20) { // filler data, end of sequence, end of stream
			au = append(au, [][]byte{{12, 0xFF, 0xFF, 0x80}, {10}, {11}}[t.Pick(3)])
		}
		if f.ref {
			frameNum++
		}

		dts, err := d.Extract(au, pts)
		if err != nil {
			t.Failf("frame %d (display %d, GOP %d, depth %d): %v", i, f.disp, f.gop, f.depth, err)
		}
		dtss = append(dtss, dts)
		if t.Rendering() && i < 14 {
			t.Logf("frame %d disp=%d idr=%v pts=%d dts=%d", i, f.disp, f.idr, pts-origin, dts-origin)
		}
		if (i > 0 || seq > 0) && dts < prev {
			t.Failf("frame %d: decoding timestamp decreased from %d to %d", i, prev-origin, dts-origin)
		}
		prev = dts
		if maxPTS = max(maxPTS, pts, dts); t.Chance(1, 60) { // no picture
			t.Class("no-picture")
			au = [][]byte{{0x09, 0xf0}}
			if t.Bool() {
				au = append(au, seiMessages(t, 0x06)...)
			}
			dts, err = d.Extract(au, maxPTS)
			if err != nil {
				t.Failf("access unit without pictures after frame %d: %v", i, err)
			}
			if dts < prev || dts > maxPTS {
				t.Failf("access unit without pictures after frame %d: dts %d, it was %d", i, dts-origin, prev-origin)
			}
			prev = dts
		}

		// the depth is observed after a whole mini-GOP of the largest size seen until now
		if f.size > maxMini {
			maxMini = f.size
			minisSeen = f.mini
			settled = -1
		} else if settled < 0 && f.mini >= minisSeen+1 {
			settled = i
		}
		_ = lastChange
		// a mini-GOP that is deeper than any before is observed only at its end
		if settled >= 0 && i > settled && !st.adaptive && dts > pts {
			t.Failf("frame %d: decoding timestamp %d exceeds presentation timestamp %d", i, dts-origin, pts-origin)
		}
		if st.size == 1 && dts != pts && !(step == 4 && (f.disp-f.gop) == 1) {
			t.Failf("frame %d: no reordering but dts %d differs from pts %d", i, dts-origin, pts-origin)
		}
	}
	last := origin
	for _, f := range frames {
		last = max(last, origin+int64(f.disp)*dur)
	}
	*originp = last + dur
	*prevp = prev
	if long {
		t.Class("steady-state")
		for i := len(dtss) - 40; i < len(dtss); i++ {
			if i-420 < changed {
				continue
			}
			if s := dtss[i] - dtss[i-1]; s < dur || s > dur+1 {
				t.Failf("frame %d: in steady state the decoding timestamp advances by %d, frame duration is %d", i, s, dur)
			}
			if o := origin + int64(frames[i].disp)*dur; dtss[i] > o {
				t.Failf("frame %d: dts exceeds pts in steady state", i)
			}
		}
	}
	if reordered {
		t.NonTrivial()
		t.Class("reordered")
		if st.pyramid {
			t.Class("pyramid")
		}
		if st.adaptive {
			t.Class("adaptive")
		}
	}
	if changed != 0 {
		t.Class("sps-change")
	}
	t.Classf("poc-step%d", step)
}

func init() {
	Register(&Prop{
		ID:    "C10",
		Title: "H.264 decoding timestamps are consistent for every conforming stream",
		Rule: "streams of access units from a generated encoder (GOP structure, POC width and step, slice headers written bit by bit, " +
			"parameter set repetition and change, late join); non-trivial: the coding order differs from the display order",
		Assumptions: []string{
			"progressive streams, constant frame duration of at least 750 ticks, at most 11 consecutive B frames (library limit of 10 reordered frames)",
			"picture order count type 0 or 2; with step 1 mini-GOPs have at most 8 frames",
		},
		Subs: []Sub{{Name: "streams", Fn: c10, Quick: 60000, Thorough: 1200000}},
	})
}
