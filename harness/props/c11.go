package props

import (
	"fmt"
	"sort"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

type rps struct {
	s0, s1 []int32
	u0, u1 []bool
}

func (r *rps) key() string { return fmt.Sprint(r.s0, r.s1, r.u0, r.u1) }

func (r *rps) lib() *h265.SPS_ShortTermRefPicSet {
	return &h265.SPS_ShortTermRefPicSet{
		NumNegativePics: uint32(len(r.s0)), NumPositivePics: uint32(len(r.s1)),
		DeltaPocS0: r.s0, DeltaPocS1: r.s1, UsedByCurrPicS0Flag: r.u0, UsedByCurrPicS1Flag: r.u1,
	}
}

// tryPredict writes target as a prediction from src (prediction flag and index excluded).
func tryPredict(t *T, target, src *rps) (func(w *ref.BitWriter), bool) {
	tm := map[int32]bool{}
	for i, d := range target.s0 {
		tm[d] = target.u0[i]
	}
	for i, d := range target.s1 {
		tm[d] = target.u1[i]
	}
	var deltas []int32
	for d := int32(-16); d <= 16; d++ {
		if d == 0 {
			continue
		}
		cands := map[int32]bool{d: true}
		for _, x := range src.s0 {
			cands[x+d] = true
		}
		for _, x := range src.s1 {
			cands[x+d] = true
		}
		ok := true
		for k := range tm {
			ok = ok && cands[k]
		}
		if ok {
			deltas = append(deltas, d)
		}
	}
	if len(deltas) == 0 {
		return nil, false
	}
	d := deltas[t.Pick(len(deltas))]
	return func(w *ref.BitWriter) {
		w.Flag(d < 0)
		w.UE(uint64(max(d, -d) - 1))
		flags := func(x int32) {
			u, in := tm[x]
			w.Flag(in && u)
			if !(in && u) {
				w.Flag(in)
			}
		}
		for _, x := range src.s0 {
			flags(x + d)
		}
		for _, x := range src.s1 {
			flags(x + d)
		}
		flags(d)
	}, true
}

func writeRPS(t *T, w *ref.BitWriter, r *rps, idx, num int, sets []*rps) {
	if idx != 0 {
		back := 1
		if idx == num {
			back = t.Int(1, idx)
		}
		if t.Bool() {
			if f, ok := tryPredict(t, r, sets[idx-back]); ok {
				t.Class("predicted")
				w.Flag(true)
				if idx == num {
					w.UE(uint64(back - 1))
				}
				f(w)
				return
			}
		}
		w.Flag(false)
	}
	writeExplicitRPS(w, r.lib())
}

type spsParams265 struct {
	subLayers int
	lastOnly  bool // ordering information of the highest sub-layer only
	log2poc   int
	reorder   int
	separate  bool
	timing    bool
	units     uint32
	scale     uint32
	sets      []*rps
	width     int
	height    int
}

func simpleSPS265(t *T, p spsParams265) []byte {
	w := &ref.BitWriter{}
	w.U(33<<1, 8)
	w.U(1, 8)
	w.U(0, 4)
	w.U(uint64(p.subLayers-1), 3)
	w.Flag(true)
	w.U(1, 8) // profile
	w.U(0x60000000, 32)
	w.U(0x9, 4)
	w.U(0, 44)
	w.U(93, 8)
	if p.subLayers > 1 {
		w.U(0, 16)
	}
	w.UE(0)
	if p.separate {
		w.UE(3)
		w.Flag(true)
	} else {
		w.UE(1)
	}
	w.UE(uint64(p.width))
	w.UE(uint64(p.height))
	w.Flag(false)
	w.UE(0)
	w.UE(0)
	w.UE(uint64(p.log2poc - 4))
	w.Flag(!p.lastOnly)
	for i := 0; i < p.subLayers; i++ {
		if p.lastOnly && i < p.subLayers-1 {
			continue
		}
		n := max(0, p.reorder-(p.subLayers-1-i)) // lower sub-layers need less reordering
		w.UE(uint64(min(15, n+3)))
		w.UE(uint64(n))
		w.UE(0)
	}
	w.UE(0)
	w.UE(3)
	w.UE(0)
	w.UE(3)
	w.UE(0)
	w.UE(0)
	w.Flag(false)
	w.Flag(true)
	w.Flag(true)
	w.Flag(false)
	w.UE(uint64(len(p.sets)))
	for i, r := range p.sets {
		writeRPS(t, w, r, i, len(p.sets), p.sets)
	}
	w.Flag(false)
	w.Flag(true)
	w.Flag(true)
	if p.timing {
		w.Flag(true)
		w.Flag(false) // aspect ratio
		w.Flag(false) // overscan
		w.Flag(false) // video signal
		w.Flag(false) // chroma loc
		w.U(0, 3)
		w.Flag(false) // window
		w.Flag(true)
		w.U(uint64(p.units), 32)
		w.U(uint64(p.scale), 32)
		w.Flag(false)
		w.Flag(false)
		w.Flag(false)
	} else {
		w.Flag(false)
	}
	w.Flag(false)
	w.Trailing()
	return ref.Escape(w.B)
}

type frame265 struct {
	codedFrame
	cra  bool
	rasl bool
	b    bool
	rps  *rps
}

// genFrames265 adds the reference picture sets, and turns anchors into CRA pictures.
func genFrames265(t *T, frames []codedFrame, openGOP bool, craEvery int, gpb bool) ([]frame265, int) {
	out := make([]frame265, len(frames))
	extra := t.Int(0, 3)
	if t.Chance(1, 4) {
		extra = t.Int(0, 12)
	}
	type pic struct{ disp, gop int }
	var refs []pic // decoded reference pictures of the GOP, in coding order
	barrier := 0   // pictures before this one cannot be referenced by trailing pictures
	lastCRA := -1
	anchors := 0
	reorder := 0
	craMini := -1
	// entries about pictures that are no longer needed (or there), that make sets long
	var far []int32
	if t.Chance(1, 3) {
		t.Class("long-sets")
		total := int64(0)
		for k := t.Int(1, 14); k > 0; k-- {
			d := t.Edge(1, 1<<12)
			if total += d; total > 1<<14 {
				break
			}
			far = append(far, int32(d))
		}
	}
	for i, cf := range frames {
		f := frame265{codedFrame: cf}
		if c := i - cf.disp; c > reorder {
			reorder = c
		}
		if cf.idr {
			refs = refs[:0]
			barrier = cf.disp
			refs = append(refs, pic{cf.disp, cf.gop})
			out[i] = f
			craMini = -1
			continue
		}
		if cf.depth == 0 {
			anchors++
			f.b = gpb
			if openGOP && anchors%craEvery == 0 {
				f.cra = true
				f.b = false
				craMini = cf.mini
				lastCRA = cf.disp
			} else if lastCRA >= barrier {
				barrier = lastCRA
			}
		} else {
			f.b = true
			f.rasl = craMini == cf.mini
		}
		// reference picture set
		var before, after []int
		for _, r := range refs {
			if r.disp < cf.disp {
				before = append(before, r.disp)
			} else {
				after = append(after, r.disp)
			}
		}
		sort.Sort(sort.Reverse(sort.IntSlice(before)))
		sort.Ints(after)
		if !f.rasl && !f.cra {
			for k, d := range before {
				if d < barrier {
					before = before[:k]
					break
				}
			}
		}
		keep := 1 + extra
		if f.cra && cf.size == 1 && t.Chance(1, 2) {
			keep = 0 // no leading pictures: nothing to keep
		}
		if len(before) > keep {
			before = before[:keep]
		}
		r := &rps{}
		for k, d := range before {
			r.s0 = append(r.s0, int32(d-cf.disp))
			r.u0 = append(r.u0, !f.cra && (k == 0 || t.Bool()))
		}
		for _, d := range after {
			r.s1 = append(r.s1, int32(d-cf.disp))
			r.u1 = append(r.u1, true)
		}
		if len(r.s0) != 0 {
			for _, d := range far {
				if len(r.s0)+len(r.s1) == 15 {
					break
				}
				r.s0 = append(r.s0, r.s0[len(r.s0)-1]-d)
				r.u0 = append(r.u0, false)
			}
		}
		f.rps = r
		if cf.ref {
			refs = append(refs, pic{cf.disp, cf.gop})
		}
		if cf.depth == 0 && len(refs) > 14 {
			refs = append(refs[:0], refs[len(refs)-14:]...)
		}
		// after an anchor, later anchors make the B references useless: keep those before the anchor only
		out[i] = f
	}
	return out, reorder
}

func slice265(t *T, sp spsParams265, pp *h265.PPS, f frame265, first bool, fill int) []byte {
	w := &ref.BitWriter{}
	typ := 0
	switch {
	case f.idr:
		typ = 19 + t.Int(0, 1)
	case f.cra:
		typ = 21
	case f.rasl:
		typ = 8
	}
	if !f.idr && !f.cra && f.ref {
		typ++
	}
	w.U(uint64(typ<<1), 8)
	w.U(1, 8)
	w.Flag(first)
	if typ >= 16 && typ <= 23 {
		w.Flag(t.Bool())
	}
	w.UE(uint64(pp.ID))
	if !first {
		if pp.DependentSliceSegmentsEnabledFlag {
			w.Flag(false)
		}
		w.U(1, 4)
	}
	w.U(t.Draw(1<<pp.NumExtraSliceHeaderBits-1), int(pp.NumExtraSliceHeaderBits))
	st := 1
	switch {
	case f.idr || f.cra:
		st = 2
	case f.b:
		st = 0
	}
	w.UE(uint64(st))
	if pp.OutputFlagPresentFlag {
		w.Flag(true)
	}
	if sp.separate {
		w.U(0, 2)
	}
	if !f.idr {
		w.U(uint64(f.disp-f.gop)&(1<<sp.log2poc-1), sp.log2poc)
		idx := -1
		k := f.rps.key()
		for i, s := range sp.sets {
			if s.key() == k {
				idx = i
			}
		}
		if idx >= 0 && t.Chance(7, 8) {
			t.Class("rps-in-sps")
			w.Flag(true)
			nb := 0
			for 1<<nb < len(sp.sets) {
				nb++
			}
			w.U(uint64(idx), nb)
		} else {
			t.Class("rps-in-slice")
			w.Flag(false)
			writeRPS(t, w, f.rps, len(sp.sets), len(sp.sets), sp.sets)
		}
	}
	w.BytesOut(sliceData(t, fill))
	w.Trailing()
	return ref.Escape(w.B)
}

// c11: streams made of one or more sequences with their own parameters.
func c11(t *T) {
	d := &h265.DTSExtractor{}
	if t.Chance(1, 8) {
		d = h265.NewDTSExtractor() //nolint:staticcheck
	} else {
		d.Initialize()
	}
	origin := t.Edge(-1<<33, 1<<33)
	segments := 1
	if t.Chance(1, 3) {
		segments = t.Int(2, 4)
		t.Class("several-sequences")
	}
	var prev int64
	for k := 0; k < segments; k++ {
		t.Logf("sequence %d", k)
		c11Sequence(t, d, k, segments, &origin, &prev)
		if t.Chance(1, 4) {
			origin += t.Edge(0, 1<<33)
		}
	}
}

func c11Sequence(t *T, d *h265.DTSExtractor, seq, segments int, originp, prevp *int64) {
	st := gopStyle{size: 1}
	switch t.Pick(4) {
	case 0:
	case 1:
		st.size = t.Int(2, 4)
	case 2:
		st.size = t.Int(2, 16)
	default:
		st.pyramid = true
		st.size = t.Int(2, 8)
	}
	st.gopLen = t.Int(1, 40)
	if t.Chance(1, 4) {
		st.gopLen = 1 << 20
	}
	st.adaptive = t.Chance(1, 3)
	n := t.Int(10, 100)
	if segments > 1 {
		n = t.Int(1, 50)
	}
	long := t.Chance(1, 4)
	if long {
		n = 500
		if t.Chance(1, 4000) { // long without random access
			n = 20000
			t.Class("very-long")
		}
	}
	coded := genCoded(t, n, st, 40)
	openGOP := t.Bool()
	frames, reorder := genFrames265(t, coded, openGOP, t.Int(1, 6), t.Bool())
	if segments > 1 && t.Chance(1, 3) {
		frames = frames[:t.Int(1, len(frames))] // interrupted
	}

	dur := int64([]int{3000, 3600, 1500, 3003, 3750, 1800, 750}[t.Pick(7)])
	if t.Chance(1, 3) {
		dur = t.Edge(750, 200000)
	}
	origin := *originp

	p := spsParams265{log2poc: t.Int(6, 16), reorder: reorder, subLayers: 1, width: 8 * (t.Int(1, 100) + 110*seq), height: 8 * t.Int(1, 100)}
	if t.Chance(1, 3) {
		p.subLayers = t.Int(1, 7)
	}
	if t.Chance(1, 5) {
		p.reorder += t.Int(1, 2)
		t.Class("over-declared")
	}
	p.lastOnly = t.Chance(1, 4)
	if p.subLayers > 1 && p.reorder > 0 {
		t.Class("sub-layers")
	}
	p.separate = t.Chance(1, 5)
	if p.timing = t.Bool(); p.timing {
		p.units, p.scale = uint32(dur), 90000
	}
	// some of the sets are in the parameter set
	seen := map[string]bool{}
	maxSets := []int{0, 1, 2, 3, 8, 64}[t.Pick(6)]
	for _, f := range frames {
		if f.rps == nil || seen[f.rps.key()] {
			continue
		}
		seen[f.rps.key()] = true
		if len(p.sets) < maxSets && t.Chance(3, 4) {
			p.sets = append(p.sets, f.rps)
		}
	}
	pp := &h265.PPS{
		ID: uint32(t.Edge(0, 63)), DependentSliceSegmentsEnabledFlag: t.Bool(), OutputFlagPresentFlag: t.Chance(1, 4),
		NumExtraSliceHeaderBits: uint8(t.Int(0, 2)),
	}
	if t.Chance(1, 10) {
		pp.NumExtraSliceHeaderBits = uint8(t.Int(3, 7))
	}
	sps := simpleSPS265(t, p)
	pps := writePPS265(t, pp)
	vps := []byte{0x40, 0x01, 0x0c, 0x01, 0xff, 0xff}
	t.Logf("style=%+v open=%v reorder=%d declared=%d log2poc=%d sets=%d timing=%v duration=%d origin=%d frames=%d pps=%+v",
		st, openGOP, reorder, p.reorder, p.log2poc, len(p.sets), p.timing, dur, origin, len(frames), *pp)

	repeat := t.Bool()

	if seq == 0 && t.Chance(1, 5) {
		t.Class("late-join")
		f := frame265{codedFrame: codedFrame{disp: 3, ref: true}, rps: &rps{s0: []int32{-1}, u0: []bool{true}}}
		au := [][]byte{slice265(t, p, pp, f, true, 10)}
		if t.Bool() {
			au = append([][]byte{vps, sps, pps}, au...)
		}
		if _, err := d.Extract(au, origin-1000000); err == nil {
			t.Failf("access unit accepted before the first random access point")
		}
	}

	changeAt := -1
	if len(frames) > 1 && t.Chance(1, 5) {
		changeAt = t.Int(1, len(frames)-1)
	}
	changed := 0
	prev := *prevp
	var dtss []int64
	for i, f := range frames {
		pts := origin + int64(f.disp)*dur
		var au [][]byte
		if t.Chance(1, 8) {
			au = append(au, []byte{35 << 1, 1, 0x50})
		}
		if f.idr && changeAt >= 0 && i >= changeAt && changed == 0 {
			changed = i
			p.width += 8 * 500
			sps = simpleSPS265(t, p)
			t.Class("sps-change")
		}
		if i == 0 || (f.idr && (repeat || changed == i)) || (f.cra && repeat) {
			au = append(au, vps, append([]byte(nil), sps...), pps)
		}
		if t.Chance(1, 8) {
			au = append(au, seiMessages(t, 39<<1, 1)...)
		}
		fill := sliceFill(t, 60)
		au = append(au, slice265(t, p, pp, f, true, fill))
		for k := moreSlices(t); k > 0; k-- {
			au = append(au, slice265(t, p, pp, f, false, fill))
		}
		if t.Chance(1, 20) { // suffix SEI, end of sequence, end of bitstream, filler data
			au = append(au, [][]byte{{40 << 1, 1, 5, 1, 0, 0x80}, {36 << 1, 1}, {37 << 1, 1}, {38 << 1, 1, 0xFF, 0x80}}[t.Pick(4)])
		}
		dts, err := d.Extract(au, pts)
		if err != nil {
			t.Failf("frame %d (display %d, GOP %d, depth %d, rps %+v): %v, pts=%d", i, f.disp, f.gop, f.depth, f.rps, err, pts-origin)
		}
		if t.Rendering() && i < 14 {
			t.Logf("frame %d disp=%d idr=%v cra=%v rps=%+v pts=%d dts=%d", i, f.disp, f.idr, f.cra, f.rps, pts-origin, dts-origin)
		}
		if (i > 0 || seq > 0) && dts < prev {
			t.Failf("frame %d: decoding timestamp decreased from %d to %d", i, prev-origin, dts-origin)
		}
		if dts > pts {
			t.Failf("frame %d: decoding timestamp %d exceeds presentation timestamp %d", i, dts-origin, pts-origin)
		}
		// the initial timestamp is a guess when the frame rate is not known
		if p.reorder == 0 && dts != pts && (i > 0 || seq > 0 || p.timing) {
			t.Failf("frame %d: no reordering is declared but dts %d differs from pts %d", i, dts-origin, pts-origin)
		}
		prev = dts
		dtss = append(dtss, dts)
	}
	last := origin
	for _, f := range frames {
		last = max(last, origin+int64(f.disp)*dur)
	}
	*originp = last + dur
	*prevp = prev
	if long {
		t.Class("steady-state")
		for i := len(dtss) - 40; i < len(dtss); i++ {
			if i-420 < changed {
				continue
			}
			if s := dtss[i] - dtss[i-1]; s < dur || s > dur+1 {
				t.Failf("frame %d: in steady state the decoding timestamp advances by %d, frame duration is %d", i, s, dur)
			}
		}
	}
	if reorder > 0 {
		t.NonTrivial()
		t.Class("reordered")
	}
	if openGOP {
		t.Class("open-gop")
	}
}

func init() {
	Register(&Prop{
		ID:    "C11",
		Title: "H.265 decoding timestamps are consistent for every conforming stream",
		Rule: "streams of access units from a generated encoder (GOP structure, CRA with leading pictures, reference picture sets in the " +
			"parameter set or slice header, explicit or predicted, slice headers written bit by bit, parameter set changes, late join); non-trivial: the coding order differs from the display order",
		Assumptions: []string{
			"constant frame duration of at least 750 ticks; picture types IDR, CRA, TRAIL and RASL",
		},
		Subs: []Sub{{Name: "streams", Fn: c11, Quick: 25000, Thorough: 800000}},
	})
}
