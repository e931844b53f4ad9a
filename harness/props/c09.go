package props

import (
	"bytes"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

func c09SPS(t *T) {
	s, nalu, width, height := genSPS265(t)
	t.Logf("sps=%s", dump(s))
	t.Logf("nalu=%s", Hex(nalu))
	orig := append([]byte(nil), nalu...)
	var d h265.SPS
	if err := d.Unmarshal(nalu); err != nil {
		t.Failf("valid SPS rejected: %v", err)
	}
	if !normEqual(&d, s) {
		t.Logf("decoded=%s", dump(d))
		t.Failf("decoded SPS differs from the encoded one")
	}
	if !bytes.Equal(orig, nalu) {
		t.Failf("decoding modified the input")
	}
	if int64(d.Width()) != width || int64(d.Height()) != height {
		t.Failf("size is %dx%d, expected %dx%d", d.Width(), d.Height(), width, height)
	}
	fps := 0.0
	if s.VUI != nil && s.VUI.TimingInfo != nil {
		fps = float64(s.VUI.TimingInfo.TimeScale) / float64(s.VUI.TimingInfo.NumUnitsInTick)
	}
	if g := d.FPS(); g != fps && (fps == 0 || g/fps > 1.000001 || g/fps < 0.999999) {
		t.Failf("FPS is %v, expected %v", g, fps)
	}
	for _, r := range s.ShortTermRefPicSets {
		if r.InterRefPicSetPredictionFlag {
			t.Class("predicted-rps")
			t.NonTrivial()
		}
	}
	if s.VUI != nil || s.ScalingListData != nil || s.ConformanceWindow != nil {
		t.NonTrivial()
	}
	if s.ScalingListData != nil {
		t.Class("scaling-lists")
	}
	if s.MaxSubLayersMinus1 > 0 {
		t.Class("sub-layers")
	}
	if s.ConformanceWindow != nil {
		t.Classf("window-chroma%d", s.ChromaFormatIdc)
	}
	if s.ProfileTierLevel.GeneralMax14BitConstraintFlag {
		t.Class("max14bit")
	}
}

func genPPS265(t *T) (*h265.PPS, []byte) {
	p := &h265.PPS{
		ID: uint32(t.Edge(0, 63)), SPSID: uint32(t.Int(0, 15)),
		DependentSliceSegmentsEnabledFlag: t.Bool(), OutputFlagPresentFlag: t.Bool(),
		NumExtraSliceHeaderBits: uint8(t.Int(0, 7)),
	}
	return p, writePPS265(t, p)
}

func writePPS265(t *T, p *h265.PPS) []byte {
	w := &ref.BitWriter{}
	w.U(34<<1, 8)
	w.U(1, 8)
	w.UE(uint64(p.ID))
	w.UE(uint64(p.SPSID))
	w.Flag(p.DependentSliceSegmentsEnabledFlag)
	w.Flag(p.OutputFlagPresentFlag)
	w.U(uint64(p.NumExtraSliceHeaderBits), 3)
	// the rest is not read
	for i := 0; i < 8; i++ {
		w.U(t.Draw(3), 2)
	}
	if t.Chance(1, 30) {
		w.BytesOut(t.Bytes(t.Long(4000)))
	}
	w.Trailing()
	return ref.Escape(w.B)
}

func c09PPS(t *T) {
	p, nalu := genPPS265(t)
	t.Logf("pps=%s nalu=%s", dump(p), Hex(nalu))
	var d h265.PPS
	if err := d.Unmarshal(nalu); err != nil {
		t.Failf("valid PPS rejected: %v", err)
	}
	if d != *p {
		t.Failf("decoded PPS differs: %s", dump(d))
	}
	t.NonTrivial()
}

func init() {
	Register(&Prop{
		ID:    "C09",
		Boost: 3,
		Title: "H.265 parameter sets are decoded as the standard defines",
		Rule: "parameter sets with random syntax elements written by an independent ITU-T H.265 writer, escaped; predicted " +
			"reference picture sets computed by an independent formulation; non-trivial: with a predicted set, usability information, scaling lists or a conformance window",
		Assumptions: []string{"within the documented limits: no sub-layer profile/level, no long-term pictures in the SPS"},
		Subs: []Sub{
			{Name: "sps", Fn: c09SPS, Quick: 300000, Thorough: 4000000},
			{Name: "pps", Fn: c09PPS, Quick: 60000},
		},
	})
}
