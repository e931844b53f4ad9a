package props

import (
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

// predRPS derives a predicted reference picture set, ITU-T H.265 equations 7-61 and 7-62,
// expressed on the merged list: candidates are refRPS deltas plus zero, shifted by deltaRps.
func predRPS(r *h265.SPS_ShortTermRefPicSet, refSet *h265.SPS_ShortTermRefPicSet, deltaRps int32, used, useDelta []bool) {
	type cand struct {
		poc  int32
		used bool
	}
	var neg, pos []cand
	nn := len(refSet.DeltaPocS0)
	np := len(refSet.DeltaPocS1)
	// in increasing POC order
	var all []cand
	var allUse []bool
	for i := nn - 1; i >= 0; i-- {
		all = append(all, cand{refSet.DeltaPocS0[i] + deltaRps, used[i]})
		allUse = append(allUse, useDelta[i])
	}
	all = append(all, cand{deltaRps, used[nn+np]})
	allUse = append(allUse, useDelta[nn+np])
	for i := 0; i < np; i++ {
		all = append(all, cand{refSet.DeltaPocS1[i] + deltaRps, used[nn+i]})
		allUse = append(allUse, useDelta[nn+i])
	}
	for i, c := range all {
		if !allUse[i] || c.poc == 0 {
			continue
		}
		if c.poc < 0 {
			neg = append([]cand{c}, neg...) // closest first
		} else {
			pos = append(pos, c)
		}
	}
	for _, c := range neg {
		r.DeltaPocS0 = append(r.DeltaPocS0, c.poc)
		r.UsedByCurrPicS0Flag = append(r.UsedByCurrPicS0Flag, c.used)
	}
	for _, c := range pos {
		r.DeltaPocS1 = append(r.DeltaPocS1, c.poc)
		r.UsedByCurrPicS1Flag = append(r.UsedByCurrPicS1Flag, c.used)
	}
	r.NumNegativePics = uint32(len(neg))
	r.NumPositivePics = uint32(len(pos))
}

// writeExplicitRPS writes an explicit set (prediction flag excluded).
func writeExplicitRPS(w *ref.BitWriter, r *h265.SPS_ShortTermRefPicSet) {
	w.UE(uint64(len(r.DeltaPocS0)))
	w.UE(uint64(len(r.DeltaPocS1)))
	prev := int32(0)
	for i, d := range r.DeltaPocS0 {
		w.UE(uint64(prev - d - 1))
		w.Flag(r.UsedByCurrPicS0Flag[i])
		prev = d
	}
	prev = 0
	for i, d := range r.DeltaPocS1 {
		w.UE(uint64(d - prev - 1))
		w.Flag(r.UsedByCurrPicS1Flag[i])
		prev = d
	}
}

func genRPS(t *T, w *ref.BitWriter, idx, num int, sets []*h265.SPS_ShortTermRefPicSet) *h265.SPS_ShortTermRefPicSet {
	r := &h265.SPS_ShortTermRefPicSet{}
	if idx != 0 {
		r.InterRefPicSetPredictionFlag = t.Bool()
		w.Flag(r.InterRefPicSetPredictionFlag)
	}
	if r.InterRefPicSetPredictionFlag {
		if idx == num {
			r.DeltaIdxMinus1 = uint32(t.Int(0, idx-1))
			w.UE(uint64(r.DeltaIdxMinus1))
		}
		r.DeltaRpsSign = t.Bool()
		r.AbsDeltaRpsMinus1 = uint32(t.Int(0, 8))
		if t.Chance(1, 20) {
			r.AbsDeltaRpsMinus1 = uint32(t.Edge(0, 32767))
		}
		w.Flag(r.DeltaRpsSign)
		w.UE(uint64(r.AbsDeltaRpsMinus1))
		d := int32(r.AbsDeltaRpsMinus1) + 1
		if r.DeltaRpsSign {
			d = -d
		}
		rs := sets[idx-int(r.DeltaIdxMinus1)-1]
		n := len(rs.DeltaPocS0) + len(rs.DeltaPocS1) + 1
		used := make([]bool, n)
		use := make([]bool, n)
		for j := range used {
			used[j] = t.Bool()
			use[j] = true
			w.Flag(used[j])
			if !used[j] {
				use[j] = t.Bool()
				w.Flag(use[j])
			}
		}
		predRPS(r, rs, d, used, use)
		return r
	}
	nn, np := t.Int(0, 4), t.Int(0, 4)
	if t.Chance(1, 20) {
		nn, np = t.Int(0, 16), t.Int(0, 16)
	}
	gen := func(n int, sign int32) (l []int32, u []bool) {
		prev := int32(0)
		for i := 0; i < n; i++ {
			step := int32(t.Int(1, 8))
			if t.Chance(1, 30) {
				step = int32(t.Edge(1, 32768))
			}
			prev += sign * step
			l = append(l, prev)
			u = append(u, t.Bool())
		}
		return
	}
	r.DeltaPocS0, r.UsedByCurrPicS0Flag = gen(nn, -1)
	r.DeltaPocS1, r.UsedByCurrPicS1Flag = gen(np, 1)
	r.NumNegativePics, r.NumPositivePics = uint32(nn), uint32(np)
	writeExplicitRPS(w, r)
	return r
}

func genWindow265(t *T, w *ref.BitWriter, mx, my int64) *h265.SPS_Window {
	c := &h265.SPS_Window{}
	c.LeftOffset = uint32(t.Edge(0, mx))
	c.RightOffset = uint32(t.Edge(0, mx-int64(c.LeftOffset)))
	c.TopOffset = uint32(t.Edge(0, my))
	c.BottomOffset = uint32(t.Edge(0, my-int64(c.TopOffset)))
	for _, x := range []uint32{c.LeftOffset, c.RightOffset, c.TopOffset, c.BottomOffset} {
		w.UE(uint64(x))
	}
	return c
}

// genSPS265 generates a SPS and writes it according to ITU-T H.265 7.3.2.2.1.
func genSPS265(t *T) (s *h265.SPS, nalu []byte, width, height int64) {
	s = &h265.SPS{}
	w := &ref.BitWriter{}
	flag := func(p *bool) bool {
		*p = t.Bool()
		w.Flag(*p)
		return *p
	}
	ue := func(lo, hi int64) uint32 {
		v := t.Edge(lo, hi)
		w.UE(uint64(v))
		return uint32(v)
	}
	s.VPSID = uint8(t.Int(0, 15))
	if t.Chance(1, 3) {
		s.MaxSubLayersMinus1 = uint8(t.Int(0, 6))
	}
	w.U(uint64(s.VPSID), 4)
	w.U(uint64(s.MaxSubLayersMinus1), 3)
	flag(&s.TemporalIDNestingFlag)

	// 7.3.3
	p := &s.ProfileTierLevel
	p.GeneralProfileSpace = uint8(t.Int(0, 3))
	p.GeneralTierFlag = uint8(t.Int(0, 1))
	p.GeneralProfileIdc = uint8(t.Int(0, 11))
	if t.Chance(1, 8) {
		p.GeneralProfileIdc = uint8(t.Int(0, 31))
	}
	w.U(uint64(p.GeneralProfileSpace), 2)
	w.U(uint64(p.GeneralTierFlag), 1)
	w.U(uint64(p.GeneralProfileIdc), 5)
	cm := t.Draw(1<<32 - 1)
	if t.Bool() && p.GeneralProfileIdc < 32 {
		cm = 1 << (31 - p.GeneralProfileIdc)
	}
	for i := range p.GeneralProfileCompatibilityFlag {
		p.GeneralProfileCompatibilityFlag[i] = cm>>(31-i)&1 == 1
	}
	w.U(cm, 32)
	flag(&p.GeneralProgressiveSourceFlag)
	flag(&p.GeneralInterlacedSourceFlag)
	flag(&p.GeneralNonPackedConstraintFlag)
	flag(&p.GeneralFrameOnlyConstraintFlag)
	has := func(ids ...int) bool {
		for _, i := range ids {
			if int(p.GeneralProfileIdc) == i || p.GeneralProfileCompatibilityFlag[i] {
				return true
			}
		}
		return false
	}
	switch {
	case has(4, 5, 6, 7, 8, 9, 10, 11):
		flag(&p.GeneralMax12bitConstraintFlag)
		flag(&p.GeneralMax10bitConstraintFlag)
		flag(&p.GeneralMax8bitConstraintFlag)
		flag(&p.GeneralMax422ChromeConstraintFlag)
		flag(&p.GeneralMax420ChromaConstraintFlag)
		flag(&p.GeneralMaxMonochromeConstraintFlag)
		flag(&p.GeneralIntraConstraintFlag)
		flag(&p.GeneralOnePictureOnlyConstraintFlag)
		flag(&p.GeneralLowerBitRateConstraintFlag)
		if has(5, 9, 10, 11) {
			flag(&p.GeneralMax14BitConstraintFlag)
			w.U(0, 33)
		} else {
			w.U(0, 34)
		}
	case has(2):
		w.U(0, 7)
		flag(&p.GeneralOnePictureOnlyConstraintFlag)
		w.U(0, 35)
	default:
		w.U(0, 43)
	}
	w.U(0, 1) // general_inbld_flag or reserved
	p.GeneralLevelIdc = uint8(t.Edge(0, 255))
	w.U(uint64(p.GeneralLevelIdc), 8)
	for i := 0; i < int(s.MaxSubLayersMinus1); i++ {
		p.SubLayerProfilePresentFlag = append(p.SubLayerProfilePresentFlag, false)
		p.SubLayerLevelPresentFlag = append(p.SubLayerLevelPresentFlag, false)
		w.U(0, 2)
	}
	if s.MaxSubLayersMinus1 > 0 {
		for i := int(s.MaxSubLayersMinus1); i < 8; i++ {
			w.U(0, 2)
		}
	}

	s.ID = uint8(ue(0, 15))
	s.ChromaFormatIdc = ue(0, 3)
	if s.ChromaFormatIdc == 3 {
		flag(&s.SeparateColourPlaneFlag)
	}
	s.PicWidthInLumaSamples = ue(8, 16888)
	s.PicHeightInLumaSamples = ue(8, 16888)
	width, height = int64(s.PicWidthInLumaSamples), int64(s.PicHeightInLumaSamples)
	var f bool
	if flag(&f) {
		cx, cy := int64(1), int64(1) // table 6-1
		if s.ChromaFormatIdc == 1 || s.ChromaFormatIdc == 2 {
			cx = 2
		}
		if s.ChromaFormatIdc == 1 {
			cy = 2
		}
		s.ConformanceWindow = genWindow265(t, w, width/cx-1, height/cy-1)
		width -= cx * int64(s.ConformanceWindow.LeftOffset+s.ConformanceWindow.RightOffset)
		height -= cy * int64(s.ConformanceWindow.TopOffset+s.ConformanceWindow.BottomOffset)
	}
	s.BitDepthLumaMinus8 = ue(0, 8)
	s.BitDepthChromaMinus8 = ue(0, 8)
	s.Log2MaxPicOrderCntLsbMinus4 = ue(0, 12)
	flag(&s.SubLayerOrderingInfoPresentFlag)
	n := int(s.MaxSubLayersMinus1) + 1
	s.MaxDecPicBufferingMinus1 = make([]uint32, n)
	s.MaxNumReorderPics = make([]uint32, n)
	s.MaxLatencyIncreasePlus1 = make([]uint32, n)
	start := n - 1
	if s.SubLayerOrderingInfoPresentFlag {
		start = 0
	}
	for i := start; i < n; i++ {
		s.MaxDecPicBufferingMinus1[i] = ue(0, 15)
		s.MaxNumReorderPics[i] = ue(0, 15)
		s.MaxLatencyIncreasePlus1[i] = ue(0, 1<<32-2)
	}
	s.Log2MinLumaCodingBlockSizeMinus3 = ue(0, 3)
	s.Log2DiffMaxMinLumaCodingBlockSize = ue(0, 3)
	s.Log2MinLumaTransformBlockSizeMinus2 = ue(0, 3)
	s.Log2DiffMaxMinLumaTransformBlockSize = ue(0, 3)
	s.MaxTransformHierarchyDepthInter = ue(0, 4)
	s.MaxTransformHierarchyDepthIntra = ue(0, 4)
	if flag(&s.ScalingListEnabledFlag) {
		if flag(&f) {
			d := &h265.SPS_ScalingListData{}
			for sizeID := 0; sizeID < 4; sizeID++ {
				step := 1
				if sizeID == 3 {
					step = 3
				}
				for m := 0; m < 6; m += step {
					if !flag(&d.ScalingListPredModeFlag[sizeID][m]) {
						d.ScalingListPredmatrixIDDelta[sizeID][m] = ue(0, int64(m/step))
						continue
					}
					num := []int{16, 64, 64, 64}[sizeID]
					if sizeID > 1 {
						v := int32(t.Edge(-7, 247))
						w.SE(int64(v))
						d.ScalingListDcCoefMinus8[sizeID-2][m] = v
					}
					seed := t.Draw(1<<32 - 1)
					for k := 0; k < num; k++ {
						seed = seed*6364136223846793005 + 1442695040888963407
						w.SE(int64(int8(seed >> 56)))
					}
				}
			}
			s.ScalingListData = d
		}
	}
	flag(&s.AmpEnabledFlag)
	flag(&s.SampleAdaptiveOffsetEnabledFlag)
	if flag(&s.PcmEnabledFlag) {
		s.PcmSampleBitDepthLumaMinus1 = uint8(t.Int(0, 15))
		s.PcmSampleBitDepthChromaMinus1 = uint8(t.Int(0, 15))
		w.U(uint64(s.PcmSampleBitDepthLumaMinus1), 4)
		w.U(uint64(s.PcmSampleBitDepthChromaMinus1), 4)
		s.Log2MinPcmLumaCodingBlockSizeMinus3 = ue(0, 2)
		s.Log2DiffMaxMinPcmLumaCodingBlockSize = ue(0, 2)
		flag(&s.PcmLoopFilterDisabledFlag)
	}
	num := t.Int(0, 6)
	if t.Chance(1, 20) {
		num = t.Int(0, 64)
	}
	w.UE(uint64(num))
	for i := 0; i < num; i++ {
		s.ShortTermRefPicSets = append(s.ShortTermRefPicSets, genRPS(t, w, i, num, s.ShortTermRefPicSets))
	}
	if flag(&s.LongTermRefPicsPresentFlag) {
		w.UE(0)
	}
	flag(&s.TemporalMvpEnabledFlag)
	flag(&s.StrongIntraSmoothingEnabledFlag)
	if flag(&f) {
		v := &h265.SPS_VUI{}
		u8 := func(n int) uint8 {
			x := uint8(t.Edge(0, 1<<n-1))
			w.U(uint64(x), n)
			return x
		}
		if flag(&v.AspectRatioInfoPresentFlag) {
			v.AspectRatioIdc = u8(8)
			if v.AspectRatioIdc == 255 {
				v.SarWidth, v.SarHeight = uint16(t.Edge(0, 65535)), uint16(t.Edge(0, 65535))
				w.U(uint64(v.SarWidth), 16)
				w.U(uint64(v.SarHeight), 16)
			}
		}
		if flag(&v.OverscanInfoPresentFlag) {
			flag(&v.OverscanAppropriateFlag)
		}
		if flag(&v.VideoSignalTypePresentFlag) {
			v.VideoFormat = u8(3)
			flag(&v.VideoFullRangeFlag)
			if flag(&v.ColourDescriptionPresentFlag) {
				v.ColourPrimaries, v.TransferCharacteristics, v.MatrixCoefficients = u8(8), u8(8), u8(8)
			}
		}
		if flag(&v.ChromaLocInfoPresentFlag) {
			v.ChromaSampleLocTypeTopField = ue(0, 5)
			v.ChromaSampleLocTypeBottomField = ue(0, 5)
		}
		flag(&v.NeutralChromaIndicationFlag)
		flag(&v.FieldSeqFlag)
		flag(&v.FrameFieldInfoPresentFlag)
		if flag(&f) {
			v.DefaultDisplayWindow = genWindow265(t, w, 1000, 1000)
		}
		if flag(&f) {
			ti := &h265.SPS_TimingInfo{
				NumUnitsInTick: uint32(t.Edge(1, 1<<32-1)), TimeScale: uint32(t.Edge(1, 1<<32-1)),
			}
			w.U(uint64(ti.NumUnitsInTick), 32)
			w.U(uint64(ti.TimeScale), 32)
			if flag(&ti.POCProportionalToTimingFlag) {
				ti.NumTicksPOCDiffOneMinus1 = ue(0, 1<<32-2)
			}
			v.TimingInfo = ti
			w.U(0, 1) // vui_hrd_parameters_present_flag
		}
		if flag(&f) { // bitstream_restriction_flag
			w.U(0, 3)
			for i := 0; i < 5; i++ {
				w.UE(uint64(t.Int(0, 15)))
			}
		}
		s.VUI = v
	}
	w.U(0, 1) // sps_extension_present_flag
	w.Trailing()
	nalu = append([]byte{33 << 1, byte(t.Int(1, 7))}, w.B...)
	nalu = ref.Escape(nalu)
	return s, nalu, width, height
}
