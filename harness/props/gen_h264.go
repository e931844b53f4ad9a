package props

import (
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

func w32(t *T) uint32 { // any 32-bit code number
	return uint32(t.EdgeU(0, 1<<32-2))
}

func genHRD264(t *T, w *ref.BitWriter) *h264.SPS_HRD {
	h := &h264.SPS_HRD{CpbCntMinus1: uint32(t.Edge(0, 31))}
	if !t.Chance(1, 8) {
		h.CpbCntMinus1 = uint32(t.Int(0, 2))
	}
	h.BitRateScale = uint8(t.Int(0, 15))
	h.CpbSizeScale = uint8(t.Int(0, 15))
	w.UE(uint64(h.CpbCntMinus1))
	w.U(uint64(h.BitRateScale), 4)
	w.U(uint64(h.CpbSizeScale), 4)
	for i := uint32(0); i <= h.CpbCntMinus1; i++ {
		a, b, c := w32(t), w32(t), t.Bool()
		w.UE(uint64(a))
		w.UE(uint64(b))
		w.Flag(c)
		h.BitRateValueMinus1 = append(h.BitRateValueMinus1, a)
		h.CpbSizeValueMinus1 = append(h.CpbSizeValueMinus1, b)
		h.CbrFlag = append(h.CbrFlag, c)
	}
	h.InitialCpbRemovalDelayLengthMinus1 = uint8(t.Int(0, 31))
	h.CpbRemovalDelayLengthMinus1 = uint8(t.Int(0, 31))
	h.DpbOutputDelayLengthMinus1 = uint8(t.Int(0, 31))
	h.TimeOffsetLength = uint8(t.Int(0, 31))
	w.U(uint64(h.InitialCpbRemovalDelayLengthMinus1), 5)
	w.U(uint64(h.CpbRemovalDelayLengthMinus1), 5)
	w.U(uint64(h.DpbOutputDelayLengthMinus1), 5)
	w.U(uint64(h.TimeOffsetLength), 5)
	return h
}

func genVUI264(t *T, w *ref.BitWriter) *h264.SPS_VUI {
	v := &h264.SPS_VUI{}
	flag := func(p *bool) bool {
		*p = t.Bool()
		w.Flag(*p)
		return *p
	}
	u8 := func(n int) uint8 {
		x := uint8(t.Edge(0, 1<<n-1))
		w.U(uint64(x), n)
		return x
	}
	if flag(&v.AspectRatioInfoPresentFlag) {
		v.AspectRatioIdc = uint8(t.Edge(0, 255))
		w.U(uint64(v.AspectRatioIdc), 8)
		if v.AspectRatioIdc == 255 {
			v.SarWidth, v.SarHeight = uint16(t.Edge(0, 65535)), uint16(t.Edge(0, 65535))
			w.U(uint64(v.SarWidth), 16)
			w.U(uint64(v.SarHeight), 16)
		}
	}
	if flag(&v.OverscanInfoPresentFlag) {
		flag(&v.OverscanAppropriateFlag)
	}
	if flag(&v.VideoSignalTypePresentFlag) {
		v.VideoFormat = u8(3)
		flag(&v.VideoFullRangeFlag)
		if flag(&v.ColourDescriptionPresentFlag) {
			v.ColourPrimaries = u8(8)
			v.TransferCharacteristics = u8(8)
			v.MatrixCoefficients = u8(8)
		}
	}
	if flag(&v.ChromaLocInfoPresentFlag) {
		v.ChromaSampleLocTypeTopField = w32(t)
		v.ChromaSampleLocTypeBottomField = w32(t)
		w.UE(uint64(v.ChromaSampleLocTypeTopField))
		w.UE(uint64(v.ChromaSampleLocTypeBottomField))
	}
	var p bool
	if flag(&p) {
		v.TimingInfo = &h264.SPS_TimingInfo{
			NumUnitsInTick: uint32(t.Edge(1, 1<<32-1)), TimeScale: uint32(t.Edge(1, 1<<32-1)),
		}
		w.U(uint64(v.TimingInfo.NumUnitsInTick), 32)
		w.U(uint64(v.TimingInfo.TimeScale), 32)
		flag(&v.TimingInfo.FixedFrameRateFlag)
	}
	if flag(&p) {
		v.NalHRD = genHRD264(t, w)
	}
	if flag(&p) {
		v.VclHRD = genHRD264(t, w)
	}
	if v.NalHRD != nil || v.VclHRD != nil {
		flag(&v.LowDelayHrdFlag)
	}
	flag(&v.PicStructPresentFlag)
	if flag(&p) {
		r := &h264.SPS_BitstreamRestriction{}
		flag(&r.MotionVectorsOverPicBoundariesFlag)
		for _, x := range []*uint32{
			&r.MaxBytesPerPicDenom, &r.MaxBitsPerMbDenom, &r.Log2MaxMvLengthHorizontal,
			&r.Log2MaxMvLengthVertical, &r.MaxNumReorderFrames, &r.MaxDecFrameBuffering,
		} {
			*x = w32(t)
			w.UE(uint64(*x))
		}
		v.BitstreamRestriction = r
	}
	return v
}

var highProfiles264 = []uint8{100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135}

// genSPS264 generates a SPS and writes it according to ITU-T H.264 7.3.2.1.1.
// The raw payload (without emulation prevention) is returned too.
func genSPS264(t *T) (s *h264.SPS, nalu []byte, width, height int64) {
	s = &h264.SPS{}
	w := &ref.BitWriter{}
	hdr := byte(7 | t.Int(0, 3)<<5)
	flag := func(p *bool) bool {
		*p = t.Bool()
		w.Flag(*p)
		return *p
	}
	high := t.Bool()
	if high {
		s.ProfileIdc = highProfiles264[t.Pick(len(highProfiles264))]
	} else {
		for s.ProfileIdc = []uint8{66, 77, 88, 0}[t.Pick(4)]; s.ProfileIdc == 0; {
			s.ProfileIdc = uint8(t.Int(1, 255))
			for _, h := range highProfiles264 {
				if s.ProfileIdc == h {
					s.ProfileIdc = 66
				}
			}
		}
	}
	w.U(uint64(s.ProfileIdc), 8)
	flag(&s.ConstraintSet0Flag)
	flag(&s.ConstraintSet1Flag)
	flag(&s.ConstraintSet2Flag)
	flag(&s.ConstraintSet3Flag)
	flag(&s.ConstraintSet4Flag)
	flag(&s.ConstraintSet5Flag)
	w.U(0, 2)
	s.LevelIdc = uint8(t.Edge(0, 255))
	w.U(uint64(s.LevelIdc), 8)
	s.ID = uint32(t.Edge(0, 31))
	w.UE(uint64(s.ID))
	s.ChromaFormatIdc = 1
	if high {
		s.ChromaFormatIdc = uint32(t.Int(0, 3))
		w.UE(uint64(s.ChromaFormatIdc))
		if s.ChromaFormatIdc == 3 {
			flag(&s.SeparateColourPlaneFlag)
		}
		s.BitDepthLumaMinus8 = uint32(t.Int(0, 6))
		s.BitDepthChromaMinus8 = uint32(t.Int(0, 6))
		w.UE(uint64(s.BitDepthLumaMinus8))
		w.UE(uint64(s.BitDepthChromaMinus8))
		flag(&s.QpprimeYZeroTransformBypassFlag)
		var mat bool
		if flag(&mat) {
			lim := 8
			if s.ChromaFormatIdc == 3 {
				lim = 12
			}
			for i := 0; i < lim; i++ {
				var pres bool
				if !flag(&pres) {
					continue
				}
				size := 16
				if i >= 6 {
					size = 64
				}
				// 7.3.2.1.1.1
				list := make([]int32, size)
				last, next := int32(8), int32(8)
				useDefault := false
				mode := t.Pick(3) // 0: default list, 1: short list, 2: full
				stop := 0
				switch mode {
				case 1:
					stop = t.Int(1, size)
				case 2:
					stop = size
				}
				for j := range list {
					if next != 0 {
						var target int32 // the next scale
						if j < stop {
							target = int32(t.Int(1, 255))
						}
						delta := target - last
						if delta > 127 {
							delta -= 256
						} else if delta < -128 {
							delta += 256
						}
						w.SE(int64(delta))
						next = target
						useDefault = j == 0 && next == 0
					}
					if next != 0 {
						last = next
					}
					list[j] = last
				}
				if i < 6 {
					s.ScalingList4x4 = append(s.ScalingList4x4, list)
					s.UseDefaultScalingMatrix4x4Flag = append(s.UseDefaultScalingMatrix4x4Flag, useDefault)
				} else {
					s.ScalingList8x8 = append(s.ScalingList8x8, list)
					s.UseDefaultScalingMatrix8x8Flag = append(s.UseDefaultScalingMatrix8x8Flag, useDefault)
				}
			}
		}
	}
	s.Log2MaxFrameNumMinus4 = uint32(t.Int(0, 12))
	w.UE(uint64(s.Log2MaxFrameNumMinus4))
	s.PicOrderCntType = uint32(t.Int(0, 2))
	w.UE(uint64(s.PicOrderCntType))
	switch s.PicOrderCntType {
	case 0:
		s.Log2MaxPicOrderCntLsbMinus4 = uint32(t.Int(0, 12))
		w.UE(uint64(s.Log2MaxPicOrderCntLsbMinus4))
	case 1:
		flag(&s.DeltaPicOrderAlwaysZeroFlag)
		off := func() int32 {
			v := int32(t.Edge(-(1<<31)+1, 1<<31-1))
			w.SE(int64(v))
			return v
		}
		s.OffsetForNonRefPic = off()
		s.OffsetForTopToBottomField = off()
		n := t.Int(0, 6)
		if t.Chance(1, 16) {
			n = int(t.Edge(0, 255))
		}
		w.UE(uint64(n))
		s.OffsetForRefFrames = make([]int32, n)
		for i := range s.OffsetForRefFrames {
			s.OffsetForRefFrames[i] = off()
		}
	}
	s.MaxNumRefFrames = uint32(t.Int(0, 16))
	w.UE(uint64(s.MaxNumRefFrames))
	flag(&s.GapsInFrameNumValueAllowedFlag)
	s.PicWidthInMbsMinus1 = uint32(t.Edge(0, 4095))
	s.PicHeightInMapUnitsMinus1 = uint32(t.Edge(0, 4095))
	w.UE(uint64(s.PicWidthInMbsMinus1))
	w.UE(uint64(s.PicHeightInMapUnitsMinus1))
	if !flag(&s.FrameMbsOnlyFlag) {
		flag(&s.MbAdaptiveFrameFieldFlag)
	}
	flag(&s.Direct8x8InferenceFlag)

	// 7.4.2.1.1, 6.2
	cat := s.ChromaFormatIdc
	if s.SeparateColourPlaneFlag {
		cat = 0
	}
	cx, cy := int64(1), int64(1)
	if cat == 1 || cat == 2 {
		cx = 2
	}
	if cat == 1 {
		cy = 2
	}
	fm := int64(2)
	if s.FrameMbsOnlyFlag {
		fm = 1
	}
	cy *= fm
	width = (int64(s.PicWidthInMbsMinus1) + 1) * 16
	height = (int64(s.PicHeightInMapUnitsMinus1) + 1) * 16 * fm
	var crop bool
	if flag(&crop) {
		c := &h264.SPS_FrameCropping{}
		mx, my := width/cx-1, height/cy-1
		c.LeftOffset = uint32(t.Edge(0, mx))
		c.RightOffset = uint32(t.Edge(0, mx-int64(c.LeftOffset)))
		c.TopOffset = uint32(t.Edge(0, my))
		c.BottomOffset = uint32(t.Edge(0, my-int64(c.TopOffset)))
		for _, x := range []uint32{c.LeftOffset, c.RightOffset, c.TopOffset, c.BottomOffset} {
			w.UE(uint64(x))
		}
		s.FrameCropping = c
		width -= cx * int64(c.LeftOffset+c.RightOffset)
		height -= cy * int64(c.TopOffset+c.BottomOffset)
	}
	var vui bool
	if flag(&vui) {
		s.VUI = genVUI264(t, w)
	}
	w.Trailing()
	nalu = append([]byte{hdr}, ref.Escape(w.B)...)
	return s, nalu, width, height
}
