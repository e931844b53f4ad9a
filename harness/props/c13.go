package props

import (
	"bytes"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/av1"
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

// genSeqHeader generates a sequence header and its OBU, without size field.
// unsupported tells whether it makes use of features that the library refuses.
func genSeqHeader(t *T) (h *av1.SequenceHeader, obu []byte, bitLen int, unsupported bool) {
	h = &av1.SequenceHeader{}
	w := &ref.BitWriter{}
	h.SeqProfile = uint8(t.Pick(3))
	w.U(uint64(h.SeqProfile), 3)
	h.StillPicture = t.Chance(1, 4)
	h.ReducedStillPictureHeader = h.StillPicture && t.Chance(2, 3)
	w.Flag(h.StillPicture)
	w.Flag(h.ReducedStillPictureHeader)
	if h.ReducedStillPictureHeader {
		h.OperatingPointIdc = []uint16{0}
		l := uint8(t.Draw(31))
		h.SeqLevelIdx = []uint8{l}
		h.SeqTier = []bool{false}
		h.DecoderModelPresentForThisOp = []bool{false}
		h.InitialDisplayPresentForThisOp = []bool{false}
		w.U(uint64(l), 5)
	} else {
		timing := t.Chance(1, 2)
		w.Flag(timing)
		bdlm := 0
		if timing {
			ti := &av1.SequenceHeader_TimingInfo{
				NumUnitsInDisplayTick: uint32(t.EdgeU(0, 1<<32-1)),
				TimeScale:             uint32(t.EdgeU(0, 1<<32-1)),
				EqualPictureInterval:  t.Bool(),
			}
			w.U(uint64(ti.NumUnitsInDisplayTick), 32)
			w.U(uint64(ti.TimeScale), 32)
			w.Flag(ti.EqualPictureInterval)
			if ti.EqualPictureInterval {
				ti.NumTicksPerPictureMinus1 = uint32(t.EdgeU(0, 1<<32-2))
				w.UE(uint64(ti.NumTicksPerPictureMinus1))
			}
			h.TimingInfo = ti
			h.DecoderModelInfoPresentFlag = t.Chance(1, 12)
			w.Flag(h.DecoderModelInfoPresentFlag)
			if h.DecoderModelInfoPresentFlag {
				unsupported = true
				bdlm = t.Pick(32)
				w.U(uint64(bdlm), 5)
				w.U(t.Draw(1<<32-1), 32)
				w.U(t.Draw(31), 5)
				w.U(t.Draw(31), 5)
			}
		}
		h.InitialDisplayDelayPresentFlag = t.Chance(1, 20)
		w.Flag(h.InitialDisplayDelayPresentFlag)
		if h.InitialDisplayDelayPresentFlag {
			unsupported = true
		}
		n := 1
		if t.Chance(1, 2) {
			n = t.Int(1, 32)
		}
		h.OperatingPointsCntMinus1 = uint8(n - 1)
		w.U(uint64(n-1), 5)
		for i := 0; i < n; i++ {
			idc := uint16(t.EdgeU(0, 4095))
			lvl := uint8(t.Draw(31))
			if t.Bool() {
				lvl = uint8(t.Int(6, 9))
			}
			tier := false
			w.U(uint64(idc), 12)
			w.U(uint64(lvl), 5)
			if lvl > 7 {
				tier = t.Bool()
				w.Flag(tier)
			}
			if h.DecoderModelInfoPresentFlag {
				p := t.Bool()
				w.Flag(p)
				if p {
					w.U(t.Draw(1<<uint(bdlm+1)-1), bdlm+1)
					w.U(t.Draw(1<<uint(bdlm+1)-1), bdlm+1)
					w.Flag(t.Bool())
				}
			}
			if h.InitialDisplayDelayPresentFlag {
				p := t.Bool()
				w.Flag(p)
				if p {
					w.U(t.Draw(15), 4)
				}
			}
			h.OperatingPointIdc = append(h.OperatingPointIdc, idc)
			h.SeqLevelIdx = append(h.SeqLevelIdx, lvl)
			h.SeqTier = append(h.SeqTier, tier)
			h.DecoderModelPresentForThisOp = append(h.DecoderModelPresentForThisOp, false)
			h.InitialDisplayPresentForThisOp = append(h.InitialDisplayPresentForThisOp, false)
		}
	}
	wb, hb := t.Int(1, 16), t.Int(1, 16)
	h.MaxFrameWidthMinus1 = uint32(t.EdgeU(0, 1<<uint(wb)-1))
	h.MaxFrameHeightMinus1 = uint32(t.EdgeU(0, 1<<uint(hb)-1))
	w.U(uint64(wb-1), 4)
	w.U(uint64(hb-1), 4)
	w.U(uint64(h.MaxFrameWidthMinus1), wb)
	w.U(uint64(h.MaxFrameHeightMinus1), hb)
	fl := func(p *bool) {
		*p = t.Bool()
		w.Flag(*p)
	}
	if !h.ReducedStillPictureHeader {
		fl(&h.FrameIDNumbersPresentFlag)
		if h.FrameIDNumbersPresentFlag {
			h.DeltaFrameIDLengthMinus2 = uint8(t.Draw(15))
			h.AdditionalFrameIDLengthMinus1 = uint8(t.Draw(7))
			w.U(uint64(h.DeltaFrameIDLengthMinus2), 4)
			w.U(uint64(h.AdditionalFrameIDLengthMinus1), 3)
		}
	}
	fl(&h.Use128x128Superblock)
	fl(&h.EnableFilterIntra)
	fl(&h.EnableIntraEdgeFilter)
	h.SeqForceScreenContentTools = 2
	h.SeqForceIntegerMv = 2
	if !h.ReducedStillPictureHeader {
		fl(&h.EnableInterintraCompound)
		fl(&h.EnableMaskedCompound)
		fl(&h.EnableWarpedMotion)
		fl(&h.EnableDualFilter)
		fl(&h.EnableOrderHint)
		if h.EnableOrderHint {
			fl(&h.EnableJntComp)
			fl(&h.EnableRefFrameMvs)
		}
		fl(&h.SeqChooseScreenContentTools)
		if !h.SeqChooseScreenContentTools {
			v := t.Draw(1)
			h.SeqForceScreenContentTools = av1.SequenceHeader_SeqForceScreenContentTools(v)
			w.U(v, 1)
		}
		if h.SeqForceScreenContentTools > 0 {
			fl(&h.SeqChooseIntegerMv)
			if !h.SeqChooseIntegerMv {
				v := t.Draw(1)
				h.SeqForceIntegerMv = av1.SequenceHeader_SeqForceIntegerMv(v)
				w.U(v, 1)
			}
		}
		if h.EnableOrderHint {
			h.OrderHintBitsMinus1 = uint8(t.Draw(7))
			w.U(uint64(h.OrderHintBitsMinus1), 3)
		}
	}
	fl(&h.EnableSuperRes)
	fl(&h.EnableCdef)
	fl(&h.EnableRestoration)
	// color_config()
	c := &h.ColorConfig
	fl(&c.HighBitDepth)
	c.BitDepth = 8
	if c.HighBitDepth {
		c.BitDepth = 10
		if h.SeqProfile == 2 {
			fl(&c.TwelveBit)
			if c.TwelveBit {
				c.BitDepth = 12
			}
		}
	}
	if h.SeqProfile != 1 {
		fl(&c.MonoChrome)
	}
	fl(&c.ColorDescriptionPresentFlag)
	cp, tc, mc := uint64(2), uint64(2), uint64(2)
	if c.ColorDescriptionPresentFlag {
		cp, tc, mc = t.Draw(255), t.Draw(255), t.Draw(255)
		if t.Bool() {
			// each of the three conditions of sRGB, met or not
			for _, v := range []struct {
				p *uint64
				v uint64
			}{{&cp, 1}, {&tc, 13}, {&mc, 0}} {
				if t.Chance(3, 4) {
					*v.p = v.v
				}
			}
		}
		// sRGB requires 4:4:4, hence profile 1, or profile 2 with 12 bits
		if cp == 1 && tc == 13 && mc == 0 && (h.SeqProfile == 0 || (h.SeqProfile == 2 && c.BitDepth != 12)) && !c.MonoChrome {
			mc = 1
		}
		w.U(cp, 8)
		w.U(tc, 8)
		w.U(mc, 8)
	}
	c.ColorPrimaries = av1.SequenceHeader_ColorPrimaries(cp)
	c.TransferCharacteristics = av1.SequenceHeader_TransferCharacteristics(tc)
	c.MatrixCoefficients = av1.SequenceHeader_MatrixCoefficients(mc)
	switch {
	case c.MonoChrome:
		fl(&c.ColorRange)
		c.SubsamplingX = true
		c.SubsamplingY = true
	case cp == 1 && tc == 13 && mc == 0:
		c.ColorRange = true
	default:
		fl(&c.ColorRange)
		switch {
		case h.SeqProfile == 0:
			c.SubsamplingX, c.SubsamplingY = true, true
		case h.SeqProfile == 1:
		case c.BitDepth == 12:
			fl(&c.SubsamplingX)
			if c.SubsamplingX {
				fl(&c.SubsamplingY)
			}
		default:
			c.SubsamplingX = true
		}
		if c.SubsamplingX && c.SubsamplingY {
			v := t.Draw(3)
			c.ChromaSamplePosition = av1.SequenceHeader_ChromaSamplePosition(v)
			w.U(v, 2)
		}
	}
	if !c.MonoChrome {
		w.Flag(t.Bool()) // separate_uv_delta_q
	}
	fl(&h.FilmGrainParamsPresent)
	bitLen = w.N
	w.Trailing()
	obu = append([]byte{1<<3 | byte(t.Draw(1))}, w.B...)
	return h, obu, bitLen, unsupported
}

func c13(t *T) {
	h, obu, bitLen, unsupported := genSeqHeader(t)
	in := obu
	sized := t.Bool()
	if sized {
		in = withSize(obu, t.Weighted(6, 0, 1, 1))
	}
	t.Logf("header=%s", dump(h))
	t.Logf("obu=%x", in)
	orig := append([]byte(nil), in...)
	var d av1.SequenceHeader
	err := d.Unmarshal(in)
	if !bytes.Equal(in, orig) {
		t.Failf("input was modified")
	}
	if unsupported {
		t.Class("unsupported")
		if err == nil {
			t.Failf("unsupported header accepted")
		}
		return
	}
	if err != nil {
		t.Failf("valid header rejected: %v", err)
	}
	for _, x := range d.InitialDisplayDelayMinus1 {
		if x != 0 {
			t.Failf("unexpected initial display delay")
		}
	}
	g := d
	g.InitialDisplayDelayMinus1 = nil
	if !normEqual(&g, h) {
		t.Logf("decoded=%s", dump(d))
		t.Failf("decoded header differs from the encoded one")
	}
	if d.Width() != int(h.MaxFrameWidthMinus1)+1 || d.Height() != int(h.MaxFrameHeightMinus1)+1 {
		t.Failf("size is %dx%d", d.Width(), d.Height())
	}
	// truncations
	cut := t.Int(0, len(obu)-1)
	if cut < 1+(bitLen+7)/8 {
		if err = d.Unmarshal(obu[:cut:cut]); err == nil {
			t.Failf("header truncated at %d accepted", cut)
		}
		if sized {
			l := len(in) - t.Int(1, len(in)-1)
			if err = d.Unmarshal(in[:l:l]); err == nil {
				t.Failf("sized header truncated at %d accepted", l)
			}
		}
	}
	t.Classf("profile%d", h.SeqProfile)
	if h.ReducedStillPictureHeader {
		t.Class("reduced")
	}
	if h.TimingInfo != nil {
		t.Class("timing")
	}
	if h.ColorConfig.MonoChrome {
		t.Class("mono")
	}
	if h.OperatingPointsCntMinus1 > 0 || h.TimingInfo != nil || h.FrameIDNumbersPresentFlag || h.ColorConfig.ColorDescriptionPresentFlag {
		t.NonTrivial()
	}
}

func init() {
	Register(&Prop{
		ID:    "C13",
		Boost: 6,
		Title: "AV1 sequence headers are decoded as the specification defines",
		Rule: "sequence headers with random syntax elements written by an independent AV1 5.5 writer, with and without size field, and their " +
			"truncations; non-trivial: several operating points, timing, frame ids or color description",
		Subs: []Sub{{Name: "decode", Fn: c13, Quick: 400000, Thorough: 6000000}},
	})
}
