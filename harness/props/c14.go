package props

import (
	"bytes"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/vp9"
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

// genVP9 generates a frame header followed by random frame data; bitLen is the length of the parsed part.
func genVP9(t *T) (h *vp9.Header, buf []byte, bitLen int) {
	h = &vp9.Header{}
	w := &ref.BitWriter{}
	w.U(2, 2)
	h.Profile = uint8(t.Pick(4))
	w.U(uint64(h.Profile&1), 1)
	w.U(uint64(h.Profile>>1), 1)
	if h.Profile == 3 {
		w.U(0, 1)
	}
	h.ShowExistingFrame = t.Chance(1, 6)
	w.Flag(h.ShowExistingFrame)
	if h.ShowExistingFrame {
		h.FrameToShowMapIdx = uint8(t.Draw(7))
		w.U(uint64(h.FrameToShowMapIdx), 3)
	} else {
		h.NonKeyFrame = t.Chance(1, 4)
		h.ShowFrame = t.Bool()
		h.ErrorResilientMode = t.Bool()
		w.Flag(h.NonKeyFrame)
		w.Flag(h.ShowFrame)
		w.Flag(h.ErrorResilientMode)
		if !h.NonKeyFrame {
			w.U(0x498342, 24)
			c := &vp9.Header_ColorConfig{BitDepth: 8}
			if h.Profile >= 2 {
				c.TenOrTwelveBit = t.Bool()
				w.Flag(c.TenOrTwelveBit)
				c.BitDepth = 10
				if c.TenOrTwelveBit {
					c.BitDepth = 12
				}
			}
			full := h.Profile&1 == 1
			if full && t.Chance(1, 3) {
				c.ColorSpace = 7
			} else {
				c.ColorSpace = uint8(t.Draw(6))
			}
			w.U(uint64(c.ColorSpace), 3)
			if c.ColorSpace == 7 {
				c.ColorRange = true
				w.U(0, 1)
			} else {
				c.ColorRange = t.Bool()
				w.Flag(c.ColorRange)
				if full {
					v := t.Draw(2) // 4:4:4, 4:4:0, 4:2:2
					c.SubsamplingX = v == 2
					c.SubsamplingY = v == 1
					w.Flag(c.SubsamplingX)
					w.Flag(c.SubsamplingY)
					w.U(0, 1)
				} else {
					c.SubsamplingX, c.SubsamplingY = true, true
				}
			}
			h.ColorConfig = c
			h.FrameSize = &vp9.Header_FrameSize{
				FrameWidthMinus1:  uint16(t.EdgeU(0, 65535)),
				FrameHeightMinus1: uint16(t.EdgeU(0, 65535)),
			}
			w.U(uint64(h.FrameSize.FrameWidthMinus1), 16)
			w.U(uint64(h.FrameSize.FrameHeightMinus1), 16)
		}
	}
	bitLen = w.N
	for w.N%8 != 0 {
		w.U(t.Draw(1), 1)
	}
	n := t.Len(0, 20)
	if t.Chance(1, 50) {
		n = t.Long(1 << 18)
	}
	buf = append(w.B, t.Bytes(n)...)
	return h, buf, bitLen
}

func c14(t *T) {
	h, buf, bitLen := genVP9(t)
	t.Logf("header=%s buf=%s", dump(h), Hex(buf))
	orig := append([]byte(nil), buf...)
	var d vp9.Header
	if err := d.Unmarshal(buf); err != nil {
		t.Failf("valid header rejected: %v", err)
	}
	if !bytes.Equal(orig, buf) {
		t.Failf("input was modified")
	}
	if !normEqual(&d, h) {
		t.Logf("decoded=%s", dump(d))
		t.Failf("decoded header differs from the encoded one")
	}
	key := h.ColorConfig != nil
	if key {
		if d.Width() != int(h.FrameSize.FrameWidthMinus1)+1 || d.Height() != int(h.FrameSize.FrameHeightMinus1)+1 {
			t.Failf("size is %dx%d", d.Width(), d.Height())
		}
		cs := d.ChromaSubsampling()
		switch {
		case !h.ColorConfig.SubsamplingX && !h.ColorConfig.SubsamplingY:
			if cs != 3 {
				t.Failf("chroma subsampling is %d instead of 4:4:4", cs)
			}
		case h.ColorConfig.SubsamplingX && !h.ColorConfig.SubsamplingY:
			if cs != 2 {
				t.Failf("chroma subsampling is %d instead of 4:2:2", cs)
			}
		case h.ColorConfig.SubsamplingX && h.ColorConfig.SubsamplingY:
			if cs != 0 && cs != 1 {
				t.Failf("chroma subsampling is %d instead of 4:2:0", cs)
			}
		}
	} else if d.Width() != 0 || d.Height() != 0 {
		t.Failf("size of a frame without size is %dx%d", d.Width(), d.Height())
	}
	if g := vp9.IsRandomAccess(buf); g != key {
		t.Failf("IsRandomAccess is %v, expected %v", g, key)
	}
	// truncations
	for i := 0; i < (bitLen+7)/8; i++ {
		var d2 vp9.Header
		if d2.Unmarshal(buf[:i:i]) == nil {
			t.Failf("header truncated at %d accepted", i)
		}
		if vp9.IsRandomAccess(buf[:i:i]) {
			t.Failf("header truncated at %d is a random access point", i)
		}
	}
	// corrupted markers
	bad := append([]byte(nil), buf...)
	bad[0] ^= byte(t.Int(1, 3)) << 6
	if d.Unmarshal(bad) == nil {
		t.Failf("wrong frame marker accepted")
	}
	if key {
		bad = append([]byte(nil), buf...)
		p := 8
		if h.Profile == 3 {
			p = 9
		}
		p += t.Pick(24)
		bad[p/8] ^= 0x80 >> uint(p%8)
		if d.Unmarshal(bad) == nil {
			t.Failf("wrong sync code accepted (bit %d)", p)
		}
		if vp9.IsRandomAccess(bad) {
			t.Failf("frame with wrong sync code is a random access point")
		}
		t.NonTrivial()
		t.Class("key")
	}
	t.Classf("profile%d", h.Profile)
	if h.ShowExistingFrame {
		t.Class("show-existing")
	}
}

func init() {
	Register(&Prop{
		ID:    "C14",
		Boost: 8,
		Title: "VP9 frame headers are decoded as the specification defines",
		Rule: "uncompressed headers with random syntax elements written by an independent VP9 6.2 writer, all their truncations, one corrupted " +
			"marker bit; non-trivial: key frames",
		Subs: []Sub{{Name: "decode", Fn: c14, Quick: 400000, Thorough: 6000000}},
	})
}
