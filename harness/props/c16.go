package props

import (
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg1audio"
	. "verif/harness/engine" //nolint:revive
)

// ISO 11172-3 2.4.2.3, ISO 13818-3 2.4.2.3: kbit/s by index, [lsf][layer-2]
var mpaRates = [2][2][14]int{
	{
		{32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384},
		{32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320},
	},
	{
		{8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160},
		{8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160},
	},
}

type mpaInfo struct {
	ok                         bool
	lsf                        bool
	layer, rate, sr, pad, mode int
	samples, frameLen          int
}

// refMPA is the reference header decoder.
func refMPA(h uint32) mpaInfo {
	if h>>20 != 0xFFF {
		return mpaInfo{}
	}
	id, layer, br, sr := h>>19&1, 4-int(h>>17&3), int(h>>12&15), int(h>>10&3)
	if layer != 2 && layer != 3 || br == 0 || br == 15 || sr == 3 {
		return mpaInfo{}
	}
	i := mpaInfo{ok: true, lsf: id == 0, layer: layer, pad: int(h >> 9 & 1), mode: int(h >> 6 & 3)}
	g := 0
	i.sr = []int{44100, 48000, 32000}[sr]
	i.samples = 1152
	if i.lsf {
		g = 1
		i.sr /= 2
		if layer == 3 {
			i.samples = 576
		}
	}
	i.rate = mpaRates[g][layer-2][br-1] * 1000
	i.frameLen = i.samples*i.rate/8/i.sr + i.pad
	return i
}

func c16All(t *T) {
	n, nt := 0, 0
	step := uint32(1)
	for x := uint32(0); x < 1<<24; x += step {
		hi := uint32(0xFF)
		h := hi<<24 | x
		b := [6]byte{byte(h >> 24), byte(h >> 16), byte(h >> 8), byte(h), byte(x * 7), 0}
		var f mpeg1audio.FrameHeader
		err := f.Unmarshal(b[:])
		r := refMPA(h)
		n++
		if (err == nil) != r.ok {
			t.Failf("header %08x: error %v, expected acceptance %v", h, err, r.ok)
		}
		if !r.ok {
			continue
		}
		nt++
		if f.MPEG2 != r.lsf || int(f.Layer) != r.layer || f.Bitrate != r.rate || f.SampleRate != r.sr || f.Padding != (r.pad == 1) ||
			int(f.ChannelMode) != r.mode || f.FrameLen() != r.frameLen || f.SampleCount() != r.samples {
			t.Failf("header %08x: %+v len %d samples %d, expected %+v", h, f, f.FrameLen(), f.SampleCount(), r)
		}
	}
	for hi := uint32(0); hi < 255; hi++ {
		for lo := uint32(0); lo < 256; lo++ {
			b := []byte{byte(hi), byte(lo), 0x90, 0, 0, 0}
			var f mpeg1audio.FrameHeader
			if f.Unmarshal(b) == nil {
				t.Failf("header %x accepted", b)
			}
			n++
		}
	}
	for i := 0; i < 4; i++ {
		var f mpeg1audio.FrameHeader
		if f.Unmarshal([]byte{0xFF, 0xFB, 0x90, 0}[:i:i]) == nil {
			t.Failf("truncated header accepted")
		}
	}
	t.Enumerated(n, nt)
	t.NonTrivial()
	t.Logf("all 2^24 headers that begin with 0xFF, all wrong first bytes")
}

// a sequence of frames is split exactly
func c16Split(t *T) {
	n := t.Int(1, 12)
	var stream []byte
	var lens []int
	for i := 0; i < n; i++ {
		b, r := genMPAFrame(t, true)
		stream = append(stream, b...)
		lens = append(lens, r.frameLen)
	}
	t.Logf("frames of %v bytes", lens)
	for i, l := range lens {
		var f mpeg1audio.FrameHeader
		if err := f.Unmarshal(stream); err != nil {
			t.Failf("frame %d: %v", i, err)
		}
		if f.FrameLen() != l {
			t.Failf("frame %d: length %d, expected %d", i, f.FrameLen(), l)
		}
		stream = stream[l:]
	}
	if n > 1 {
		t.NonTrivial()
	}
}

// genMPAFrame generates a whole frame.
func genMPAFrame(t *T, mpeg2 bool) ([]byte, mpaInfo) {
	for {
		h := uint32(0xFFF) << 20
		id := uint32(1)
		if mpeg2 && t.Chance(1, 3) {
			id = 0
		}
		h |= id<<19 | uint32(t.Int(1, 2))<<17 | uint32(t.Draw(1))<<16 | uint32(t.Int(1, 14))<<12 | uint32(t.Pick(3))<<10 |
			uint32(t.Draw(1))<<9 | uint32(t.Draw(511))
		r := refMPA(h)
		b := t.Bytes(r.frameLen)
		b[0], b[1], b[2], b[3] = byte(h>>24), byte(h>>16), byte(h>>8), byte(h)
		return b, r
	}
}

func init() {
	Register(&Prop{
		ID:         "C16",
		Title:      "MPEG-1/2 audio frame headers give the standard's frame parameters",
		Rule:       "all 2^24 headers beginning with 0xFF plus all other two-byte prefixes by enumeration; frame sequences split by length; non-trivial: accepted headers, sequences of several frames",
		Exhaustive: true,
		Subs: []Sub{
			{Name: "all", Fn: c16All, Once: true},
			{Name: "split", Fn: c16Split, Quick: 5000},
		},
	})
}
