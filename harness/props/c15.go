package props

import (
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/ac3"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/eac3"
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

// nominal bit rates in kbit/s (A/52 table 5.18)
var ac3Rates = []int{32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384, 448, 512, 576, 640}

var ac3Channels = []int{2, 1, 2, 3, 3, 4, 4, 5}

// ac3Frame writes the header of a frame.
func ac3Frame(crc uint64, fscod, frmsizecod, bsid, bsmod, acmod int, mix uint64, lfe bool) []byte {
	w := &ref.BitWriter{}
	w.U(0x0B77, 16)
	w.U(crc, 16)
	w.U(uint64(fscod), 2)
	w.U(uint64(frmsizecod), 6)
	w.U(uint64(bsid), 5)
	w.U(uint64(bsmod), 3)
	w.U(uint64(acmod), 3)
	if acmod&1 != 0 && acmod != 1 {
		w.U(mix&3, 2)
	}
	if acmod&4 != 0 {
		w.U(mix>>2&3, 2)
	}
	if acmod == 2 {
		w.U(mix>>4&3, 2)
	}
	w.Flag(lfe)
	for w.N < 64 {
		w.U(mix>>uint(w.N%6)&1, 1)
	}
	return w.B
}

func c15SyncAll(t *T) {
	n, nt := 0, 0
	for code := 0; code < 256; code++ {
		fscod, fsz := code>>6, code&63
		for v := 0; v < 16; v++ {
			b := []byte{0x0B, 0x77, byte(v * 17), byte(255 - v), byte(code), byte(v)}[:5+v%2]
			var s ac3.SyncInfo
			err := s.Unmarshal(b)
			ok := fscod < 3 && fsz < 38
			n++
			if (err == nil) != ok {
				t.Failf("header %x: error %v", b, err)
			}
			if !ok {
				continue
			}
			nt++
			rate := ac3Rates[fsz/2] * 1000
			sr := []int{48000, 44100, 32000}[fscod]
			// a frame carries 1536 samples; 44.1 kHz frames are padded by a word when the code is odd
			words := rate * 1536 / 16 / sr
			if fscod == 1 && fsz%2 == 1 {
				words++
			}
			if int(s.Fscod) != fscod || int(s.Frmsizecod) != fsz || s.FrameSize() != 2*words || s.SampleRate() != sr {
				t.Failf("header %x: %+v, size %d, rate %d; expected size %d rate %d", b, s, s.FrameSize(), s.SampleRate(), 2*words, sr)
			}
		}
	}
	for x := 0; x < 65536; x++ {
		b := []byte{byte(x >> 8), byte(x), 0, 0, 0, 0, 0, 0, 0, 0, 0}
		var s ac3.SyncInfo
		if (s.Unmarshal(b) == nil) != (x == 0x0B77) {
			t.Failf("sync word %04x", x)
		}
		var e eac3.SyncInfo
		if x != 0x0B77 && e.Unmarshal(b) == nil {
			t.Failf("E-AC-3 sync word %04x", x)
		}
		n++
	}
	for i := 0; i < 5; i++ {
		var s ac3.SyncInfo
		if s.Unmarshal([]byte{0x0B, 0x77, 0, 0, 0}[:i:i]) == nil {
			t.Failf("truncated header accepted")
		}
	}
	t.Enumerated(n, nt)
	t.NonTrivial()
	t.Logf("all sample rate and frame size codes, all sync words")
}

func c15BSIAll(t *T) {
	n, nt := 0, 0
	for bsid := 0; bsid < 32; bsid++ {
		for bsmod := 0; bsmod < 8; bsmod++ {
			for acmod := 0; acmod < 8; acmod++ {
				for mix := uint64(0); mix < 64; mix++ {
					for lfe := 0; lfe < 2; lfe++ {
						f := ac3Frame(0, 0, 0, bsid, bsmod, acmod, mix, lfe == 1)
						var b ac3.BSI
						err := b.Unmarshal(f[5:])
						n++
						if (err == nil) != (bsid <= 8) {
							t.Failf("bsi %x: error %v", f[5:], err)
						}
						if err != nil {
							continue
						}
						nt++
						ch := ac3Channels[acmod] + lfe
						var b2 ac3.BSI
						if err = b2.Unmarshal(f[5:7:7]); err != nil || b2 != b {
							t.Failf("bsi %x: %+v (%v) when nothing follows, was %+v", f[5:7], b2, err, b)
						}
						if int(b.Bsid) != bsid || int(b.Bsmod) != bsmod || int(b.Acmod) != acmod || b.LfeOn != (lfe == 1) || b.ChannelCount() != ch {
							t.Failf("bsi %x: %+v, %d channels, expected %d", f[5:], b, b.ChannelCount(), ch)
						}
					}
				}
			}
		}
	}
	var b ac3.BSI
	if b.Unmarshal(nil) == nil || b.Unmarshal([]byte{8 << 3}) == nil {
		t.Failf("truncated bsi accepted")
	}
	t.Enumerated(n, nt)
	t.NonTrivial()
	t.Logf("all bsid, bsmod, acmod, mix level and lfe combinations")
}

type eac3Fields struct {
	strmtyp, sub, frmsiz, fscod, fscod2, blk, acmod int
	lfe                                             bool
	bsid                                            int
}

func (f eac3Fields) write(tail []byte) []byte {
	w := &ref.BitWriter{}
	w.U(0x0B77, 16)
	w.U(uint64(f.strmtyp), 2)
	w.U(uint64(f.sub), 3)
	w.U(uint64(f.frmsiz), 11)
	w.U(uint64(f.fscod), 2)
	if f.fscod == 3 {
		w.U(uint64(f.fscod2), 2)
	} else {
		w.U(uint64(f.blk), 2)
	}
	w.U(uint64(f.acmod), 3)
	w.Flag(f.lfe)
	w.U(uint64(f.bsid), 5)
	for w.N < 64 {
		w.U(1, 1)
	}
	return append(w.B, tail...)
}

func c15EAC3(t *T) {
	f := eac3Fields{
		strmtyp: t.Pick(3), sub: t.Pick(8), frmsiz: int(t.Edge(0, 2047)), fscod: t.Pick(4), fscod2: t.Pick(4), blk: t.Pick(4),
		acmod: t.Pick(8), lfe: t.Bool(), bsid: 16,
	}
	if t.Chance(1, 8) {
		f.bsid = t.Pick(32)
	}
	b := f.write(t.Bytes(t.Len(0, 20)))
	t.Logf("%+v %x", f, b)
	var s eac3.SyncInfo
	err := s.Unmarshal(b)
	ok := f.bsid == 16 && (f.fscod != 3 || f.fscod2 != 3)
	t.Classf("ok=%v", ok)
	if (err == nil) != ok {
		t.Failf("error %v, expected acceptance %v", err, ok)
	}
	if !ok {
		return
	}
	t.NonTrivial()
	blocks := []int{1, 2, 3, 6}[f.blk]
	sr := 0
	if f.fscod == 3 {
		blocks = 6
		sr = []int{24000, 22050, 16000}[f.fscod2]
		t.Class("half-rate")
	} else {
		sr = []int{48000, 44100, 32000}[f.fscod]
	}
	ch := ac3Channels[f.acmod]
	if f.lfe {
		ch++
	}
	if int(s.Strmtyp) != f.strmtyp || int(s.Substreamid) != f.sub || int(s.Frmsiz) != f.frmsiz || int(s.Acmod) != f.acmod ||
		s.Lfeon != f.lfe || int(s.Bsid) != 16 || int(s.Fscod) != f.fscod {
		t.Failf("decoded as %+v", s)
	}
	if f.fscod == 3 && int(s.Fscod2) != f.fscod2 {
		t.Failf("decoded as %+v", s)
	}
	if s.FrameSize() != 2*(f.frmsiz+1) || s.SampleRate() != sr || s.NumBlocks() != blocks || s.ChannelCount() != ch {
		t.Failf("size %d rate %d blocks %d channels %d, expected %d %d %d %d", s.FrameSize(), s.SampleRate(), s.NumBlocks(),
			s.ChannelCount(), 2*(f.frmsiz+1), sr, blocks, ch)
	}
	for i := 0; i < 6; i++ {
		if s.Unmarshal(b[:i:i]) == nil {
			t.Failf("header truncated at %d accepted", i)
		}
	}
}

func init() {
	Register(&Prop{
		ID:    "C15",
		Boost: 8,
		Title: "AC-3 and E-AC-3 headers give the standard's frame parameters",
		Rule: "all AC-3 sample rate and frame size codes, sync words and bit stream information combinations by enumeration, random E-AC-3 headers; " +
			"non-trivial: accepted headers",
		Exhaustive: false,
		Subs: []Sub{
			{Name: "ac3-sync", Fn: c15SyncAll, Once: true},
			{Name: "ac3-bsi", Fn: c15BSIAll, Once: true},
			{Name: "eac3", Fn: c15EAC3, Quick: 300000},
		},
	})
}
