package props

import (
	"bytes"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

var aacRates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

// channel count by channel configuration
var aacChannels = []int{0, 1, 2, 3, 4, 5, 6, 8}

// adtsFields are the fields of an ADTS header.
type adtsFields struct {
	id, layer, protAbsent, profile, sr, priv, ch, orig, home, cid, cst, full, blocks int
	frameLen                                                                         int
}

func (f adtsFields) write(au []byte) []byte {
	w := &ref.BitWriter{}
	w.U(0xFFF, 12)
	w.U(uint64(f.id), 1)
	w.U(uint64(f.layer), 2)
	w.U(uint64(f.protAbsent), 1)
	w.U(uint64(f.profile), 2)
	w.U(uint64(f.sr), 4)
	w.U(uint64(f.priv), 1)
	w.U(uint64(f.ch), 3)
	w.U(uint64(f.orig), 1)
	w.U(uint64(f.home), 1)
	w.U(uint64(f.cid), 1)
	w.U(uint64(f.cst), 1)
	w.U(uint64(f.frameLen), 13)
	w.U(uint64(f.full), 11)
	w.U(uint64(f.blocks), 2)
	if f.protAbsent == 0 {
		w.U(0x1234, 16)
	}
	return append(w.B, au...)
}

func genADTSFields(t *T) adtsFields {
	return adtsFields{
		id: t.Pick(2), protAbsent: 1, profile: t.Pick(4), sr: t.Pick(13), priv: t.Pick(2), ch: t.Pick(8), orig: t.Pick(2), home: t.Pick(2),
		cid: t.Pick(2), cst: t.Pick(2), full: int(t.EdgeU(0, 2047)),
	}
}

func aacAULen(t *T, lo int) int {
	switch t.Weighted(20, 3, 2, 1) {
	case 1:
		return t.Int(244, 260)
	case 2:
		return t.Int(2030, 2060)
	case 3:
		return int(t.Edge(int64(lo), mpeg4audio.MaxAccessUnitSize))
	}
	return t.Len(lo, 200)
}

func cmpADTS(t *T, got mpeg4audio.ADTSPackets, want []*mpeg4audio.ADTSPacket) {
	if len(got) != len(want) {
		t.Failf("%d packets, expected %d", len(got), len(want))
	}
	for i, p := range want {
		g := got[i]
		if g.Type != p.Type || g.SampleRate != p.SampleRate || g.ChannelConfig != p.ChannelConfig || g.ChannelCount != p.ChannelCount {
			t.Failf("packet %d is type %d rate %d config %d count %d, expected %d %d %d %d", i, g.Type, g.SampleRate, g.ChannelConfig,
				g.ChannelCount, p.Type, p.SampleRate, p.ChannelConfig, p.ChannelCount)
		}
		if !bytes.Equal(g.AU, p.AU) {
			t.Failf("access unit %d is %s, expected %s", i, Hex(g.AU), Hex(p.AU))
		}
	}
}

func c17Round(t *T) {
	n := t.Int(1, 6)
	if t.Chance(1, 60) {
		n = t.Int(7, 300)
	}
	var in mpeg4audio.ADTSPackets
	var want []*mpeg4audio.ADTSPacket
	var stream []byte
	for i := 0; i < n; i++ {
		cfg := t.Pick(8)
		p := &mpeg4audio.ADTSPacket{
			Type: mpeg4audio.ObjectType(t.Int(1, 4)), SampleRate: aacRates[t.Pick(13)], ChannelConfig: uint8(cfg), ChannelCount: aacChannels[cfg],
			AU: t.Bytes(aacAULen(t, 1)),
		}
		q := *p
		switch t.Pick(3) {
		case 1: // deprecated field only
			q.ChannelConfig = 0
		case 2: // new field only
			q.ChannelCount = 0
		}
		in = append(in, &q)
		want = append(want, p)
		t.Logf("packet type=%d rate=%d config=%d/%d count=%d au=%s", p.Type, p.SampleRate, q.ChannelConfig, cfg, q.ChannelCount, Hex(p.AU))
		sr := 0
		for aacRates[sr] != p.SampleRate {
			sr++
		}
		// everything but the buffer fullness is determined
		stream = append(stream, adtsFields{
			protAbsent: 1, profile: int(p.Type) - 1, sr: sr, ch: cfg, full: 0x7FF,
			frameLen: len(p.AU) + 7,
		}.write(p.AU)...)
	}
	enc, err := in.Marshal()
	if err != nil {
		t.Failf("encoding failed: %v", err)
	}
	if len(enc) != len(stream) {
		t.Failf("encoded length is %d, expected %d", len(enc), len(stream))
	}
	// compare, bits that are free excluded
	pos := 0
	for _, p := range want {
		a, b := append([]byte(nil), enc[pos:pos+7]...), append([]byte(nil), stream[pos:pos+7]...)
		for _, x := range [][]byte{a, b} {
			x[1] &^= 8 // MPEG version
			x[2] &^= 2 // private
			x[3] &^= 0x3C
			x[5] &^= 0x1F
			x[6] &^= 0xFC
		}
		if !bytes.Equal(a, b) {
			t.Failf("header is %x, expected %x", enc[pos:pos+7], stream[pos:pos+7])
		}
		pos += 7 + len(p.AU)
	}
	var d mpeg4audio.ADTSPackets
	if err = d.Unmarshal(enc); err != nil {
		t.Failf("decoding failed: %v", err)
	}
	cmpADTS(t, d, want)
	if n > 1 {
		t.NonTrivial()
	}
}

func c17Foreign(t *T) {
	n := t.Int(1, 5)
	if t.Chance(1, 60) {
		n = t.Int(6, 300)
	}
	var stream []byte
	var want []*mpeg4audio.ADTSPacket
	bounds := map[int]bool{}
	bad := t.Weighted(8, 1, 1, 1, 1, 1, 1, 1)
	badAt := t.Pick(n)
	for i := 0; i < n; i++ {
		f := genADTSFields(t)
		au := t.Bytes(aacAULen(t, 1))
		f.frameLen = 7 + len(au)
		if i == badAt {
			switch bad {
			case 1: // checksum
				f.protAbsent = 0
				f.frameLen += 2
			case 2:
				f.blocks = t.Int(1, 3)
			case 3:
				f.sr = t.Int(13, 15)
			case 4:
				au = nil
				f.frameLen = t.Int(0, 7)
			case 5:
				au = t.Bytes(t.Int(mpeg4audio.MaxAccessUnitSize+1, 8191-7))
				f.frameLen = 7 + len(au)
			case 6: // longer than what is available
				if i == n-1 {
					f.frameLen = min(8191, f.frameLen+t.Int(1, 50))
				} else {
					bad = 0
				}
			}
		}
		b := f.write(au)
		if i == badAt && bad == 7 {
			k := t.Pick(12)
			b[k/8] ^= 0x80 >> uint(k%8)
		}
		stream = append(stream, b...)
		bounds[len(stream)] = true
		want = append(want, &mpeg4audio.ADTSPacket{
			Type: mpeg4audio.ObjectType(f.profile + 1), SampleRate: aacRates[min(f.sr, 12)],
			ChannelConfig: uint8(f.ch), ChannelCount: aacChannels[f.ch], AU: au,
		})
		t.Logf("%+v au=%s", f, Hex(au))
	}
	t.Classf("bad=%d", bad)
	in := append([]byte(nil), stream...)
	var d mpeg4audio.ADTSPackets
	err := d.Unmarshal(in)
	if !bytes.Equal(in, stream) {
		t.Failf("input was modified")
	}
	if bad != 0 {
		t.NonTrivial()
		if err == nil {
			t.Failf("invalid stream (kind %d) accepted", bad)
		}
		return
	}
	if err != nil {
		t.Failf("valid stream rejected: %v", err)
	}
	cmpADTS(t, d, want)
	for k := 0; k < 12; k++ {
		cut := t.Pick(len(stream))
		var d2 mpeg4audio.ADTSPackets
		if err = d2.Unmarshal(stream[:cut:cut]); (err == nil) != bounds[cut] {
			t.Failf("truncation at %d of %d: %v", cut, len(stream), err)
		}
	}
	if n > 1 {
		t.NonTrivial()
	}
}

func c17Limits(t *T) {
	l := int(t.Edge(5000, 9000))
	switch t.Pick(4) {
	case 0:
		l = 8191 - 7 + t.Int(-2, 2)
	case 1:
		l = mpeg4audio.MaxAccessUnitSize + t.Int(-2, 2)
	}
	p := &mpeg4audio.ADTSPacket{Type: 2, SampleRate: 48000, ChannelConfig: 2, ChannelCount: 2, AU: t.Bytes(l)}
	small := &mpeg4audio.ADTSPacket{Type: 2, SampleRate: 48000, ChannelConfig: 2, ChannelCount: 2, AU: []byte{1, 2, 3}}
	pk := mpeg4audio.ADTSPackets{p, small}
	if t.Bool() {
		pk = mpeg4audio.ADTSPackets{small, p}
	}
	t.Logf("access unit of %d bytes", l)
	enc, err := pk.Marshal()
	if l+7 > 8191 {
		if err == nil {
			t.Failf("access unit of %d bytes accepted", l)
		}
		t.NonTrivial()
		t.Class("too-big")
		return
	}
	if l > mpeg4audio.MaxAccessUnitSize {
		// above the documented maximum: refused when encoding or decoding
		t.Class("above-maximum")
		if err == nil {
			var d mpeg4audio.ADTSPackets
			if d.Unmarshal(enc) == nil {
				t.Failf("access unit of %d bytes accepted", l)
			}
		}
		return
	}
	if err != nil {
		t.Failf("access unit of %d bytes: %v", l, err)
	}
	var d mpeg4audio.ADTSPackets
	if err = d.Unmarshal(enc); err != nil {
		t.Failf("access unit of %d bytes: %v", l, err)
	}
	cmpADTS(t, d, pk)
	t.NonTrivial()
}

func c17Refused(t *T) {
	p := &mpeg4audio.ADTSPacket{Type: 2, SampleRate: 48000, ChannelConfig: 2, ChannelCount: 2, AU: []byte{1, 2}}
	switch t.Pick(4) {
	case 0:
		p.Type = mpeg4audio.ObjectType(t.Edge(-3, 40))
		if p.Type >= 1 && p.Type <= 4 {
			t.Skip()
		}
	case 1:
		p.SampleRate = int(t.Edge(-5, 100000))
		for _, r := range aacRates {
			if r == p.SampleRate {
				t.Skip()
			}
		}
	case 2:
		p.ChannelConfig = uint8(t.Edge(8, 255))
	case 3:
		p.ChannelConfig = 0
		p.ChannelCount = int(t.Edge(-3, 300))
		if p.ChannelCount >= 0 && p.ChannelCount <= 8 && p.ChannelCount != 7 {
			t.Skip()
		}
	}
	t.Logf("%+v", *p)
	enc, err := mpeg4audio.ADTSPackets{p}.Marshal()
	if err == nil {
		t.Failf("packet that can't be represented encoded as %x", enc)
	}
	t.NonTrivial()
}

func init() {
	Register(&Prop{
		ID:    "C17",
		Boost: 10,
		Title: "ADTS streams round-trip and decode exactly their frames",
		Rule: "packet sequences over all parameters, compared with an independent encoder and round-tripped; foreign streams with random free " +
			"header bits, one inconsistency, truncations; sizes at the limits; non-trivial: several packets, inconsistent or refused ones",
		Subs: []Sub{
			{Name: "round-trip", Fn: c17Round, Quick: 40000},
			{Name: "foreign", Fn: c17Foreign, Quick: 40000},
			{Name: "limits", Fn: c17Limits, Quick: 5000},
			{Name: "refused", Fn: c17Refused, Quick: 20000},
		},
	})
}
