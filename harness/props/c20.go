package props

import (
	"bytes"
	"time"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/opus"
	. "verif/harness/engine" //nolint:revive
)

// refOpusFrame is the duration of a frame, in samples at 48 kHz (RFC 6716, table 2).
func refOpusFrame(toc byte) int64 {
	cfg := int(toc >> 3)
	switch {
	case cfg < 12: // SILK: 10, 20, 40, 60 ms
		return []int64{480, 960, 1920, 2880}[cfg%4]
	case cfg < 16: // hybrid: 10, 20 ms
		return []int64{480, 960}[cfg%2]
	default: // CELT: 2.5, 5, 10, 20 ms
		return 120 << uint(cfg%4)
	}
}

func refOpusDuration(pkt []byte) int64 {
	if len(pkt) == 0 {
		return 0
	}
	switch pkt[0] % 4 {
	case 0:
		return refOpusFrame(pkt[0])
	case 1, 2:
		return 2 * refOpusFrame(pkt[0])
	}
	if len(pkt) == 1 {
		return 0
	}
	return int64(pkt[1]%64) * refOpusFrame(pkt[0])
}

func c20Durations(t *T) {
	n := 0
	check := func(p []byte) {
		n++
		want := refOpusDuration(p)
		if got := opus.PacketDuration2(p); got != want {
			t.Failf("packet %x: duration %d, expected %d", p, got, want)
		}
		if got := opus.PacketDuration(p); got != time.Duration(want)*time.Second/48000 {
			t.Failf("packet %x: duration %v, expected %d/48000", p, got, want)
		}
	}
	check(nil)
	check([]byte{})
	for a := 0; a < 256; a++ {
		check([]byte{byte(a)})
		for b := 0; b < 256; b++ {
			check([]byte{byte(a), byte(b)})
			check([]byte{byte(a), byte(b), byte(a ^ b), 1})
		}
	}
	t.Enumerated(n, n)
	t.NonTrivial()
	t.Logf("all first bytes, alone and followed by all second bytes")
}

// what follows the first two bytes does not matter
func c20Long(t *T) {
	p := t.Bytes(t.Long(1 << 18))
	if len(p) > 0 {
		p[0] = byte(t.Draw(255))
	}
	if len(p) > 1 {
		p[1] = byte(t.Draw(255))
	}
	t.Logf("%s", Hex(p))
	in := append([]byte(nil), p...)
	want := refOpusDuration(p)
	if got := opus.PacketDuration2(p); got != want {
		t.Failf("packet of %d bytes: duration %d, expected %d", len(p), got, want)
	}
	if got := opus.PacketDuration(p); got != time.Duration(want)*time.Second/48000 {
		t.Failf("packet of %d bytes: duration %v, expected %d/48000", len(p), got, want)
	}
	if !bytes.Equal(in, p) {
		t.Failf("input was modified")
	}
	if len(p) > 2 {
		t.NonTrivial()
	}
}

func c20Header(t *T) {
	h := opus.IDHeader{
		Version:              1,
		ChannelCount:         uint8(t.EdgeU(0, 255)),
		PreSkip:              uint16(t.EdgeU(0, 65535)),
		InputSampleRate:      uint32(t.EdgeU(0, 1<<32-1)),
		OutputGain:           uint16(t.EdgeU(0, 65535)),
		ChannelMappingFamily: uint8(t.EdgeU(0, 255)),
		ChannelMappingTable:  t.Bytes(t.Len(0, 257)),
	}
	enc, err := h.Marshal()
	if err != nil {
		t.Failf("%v", err)
	}
	t.Logf("%+v -> %s", h, Hex(enc))
	if len(enc) != 19+len(h.ChannelMappingTable) || !bytes.HasPrefix(enc, []byte("OpusHead\x01")) || enc[9] != h.ChannelCount ||
		enc[18] != h.ChannelMappingFamily || !bytes.Equal(enc[19:], h.ChannelMappingTable) {
		t.Failf("wrong layout: %x", enc)
	}
	in := append([]byte(nil), enc...)
	var d opus.IDHeader
	if t.Bool() {
		d = opus.IDHeader{Version: 5, ChannelCount: 9, PreSkip: 65535, InputSampleRate: 1 << 31, ChannelMappingTable: []byte{1, 2, 3}}
	}
	if err = d.Unmarshal(in); err != nil {
		t.Failf("%v", err)
	}
	if !normEqual(d, h) {
		t.Failf("decoded as %+v", d)
	}
	if !bytes.Equal(in, enc) {
		t.Failf("input was modified")
	}
	for i := 0; i < 19; i++ {
		if d.Unmarshal(in[:i:i]) == nil {
			t.Failf("truncation at %d accepted", i)
		}
	}
	bad := append([]byte(nil), enc...)
	k := t.Pick(9)
	bad[k] ^= byte(1 + t.Pick(255))
	if d.Unmarshal(bad) == nil {
		t.Failf("wrong signature or version accepted: %x", bad)
	}
	if h.ChannelMappingFamily != 0 && len(h.ChannelMappingTable) > 0 {
		t.NonTrivial()
	}
}

func init() {
	Register(&Prop{
		ID:         "C20",
		Boost:      10,
		Title:      "Opus packet durations and identification headers are exact",
		Rule:       "durations by enumeration of the first two bytes, and of packets of up to 256 KiB; headers random; non-trivial: all enumerated packets, packets longer than two bytes, headers with a mapping table",
		Exhaustive: true,
		Subs: []Sub{
			{Name: "durations", Fn: c20Durations, Once: true},
			{Name: "long-packets", Fn: c20Long, Quick: 20000},
			{Name: "header", Fn: c20Header, Quick: 60000},
		},
	})
}
