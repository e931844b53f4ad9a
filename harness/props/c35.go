package props

import (
	"bytes"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4video"
	. "verif/harness/engine" //nolint:revive
)

// refMPEG4Config scans start codes, one after the other.
func refMPEG4Config(b []byte) bool {
	if len(b) < 4 || b[0] != 0 || b[1] != 0 || b[2] != 1 || b[3] != 0xB0 {
		return false
	}
	vo, vol := false, false
	for i := 4; i+3 < len(b); i++ {
		if b[i] != 0 || b[i+1] != 0 || b[i+2] != 1 {
			continue
		}
		switch c := b[i+3]; {
		case c <= 0x1F:
			vo = true
		case c <= 0x2F:
			vol = true
		case c == 0xB2, c == 0xB5:
		default:
			return false
		}
		i += 3
	}
	return vo && vol
}

func c35Random(t *T) {
	var b []byte
	if t.Chance(19, 20) {
		b = []byte{0, 0, 1, 0xB0}
	}
	n := t.Int(0, 7)
	if t.Chance(1, 100) {
		n = t.Int(8, 200)
	}
	for i := 0; i < n; i++ {
		b = append(b, t.ZBytes(t.Len(0, 6))...)
		switch t.Pick(12) {
		case 0:
			b = append(b, 0, 0, 1)
		case 1:
			b = append(b, 0, 0, 1, byte(t.Draw(255)))
		case 2:
			b = append(b, 0, 0, 1, []byte{0x30, 0xB0, 0xB1, 0xB3, 0xB4, 0xB6, 0xFF, 0xC0}[t.Pick(8)])
		case 3:
			b = append(b, 0, 0, 1, 0xB5)
		case 4:
			b = append(b, 0, 0, 1, 0xB2)
			if t.Chance(1, 20) { // long user data
				u := t.Bytes(t.Long(70000))
				for i := range u {
					u[i] |= 2
				}
				b = append(b, u...)
				t.Class("long")
			}
		case 5, 6:
			b = append(b, 0, 0, 1, 0x20+byte(t.Pick(16)))
		case 7:
			b = append(b, 0, 0)
		default:
			b = append(b, 0, 0, 1, byte(t.Pick(32)))
		}
	}
	if t.Bool() {
		b = append(b, t.ZBytes(t.Len(0, 4))...)
	}
	if t.Chance(1, 10) && len(b) > 0 {
		b = b[:t.Pick(len(b))]
	}
	t.Logf("%s", Hex(b))
	want := refMPEG4Config(b)
	in := append([]byte(nil), b...)
	// the capacity must not matter
	if t.Bool() {
		b = append(b, 0, 0, 1, 0x20)[:len(b)]
	} else {
		b = b[:len(b):len(b)]
	}
	err := mpeg4video.IsValidConfig(b)
	if (err == nil) != want {
		t.Failf("%s: error %v, expected acceptance %v", Hex(b), err, want)
	}
	if !bytes.Equal(in, b) {
		t.Failf("input was modified")
	}
	if want {
		t.NonTrivial()
		t.Class("accepted")
	} else if bytes.Count(b, []byte{0, 0, 1}) > 2 {
		t.NonTrivial()
		t.Class("rejected")
	}
}

// all codes in all roles
func c35Codes(t *T) {
	n := 0
	for c := 0; c < 256; c++ {
		for tail := 0; tail < 5; tail++ {
			for miss := 0; miss < 4; miss++ {
				b := []byte{0, 0, 1, 0xB0, 0xF5}
				if miss&1 == 0 {
					b = append(b, 0, 0, 1, 0x03)
				}
				if miss&2 == 0 {
					b = append(b, 0, 0, 1, 0x2A, 7)
				}
				b = append(b, 0, 0, 1, byte(c))
				b = append(b, []byte{0, 0, 1, 0}[:min(tail, 4)]...)
				n++
				if err := mpeg4video.IsValidConfig(b); (err == nil) != refMPEG4Config(b) {
					t.Failf("%x: %v", b, err)
				}
			}
			b := []byte{0, 0, 1, byte(c), 0, 0, 1, 0, 0, 0, 1, 0x20}
			if err := mpeg4video.IsValidConfig(b); (err == nil) != (c == 0xB0) {
				t.Failf("%x: %v", b, err)
			}
		}
	}
	t.Enumerated(n, n)
	t.NonTrivial()
	t.Logf("all start codes, alone and with the mandatory ones")
}

func init() {
	Register(&Prop{
		ID:    "C35",
		Boost: 10,
		Title: "MPEG-4 video configurations are validated by their start codes",
		Rule:  "byte strings dense in start codes against a reference scanner; non-trivial: accepted, or rejected with more than two start codes",
		Subs: []Sub{
			{Name: "random", Fn: c35Random, Quick: 300000},
			{Name: "codes", Fn: c35Codes, Once: true},
		},
	})
}
