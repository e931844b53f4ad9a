package props

import (
	"bytes"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/g711"
	. "verif/harness/engine" //nolint:revive
)

// refALaw is the 16-bit value of an A-law code (ITU-T G.711, table 1).
func refALaw(c byte) int {
	c ^= 0x55
	seg, m := int(c>>4)&7, int(c&15)
	v := 16*m + 8
	if seg > 0 {
		v = (v + 256) << uint(seg-1)
	}
	if c&0x80 == 0 {
		return -v
	}
	return v
}

// refMuLaw is the 16-bit value of a mu-law code (ITU-T G.711, table 2).
func refMuLaw(c byte) int {
	c = ^c
	seg, m := uint(c>>4)&7, int(c&15)
	v := (8*m+132)<<seg - 132
	if c&0x80 != 0 {
		return -v
	}
	return v
}

// refNearest is the value nearest to a sample at 14-bit resolution, ties away from zero.
func refNearest(vals *[256]int, s int) int {
	q := s >> 2 // floor
	neg := q < 0
	if neg {
		q = -q
	}
	if q == 8192 {
		q = 8191
	}
	best, bestD := -1, 1<<30
	for _, v := range vals {
		if neg {
			v = -v
		}
		if v < 0 {
			continue
		}
		d := 4*q - v
		if d < 0 {
			d = -d
		}
		if d < bestD || (d == bestD && v > best) {
			best, bestD = v, d
		}
	}
	if neg {
		return -best
	}
	return best
}

type g711Law struct {
	name string
	ref  func(byte) int
	dec  func([]byte) []byte
	dec2 func([]byte) []byte
	enc  func([]byte) ([]byte, error)
}

var g711Laws = []g711Law{
	{
		"alaw", refALaw,
		func(b []byte) []byte { var l g711.Alaw; l.Unmarshal(b); return l },
		g711.DecodeAlaw,
		func(b []byte) ([]byte, error) { return g711.Alaw(b).Marshal() },
	},
	{
		"mulaw", refMuLaw,
		func(b []byte) []byte { var l g711.Mulaw; l.Unmarshal(b); return l },
		g711.DecodeMulaw,
		func(b []byte) ([]byte, error) { return g711.Mulaw(b).Marshal() },
	},
}

func pcm(v int) []byte { return []byte{byte(v >> 8), byte(v)} }
func unpcm(b []byte) int {
	return int(int16(uint16(b[0])<<8 | uint16(b[1])))
}

func c22All(t *T) {
	n := 0
	for _, law := range g711Laws {
		var vals [256]int
		for c := 0; c < 256; c++ {
			n++
			want := law.ref(byte(c))
			vals[c] = want
			b := law.dec([]byte{byte(c)})
			if len(b) != 2 || unpcm(b) != want {
				t.Failf("%s: code %02x decoded as %x, expected %d", law.name, c, b, want)
			}
			// identity on codes
			e, err := law.enc(b)
			if err != nil || len(e) != 1 {
				t.Failf("%s: %v", law.name, err)
			}
			if e[0] != byte(c) && !(want == 0 && law.ref(e[0]) == 0) {
				t.Failf("%s: code %02x became %02x", law.name, c, e[0])
			}
		}
		prev := -1 << 20
		for s := -32768; s <= 32767; s++ {
			n++
			e, err := law.enc(pcm(s))
			if err != nil || len(e) != 1 {
				t.Failf("%s: sample %d: %v", law.name, s, err)
			}
			v := law.ref(e[0])
			if v < prev {
				t.Failf("%s: encoding is not monotonic at %d", law.name, s)
			}
			prev = v
			if want := refNearest(&vals, s); v != want {
				t.Failf("%s: sample %d encoded as %02x = %d, expected %d", law.name, s, e[0], v, want)
			}
		}
	}
	t.Enumerated(n, n)
	t.NonTrivial()
	t.Logf("all codes and all 16-bit samples of both laws")
}

// buffers are converted element by element
func c22Buffers(t *T) {
	law := g711Laws[t.Pick(2)]
	n := t.Len(0, 2000)
	if t.Chance(1, 50) {
		n = t.Long(1 << 18)
		t.Class("large")
	}
	b := t.Bytes(n)
	in := append([]byte(nil), b...)
	t.Logf("%s %s", law.name, Hex(b))
	d := law.dec(b)
	if len(d) != 2*len(b) {
		t.Failf("decoded %d bytes into %d", len(b), len(d))
	}
	for i, c := range b {
		if unpcm(d[2*i:]) != law.ref(c) {
			t.Failf("element %d of %d decoded as %d", i, len(b), unpcm(d[2*i:]))
		}
	}
	if !bytes.Equal(law.dec2(b), d) {
		t.Failf("deprecated function differs")
	}
	e, err := law.enc(b)
	if (err == nil) != (len(b)%2 == 0) {
		t.Failf("encoding of %d bytes: %v", len(b), err)
	}
	if !bytes.Equal(b, in) {
		t.Failf("input was modified")
	}
	if err != nil {
		return
	}
	if len(e) != len(b)/2 {
		t.Failf("%d bytes encoded into %d", len(b), len(e))
	}
	for i, c := range e {
		one, _ := law.enc(b[2*i : 2*i+2])
		if one[0] != c {
			t.Failf("sample %d of %d encoded as %02x, %02x when alone", i, len(e), c, one[0])
		}
	}
	if len(b) > 2 {
		t.NonTrivial()
	}
}

func init() {
	Register(&Prop{
		ID:         "C22",
		Boost:      10,
		Title:      "G.711 conversion matches the ITU-T definition for every value",
		Rule:       "all codes and all 16-bit samples by enumeration; random buffers; non-trivial: enumerated values, buffers with several elements",
		Exhaustive: true,
		Subs: []Sub{
			{Name: "all", Fn: c22All, Once: true},
			{Name: "buffers", Fn: c22Buffers, Quick: 20000},
		},
	})
}
