package props

import (
	"bytes"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

// zeroHeavy is a string dense in zeros, seldom large.
func zeroHeavy(t *T, usual int) []byte {
	if !t.Chance(1, 300) {
		return t.ZBytes(t.Len(0, usual))
	}
	t.Class("large")
	b := t.Bytes(t.Long(1 << 22))
	for i, c := range b {
		switch {
		case c < 170:
			b[i] = 0
		case c < 230:
			b[i] = c & 3
		}
	}
	return b
}

func c07Round(t *T) {
	raw := zeroHeavy(t, 400)
	if len(raw) <= 400 && t.Chance(1, 5) {
		for i := range raw { // dense escapes
			raw[i] = byte(t.Draw(3))
			if t.Chance(2, 3) {
				raw[i] = 0
			}
		}
	}
	enc := ref.Escape(raw)
	t.Logf("payload=%s escaped=%s", Hex(raw), Hex(enc))
	in := append([]byte(nil), enc...)
	dec := h264.EmulationPreventionRemove(in)
	if !bytes.Equal(dec, raw) {
		t.Failf("unescaped %s", Hex(dec))
	}
	if !bytes.Equal(in, enc) {
		t.Failf("input was modified")
	}
	d := len(enc) - len(raw)
	t.Classf("escapes=%d", min(d, 4))
	if d > 1 {
		t.NonTrivial()
	}
}

func c07Arbitrary(t *T) {
	b := zeroHeavy(t, 200)
	for i := range b {
		if len(b) <= 200 && t.Chance(1, 5) {
			b[i] = 3
		}
	}
	t.Logf("buf=%s", Hex(b))
	want := ref.Unescape(b)
	dec := h264.EmulationPreventionRemove(b)
	if !bytes.Equal(dec, want) {
		t.Failf("unescaped %s, want %s", Hex(dec), Hex(want))
	}
	if len(want) < len(b)-1 {
		t.NonTrivial()
	}
}

// every string over {0,1,2,3,4} up to a length
func c07All(t *T) {
	maxLen := 8
	if t.Tier == "thorough" {
		maxLen = 10
	}
	alphabet := []byte{0, 1, 2, 3, 4}
	n := 0
	var rec func(b []byte)
	rec = func(b []byte) {
		n++
		if got := h264.EmulationPreventionRemove(b); !bytes.Equal(got, ref.Unescape(b)) {
			t.Failf("unescape(%x) = %x, want %x", b, got, ref.Unescape(b))
		}
		if got := h264.EmulationPreventionRemove(ref.Escape(b)); !bytes.Equal(got, b) {
			t.Failf("unescape(escape(%x)) = %x", b, got)
		}
		if len(b) == maxLen {
			return
		}
		for _, c := range alphabet {
			rec(append(b[:len(b):len(b)], c))
		}
	}
	rec(nil)
	t.Enumerated(n, n)
	t.Logf("all %d strings over {0..4} up to length %d", n, maxLen)
	t.NonTrivial()
}

func init() {
	Register(&Prop{
		ID:    "C07",
		Boost: 4,
		Title: "Emulation-prevention removal inverts the standard's escaping",
		Rule: "zero-heavy payloads escaped by an independent encoder, arbitrary escape-heavy strings, all strings over {0,1,2,3,4} up " +
			"to length 8 (quick) or 10 (thorough); non-trivial: two or more escape bytes",
		Subs: []Sub{
			{Name: "round-trip", Fn: c07Round, Quick: 150000},
			{Name: "arbitrary", Fn: c07Arbitrary, Quick: 150000},
			{Name: "all-short", Fn: c07All, Once: true},
		},
	})
}
