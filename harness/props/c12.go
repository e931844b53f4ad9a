package props

import (
	"bytes"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/av1"
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

func c12Leb(t *T) {
	v := uint32(t.EdgeU(0, 1<<32-1))
	if t.Chance(1, 4) {
		b := uint(7 * t.Int(1, 4))
		v = uint32(uint64(1)<<b + uint64(t.Draw(4)) - 2)
	}
	want := ref.Leb(uint64(v), 0)
	l := av1.LEB128(v)
	t.Logf("v=%d enc=%x", v, want)
	if l.MarshalSize() != len(want) {
		t.Failf("MarshalSize is %d, expected %d", l.MarshalSize(), len(want))
	}
	spare := t.Len(0, 8)
	buf := bytes.Repeat([]byte{0xA5}, len(want)+spare)
	n := l.MarshalTo(buf)
	if n != len(want) || !bytes.Equal(buf[:n], want) {
		t.Failf("encoded %x (%d), expected %x", buf, n, want)
	}
	for _, x := range buf[n:] {
		if x != 0xA5 {
			t.Failf("bytes behind the value were written")
		}
	}
	// padded encodings, followed by other bytes
	enc := ref.Leb(uint64(v), t.Int(0, 8))
	tail := t.Bytes(t.Len(0, 8))
	in := append(append([]byte(nil), enc...), tail...)
	var d av1.LEB128
	n, err := d.Unmarshal(in)
	if err != nil || uint32(d) != v || n != len(enc) {
		t.Failf("decoding %x gives %d (%d bytes) %v", in, d, n, err)
	}
	for i := range enc {
		if _, err = d.Unmarshal(enc[:i:i]); err == nil {
			t.Failf("truncated value %x accepted", enc[:i])
		}
	}
	t.Classf("bytes=%d", len(want))
	if len(want) > 1 {
		t.NonTrivial()
	}
}

func c12LebArbitrary(t *T) {
	b := t.Bytes(t.Int(0, 10))
	for i := range b {
		if t.Chance(2, 3) {
			b[i] |= 0x80
		}
		if t.Chance(1, 3) {
			b[i] &= 0x80
		}
	}
	t.Logf("b=%x", b)
	v, n, ok := ref.UnLeb(b)
	var d av1.LEB128
	gn, err := d.Unmarshal(b)
	if (err == nil) != ok {
		t.Failf("accepted=%v, expected %v (value %d)", err == nil, ok, v)
	}
	if ok && (uint64(d) != v || gn != n) {
		t.Failf("got %d (%d bytes), expected %d (%d)", d, gn, v, n)
	}
	t.Classf("ok=%v", ok)
	if n > 1 || (!ok && len(b) >= 5) {
		t.NonTrivial()
	}
}

// genTU generates a temporal unit: OBUs without size field.
func genTU(t *T, maxOBUs int) [][]byte {
	n := t.Int(1, maxOBUs)
	tu := make([][]byte, n)
	for i := range tu {
		l := t.Len(0, 300)
		switch t.Weighted(20, 2, 1) {
		case 1:
			l = t.Int(120, 135)
		case 2:
			l = t.Int(16380, 16390)
			if t.Chance(1, 12) {
				l = t.Int(65530, 65540)
			} else if t.Chance(1, 150) {
				l = 1<<21 + t.Int(-3, 3)
			}
		}
		o := t.Bytes(1 + l)
		o[0] = byte(t.Draw(15))<<3 | byte(t.Draw(1))
		tu[i] = o
	}
	return tu
}

// withSize adds a size field to an OBU.
func withSize(o []byte, n int) []byte {
	out := []byte{o[0] | 2}
	out = append(out, ref.Leb(uint64(len(o)-1), n)...)
	return append(out, o[1:]...)
}

func c12Bitstream(t *T) {
	tu := genTU(t, av1.MaxOBUsPerTemporalUnit)
	var in [][]byte
	var want []byte
	sized, padded := 0, 0
	for _, o := range tu {
		if t.Bool() {
			p := 0
			if t.Chance(1, 3) {
				p = t.Int(2, 8)
				padded++
			}
			w := withSize(o, p)
			in = append(in, w)
			want = append(want, w...)
			sized++
		} else {
			in = append(in, o)
			want = append(want, withSize(o, 0)...)
		}
	}
	for i, o := range in {
		t.Logf("obu %d: %s", i, Hex(o))
	}
	enc, err := av1.Bitstream(in).Marshal()
	if err != nil {
		t.Failf("encoding failed: %v", err)
	}
	if !bytes.Equal(enc, want) {
		t.Failf("encoded as %s, expected %s", Hex(enc), Hex(want))
	}
	var d av1.Bitstream
	if err = d.Unmarshal(enc); err != nil {
		t.Failf("decoding failed: %v", err)
	}
	checkUnits(t, d, tu)
	t.Classf("obus=%d", len(tu))
	if sized > 0 && sized < len(tu) {
		t.NonTrivial()
		t.Class("mixed")
	}
	if len(enc) < 2000 || t.Chance(1, 20) {
		// every truncation is rejected, except the ones at OBU boundaries
		bound := map[int]bool{}
		pos := 0
		for i, o := range tu {
			w := len(withSize(o, 0))
			if in[i][0]&2 != 0 {
				w = len(in[i])
			}
			pos += w
			bound[pos] = true
		}
		step := max(1, len(enc)/200)
		for i := 0; i < len(enc); i += step {
			var d2 av1.Bitstream
			err = d2.Unmarshal(enc[:i:i])
			if (err == nil) != bound[i] {
				t.Failf("truncation at %d of %d: error %v", i, len(enc), err)
			}
		}
	}
}

func checkUnits(t *T, got, want [][]byte) {
	if len(got) != len(want) {
		t.Failf("%d units, expected %d", len(got), len(want))
	}
	for i := range want {
		if !bytes.Equal(got[i], want[i]) {
			t.Failf("unit %d is %s, expected %s", i, Hex(got[i]), Hex(want[i]))
		}
	}
}

func refBitstream(b []byte) ([][]byte, bool) {
	var out [][]byte
	if len(b) == 0 {
		return nil, false
	}
	for len(b) > 0 {
		h := b[0]
		if h&0x80 != 0 || h&4 != 0 || h&2 == 0 {
			return nil, false
		}
		v, n, ok := ref.UnLeb(b[1:])
		if !ok || uint64(len(b)-1-n) < v {
			return nil, false
		}
		o := append([]byte{h &^ 2}, b[1+n:1+n+int(v)]...)
		out = append(out, o)
		b = b[1+n+int(v):]
	}
	return out, true
}

func c12BitstreamArbitrary(t *T) {
	var b []byte
	for _, o := range genTU(t, 4) {
		b = append(b, withSize(o, t.Int(0, 3))...)
	}
	muts := t.Int(0, 3)
	for i := 0; i < muts && len(b) > 0; i++ {
		p := t.Pick(len(b))
		if t.Bool() {
			p = min(p, t.Pick(6))
		}
		switch t.Pick(4) {
		case 0:
			b[p] = byte(t.Draw(255))
		case 1:
			b[p] ^= 1 << t.Draw(7)
		case 2:
			b = b[:p]
		default:
			b = append(b[:p:p], append(t.Bytes(t.Int(1, 3)), b[p:]...)...)
		}
	}
	t.Logf("b=%s", Hex(b))
	want, ok := refBitstream(b)
	in := append([]byte(nil), b...)
	var d av1.Bitstream
	err := d.Unmarshal(in)
	if (err == nil) != ok {
		t.Failf("error %v, expected acceptance %v", err, ok)
	}
	if !bytes.Equal(in, b) {
		t.Failf("input was modified")
	}
	if ok {
		checkUnits(t, d, want)
	}
	t.Classf("ok=%v", ok)
	if muts > 0 {
		t.NonTrivial()
	}
}

func c12HeaderAll(t *T) {
	for x := 0; x < 256; x++ {
		var h av1.OBUHeader
		err := h.Unmarshal([]byte{byte(x)})
		ok := x&0x80 == 0 && x&4 == 0
		if (err == nil) != ok {
			t.Failf("header %02x: %v", x, err)
		}
		if ok && (int(h.Type) != x>>3&15 || h.HasSize != (x&2 != 0)) {
			t.Failf("header %02x decoded as %+v", x, h)
		}
		// an OBU whose header is invalid can't be encoded
		_, err = av1.Bitstream{[]byte{byte(x &^ 2), 1, 2}}.Marshal()
		if (err == nil) != ok {
			t.Failf("encoding of an OBU with header %02x: %v", x, err)
		}
	}
	var h av1.OBUHeader
	if h.Unmarshal(nil) == nil {
		t.Failf("empty header accepted")
	}
	if _, err := (av1.Bitstream{{0x10}, {}}).Marshal(); err == nil {
		t.Failf("empty OBU accepted when encoding")
	}
	t.Enumerated(256, 256)
	t.NonTrivial()
	t.Logf("all 256 OBU header bytes")
}

func init() {
	Register(&Prop{
		ID:    "C12",
		Boost: 6,
		Title: "AV1 size fields, OBU headers and bitstreams round-trip",
		Rule: "boundary-biased integers with padded encodings and truncations, arbitrary LEB128 strings, temporal units mixing OBUs with and " +
			"without size field, mutated bitstreams, all header bytes; non-trivial: multi-byte values, mixed or mutated bitstreams",
		Subs: []Sub{
			{Name: "leb128", Fn: c12Leb, Quick: 200000},
			{Name: "leb128-arbitrary", Fn: c12LebArbitrary, Quick: 200000},
			{Name: "bitstream", Fn: c12Bitstream, Quick: 30000},
			{Name: "bitstream-arbitrary", Fn: c12BitstreamArbitrary, Quick: 100000},
			{Name: "headers", Fn: c12HeaderAll, Once: true},
		},
	})
}
