package props

import (
	"bytes"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

// genNALU generates a non-empty NAL unit without start code emulation, which does not end with a zero.
func genNALU(t *T, maxLen int) []byte {
	l := t.Len(1, maxLen)
	var raw []byte
	switch t.Pick(3) {
	case 0:
		raw = t.Bytes(l)
	default:
		if l > 300 {
			raw = t.Bytes(l)
		} else {
			raw = t.ZBytes(l)
		}
	}
	n := ref.Escape(raw)
	if n[len(n)-1] == 0 {
		n = append(n, 3)
	}
	return n
}

func genAU(t *T, maxNALUs, maxLen int) [][]byte {
	n := t.Len(1, maxNALUs)
	au := make([][]byte, n)
	for i := range au {
		au[i] = genNALU(t, maxLen)
	}
	return au
}

func equalAU(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func logAU(t *T, name string, au [][]byte) {
	if t.Rendering() {
		for i, n := range au {
			t.Logf("%s[%d]=%s", name, i, Hex(n))
		}
	}
}

// c05Decode: any mix of 3 and 4 byte start codes, with empty units, decodes to the units.
func c05Decode(t *T) {
	au := genAU(t, h264.MaxNALUsPerAccessUnit+3, 2000)
	logAU(t, "nalu", au)
	var buf []byte
	mixed := 0
	for i, n := range au {
		if t.Chance(1, 8) { // an empty unit
			k := 1
			if t.Chance(1, 10) {
				k = t.Int(1, 400)
			}
			for ; k > 0; k-- {
				if t.Chance(1, 3) {
					buf = append(buf, 0)
				}
				buf = append(buf, 0, 0, 1)
			}
			mixed++
		}
		if t.Bool() {
			buf = append(buf, 0)
		} else {
			mixed++
		}
		buf = append(buf, 0, 0, 1)
		buf = append(buf, n...)
		_ = i
	}
	if t.Chance(1, 10) {
		buf = append(buf, 0, 0, 1)
	}
	orig := append([]byte(nil), buf...)
	t.Logf("buf=%s", Hex(buf))
	var dec h264.AnnexB
	err := dec.Unmarshal(buf)
	if len(au) > h264.MaxNALUsPerAccessUnit {
		t.Class("too-many")
		t.NonTrivial()
		if err == nil {
			t.Failf("%d units were accepted, the limit is %d", len(au), h264.MaxNALUsPerAccessUnit)
		}
		return
	}
	if err != nil {
		t.Failf("valid stream rejected: %v", err)
	}
	if !equalAU(dec, au) {
		logAU(t, "decoded", dec)
		t.Failf("decoded units differ from the encoded ones")
	}
	if !bytes.Equal(orig, buf) {
		t.Failf("decoding modified the input")
	}
	if mixed > 0 && len(au) > 1 {
		t.NonTrivial()
		t.Class("mixed-start-codes")
	}
}

func refAnnexBParse(b []byte) ([][]byte, bool) {
	switch {
	case bytes.HasPrefix(b, []byte{0, 0, 0, 1}):
		b = b[4:]
	case bytes.HasPrefix(b, []byte{0, 0, 1}):
		b = b[3:]
	default:
		return nil, false
	}
	var out [][]byte
	for _, p := range bytes.Split(b, []byte{0, 0, 1}) {
		if p = bytes.TrimRight(p, "\x00"); len(p) != 0 {
			out = append(out, p)
		}
	}
	return out, true
}

// c05Encode: the encoding is a valid byte stream of the units, and decodes back.
func c05Encode(t *T) {
	au := genAU(t, h264.MaxNALUsPerAccessUnit, 2000)
	logAU(t, "nalu", au)
	enc, err := h264.AnnexB(au).Marshal()
	if err != nil {
		t.Failf("encoding failed: %v", err)
	}
	units, ok := refAnnexBParse(enc)
	if !ok || !equalAU(units, au) {
		t.Failf("encoding is not the byte stream of the units: %s", Hex(enc))
	}
	if !bytes.HasPrefix(enc, []byte{0, 0, 0, 1}) {
		t.Failf("first start code is not preceded by the zero byte that the format mandates")
	}
	var dec h264.AnnexB
	if err = dec.Unmarshal(enc); err != nil || !equalAU(dec, au) {
		t.Failf("round trip failed: %v", err)
	}
	if len(au) > 1 {
		t.NonTrivial()
	}
}

// c05Arbitrary: on arbitrary bytes the result is the split at start codes.
func c05Arbitrary(t *T) {
	b := t.ZBytes(t.Len(0, 300))
	if t.Chance(3, 4) {
		pre := []byte{0, 0, 1}
		if t.Bool() {
			pre = []byte{0, 0, 0, 1}
		}
		b = append(pre, b...)
	}
	t.Logf("buf=%x", b)
	want, ok := refAnnexBParse(b)
	var dec h264.AnnexB
	err := dec.Unmarshal(b)
	if !ok {
		if err == nil {
			t.Failf("accepted without an initial start code")
		}
		t.Class("no-start")
		return
	}
	if err != nil {
		if len(want) != 0 && len(want) < h264.MaxNALUsPerAccessUnit/2 {
			t.Failf("rejected: %v", err)
		}
		t.Class("rejected")
		return
	}
	var got [][]byte
	for _, n := range dec {
		if len(n) == 0 {
			t.Failf("empty unit returned")
		}
		if bytes.Contains(n, []byte{0, 0, 1}) {
			t.Failf("unit contains a start code")
		}
		if n = bytes.TrimRight(n, "\x00"); len(n) != 0 {
			got = append(got, n)
		}
	}
	if !equalAU(got, want) {
		logAU(t, "got", got)
		logAU(t, "want", want)
		t.Failf("units differ from the split at start codes")
	}
	enc, err := dec.Marshal()
	if err != nil {
		t.Failf("re-encoding failed: %v", err)
	}
	var dec2 h264.AnnexB
	if err = dec2.Unmarshal(enc); err != nil || !equalAU(dec, dec2) {
		t.Failf("decode-encode-decode is not stable: %v", err)
	}
	if len(want) > 1 {
		t.NonTrivial()
	}
}

func naluOfSize(t *T, n int) []byte {
	b := bytes.Repeat([]byte{byte(t.Int(1, 255))}, n)
	return b
}

// sizes around the access unit limit
func auSizes(t *T, limit int) (sizes []int, total int) {
	total = limit + t.Int(-3, 3)
	n := t.Int(1, 4)
	left := total
	for i := 0; i < n-1; i++ {
		s := t.Int(1, left-(n-1-i))
		sizes = append(sizes, s)
		left -= s
	}
	return append(sizes, left), total
}

func c05Limit(t *T) {
	sizes, total := auSizes(t, h264.MaxAccessUnitSize)
	var buf []byte
	au := make([][]byte, len(sizes))
	for i, s := range sizes {
		au[i] = naluOfSize(t, s)
		if t.Bool() {
			buf = append(buf, 0)
		}
		buf = append(append(buf, 0, 0, 1), au[i]...)
	}
	t.Logf("sizes=%v total=%d", sizes, total)
	t.NonTrivial()
	if total <= h264.MaxAccessUnitSize {
		var want []byte
		for _, n := range au {
			want = append(append(want, 0, 0, 0, 1), n...)
		}
		enc, err := h264.AnnexB(au).Marshal()
		if err != nil || !bytes.Equal(enc, want) {
			t.Failf("encoding differs from the units behind start codes (%v)", err)
		}
	}
	var dec h264.AnnexB
	err := dec.Unmarshal(buf)
	if total > h264.MaxAccessUnitSize {
		t.Class("over")
		if err == nil {
			t.Failf("access unit of %d bytes accepted", total)
		}
	} else {
		t.Class("within")
		if err != nil || !equalAU(dec, au) {
			t.Failf("access unit of %d bytes not decoded: %v", total, err)
		}
	}
}

func init() {
	Register(&Prop{
		ID:    "C05",
		Boost: 8,
		Title: "Annex-B byte streams decode to exactly their NAL units",
		Rule: "access units of escaped zero-heavy NAL units joined by random 3/4-byte start codes with empty units, zero-heavy " +
			"arbitrary buffers, sizes around the limits; non-trivial: more than one unit with mixed start codes, or a limit case",
		Subs: []Sub{
			{Name: "decode", Fn: c05Decode, Quick: 40000},
			{Name: "encode", Fn: c05Encode, Quick: 30000},
			{Name: "arbitrary", Fn: c05Arbitrary, Quick: 150000},
			{Name: "size-limit", Fn: c05Limit, Quick: 60, Thorough: 400},
		},
	})
}
