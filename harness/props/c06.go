package props

import (
	"bytes"
	"encoding/binary"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	. "verif/harness/engine" //nolint:revive
)

func refAVCC(b []byte) ([][]byte, bool) {
	var out [][]byte
	size := 0
	if len(b) == 0 {
		return nil, false
	}
	for len(b) > 0 {
		if len(b) < 4 {
			return nil, false
		}
		l := binary.BigEndian.Uint32(b)
		b = b[4:]
		if uint64(l) > uint64(len(b)) {
			return nil, false
		}
		if l > 0 {
			out = append(out, b[:l])
			size += int(l)
		}
		b = b[l:]
	}
	if len(out) == 0 || len(out) > h264.MaxNALUsPerAccessUnit || size > h264.MaxAccessUnitSize {
		return nil, false
	}
	return out, true
}

func c06Round(t *T) {
	n := t.Len(1, h264.MaxNALUsPerAccessUnit)
	au := make([][]byte, n)
	for i := range au {
		l := t.Len(1, 3000)
		if t.Chance(1, 300) { // lengths which need three bytes
			au[i] = naluOfSize(t, t.Int(3001, 400000))
			continue
		}
		if l < 300 && t.Bool() {
			au[i] = t.ZBytes(l)
		} else {
			au[i] = t.Bytes(l)
		}
	}
	logAU(t, "nalu", au)
	enc, err := h264.AVCC(au).Marshal()
	if err != nil {
		t.Failf("encoding failed: %v", err)
	}
	var want []byte
	for _, x := range au {
		want = binary.BigEndian.AppendUint32(want, uint32(len(x)))
		want = append(want, x...)
	}
	if !bytes.Equal(enc, want) {
		t.Failf("encoding differs from the length-prefixed concatenation: %s", Hex(enc))
	}
	var dec h264.AVCC
	if err = dec.Unmarshal(enc); err != nil || !equalAU(dec, au) {
		t.Failf("round trip failed: %v", err)
	}
	if n > 1 {
		t.NonTrivial()
	}
}

func c06Arbitrary(t *T) {
	var b []byte
	k := t.Len(0, 60)
	for i := 0; i < k; i++ {
		l := t.Len(0, 30)
		decl := uint32(l)
		switch t.Weighted(30, 1, 1) {
		case 1:
			decl = uint32(t.EdgeU(0, 0xFFFFFFFF))
		case 2:
			decl = uint32(int32(l) + int32(t.Int(-2, 2)))
		}
		b = binary.BigEndian.AppendUint32(b, decl)
		b = append(b, t.Bytes(l)...)
	}
	switch t.Weighted(6, 2, 1) {
	case 1:
		if len(b) > 0 {
			b = b[:t.Int(0, len(b))]
		}
	case 2:
		b = append(b, t.Bytes(t.Int(0, 5))...)
	}
	t.Logf("buf=%x", b)
	want, ok := refAVCC(b)
	orig := append([]byte(nil), b...)
	var dec h264.AVCC
	err := dec.Unmarshal(b)
	if ok != (err == nil) {
		t.Failf("accepted=%v (%v), want %v", err == nil, err, ok)
	}
	if ok {
		t.Class("accepted")
		if !equalAU(dec, want) {
			logAU(t, "got", dec)
			t.Failf("decoded units differ")
		}
	} else {
		t.Class("rejected")
	}
	if !bytes.Equal(b, orig) {
		t.Failf("decoding modified the input")
	}
	if k > 1 {
		t.NonTrivial()
	}
}

func c06Limit(t *T) {
	sizes, total := auSizes(t, h264.MaxAccessUnitSize)
	var buf []byte
	au := make([][]byte, len(sizes))
	for i, s := range sizes {
		au[i] = naluOfSize(t, s)
		buf = binary.BigEndian.AppendUint32(buf, uint32(s))
		buf = append(buf, au[i]...)
	}
	t.Logf("sizes=%v total=%d", sizes, total)
	t.NonTrivial()
	enc, err := h264.AVCC(au).Marshal()
	if err != nil {
		t.Class("not-encoded")
	} else if !bytes.Equal(enc, buf) {
		t.Failf("encoding differs from the length-prefixed concatenation")
	}
	if err != nil && total <= h264.MaxAccessUnitSize {
		t.Failf("access unit of %d bytes not encoded: %v", total, err)
	}
	var dec h264.AVCC
	err = dec.Unmarshal(buf)
	if total > h264.MaxAccessUnitSize {
		t.Class("over")
		if err == nil {
			t.Failf("access unit of %d bytes accepted", total)
		}
	} else {
		t.Class("within")
		if err != nil || !equalAU(dec, au) {
			t.Failf("access unit of %d bytes not decoded: %v", total, err)
		}
	}
}

func init() {
	Register(&Prop{
		ID:    "C06",
		Boost: 8,
		Title: "Length-prefixed (AVCC) access units round-trip and reject malformed input",
		Rule: "random units, random sequences of (declared length, bytes) with wrong lengths, truncations and empty units, sizes around " +
			"the limits; non-trivial: more than one unit or prefix, or a limit case",
		Subs: []Sub{
			{Name: "round-trip", Fn: c06Round, Quick: 40000},
			{Name: "arbitrary", Fn: c06Arbitrary, Quick: 150000},
			{Name: "size-limit", Fn: c06Limit, Quick: 60, Thorough: 400},
		},
	})
}
