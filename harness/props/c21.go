package props

import (
	"bytes"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/flac"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/jpeg"
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

func genFLAC(t *T) flac.StreamInfo {
	s := flac.StreamInfo{
		MinBlockSize: uint16(t.EdgeU(0, 65535)),
		MaxBlockSize: uint16(t.EdgeU(0, 65535)),
		MinFrameSize: uint32(t.EdgeU(0, 1<<24-1)),
		MaxFrameSize: uint32(t.EdgeU(0, 1<<24-1)),
		SampleRate:   uint32(t.EdgeU(0, 1<<20-1)),
		ChannelCount: uint8(t.Int(1, 8)),
		BitDepth:     uint8(t.Int(1, 32)),
		TotalSamples: t.EdgeU(0, 1<<36-1),
	}
	t.Fill(s.MD5[:])
	return s
}

func c21FLAC(t *T) {
	s := genFLAC(t)
	w := &ref.BitWriter{}
	w.U(uint64(s.MinBlockSize), 16)
	w.U(uint64(s.MaxBlockSize), 16)
	w.U(uint64(s.MinFrameSize), 24)
	w.U(uint64(s.MaxFrameSize), 24)
	w.U(uint64(s.SampleRate), 20)
	w.U(uint64(s.ChannelCount-1), 3)
	w.U(uint64(s.BitDepth-1), 5)
	w.U(s.TotalSamples, 36)
	w.BytesOut(s.MD5[:])
	t.Logf("%+v", s)
	enc, err := s.Marshal()
	if err != nil {
		t.Failf("%v", err)
	}
	if !bytes.Equal(enc, w.B) {
		t.Failf("encoded as %x, expected %x", enc, w.B)
	}
	var d flac.StreamInfo
	if t.Bool() {
		d = genFLAC(t)
	}
	in := append([]byte(nil), w.B...)
	in = append(in, t.Bytes(t.Int(0, 3))...)
	if err = d.Unmarshal(in); err != nil || d != s {
		t.Failf("decoded as %+v (%v)", d, err)
	}
	for i := 0; i < 34; i++ {
		var d2 flac.StreamInfo
		if d2.Unmarshal(in[:i:i]) == nil {
			t.Failf("truncation at %d accepted", i)
		}
	}
	t.NonTrivial()
}

// c21FLACRange: values that do not fit their fields are refused.
func c21FLACRange(t *T) {
	s := genFLAC(t)
	switch k := t.Pick(7); k {
	case 0:
		s.MinFrameSize = uint32(t.EdgeU(1<<24, 1<<32-1))
	case 1:
		s.MaxFrameSize = uint32(t.EdgeU(1<<24, 1<<32-1))
	case 2:
		s.SampleRate = uint32(t.EdgeU(1<<20, 1<<32-1))
	case 3:
		s.ChannelCount = uint8(t.EdgeU(9, 255))
	case 4:
		s.ChannelCount = 0
	case 5:
		s.BitDepth = uint8(t.EdgeU(33, 255))
	default:
		s.TotalSamples = t.EdgeU(1<<36, 1<<64-1)
	}
	t.Logf("%+v", s)
	t.NonTrivial()
	if enc, err := s.Marshal(); err == nil {
		t.Failf("encoded as %x", enc)
	}
}

// segment checks marker and length of a segment and returns its payload.
func c21Segment(t *T, pre, b []byte, marker byte) []byte {
	if !bytes.HasPrefix(b, pre) {
		t.Failf("the data in front of the segment was changed")
	}
	b = b[len(pre):]
	if len(b) < 4 || b[0] != 0xFF || b[1] != marker {
		t.Failf("no marker %x: %s", marker, Hex(b))
	}
	if int(b[2])<<8|int(b[3]) != len(b)-2 {
		t.Failf("length is %d, expected %d", int(b[2])<<8|int(b[3]), len(b)-2)
	}
	return b[4:]
}

func c21JPEG(t *T) {
	pre := t.Bytes(t.Int(0, 4))
	buf := func() []byte {
		b := make([]byte, len(pre), len(pre)+t.Pick(3)*40)
		copy(b, pre)
		return b
	}
	kind := t.Pick(6)
	t.Classf("kind-%d", kind)
	switch kind {
	case 0: // DQT
		var m jpeg.DefineQuantizationTable
		for i := t.Int(1, 4); i > 0; i-- {
			m.Tables = append(m.Tables, jpeg.QuantizationTable{ID: uint8(t.Pick(16)), Data: t.Bytes(64)})
		}
		p := c21Segment(t, pre, m.Marshal(buf()), 0xDB)
		var want []byte
		for _, q := range m.Tables {
			want = append(append(want, q.ID), q.Data...)
		}
		t.Logf("DQT with %d tables", len(m.Tables))
		if !bytes.Equal(p, want) {
			t.Failf("payload is %s, expected %s", Hex(p), Hex(want))
		}
		var d jpeg.DefineQuantizationTable
		if err := d.Unmarshal(p); err != nil || !normEqual(d, m) {
			t.Failf("decoded as %s (%v)", dump(d), err)
		}
		for k := 0; k < 8; k++ {
			cut := t.Pick(len(p))
			var d2 jpeg.DefineQuantizationTable
			err := d2.Unmarshal(p[:cut:cut])
			if (err == nil) != (cut%65 == 0) {
				t.Failf("truncation at %d: %v", cut, err)
			}
			if err == nil && len(d2.Tables) != cut/65 {
				t.Failf("%d tables in %d bytes", len(d2.Tables), cut)
			}
		}
		bad := append([]byte(nil), p...)
		bad[65*t.Pick(len(m.Tables))] |= byte(16 * t.Int(1, 15))
		var d2 jpeg.DefineQuantizationTable
		if d2.Unmarshal(bad) == nil {
			t.Failf("unsupported precision accepted")
		}
		// tables of 16-bit values can be written only
		for i := range m.Tables {
			if t.Chance(1, 3) {
				m.Tables[i].Precision = 1
				m.Tables[i].Data = t.Bytes(128)
				t.Class("16-bit-table")
			}
		}
		p = c21Segment(t, pre, m.Marshal(buf()), 0xDB)
		want = nil
		for _, q := range m.Tables {
			want = append(append(want, q.Precision<<4|q.ID), q.Data...)
		}
		if !bytes.Equal(p, want) {
			t.Failf("payload is %s, expected %s", Hex(p), Hex(want))
		}
		if len(m.Tables) > 1 {
			t.NonTrivial()
		}
	case 1: // DHT
		m := jpeg.DefineHuffmanTable{TableNumber: t.Pick(4), TableClass: t.Pick(2), Codes: t.Bytes(16), Symbols: t.Bytes(t.Len(0, 256))}
		p := c21Segment(t, pre, m.Marshal(buf()), 0xC4)
		want := append([]byte{byte(m.TableClass<<4 + m.TableNumber)}, m.Codes...)
		want = append(want, m.Symbols...)
		t.Logf("DHT %+v", m)
		if !bytes.Equal(p, want) {
			t.Failf("payload is %s, expected %s", Hex(p), Hex(want))
		}
		t.NonTrivial()
	case 2: // DRI
		v := uint16(t.EdgeU(0, 65535))
		var d jpeg.DefineRestartInterval
		if err := d.Unmarshal([]byte{byte(v >> 8), byte(v)}); err != nil || d.Interval != v {
			t.Failf("interval %d decoded as %d (%v)", v, d.Interval, err)
		}
		n := t.Int(0, 6)
		if (d.Unmarshal(t.Bytes(n)) == nil) != (n == 2) {
			t.Failf("DRI of %d bytes", n)
		}
		t.NonTrivial()
	case 3: // SOF
		m := jpeg.StartOfFrame1{
			Type: uint8(t.Pick(2)), Width: int(t.EdgeU(0, 65535)), Height: int(t.EdgeU(0, 65535)),
			QuantizationTableCount: uint8(t.Int(1, 2)),
		}
		p := c21Segment(t, pre, m.Marshal(buf()), 0xC0)
		t.Logf("SOF %+v: %x", m, p)
		q := m.QuantizationTableCount - 1
		want := []byte{
			8, byte(m.Height >> 8), byte(m.Height), byte(m.Width >> 8), byte(m.Width), 3,
			0, 0x21 + m.Type, 0, 1, 0x11, q, 2, 0x11, q,
		}
		if !bytes.Equal(p, want) {
			t.Failf("payload is %x, expected %x", p, want)
		}
		d := jpeg.StartOfFrame1{Type: uint8(t.Pick(2)), Width: 7, Height: 7}
		// component and table identifiers do not matter
		for _, i := range []int{6, 8, 9, 11, 12, 14} {
			p[i] = byte(t.Draw(255))
		}
		if err := d.Unmarshal(p); err != nil || d.Type != m.Type || d.Width != m.Width || d.Height != m.Height {
			t.Failf("decoded as %+v (%v)", d, err)
		}
		for i := 0; i < 15; i++ {
			if d.Unmarshal(p[:i:i]) == nil {
				t.Failf("truncation at %d accepted", i)
			}
		}
		if d.Unmarshal(append(p[:len(p):len(p)], 0)) == nil {
			t.Failf("unexpected size accepted")
		}
		i := []int{0, 5, 7, 10, 13}[t.Pick(5)]
		old := p[i]
		p[i] = byte(t.Draw(255))
		ok := p[i] == old || (i == 7 && (p[i] == 0x21 || p[i] == 0x22))
		if (d.Unmarshal(p) == nil) != ok {
			t.Failf("byte %d = %x: acceptance is %v", i, p[i], !ok)
		}
		t.NonTrivial()
	case 4: // SOS
		p := c21Segment(t, pre, jpeg.StartOfScan{}.Marshal(buf()), 0xDA)
		if !bytes.Equal(p, []byte{3, 0, 0, 1, 0x11, 2, 0x11, 0, 63, 0}) {
			t.Failf("SOS payload is %x", p)
		}
		var d jpeg.StartOfScan
		if err := d.Unmarshal(p); err != nil {
			t.Failf("%v", err)
		}
		n := t.Int(0, 14)
		if (d.Unmarshal(make([]byte, n)) == nil) != (n == 10) {
			t.Failf("SOS of %d bytes", n)
		}
	case 5: // SOI
		b := jpeg.StartOfImage{}.Marshal(buf())
		if !bytes.Equal(b, append(append([]byte(nil), pre...), 0xFF, 0xD8)) {
			t.Failf("SOI is %x", b)
		}
	}
}

func init() {
	Register(&Prop{
		ID:    "C21",
		Boost: 10,
		Title: "FLAC stream information and JPEG segments decode to the encoded values",
		Rule:  "random field values compared with an independent writer, round-tripped, truncated; non-trivial: FLAC blocks, JPEG segments with variable contents",
		Subs: []Sub{
			{Name: "flac", Fn: c21FLAC, Quick: 100000},
			{Name: "flac-range", Fn: c21FLACRange, Quick: 20000},
			{Name: "jpeg", Fn: c21JPEG, Quick: 100000},
		},
	})
}
