package props

import (
	"bytes"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/substructs"
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

// bitWidth is the number of bits needed to hold n different values.
func bitWidth(n int) int {
	w := 0
	for 1<<uint(w) < n {
		w++
	}
	return w
}

// genOpusDesc generates a valid descriptor.
func genOpusDesc(t *T) *substructs.OpusAudioDescriptor {
	d := &substructs.OpusAudioDescriptor{}
	switch t.Weighted(2, 2, 1, 3) {
	case 0:
		d.ChannelConfigCode = uint8(t.Int(0, 8))
	case 1:
		d.ChannelConfigCode = uint8([]int{0x80, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88}[t.Pick(8)])
	case 2:
		d.ChannelConfigCode = 0x81
		d.ExplicitChannelCount = t.Int(1, 2)
	default:
		d.ChannelConfigCode = 0x81
		d.MappingFamily = int(t.EdgeU(1, 255))
		d.ExplicitChannelCount = t.Int(1, 9)
		if t.Chance(1, 4) {
			d.ExplicitChannelCount = int(t.EdgeU(1, 255))
		}
		d.StreamCount = t.Int(1, d.ExplicitChannelCount)
		if t.Chance(1, 4) {
			d.StreamCount = d.ExplicitChannelCount
		}
		d.CoupledStreamCount = t.Int(0, min(d.StreamCount, 255-d.StreamCount))
		d.ChannelMapping = make([]byte, d.ExplicitChannelCount)
		for i := range d.ChannelMapping {
			m := 1<<uint(bitWidth(d.StreamCount+d.CoupledStreamCount+1)) - 1
			d.ChannelMapping[i] = byte(t.EdgeU(0, uint64(min(m, 255))))
		}
	}
	return d
}

var refOpusChannels = map[uint8]int{
	0: 2, 1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 6, 7: 7, 8: 8, 0x80: 2, 0x82: 1, 0x83: 2, 0x84: 3, 0x85: 4, 0x86: 5, 0x87: 6, 0x88: 7,
}

func c31OpusDesc(t *T) {
	d := genOpusDesc(t)
	w := &ref.BitWriter{}
	w.U(uint64(d.ChannelConfigCode), 8)
	chs := refOpusChannels[d.ChannelConfigCode]
	if d.ChannelConfigCode == 0x81 {
		chs = d.ExplicitChannelCount
		w.U(uint64(d.ExplicitChannelCount), 8)
		w.U(uint64(d.MappingFamily), 8)
		if d.MappingFamily > 0 {
			w.U(uint64(d.StreamCount-1), bitWidth(d.ExplicitChannelCount))
			w.U(uint64(d.CoupledStreamCount), bitWidth(d.StreamCount+1))
			for _, m := range d.ChannelMapping {
				w.U(uint64(m), bitWidth(d.StreamCount+d.CoupledStreamCount+1))
			}
			t.NonTrivial()
		}
	}
	t.Logf("%+v: %x", d, w.B)
	enc, err := d.Marshal()
	if err != nil || !bytes.Equal(enc, w.B) {
		t.Failf("encoded as %x (%v), expected %x", enc, err, w.B)
	}
	if d.ChannelCount() != chs {
		t.Failf("%d channels, expected %d", d.ChannelCount(), chs)
	}
	var g substructs.OpusAudioDescriptor
	if err = g.Unmarshal(enc); err != nil || !normEqual(&g, d) {
		t.Failf("decoded as %+v (%v)", g, err)
	}
	for i := range enc {
		var g2 substructs.OpusAudioDescriptor
		if g2.Unmarshal(enc[:i:i]) == nil {
			t.Failf("truncation at %d accepted", i)
		}
	}
	// the mapping of a single channel can be omitted
	if d.ChannelConfigCode == 0x81 && d.MappingFamily > 0 && d.ExplicitChannelCount == 1 {
		m := *d
		m.ChannelMapping = nil
		enc, err = m.Marshal()
		if err != nil || len(enc) != 4 || g.Unmarshal(enc) != nil || len(g.ChannelMapping) != 1 || g.ChannelMapping[0] != 0 {
			t.Failf("without mapping: encoded as %x (%v), decoded as %+v", enc, err, g)
		}
	}
	// unknown codes are refused
	c := byte(t.Draw(255))
	_, known := refOpusChannels[c]
	if c != 0x81 && (g.Unmarshal([]byte{c, 1, 0}) == nil) != known {
		t.Failf("code %x: acceptance is %v", c, !known)
	}
}

func genOpusAU(t *T) substructs.OpusAccessUnit {
	var au substructs.OpusAccessUnit
	n := t.Len(0, 300)
	if t.Chance(1, 4) {
		n = []int{254, 255, 256, 509, 510, 511, 765, 1275, 2550}[t.Pick(9)]
	}
	au.Packet = t.Bytes(n)
	h := &au.ControlHeader
	h.PayloadSize = n
	if h.StartTrimFlag = t.Chance(1, 3); h.StartTrimFlag {
		h.StartTrim = uint16(t.EdgeU(0, 1<<13-1))
	}
	if h.EndTrimFlag = t.Chance(1, 3); h.EndTrimFlag {
		h.EndTrim = uint16(t.EdgeU(0, 1<<13-1))
	}
	if h.ControlExtensionFlag = t.Chance(1, 3); h.ControlExtensionFlag {
		h.ControlExtensionLength = uint8(t.EdgeU(0, 255))
	}
	return au
}

// a PES payload with several access units
func c31OpusAU(t *T) {
	n := t.Int(1, 5)
	var stream, want []byte
	var aus []substructs.OpusAccessUnit
	for i := 0; i < n; i++ {
		au := genOpusAU(t)
		h := au.ControlHeader
		w := &ref.BitWriter{}
		w.U(0x3ff, 11)
		w.Flag(h.StartTrimFlag)
		w.Flag(h.EndTrimFlag)
		w.Flag(h.ControlExtensionFlag)
		w.U(0, 2)
		for l := len(au.Packet); ; l -= 255 {
			w.U(uint64(min(l, 255)), 8)
			if l < 255 {
				break
			}
		}
		if h.StartTrimFlag {
			w.U(uint64(h.StartTrim), 16)
		}
		if h.EndTrimFlag {
			w.U(uint64(h.EndTrim), 16)
		}
		if h.ControlExtensionFlag {
			w.U(uint64(h.ControlExtensionLength), 8)
			w.BytesOut(make([]byte, h.ControlExtensionLength))
		}
		w.BytesOut(au.Packet)
		t.Logf("unit %d: %+v", i, h)
		size := au.MarshalSize()
		if size != len(w.B) {
			t.Failf("announced size is %d, expected %d", size, len(w.B))
		}
		buf := make([]byte, size+t.Int(0, 2))
		m, err := au.MarshalTo(buf)
		if err != nil || m != size || !bytes.Equal(buf[:m], w.B) {
			t.Failf("encoded as %s (%d, %v), expected %s", Hex(buf), m, err, Hex(w.B))
		}
		bad := au
		bad.ControlHeader.PayloadSize += t.Int(1, 3)
		if _, err = bad.MarshalTo(make([]byte, bad.MarshalSize()+10)); err == nil {
			t.Failf("wrong payload size encoded")
		}
		aus = append(aus, au)
		stream = append(stream, w.B...)
		if h.StartTrimFlag || h.EndTrimFlag || h.ControlExtensionFlag {
			t.NonTrivial()
		}
		for k := 0; k < 5; k++ {
			cut := t.Pick(size)
			var g substructs.OpusAccessUnit
			if _, err = g.Unmarshal(w.B[:cut:cut]); err == nil {
				t.Failf("truncation at %d of %d accepted", cut, size)
			}
		}
		bad2 := append([]byte(nil), w.B...)
		k := t.Pick(11)
		bad2[k/8] ^= 0x80 >> uint(k%8)
		var g substructs.OpusAccessUnit
		if _, err = g.Unmarshal(bad2); err == nil {
			t.Failf("wrong prefix accepted")
		}
	}
	want = append(want, stream...)
	for i, au := range aus {
		var g substructs.OpusAccessUnit
		m, err := g.Unmarshal(stream)
		if err != nil || m != au.MarshalSize() || !normEqual(g, au) {
			t.Failf("unit %d decoded as %+v (%d, %v)", i, g.ControlHeader, m, err)
		}
		stream = stream[m:]
	}
	_ = want
	if n > 1 {
		t.NonTrivial()
	}
}

func c31Cell(t *T) {
	c := substructs.MetadataAUCell{
		MetadataServiceID: uint8(t.EdgeU(0, 255)), SequenceNumber: uint8(t.EdgeU(0, 255)), CellFragmentIndication: uint8(t.Pick(4)),
		DecoderConfigFlag: t.Bool(), RandomAccessIndicator: t.Bool(), AUCellData: t.Bytes(t.Len(0, 300)),
	}
	if t.Chance(1, 30) {
		c.AUCellData = t.Bytes(65535 - t.Int(0, 3))
	}
	w := &ref.BitWriter{}
	w.U(uint64(c.MetadataServiceID), 8)
	w.U(uint64(c.SequenceNumber), 8)
	w.U(uint64(c.CellFragmentIndication), 2)
	w.Flag(c.DecoderConfigFlag)
	w.Flag(c.RandomAccessIndicator)
	w.U(15, 4)
	w.U(uint64(len(c.AUCellData)), 16)
	w.BytesOut(c.AUCellData)
	buf := make([]byte, len(w.B)+t.Int(0, 3))
	n, err := c.MarshalTo(buf)
	t.Logf("%d bytes: %s", len(c.AUCellData), Hex(w.B))
	if err != nil || n != len(w.B) || !bytes.Equal(buf[:n], w.B) {
		t.Failf("encoded as %s (%d, %v)", Hex(buf), n, err)
	}
	// reserved bits do not matter, neither does what follows
	w.B[2] = w.B[2]&0xF0 | byte(t.Pick(16))
	in := append(append([]byte(nil), w.B...), t.Bytes(t.Int(0, 3))...)
	var g substructs.MetadataAUCell
	if n, err = g.Unmarshal(in); err != nil || n != len(w.B) || !normEqual(g, c) {
		t.Failf("decoded as %+v (%d, %v)", g, n, err)
	}
	for k := 0; k < 6; k++ {
		cut := t.Pick(len(w.B))
		if _, err = g.Unmarshal(in[:cut:cut]); err == nil {
			t.Failf("truncation at %d of %d accepted", cut, len(w.B))
		}
	}
	if len(c.AUCellData) > 0 {
		t.NonTrivial()
	}
}

func genMetadataDesc(t *T) substructs.MetadataDescriptor {
	d := substructs.MetadataDescriptor{
		MetadataApplicationFormat: uint16(t.EdgeU(0, 65535)), MetadataFormat: uint8(t.EdgeU(0, 255)),
		MetadataServiceID: uint8(t.EdgeU(0, 255)), DecoderConfigFlags: []uint8{0, 1, 2, 3, 4, 7}[t.Pick(6)], DSMCCFlag: t.Bool(),
	}
	if d.MetadataApplicationFormat == 0xFFFF {
		d.MetadataApplicationFormatIdentifier = uint32(t.EdgeU(0, 1<<32-1))
	}
	if d.MetadataFormat == 0xFF {
		d.MetadataFormatIdentifier = uint32(t.EdgeU(0, 1<<32-1))
	}
	l := func() []byte { return t.Bytes(t.Len(0, 255)) }
	if d.DSMCCFlag {
		d.ServiceIdentification = l()
	}
	switch d.DecoderConfigFlags {
	case 1:
		d.DecoderConfig = l()
	case 3:
		d.DecConfigIdentification = l()
	case 4:
		d.DecoderConfigMetadataServiceID = uint8(t.EdgeU(0, 255))
	}
	d.PrivateData = t.Bytes(t.Len(0, 60))
	return d
}

func c31Desc(t *T) {
	d := genMetadataDesc(t)
	w := &ref.BitWriter{}
	w.U(uint64(d.MetadataApplicationFormat), 16)
	if d.MetadataApplicationFormat == 0xFFFF {
		w.U(uint64(d.MetadataApplicationFormatIdentifier), 32)
		t.NonTrivial()
	}
	w.U(uint64(d.MetadataFormat), 8)
	if d.MetadataFormat == 0xFF {
		w.U(uint64(d.MetadataFormatIdentifier), 32)
		t.NonTrivial()
	}
	w.U(uint64(d.MetadataServiceID), 8)
	flagsAt := len(w.B)
	w.U(uint64(d.DecoderConfigFlags), 3)
	w.Flag(d.DSMCCFlag)
	w.U(15, 4)
	pref := func(b []byte) {
		w.U(uint64(len(b)), 8)
		w.BytesOut(b)
	}
	if d.DSMCCFlag {
		pref(d.ServiceIdentification)
		t.NonTrivial()
	}
	switch d.DecoderConfigFlags {
	case 1:
		pref(d.DecoderConfig)
	case 3:
		pref(d.DecConfigIdentification)
	case 4:
		w.U(uint64(d.DecoderConfigMetadataServiceID), 8)
	}
	fixed := len(w.B)
	w.BytesOut(d.PrivateData)
	t.Logf("%+v", d)
	enc, err := d.Marshal()
	if err != nil || !bytes.Equal(enc, w.B) {
		t.Failf("encoded as %x (%v), expected %x", enc, err, w.B)
	}
	var g substructs.MetadataDescriptor
	if err = g.Unmarshal(enc); err != nil || !normEqual(g, d) {
		t.Failf("decoded as %+v (%v)", g, err)
	}
	for i := range enc {
		// what follows the fixed part is private data
		if err = g.Unmarshal(enc[:i:i]); (err == nil) != (i >= fixed) {
			t.Failf("truncation at %d of %d (private data from %d): %v", i, len(enc), fixed, err)
		}
	}
	// reserved forms of the decoder configuration
	enc[flagsAt] = enc[flagsAt]&0x1F | byte(5+t.Pick(2))<<5
	if g.Unmarshal(enc) == nil {
		t.Failf("reserved decoder configuration flags accepted: %x", enc)
	}
}

func c31STD(t *T) {
	d := substructs.MetadataSTDDescriptor{
		MetadataInputLeakRate: uint32(t.EdgeU(0, 1<<22-1)), MetadataBufferSize: uint32(t.EdgeU(0, 1<<22-1)),
		MetadataOutputLeakRate: uint32(t.EdgeU(0, 1<<22-1)),
	}
	w := &ref.BitWriter{}
	for _, v := range []uint32{d.MetadataInputLeakRate, d.MetadataBufferSize, d.MetadataOutputLeakRate} {
		w.U(3, 2)
		w.U(uint64(v), 22)
	}
	t.Logf("%+v", d)
	enc, err := d.Marshal()
	if err != nil || !bytes.Equal(enc, w.B) {
		t.Failf("encoded as %x (%v), expected %x", enc, err, w.B)
	}
	for i := 0; i < 9; i += 3 {
		enc[i] = enc[i]&0x3f | byte(t.Pick(4)<<6)
	}
	var g substructs.MetadataSTDDescriptor
	if err = g.Unmarshal(enc); err != nil || g != d {
		t.Failf("decoded as %+v (%v)", g, err)
	}
	n := t.Int(0, 12)
	if (g.Unmarshal(make([]byte, n)) == nil) != (n == 9) {
		t.Failf("%d bytes", n)
	}
	t.NonTrivial()
}

// byte strings that decode survive another round trip
func c31Arbitrary(t *T) {
	b := t.Bytes(t.Len(0, 60))
	if t.Bool() && len(b) > 2 {
		b[0] = []byte{0x81, 0x7F, 0xFF, 0x01}[t.Pick(4)]
		if b[0] == 0x7F {
			b[1] |= 0xE0
		} else {
			b[1] = []byte{1, 2, 5, 255}[t.Pick(4)]
		}
	}
	t.Logf("%x", b)
	in := append([]byte(nil), b...)
	switch t.Pick(3) {
	case 0:
		var d, e substructs.OpusAudioDescriptor
		if d.Unmarshal(b) != nil || d.StreamCount+d.CoupledStreamCount > 255 {
			return
		}
		enc, err := d.Marshal()
		if err != nil {
			t.Failf("%v", err)
		}
		if len(enc) > len(b) {
			t.Failf("re-encoded as %x", enc)
		}
		if err = e.Unmarshal(enc); err != nil || !normEqual(d, e) {
			t.Failf("%+v became %+v (%v)", d, e, err)
		}
	case 1:
		var d, e substructs.OpusAccessUnit
		n, err := d.Unmarshal(b)
		if err != nil {
			return
		}
		if n > len(b) || d.MarshalSize() != n {
			t.Failf("%d bytes read, size is %d", n, d.MarshalSize())
		}
		enc := make([]byte, d.MarshalSize())
		if _, err = d.MarshalTo(enc); err != nil {
			t.Failf("%v", err)
		}
		if _, err = e.Unmarshal(enc); err != nil || !normEqual(d, e) {
			t.Failf("%+v became %+v (%v)", d, e, err)
		}
	case 2:
		var d, e substructs.MetadataDescriptor
		if d.Unmarshal(b) != nil {
			return
		}
		enc, err := d.Marshal()
		if err != nil || len(enc) != len(b) {
			t.Failf("re-encoded as %x (%v)", enc, err)
		}
		if err = e.Unmarshal(enc); err != nil || !normEqual(d, e) {
			t.Failf("%+v became %+v (%v)", d, e, err)
		}
	}
	if !bytes.Equal(in, b) {
		t.Failf("input was modified")
	}
	t.NonTrivial()
}

func init() {
	Register(&Prop{
		ID:    "C31",
		Boost: 6,
		Title: "MPEG-TS codec substructures round-trip and match their layout",
		Rule:  "random values compared with independent layout writers, round-tripped, truncated; arbitrary byte strings that decode; non-trivial: optional parts present, several units, accepted strings",
		Subs: []Sub{
			{Name: "opus-descriptor", Fn: c31OpusDesc, Quick: 100000},
			{Name: "opus-units", Fn: c31OpusAU, Quick: 30000},
			{Name: "metadata-cell", Fn: c31Cell, Quick: 50000},
			{Name: "metadata-descriptor", Fn: c31Desc, Quick: 60000},
			{Name: "metadata-std", Fn: c31STD, Quick: 30000},
			{Name: "arbitrary", Fn: c31Arbitrary, Quick: 200000},
		},
	})
}
