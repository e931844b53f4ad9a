package props

import (
	"bytes"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

// genASC generates a configuration in the scope of the library.
func genASC(t *T) *mpeg4audio.AudioSpecificConfig {
	rate := func() int {
		if t.Chance(1, 4) {
			return int(t.EdgeU(0, 1<<24-1))
		}
		return aacRates[t.Pick(13)]
	}
	c := &mpeg4audio.AudioSpecificConfig{Type: 2}
	c.SampleRate = rate()
	c.ChannelConfig = uint8(t.Pick(8))
	c.ChannelCount = aacChannels[c.ChannelConfig]
	switch t.Weighted(3, 1, 1) {
	case 1:
		c.ExtensionType = mpeg4audio.ObjectTypeSBR
		c.ExtensionSampleRate = rate()
	case 2:
		c.ExtensionType = mpeg4audio.ObjectTypePS
		c.ExtensionSampleRate = rate()
	}
	c.FrameLengthFlag = t.Chance(1, 3)
	c.DependsOnCoreCoder = t.Chance(1, 3)
	if c.DependsOnCoreCoder {
		c.CoreCoderDelay = uint16(t.EdgeU(0, 1<<14-1))
	}
	return c
}

func writeRate(w *ref.BitWriter, r int, explicit bool) {
	if !explicit {
		for i, x := range aacRates {
			if x == r {
				w.U(uint64(i), 4)
				return
			}
		}
	}
	w.U(15, 4)
	w.U(uint64(r), 24)
}

// writeASC writes a configuration (ISO 14496-3 1.6.2.1, 4.4.1).
func writeASC(w *ref.BitWriter, c *mpeg4audio.AudioSpecificConfig, explicit bool) {
	if c.ExtensionType != 0 {
		w.U(uint64(c.ExtensionType), 5)
	} else {
		w.U(uint64(c.Type), 5)
	}
	writeRate(w, c.SampleRate, explicit)
	w.U(uint64(c.ChannelConfig), 4)
	if c.ExtensionType != 0 {
		writeRate(w, c.ExtensionSampleRate, explicit)
		w.U(uint64(c.Type), 5)
	}
	w.Flag(c.FrameLengthFlag)
	w.Flag(c.DependsOnCoreCoder)
	if c.DependsOnCoreCoder {
		w.U(uint64(c.CoreCoderDelay), 14)
	}
	w.U(0, 1)
}

// c18Range: values that do not fit their fields are refused.
func c18Range(t *T) {
	c := genASC(t)
	switch t.Pick(4) {
	case 0:
		c.SampleRate = int(t.Edge(1<<24, 1<<40))
	case 1:
		c.SampleRate = -int(t.Edge(1, 1<<40))
	case 2:
		c.ExtensionType = mpeg4audio.ObjectTypeSBR
		c.ExtensionSampleRate = int(t.Edge(1<<24, 1<<40))
	default:
		c.ChannelCount = int(t.Edge(7, 1<<20))
		if c.ChannelCount == 8 {
			c.ChannelCount = 9
		}
	}
	t.Logf("%+v", c)
	t.NonTrivial()
	if enc, err := c.Marshal(); err == nil {
		t.Failf("encoded as %x", enc)
	}
}

func c18Round(t *T) {
	c := genASC(t)
	t.Logf("%+v", *c)
	w := &ref.BitWriter{}
	writeASC(w, c, false)
	in := *c
	switch t.Pick(3) {
	case 1:
		in.ChannelCount = 0
	case 2:
		in.ChannelConfig = 0 // deprecated way
	}
	snapshot := in
	enc, err := in.Marshal()
	if err != nil {
		t.Failf("encoding failed: %v", err)
	}
	if in != snapshot {
		t.Failf("encoding modified the configuration")
	}
	if !bytes.Equal(enc, w.B) {
		t.Failf("encoded as %x, expected %x", enc, w.B)
	}
	var d mpeg4audio.AudioSpecificConfig
	if err = d.Unmarshal(enc); err != nil {
		t.Failf("decoding failed: %v", err)
	}
	if d != *c {
		t.Failf("decoded as %+v", d)
	}
	if c.ExtensionType != 0 || c.DependsOnCoreCoder {
		t.NonTrivial()
	}
	t.Classf("ext=%d", c.ExtensionType)
}

func c18Foreign(t *T) {
	c := genASC(t)
	w := &ref.BitWriter{}
	writeASC(w, c, t.Bool())
	n := w.N
	// backward compatible extensions and padding follow
	for w.N%8 != 0 {
		w.U(t.Draw(1), 1)
	}
	b := append(w.B, t.Bytes(t.Len(0, 5))...)
	t.Logf("%+v %x", *c, b)
	var d mpeg4audio.AudioSpecificConfig
	if err := d.Unmarshal(b); err != nil {
		t.Failf("valid configuration rejected: %v", err)
	}
	if d != *c {
		t.Failf("decoded as %+v", d)
	}
	for i := 0; i < (n+7)/8; i++ {
		if d.Unmarshal(b[:i:i]) == nil {
			t.Failf("configuration truncated at %d accepted", i)
		}
	}
	t.NonTrivial()
}

// anything that is accepted survives
func c18Arbitrary(t *T) {
	var b []byte
	if t.Bool() {
		w := &ref.BitWriter{}
		writeASC(w, genASC(t), t.Bool())
		b = w.B
		for i := t.Int(1, 3); i > 0; i-- {
			b[t.Pick(len(b))] ^= 1 << t.Draw(7)
		}
	} else {
		b = t.Bytes(t.Int(1, 12))
		if t.Bool() {
			b[0] = b[0]&7 | []byte{2, 5, 29}[t.Pick(3)]<<3
		}
	}
	t.Logf("%x", b)
	var d mpeg4audio.AudioSpecificConfig
	if d.Unmarshal(b) != nil {
		t.Class("rejected")
		return
	}
	t.Class("accepted")
	t.NonTrivial()
	enc, err := d.Marshal()
	if err != nil {
		t.Failf("accepted configuration %+v can't be encoded: %v", d, err)
	}
	var d2 mpeg4audio.AudioSpecificConfig
	if err = d2.Unmarshal(enc); err != nil {
		t.Failf("re-encoded configuration %x rejected: %v", enc, err)
	}
	if d != d2 {
		t.Failf("%+v became %+v", d, d2)
	}
	w := &ref.BitWriter{}
	writeASC(w, &d, false)
	if !bytes.Equal(enc, w.B) {
		t.Failf("%+v encoded as %x, expected %x", d, enc, w.B)
	}
}

type pceModel struct {
	pce      mpeg4audio.ProgramConfigElement
	bits     int
	channels int
}

// writePCE writes a program config element (ISO 14496-3 table 4.2) without id.
func writePCE(t *T, w *ref.BitWriter) pceModel {
	var p mpeg4audio.ProgramConfigElement
	start := w.N
	p.ElementInstanceTag = uint8(t.Draw(15))
	p.ObjectType = uint8(t.Draw(3))
	p.SamplingFrequencyIndex = uint8(t.Draw(15))
	num := func(max uint64) uint8 {
		if t.Bool() {
			return uint8(t.Draw(min(2, max)))
		}
		return uint8(t.Draw(max))
	}
	p.NumFrontChannelElements = num(15)
	p.NumSideChannelElements = num(15)
	p.NumBackChannelElements = num(15)
	p.NumLFEChannelElements = num(3)
	p.NumAssocDataElements = num(7)
	p.NumValidCCElements = num(15)
	w.U(uint64(p.ElementInstanceTag), 4)
	w.U(uint64(p.ObjectType), 2)
	w.U(uint64(p.SamplingFrequencyIndex), 4)
	w.U(uint64(p.NumFrontChannelElements), 4)
	w.U(uint64(p.NumSideChannelElements), 4)
	w.U(uint64(p.NumBackChannelElements), 4)
	w.U(uint64(p.NumLFEChannelElements), 2)
	w.U(uint64(p.NumAssocDataElements), 3)
	w.U(uint64(p.NumValidCCElements), 4)
	for _, n := range []int{4, 4, 3} { // mixdowns
		x := t.Chance(1, 3)
		w.Flag(x)
		if x {
			w.U(t.Draw(1<<uint(n)-1), n)
		}
	}
	ch := 0
	for i := 0; i < int(p.NumFrontChannelElements)+int(p.NumSideChannelElements)+int(p.NumBackChannelElements); i++ {
		cpe := t.Bool()
		w.Flag(cpe)
		w.U(t.Draw(15), 4)
		ch++
		if cpe {
			ch++
		}
	}
	for i := 0; i < int(p.NumLFEChannelElements); i++ {
		w.U(t.Draw(15), 4)
		ch++
	}
	m := pceModel{channels: ch, bits: w.N - start}
	for i := 0; i < int(p.NumAssocDataElements); i++ {
		w.U(t.Draw(15), 4)
	}
	for i := 0; i < int(p.NumValidCCElements); i++ {
		w.U(t.Draw(31), 5)
	}
	w.Align()
	c := t.Len(0, 20)
	w.U(uint64(c), 8)
	w.BytesOut(t.Bytes(c))
	p.ChannelCount = ch
	m.pce = p
	return m
}

func c18PCE(t *T) {
	w := &ref.BitWriter{}
	w.U(5, 3)
	m := writePCE(t, w)
	b := w.B
	t.Logf("%+v %x", m.pce, b)
	g, err := mpeg4audio.ParsePCEFromRawDataBlock(b)
	if m.channels == 0 {
		if err == nil {
			t.Failf("program config element without channels accepted")
		}
		t.Class("no-channels")
		return
	}
	if err != nil {
		t.Failf("valid program config element rejected: %v", err)
	}
	if *g != m.pce {
		t.Failf("decoded as %+v", *g)
	}
	need := (3 + m.bits + 7) / 8
	for i := 0; i < need; i++ {
		if _, err = mpeg4audio.ParsePCEFromRawDataBlock(b[:i:i]); err == nil {
			t.Failf("element truncated at %d accepted", i)
		}
	}
	id := byte(t.Draw(7))
	if id != 5 {
		bad := append([]byte(nil), b...)
		bad[0] = bad[0]&0x1F | id<<5
		if _, err = mpeg4audio.ParsePCEFromRawDataBlock(bad); err == nil {
			t.Failf("element %d accepted as program config element", id)
		}
	}
	t.NonTrivial()
}

func c18Count(t *T) {
	b, kind, want := genRawBlock(t)
	t.Logf("element %d, raw data block %s", kind, Hex(b))
	n, err := mpeg4audio.CountChannelsFromRawDataBlock(b)
	if want == 0 {
		if err == nil {
			t.Failf("%d channels found in a block without channels", n)
		}
		return
	}
	if err != nil || n != want {
		t.Failf("%d channels (%v), expected %d", n, err, want)
	}
}

func init() {
	Register(&Prop{
		ID:    "C18",
		Boost: 8,
		Title: "MPEG-4 audio configurations round-trip and give the right channels",
		Rule: "random configurations compared with an independent ISO 14496-3 writer, round-tripped and truncated, mutated ones that are accepted, program " +
			"config elements and raw data blocks; non-trivial: extensions, core coder delays, foreign encodings, accepted mutations, skipped elements",
		Subs: []Sub{
			{Name: "round-trip", Fn: c18Round, Quick: 200000},
			{Name: "range", Fn: c18Range, Quick: 20000},
			{Name: "foreign", Fn: c18Foreign, Quick: 150000},
			{Name: "arbitrary", Fn: c18Arbitrary, Quick: 150000},
			{Name: "program-config", Fn: c18PCE, Quick: 100000},
			{Name: "raw-data-block", Fn: c18Count, Quick: 100000},
		},
	})
}
