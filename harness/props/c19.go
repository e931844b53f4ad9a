package props

import (
	"bytes"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

// genSMC generates a stream mux configuration. When usable, it can be used to carry payloads.
func genSMC(t *T, usable bool) *mpeg4audio.StreamMuxConfig {
	c := &mpeg4audio.StreamMuxConfig{}
	if t.Chance(1, 3) {
		c.NumSubFrames = uint(t.EdgeU(0, 63))
		if usable {
			if !t.Chance(1, 8) {
				c.NumSubFrames %= 8
			}
		}
	}
	progs, lays := 1, 1
	if t.Chance(1, 3) {
		progs = t.Int(1, 4)
		if t.Chance(1, 8) {
			progs = t.Int(1, 16)
		}
	}
	for i := 0; i < progs; i++ {
		p := &mpeg4audio.StreamMuxConfigProgram{}
		if t.Chance(1, 3) {
			lays = t.Int(1, 8)
		} else {
			lays = 1
		}
		for j := 0; j < lays; j++ {
			l := &mpeg4audio.StreamMuxConfigLayer{}
			if (i == 0 && j == 0) || t.Bool() {
				l.AudioSpecificConfig = genASC(t)
			}
			if !usable && t.Chance(1, 2) {
				l.FrameLengthType = uint(t.Pick(8))
			}
			switch l.FrameLengthType {
			case 0:
				l.LatmBufferFullness = uint(t.EdgeU(0, 255))
			case 1:
				l.FrameLength = uint(t.EdgeU(0, 511))
			case 3, 4, 5:
				l.CELPframeLengthTableIndex = uint(t.EdgeU(0, 63))
			case 6, 7:
				l.HVXCframeLengthTableIndex = t.Bool()
			}
			p.Layers = append(p.Layers, l)
		}
		c.Programs = append(c.Programs, p)
	}
	if !usable && t.Chance(1, 3) {
		c.OtherDataPresent = true
		c.OtherDataLenBits = uint32(t.EdgeU(0, 1<<32-1))
	}
	c.CRCCheckPresent = t.Chance(1, 3)
	if c.CRCCheckPresent {
		c.CRCCheckSum = uint8(t.Draw(255))
	}
	return c
}

// writeSMC writes a configuration (ISO 14496-3 table 1.42), and returns where frame length types begin.
func writeSMC(w *ref.BitWriter, c *mpeg4audio.StreamMuxConfig, explicit bool) (flt []int) {
	w.U(0, 1)
	w.U(1, 1)
	w.U(uint64(c.NumSubFrames), 6)
	w.U(uint64(len(c.Programs)-1), 4)
	for i, p := range c.Programs {
		w.U(uint64(len(p.Layers)-1), 3)
		for j, l := range p.Layers {
			if i != 0 || j != 0 {
				w.Flag(l.AudioSpecificConfig == nil)
			}
			if l.AudioSpecificConfig != nil {
				writeASC(w, l.AudioSpecificConfig, explicit)
			}
			flt = append(flt, w.N)
			w.U(uint64(l.FrameLengthType), 3)
			switch l.FrameLengthType {
			case 0:
				w.U(uint64(l.LatmBufferFullness), 8)
			case 1:
				w.U(uint64(l.FrameLength), 9)
			case 3, 4, 5:
				w.U(uint64(l.CELPframeLengthTableIndex), 6)
			case 6, 7:
				w.Flag(l.HVXCframeLengthTableIndex)
			}
		}
	}
	w.Flag(c.OtherDataPresent)
	if c.OtherDataPresent {
		n := 1
		for n < 4 && c.OtherDataLenBits>>uint(8*n) != 0 {
			n++
		}
		for k := n - 1; k >= 0; k-- {
			w.Flag(k != 0)
			w.U(uint64(c.OtherDataLenBits>>uint(8*k))&255, 8)
		}
	}
	w.Flag(c.CRCCheckPresent)
	if c.CRCCheckPresent {
		w.U(uint64(c.CRCCheckSum), 8)
	}
	return flt
}

func c19Config(t *T) {
	c := genSMC(t, false)
	t.Logf("%s", dump(c))
	w := &ref.BitWriter{}
	flt := writeSMC(w, c, false)
	enc, err := c.Marshal()
	if err != nil {
		t.Failf("encoding failed: %v", err)
	}
	if !bytes.Equal(enc, w.B) {
		t.Failf("encoded as %x, expected %x", enc, w.B)
	}
	w2 := &ref.BitWriter{}
	flt2 := writeSMC(w2, c, t.Bool())
	b := append([]byte(nil), w2.B...)
	var d mpeg4audio.StreamMuxConfig
	if err = d.Unmarshal(b); err != nil {
		t.Failf("decoding failed: %v", err)
	}
	if !normEqual(&d, c) {
		t.Failf("decoded as %s", dump(d))
	}
	if !bytes.Equal(b, w2.B) {
		t.Failf("input was modified")
	}
	_ = flt
	// truncations; configurations that end before a frame length type are tolerated, as documented
	for i := 0; i < len(b); i++ {
		tolerated := -1
		for k, p := range flt2 {
			if p <= 8*i && 8*i < p+3 {
				tolerated = k
			}
		}
		var d2 mpeg4audio.StreamMuxConfig
		err = d2.Unmarshal(b[:i:i])
		if (err == nil) != (tolerated >= 0) {
			t.Failf("truncation at %d of %d: %v", i, len(b), err)
		}
		if tolerated >= 0 {
			t.Class("tolerated-truncation")
			n := 0
			for _, p := range d2.Programs {
				n += len(p.Layers)
			}
			if n != tolerated+1 {
				t.Failf("truncated configuration has %d layers, expected %d", n, tolerated+1)
			}
			enc, err = d2.Marshal()
			if err != nil {
				t.Failf("%v", err)
			}
			var d3 mpeg4audio.StreamMuxConfig
			if err = d3.Unmarshal(enc); err != nil || !normEqual(d2, d3) {
				t.Failf("truncated configuration %s became %s (%v)", dump(d2), dump(d3), err)
			}
		}
	}
	if d.Unmarshal(append(b[:len(b):len(b)], 0)) == nil {
		t.Failf("unread bytes accepted")
	}
	if len(c.Programs) > 1 || len(c.Programs[0].Layers) > 1 || c.OtherDataPresent || c.CRCCheckPresent {
		t.NonTrivial()
	}
}

func genPayloads(t *T, c *mpeg4audio.StreamMuxConfig, w *ref.BitWriter) [][][][]byte {
	var out [][][][]byte
	for s := uint(0); s <= c.NumSubFrames; s++ {
		var sub [][][]byte
		for _, p := range c.Programs {
			var prog [][]byte
			for range p.Layers {
				l := t.Len(0, 60)
				if t.Chance(1, 6) {
					l = []int{254, 255, 256, 509, 510, 511, 765, 1020}[t.Pick(8)]
				}
				if t.Chance(1, 100) {
					l = t.Long(10000)
				}
				pl := t.Bytes(l)
				prog = append(prog, pl)
				for l >= 255 {
					w.U(255, 8)
					l -= 255
				}
				w.U(uint64(l), 8)
			}
			sub = append(sub, prog)
		}
		for _, p := range sub {
			for _, l := range p {
				w.BytesOut(l)
			}
		}
		out = append(out, sub)
	}
	return out
}

// history of elements that reuse, replace or omit the configuration
func c19Elements(t *T) {
	inline := t.Chance(3, 4)
	var cur *mpeg4audio.StreamMuxConfig
	dec := &mpeg4audio.AudioMuxElement{MuxConfigPresent: inline}
	if !inline {
		cur = genSMC(t, true)
		dec.StreamMuxConfig = cur
	} else if t.Chance(1, 3) {
		// no configuration yet
		var e mpeg4audio.AudioMuxElement
		e.MuxConfigPresent = true
		if e.Unmarshal([]byte{0x80, 1, 2, 3}) == nil {
			t.Failf("element without configuration accepted")
		}
	}
	n := t.Int(1, 6)
	if t.Chance(1, 50) {
		n = t.Int(7, 60)
	}
	for i := 0; i < n; i++ {
		w := &ref.BitWriter{}
		same := false
		if inline {
			same = cur != nil && t.Bool()
			w.Flag(same)
			if !same {
				cur = genSMC(t, true)
				writeSMC(w, cur, false)
			}
		}
		pl := genPayloads(t, cur, w)
		t.Logf("element %d: inline=%v same=%v subframes=%d programs=%d: %s", i, inline, same, cur.NumSubFrames+1, len(cur.Programs), Hex(w.B))
		e := mpeg4audio.AudioMuxElement{MuxConfigPresent: inline, UseSameStreamMux: same, StreamMuxConfig: cur, Payloads: pl}
		enc, err := e.Marshal()
		if err != nil {
			t.Failf("encoding failed: %v", err)
		}
		if !bytes.Equal(enc, w.B) {
			t.Failf("encoded as %s, expected %s", Hex(enc), Hex(w.B))
		}
		if err = dec.Unmarshal(enc); err != nil {
			t.Failf("decoding failed: %v", err)
		}
		if inline && dec.UseSameStreamMux != same {
			t.Failf("UseSameStreamMux is %v", dec.UseSameStreamMux)
		}
		if !normEqual(dec.StreamMuxConfig, cur) {
			t.Failf("configuration is %s, expected %s", dump(dec.StreamMuxConfig), dump(cur))
		}
		if !normEqual(dec.Payloads, pl) {
			t.Failf("payloads differ")
		}
		for k := 0; k < 6; k++ {
			cut := t.Pick(len(enc))
			d2 := &mpeg4audio.AudioMuxElement{MuxConfigPresent: inline, StreamMuxConfig: cur}
			if d2.Unmarshal(enc[:cut:cut]) == nil {
				t.Failf("element truncated at %d of %d accepted", cut, len(enc))
			}
		}
		d2 := &mpeg4audio.AudioMuxElement{MuxConfigPresent: inline, StreamMuxConfig: cur}
		if d2.Unmarshal(append(enc[:len(enc):len(enc)], 0)) == nil {
			t.Failf("unread bytes accepted")
		}
		if same {
			t.NonTrivial()
			t.Class("same-config")
		}
		if cur.NumSubFrames > 0 || len(pl[0]) > 1 || len(pl[0][0]) > 1 {
			t.NonTrivial()
			t.Class("multiplexed")
		}
	}
	if !inline {
		t.Class("out-of-band")
	}
}

// frame lengths that are out of scope are refused
func c19Unsupported(t *T) {
	c := genSMC(t, true)
	p := c.Programs[t.Pick(len(c.Programs))]
	l := p.Layers[t.Pick(len(p.Layers))]
	l.FrameLengthType = uint(t.Int(1, 7))
	l.LatmBufferFullness = 0
	pl := genPayloads(t, c, &ref.BitWriter{})
	e := mpeg4audio.AudioMuxElement{MuxConfigPresent: t.Bool(), StreamMuxConfig: c, Payloads: pl}
	t.Logf("%s", dump(c))
	if _, err := e.Marshal(); err == nil {
		t.Failf("unsupported frame length type encoded")
	}
	w := &ref.BitWriter{}
	w.Flag(false)
	writeSMC(w, c, false)
	genPayloads(t, c, w)
	d := mpeg4audio.AudioMuxElement{MuxConfigPresent: true}
	if d.Unmarshal(w.B) == nil {
		t.Failf("unsupported frame length type decoded")
	}
	t.NonTrivial()
}

func c19Sync(t *T) {
	n := t.Int(1, 6)
	many := 1
	if t.Chance(1, 50) {
		n = t.Int(7, 700)
		many = 0
	}
	var s mpeg4audio.AudioSyncStream
	var want []byte
	big := false
	bounds := map[int]bool{}
	for i := 0; i < n; i++ {
		l := t.Len(0, 300)
		switch t.Weighted(12, 1, many) {
		case 1:
			l = t.Int(250, 260)
		case 2:
			l = 8191 + t.Int(-3, 3)
		}
		el := t.Bytes(l)
		s.AudioMuxElements = append(s.AudioMuxElements, el)
		w := &ref.BitWriter{}
		w.U(0x2B7, 11)
		w.U(uint64(l), 13)
		want = append(append(want, w.B...), el...)
		bounds[len(want)] = true
		big = big || l > 8191
		t.Logf("element of %d bytes", l)
	}
	enc, err := s.Marshal()
	if big {
		t.Class("too-big")
		if err == nil {
			t.Failf("element that is too big was encoded")
		}
		return
	}
	if err != nil {
		t.Failf("encoding failed: %v", err)
	}
	if !bytes.Equal(enc, want) {
		t.Failf("encoded as %s, expected %s", Hex(enc), Hex(want))
	}
	var d mpeg4audio.AudioSyncStream
	if err = d.Unmarshal(enc); err != nil {
		t.Failf("decoding failed: %v", err)
	}
	checkUnits(t, d.AudioMuxElements, s.AudioMuxElements)
	for k := 0; k < 10; k++ {
		cut := t.Pick(len(enc))
		var d2 mpeg4audio.AudioSyncStream
		if err = d2.Unmarshal(enc[:cut:cut]); (err == nil) != bounds[cut] {
			t.Failf("truncation at %d of %d: %v", cut, len(enc), err)
		}
	}
	bad := append([]byte(nil), enc...)
	k := t.Pick(11)
	bad[k/8] ^= 0x80 >> uint(k%8)
	if d.Unmarshal(bad) == nil {
		t.Failf("wrong sync word accepted")
	}
	if n > 1 {
		t.NonTrivial()
	}
}

func init() {
	Register(&Prop{
		ID:    "C19",
		Boost: 4,
		Title: "LATM configurations, mux elements and sync streams round-trip",
		Rule: "random configurations and element histories compared with an independent ISO 14496-3 writer, round-tripped, truncated; sync streams around " +
			"the 13-bit limit; non-trivial: several programs or layers, reused configurations, several elements",
		Subs: []Sub{
			{Name: "config", Fn: c19Config, Quick: 60000},
			{Name: "elements", Fn: c19Elements, Quick: 10000},
			{Name: "unsupported", Fn: c19Unsupported, Quick: 5000},
			{Name: "sync-stream", Fn: c19Sync, Quick: 15000},
		},
	})
}
