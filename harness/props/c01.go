package props

import (
	"bytes"
	"strings"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

// edgeBits appends fields with boundary values: exp-Golomb codes, runs, flags.
func edgeBits(t *T, w *ref.BitWriter, n int) {
	for ; n > 0; n-- {
		switch t.Pick(8) {
		case 0: // any code, up to 32 leading zeros and more
			z := t.Int(0, 34)
			for i := 0; i < z; i++ {
				w.U(0, 1)
			}
			w.U(1, 1)
			for i := 0; i < z; i++ {
				w.U(t.Draw(1), 1)
			}
		case 1: // small code
			w.UE(uint64(t.Pick(4)))
		case 2:
			w.UE(t.EdgeU(0, 1<<32-2))
		case 3:
			for i := t.Len(1, 80); i > 0; i-- {
				w.U(0, 1)
			}
		case 4:
			for i := t.Len(1, 80); i > 0; i-- {
				w.U(1, 1)
			}
		case 5:
			w.U(t.Draw(1), 1)
		case 6:
			w.U(t.EdgeU(0, 1<<32-1), 32)
		default:
			k := t.Int(1, 16)
			w.U(t.Draw(1<<uint(k)-1), k)
		}
	}
}

// damageBits replaces a part of b, at bit level, with boundary values.
func damageBits(t *T, b []byte) []byte {
	w := &ref.BitWriter{}
	total := len(b) * 8
	if total == 0 {
		edgeBits(t, w, t.Int(1, 10))
		return w.B
	}
	cut := int(t.Draw(uint64(total)))
	for i := 0; i < cut; i++ {
		w.U(uint64(b[i/8]>>(7-i%8))&1, 1)
	}
	edgeBits(t, w, t.Len(1, 60))
	for i := cut + t.Len(0, 40); i < total; i++ { // the rest, shifted
		w.U(uint64(b[i/8]>>(7-i%8))&1, 1)
	}
	return w.B
}

func c01Damage(t *T, name string, b []byte) []byte {
	nal := strings.HasPrefix(name, "h26") && strings.HasSuffix(name, "PS")
	switch t.Weighted(2, 3, 4, 1) {
	case 0:
		t.Class("valid")
	case 1:
		for i := t.Int(1, 4); i > 0; i-- {
			b = mutateBytes(t, b)
		}
		t.Class("bytes")
	case 2:
		if nal {
			b = ref.Unescape(b)
		}
		b = damageBits(t, b)
		if t.Chance(1, 4) && len(b) > 0 {
			b = b[:t.Pick(len(b))+1]
		}
		if nal {
			b = ref.Escape(b)
		}
		t.Class("bits")
	default:
		l := t.Len(0, 400)
		if t.Chance(1, 40) {
			l = t.Int(1000, 300000)
		}
		if t.Bool() {
			b = t.Bytes(l)
		} else {
			b = append(b[:min(len(b), t.Int(0, 6))], t.ZBytes(min(l, 2000))...)
		}
		t.Class("random")
	}
	return b
}

func c01Decode(t *T) {
	d := &decoders[t.Pick(len(decoders))]
	b, aux := d.gen(t)
	b = c01Damage(t, d.name, b)
	b = b[:len(b):len(b)]
	t.Logf("%s: %s (configuration %s)", d.name, Hex(b), dump(aux))
	t.Key(append([]byte(d.name), b...))
	var err error
	if a, over := overAllocates(2<<20+200*uint64(len(b)), func() {
		v := d.mk(aux)
		if err = d.dec(v, b); err == nil {
			d.use(v)
		}
	}); over {
		t.Failf("decoding %d bytes allocated %d bytes", len(b), a)
	}
	if err == nil {
		t.Class("accepted:" + d.name)
	}
	t.NonTrivial()
}

// c01Long: long inputs made of a repeated small element.
func c01Long(t *T) {
	d := &decoders[t.Pick(len(decoders))]
	b, aux := d.gen(t)
	if t.Bool() {
		b = c01Damage(t, d.name, b)
	}
	if len(b) == 0 {
		t.Skip()
	}
	head := b[:t.Pick(len(b))+1]
	rep := b
	if t.Bool() {
		rep = b[:t.Int(1, min(len(b), 8))]
	}
	n := 1 << t.Int(12, 20)
	data := append(append([]byte{}, head...), bytes.Repeat(rep, (n+len(rep)-1)/len(rep))[:n]...)
	t.Logf("%s: %s, then %s repeated up to %d bytes", d.name, Hex(head), Hex(rep), n)
	if a, over := overAllocates(2<<20+200*uint64(len(data)), func() {
		v := d.mk(aux)
		if d.dec(v, data) == nil {
			d.use(v)
			t.Class("accepted:" + d.name)
		}
	}); over {
		t.Failf("decoding %d bytes allocated %d bytes", len(data), a)
	}
	t.NonTrivial()
}

// c01Histories: the DTS extractors on streams whose units are damaged, lost, swapped and repeated.
func c01Histories(t *T) {
	is265 := t.Bool()
	hist := genHistory(t, is265, t.Int(1, 20))
	if t.Chance(1, 3) { // another stream follows
		hist = append(hist, genHistory(t, is265, t.Int(1, 10))...)
	}
	for i := t.Weighted(1, 3, 3, 2, 1) * 2; i > 0; i-- {
		k := t.Pick(len(hist))
		a := &hist[k]
		switch t.Pick(8) {
		case 0: // lost
			if len(hist) > 1 {
				hist = append(hist[:k:k], hist[k+1:]...)
			}
		case 1: // swapped
			j := t.Pick(len(hist))
			hist[k], hist[j] = hist[j], hist[k]
		case 2:
			a.pts = t.Edge(-1<<63, 1<<63-1)
		case 3: // unit lost
			if len(a.au) > 0 {
				j := t.Pick(len(a.au))
				a.au = append(a.au[:j:j], a.au[j+1:]...)
			}
		case 4: // units repeated
			a.au = append(a.au[:len(a.au):len(a.au)], a.au...)
		default: // unit damaged
			if len(a.au) == 0 {
				continue
			}
			j := t.Pick(len(a.au))
			n := a.au[j]
			if t.Bool() {
				n = mutateBytes(t, n)
			} else {
				h := 1
				if is265 {
					h = 2
				}
				u := ref.Unescape(n)
				if len(u) > h {
					n = ref.Escape(append(u[:h:h], damageBits(t, u[h:])...))
				}
			}
			if len(n) == 0 {
				n = []byte{byte(t.Draw(255))}
			}
			a.au = append(append(a.au[:j:j], n), a.au[j+1:]...)
		}
	}
	size := 0
	for i, a := range hist {
		for _, n := range a.au {
			size += len(n)
			if t.Rendering() {
				t.Logf("unit %d (pts %d): %s", i, a.pts, Hex(n))
			}
		}
	}
	oks := 0
	if a, over := overAllocates(2<<20+400*uint64(size), func() {
		var x264 h264.DTSExtractor
		var x265 h265.DTSExtractor
		x264.Initialize()
		x265.Initialize()
		oks = 0
		for _, a := range hist {
			var err error
			if is265 {
				_, err = x265.Extract(a.au, a.pts)
			} else {
				_, err = x264.Extract(a.au, a.pts)
			}
			if err == nil {
				oks++
			}
		}
	}); over {
		t.Failf("extracting from %d bytes allocated %d bytes", size, a)
	}
	if oks > 1 {
		t.Class("extracted")
	}
	if oks < len(hist) {
		t.Class("refused")
	}
	t.NonTrivial()
}

// c01Elements: a LATM decoder on a sequence of damaged elements; the configuration persists.
func c01Elements(t *T) {
	e := &mpeg4audio.AudioMuxElement{MuxConfigPresent: true}
	var cur *mpeg4audio.StreamMuxConfig
	oks := 0
	for i, n := 0, t.Int(2, 8); i < n; i++ {
		w := &ref.BitWriter{}
		same := cur != nil && t.Bool()
		w.Flag(same)
		if !same {
			cur = genSMC(t, true)
			writeSMC(w, cur, t.Chance(1, 4))
		}
		genPayloads(t, cur, w)
		b := w.B
		if t.Chance(1, 2) {
			b = c01Damage(t, "latm", b)
		}
		b = b[:len(b):len(b)]
		err := e.Unmarshal(b)
		t.Logf("element %d: %s (%v)", i, Hex(b), err)
		if err == nil {
			oks++
			if _, err = e.Marshal(); err != nil {
				t.Class("not-encodable")
			}
		}
	}
	if oks > 0 {
		t.Class("decoded")
	}
	t.NonTrivial()
}

func init() {
	Register(&Prop{
		ID:    "C01",
		Title: "Codec decoders never crash, hang or over-allocate on arbitrary bytes",
		Rule:  "every case (valid, damaged at byte or bit level, random, long inputs; histories of damaged access units); distinct: decoder and input differ",
		Assumptions: []string{
			"NAL units, OBUs passed to extractors are not empty (splitters of the library never return empty units)",
			"allocation bound: 2 MiB + 200 bytes for each byte of input (400 in histories)",
			"a case that needs more than 25 s of CPU time is a hang",
		},
		Subs: []Sub{
			{Name: "decode", Fn: c01Decode, Quick: 4000000},
			{Name: "histories", Fn: c01Histories, Quick: 150000},
			{Name: "elements", Fn: c01Elements, Quick: 100000},
			{Name: "long", Fn: c01Long, Quick: 4000},
		},
	})
}
