package props

import (
	"bytes"
	"fmt"
	"io"
	"reflect"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

// snapshot copies the exported parts of a value.
func snapshot(v any) any {
	if v == nil {
		return nil
	}
	return snap(reflect.ValueOf(v)).Interface()
}

func snap(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			p := reflect.New(v.Type().Elem())
			p.Elem().Set(snap(v.Elem()))
			out.Set(p)
		}
	case reflect.Interface:
		if !v.IsNil() {
			out.Set(snap(v.Elem()))
		}
	case reflect.Slice:
		if !v.IsNil() {
			s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			for i := 0; i < v.Len(); i++ {
				s.Index(i).Set(snap(v.Index(i)))
			}
			out.Set(s)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(snap(v.Index(i)))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				out.Field(i).Set(snap(v.Field(i)))
			}
		}
	case reflect.Func, reflect.Chan, reflect.Map:
	default:
		out.Set(v)
	}
	return out
}

// retain keeps what was obtained from a decoding, and tells whether it was altered later.
func retain(v any) func() error {
	kept := reflect.New(reflect.TypeOf(v).Elem())
	kept.Elem().Set(reflect.ValueOf(v).Elem())
	before := snapshot(kept.Interface())
	return func() error {
		if after := snapshot(kept.Interface()); !normEqual(after, before) {
			return fmt.Errorf("what was obtained from an earlier decoding became %s, was %s", dump(after), dump(before))
		}
		return nil
	}
}

// guarded replaces the byte strings of a value with copies that have spare capacity filled with a pattern,
// and gives spare capacity to the other lists; the returned function tells whether something was written there.
func guarded(v any) func() error {
	var checks []func() error
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer, reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					walk(v.Field(i))
				}
			}
		case reflect.Slice:
			if v.IsNil() || !v.CanSet() {
				return
			}
			n := v.Len()
			if v.Type().Elem().Kind() == reflect.Uint8 {
				pat := []byte{0, 0, 1, 0x65, 0, 0, 3, 1, 0xFF, 0xFF, 0, 0, 0, 1, 9, 0x47}
				back := append(append(make([]byte, 0, n+16), v.Bytes()...), pat...)
				s := reflect.ValueOf(back[:n]).Convert(v.Type())
				v.Set(s)
				checks = append(checks, func() error {
					if !bytes.Equal(back[n:], pat) {
						return fmt.Errorf("the bytes behind a buffer of %d bytes were overwritten", n)
					}
					return nil
				})
				return
			}
			back := reflect.MakeSlice(v.Type(), n+2, n+2)
			reflect.Copy(back, v)
			v.Set(back.Slice(0, n))
			for i := 0; i < n; i++ {
				walk(v.Index(i))
			}
			checks = append(checks, func() error {
				if !back.Index(n).IsZero() || !back.Index(n+1).IsZero() {
					return fmt.Errorf("the capacity behind a list of %d elements was overwritten", n)
				}
				return nil
			})
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	walk(reflect.ValueOf(v))
	return func() error {
		for _, c := range checks {
			if err := c(); err != nil {
				return err
			}
		}
		return nil
	}
}

// pure runs an encoding twice on a guarded value and checks that it has no side effects.
func pure(t *T, what string, v any, enc func() ([]byte, error)) []byte {
	check := guarded(v)
	before := snapshot(v)
	a, err1 := enc()
	a = append([]byte{}, a...)
	if !normEqual(snapshot(v), before) {
		t.Failf("%s: encoding modified the value: %s became %s", what, dump(before), dump(snapshot(v)))
	}
	if err := check(); err != nil {
		t.Failf("%s: %v", what, err)
	}
	b, err2 := enc()
	if (err1 == nil) != (err2 == nil) || (err1 == nil && !bytes.Equal(a, b)) {
		t.Failf("%s: encoding again gives %s (%v), it was %s (%v)", what, Hex(b), err2, Hex(a), err1)
	}
	if err := check(); err != nil {
		t.Failf("%s: %v", what, err)
	}
	if err1 == nil {
		t.Class("encoded:" + what)
	}
	return a
}

// reconf sets the fields that are an input of decoding.
func reconf(d *decoder, v, aux any) {
	f := d.mk(aux)
	switch s := v.(type) {
	case *mpeg4audio.AudioMuxElement:
		n := f.(*mpeg4audio.AudioMuxElement)
		// UseSameStreamMux has a meaning with MuxConfigPresent only
		s.MuxConfigPresent, s.StreamMuxConfig, s.UseSameStreamMux = n.MuxConfigPresent, n.StreamMuxConfig, false
	default:
		rv, rf := reflect.ValueOf(v).Elem(), reflect.ValueOf(f).Elem()
		if rv.Kind() == reflect.Struct && aux != nil {
			rv.Field(0).Set(rf.Field(0))
		}
	}
}

func sameOut(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if x, ok := a[i].([]byte); ok {
			if !bytes.Equal(x, b[i].([]byte)) {
				return false
			}
		} else if a[i] != b[i] && !(a[i] != a[i]) { //nolint:gocritic // NaN
			return false
		}
	}
	return true
}

// c32Reuse: decoding into used values, input and capacity, repeated computations.
func c32Reuse(t *T) {
	d := &decoders[t.Pick(len(decoders))]
	used := d.mk(nil)
	n := t.Int(1, 3)
	kept := func() error { return nil }
	for i := 0; i < n; i++ {
		b, aux := d.gen(t)
		if t.Chance(1, 3) {
			b = c01Damage(t, d.name, b)
		}
		reconf(d, used, aux)
		err := d.dec(used, b)
		t.Logf("%s, before: %s (%v)", d.name, Hex(b), err)
		kept = func() error { return nil }
		if err == nil {
			kept = retain(used)
		}
	}
	b, aux := d.gen(t)
	if t.Chance(1, 3) {
		b = c01Damage(t, d.name, b)
	}
	b = b[:len(b):len(b)]
	t.Logf("%s, then: %s (configuration %s)", d.name, Hex(b), dump(aux))

	fresh := d.mk(aux)
	in := append([]byte{}, b...)
	aux0 := snapshot(aux)
	err := d.dec(fresh, b)
	if !bytes.Equal(b, in) {
		t.Failf("%s: decoding modified the input: %s", d.name, Hex(b))
	}
	if aux != nil && !normEqual(snapshot(aux), aux0) {
		t.Failf("%s: decoding modified the configuration", d.name)
	}

	// used value, input with spare capacity
	back := append(append(t.Bytes(t.Int(0, 9)), b...), t.ZBytes(t.Int(1, 30))...)
	off := len(back) - len(b)
	off = t.Pick(off + 1)
	copy(back[off:], b)
	back0 := append([]byte{}, back...)
	reconf(d, used, aux)
	err2 := d.dec(used, back[off:off+len(b)])
	if e := kept(); e != nil {
		t.Failf("%s: %v", d.name, e)
	}
	if !bytes.Equal(back, back0) {
		t.Failf("%s: decoding modified the input or what surrounds it", d.name)
	}
	if (err == nil) != (err2 == nil) {
		t.Failf("%s: decoding into a used value gives %v, into a fresh value %v", d.name, err2, err)
	}
	if err != nil {
		t.Class("refused")
		return
	}
	t.NonTrivial()
	t.Class("accepted:" + d.name)
	if !normEqual(used, fresh) {
		t.Failf("%s: decoding into a used value gives %s, into a fresh value %s", d.name, dump(used), dump(fresh))
	}

	// derived quantities and encoding
	before := snapshot(used)
	o1 := d.use(fresh)
	o2 := d.use(used)
	o3 := d.use(used)
	if !sameOut(o1, o2) || !sameOut(o2, o3) {
		t.Failf("%s: computations give %v, %v, %v", d.name, o1, o2, o3)
	}
	if !normEqual(snapshot(used), before) {
		t.Failf("%s: encoding modified the value", d.name)
	}
	if !bytes.Equal(back, back0) {
		t.Failf("%s: encoding modified the buffer the value was decoded from", d.name)
	}
}

// c32MP4Reuse: the same for MP4 files.
func c32MP4Reuse(t *T) {
	kind := t.Pick(3)
	gen := func() []byte {
		var b []byte
		switch kind {
		case 0:
			b = validInit(t)
		case 1:
			if t.Bool() {
				_, b, _ = genForeignFrag(t)
			} else {
				var sb seekablebuffer.Buffer
				if err := toFMP4(genFragParts(t)).Marshal(&sb); err != nil {
					t.Failf("%v", err)
				}
				b = sb.Bytes()
			}
		default:
			if t.Bool() {
				_, b, _ = genForeignPres(t)
			} else {
				var sb seekablebuffer.Buffer
				if err := toPMP4(genPres(t, 3)).Marshal(&sb); err != nil {
					t.Failf("%v", err)
				}
				b = sb.Bytes()
			}
		}
		if len(b) > 100000 {
			t.Skip()
		}
		if t.Chance(1, 4) {
			b = mutateMP4(t, b)
		}
		return b
	}
	mk := func() any { return []any{&fmp4.Init{}, &fmp4.Parts{}, &pmp4.Presentation{}}[kind] }
	dec := func(v any, b []byte) error {
		switch v := v.(type) {
		case *fmp4.Init:
			return v.Unmarshal(bytes.NewReader(b))
		case *fmp4.Parts:
			return v.Unmarshal(b)
		case *pmp4.Presentation:
			return v.Unmarshal(bytes.NewReader(b))
		}
		return nil
	}
	enc := func(v any) ([]byte, error) {
		var sb seekablebuffer.Buffer
		var err error
		switch v := v.(type) {
		case *fmp4.Init:
			err = v.Marshal(&sb)
		case *fmp4.Parts:
			err = v.Marshal(&sb)
		case *pmp4.Presentation:
			err = v.Marshal(&sb)
		}
		return sb.Bytes(), err
	}
	name := []string{"fmp4.Init", "fmp4.Parts", "pmp4.Presentation"}[kind]
	used := mk()
	kept := func() error { return nil }
	for i, n := 0, t.Int(1, 2); i < n; i++ {
		b := gen()
		err := dec(used, b)
		t.Logf("%s, before: %s (%v)", name, Hex(b), err)
		kept = func() error { return nil }
		if err == nil {
			kept = retain(used)
		}
	}
	b := gen()
	t.Logf("%s, then: %s", name, Hex(b))
	back := append(append([]byte{}, b...), 0, 0, 0, 8, 'f', 'r', 'e', 'e', 0, 0, 0, 8, 'm', 'o', 'o', 'f')
	back0 := append([]byte{}, back...)
	fresh := mk()
	err := dec(fresh, append([]byte{}, b...))
	err2 := dec(used, back[:len(b)])
	if e := kept(); e != nil {
		t.Failf("%s: %v", name, e)
	}
	if !bytes.Equal(back, back0) {
		t.Failf("%s: decoding modified the input", name)
	}
	if (err == nil) != (err2 == nil) {
		t.Failf("%s: decoding into a used value gives %v, into a fresh value %v", name, err2, err)
	}
	if err != nil {
		t.Class("refused")
		return
	}
	t.NonTrivial()
	t.Class("accepted:" + name)
	if !normEqual(snapshot(used), snapshot(fresh)) {
		t.Failf("%s: decoding into a used value gives %s, into a fresh value %s", name, dump(used), dump(fresh))
	}
	// a value that was decoded can be encoded many times
	before := snapshot(used)
	w1, e1 := enc(used)
	w2, e2 := enc(used)
	w3, e3 := enc(fresh)
	if (e1 == nil) != (e2 == nil) || (e1 == nil) != (e3 == nil) {
		t.Failf("%s: encoding gives %v, %v, %v", name, e1, e2, e3)
	}
	if e1 == nil && (!bytes.Equal(w1, w2) || !bytes.Equal(w1, w3)) {
		t.Failf("%s: encoding gives %s, %s, %s", name, Hex(w1), Hex(w2), Hex(w3))
	}
	if !normEqual(snapshot(used), before) {
		t.Failf("%s: encoding modified the value", name)
	}
	if !bytes.Equal(back, back0) {
		t.Failf("%s: encoding modified the input", name)
	}
	if p, ok := used.(*pmp4.Presentation); ok { // payloads can be requested in any order, many times
		q := fresh.(*pmp4.Presentation)
		for k := 0; k < 6 && len(p.Tracks) > 0; k++ {
			i := t.Pick(len(p.Tracks))
			if len(p.Tracks[i].Samples) == 0 {
				continue
			}
			j := t.Pick(len(p.Tracks[i].Samples))
			a, e1 := p.Tracks[i].Samples[j].GetPayload()
			b, e2 := q.Tracks[i].Samples[j].GetPayload()
			if (e1 == nil) != (e2 == nil) || !bytes.Equal(a, b) {
				t.Failf("%s: payload of sample %d/%d differs", name, i, j)
			}
			for x := range a { // they belong to the caller
				a[x] ^= 0xFF
			}
			a2, _ := p.Tracks[i].Samples[j].GetPayload()
			if !bytes.Equal(a2, b) {
				t.Failf("%s: payload of sample %d/%d changed", name, i, j)
			}
		}
	}
}

// c32Encode: encoding generated values.
func c32Encode(t *T) {
	switch t.Pick(11) {
	case 0:
		in := &fmp4.Init{}
		for i, n := 0, t.Int(1, 3); i < n; i++ {
			tr := &fmp4.InitTrack{ID: i + 1, TimeScale: 90000, Codec: genMP4Model(t, t.Pick(mp4Kinds)).codec}
			if t.Bool() {
				tr.AvgBitrate, tr.MaxBitrate = uint32(t.Draw(1<<32-1)), uint32(t.Draw(1<<32-1))
			}
			in.Tracks = append(in.Tracks, tr)
		}
		if t.Chance(1, 3) {
			in.UserData = genUserData(t)
		}
		t.Logf("init %s", dump(in))
		pure(t, "fmp4.Init", in, func() ([]byte, error) {
			var sb seekablebuffer.Buffer
			err := in.Marshal(&sb)
			return sb.Bytes(), err
		})
	case 1:
		ps := toFMP4(genFragParts(t))
		t.Logf("parts %s", dump(ps))
		pure(t, "fmp4.Parts", &ps, func() ([]byte, error) {
			var sb seekablebuffer.Buffer
			err := ps.Marshal(&sb)
			return sb.Bytes(), err
		})
	case 2:
		pr := genPres(t, 3)
		logPres(t, pr)
		p := toPMP4(pr)
		var payloads []func() error
		for i := range pr {
			for j := range pr[i].samples {
				payloads = append(payloads, guarded(&pr[i].samples[j].payload))
			}
		}
		pure(t, "pmp4.Presentation", p, func() ([]byte, error) {
			var sb seekablebuffer.Buffer
			err := p.Marshal(&sb)
			return sb.Bytes(), err
		})
		for _, c := range payloads {
			if err := c(); err != nil {
				t.Failf("%v", err)
			}
		}
	case 3:
		au := genAU(t, 8, 60)
		logAU(t, "unit", au)
		pure(t, "AVCC", &au, func() ([]byte, error) { return h264.AVCC(au).Marshal() })
		pure(t, "AnnexB", &au, func() ([]byte, error) { return h264.AnnexB(au).Marshal() })
	case 4:
		codec := t.Pick(3)
		au := genVideoAU(t, codec)
		if len(au) == 0 {
			t.Skip()
		}
		logAU(t, "unit", au)
		pure(t, fmt.Sprintf("sample-%d", codec), &au, func() ([]byte, error) {
			var s fmp4.Sample
			var err error
			switch codec {
			case 0:
				err = s.FillH264(3, au)
			case 1:
				err = s.FillH265(3, au)
			default:
				err = s.FillAV1(au)
			}
			// extraction does not touch the payload
			p := append([]byte{}, s.Payload...)
			switch codec {
			case 0:
				s.GetH264()
			case 1:
				s.GetH265()
			default:
				s.GetAV1()
			}
			if !bytes.Equal(p, s.Payload) {
				t.Failf("extraction modified the payload")
			}
			// what the sample contains does not depend on the buffers of the caller
			s2 := fmp4.Sample{Payload: s.Payload[:0:0]}
			switch codec {
			case 0:
				s2.FillH264(3, au)
			case 1:
				s2.FillH265(3, au)
			default:
				s2.FillAV1(au)
			}
			if !bytes.Equal(s.Payload, s2.Payload) || s.IsNonSyncSample != s2.IsNonSyncSample {
				t.Failf("filling again gives another sample")
			}
			return p, err
		})
	case 5:
		c := genSMC(t, true)
		e := mpeg4audio.AudioMuxElement{MuxConfigPresent: t.Bool(), UseSameStreamMux: t.Bool(), StreamMuxConfig: c}
		e.Payloads = genPayloads(t, c, &ref.BitWriter{})
		t.Logf("%s", dump(e))
		pure(t, "AudioMuxElement", &e, func() ([]byte, error) { return e.Marshal() })
		pure(t, "StreamMuxConfig", c, func() ([]byte, error) { return c.Marshal() })
		s := mpeg4audio.AudioSyncStream{AudioMuxElements: [][]byte{t.Bytes(t.Len(0, 50)), t.Bytes(t.Len(0, 50))}}
		pure(t, "AudioSyncStream", &s, func() ([]byte, error) { return s.Marshal() })
	case 6:
		var ps mpeg4audio.ADTSPackets
		for i := t.Int(1, 4); i > 0; i-- {
			ps = append(ps, &mpeg4audio.ADTSPacket{Type: 2, SampleRate: 48000, ChannelCount: t.Int(1, 2), ChannelConfig: uint8(t.Int(1, 2)), AU: t.Bytes(t.Len(1, 50))})
			ps[len(ps)-1].ChannelCount = int(ps[len(ps)-1].ChannelConfig)
		}
		pure(t, "ADTS", &ps, func() ([]byte, error) { return ps.Marshal() })
		a := genASC(t)
		pure(t, "AudioSpecificConfig", a, func() ([]byte, error) { return a.Marshal() })
	case 7:
		d := genMetadataDesc(t)
		pure(t, "MetadataDescriptor", &d, func() ([]byte, error) { return d.Marshal() })
		o := genOpusDesc(t)
		pure(t, "OpusAudioDescriptor", o, func() ([]byte, error) { return o.Marshal() })
		a := genOpusAU(t)
		pure(t, "OpusAccessUnit", &a, func() ([]byte, error) {
			b := make([]byte, a.MarshalSize(), a.MarshalSize()+8)
			n, err := a.MarshalTo(b)
			if !bytes.Equal(b[len(b):cap(b)], make([]byte, 8)) {
				t.Failf("written beyond the buffer")
			}
			return b[:n], err
		})
	default:
		c32Writer(t)
		return
	}
	t.NonTrivial()
}

// c32Writer: the MPEG-TS writer does not touch the units; writing them again to another writer gives the same stream.
func c32Writer(t *T) {
	s := genTSStream(t, tsOpts{maxTracks: 4, maxUnits: 15})
	var buf bytes.Buffer
	w := &mpegts.Writer{W: &buf}
	for _, m := range s.models {
		w.Tracks = append(w.Tracks, m.track)
	}
	tracks := snapshot(w.Tracks)
	if err := w.Initialize(); err != nil {
		t.Failf("%v", err)
	}
	for i := range s.units {
		u := &s.units[i]
		check := guarded(&u.data)
		before := cloneParts(u.data)
		if err := tsWrite(w, s.models[u.track], u); err != nil {
			t.Failf("write %d of the second writer failed: %v", i, err)
		}
		if !equalAU(before, u.data) {
			t.Failf("write %d modified the unit", i)
		}
		if err := check(); err != nil {
			t.Failf("write %d: %v", i, err)
		}
	}
	if !bytes.Equal(buf.Bytes(), s.data) {
		t.Failf("a second writer wrote another stream")
	}
	if !normEqual(snapshot(w.Tracks), tracks) {
		t.Failf("writing modified the tracks: %s became %s", dump(tracks), dump(w.Tracks))
	}
	t.Class("encoded:ts")
	t.NonTrivial()
}

// c32Reader: what the MPEG-TS reader delivered does not change afterwards, and the source is not modified.
func c32Reader(t *T) {
	f := genFlow(t, false)
	data := f.data
	if t.Chance(1, 4) {
		data = mutateTS(t, data, t.Int(1, 5))
	}
	t.Logf("%s", Hex(data))
	orig := append([]byte{}, data...)
	r := &mpegts.Reader{R: bytes.NewReader(data)}
	if err := r.Initialize(); err != nil {
		t.Class("not-opened")
		return
	}
	type held struct{ data, copies [][]byte }
	var all []held
	r.OnDecodeError(func(error) {})
	for _, tr := range r.Tracks() {
		add := func(_, _ int64, data [][]byte) error {
			all = append(all, held{data, cloneParts(data)})
			return nil
		}
		tsListen(r, tr, add,
			func(_ int64, data []byte) error { return add(0, 0, [][]byte{data}) },
			func(_ int64, data [][]byte) error { return add(0, 0, data) })
	}
	for {
		err := r.Read()
		if err != nil {
			if err != io.EOF {
				t.Failf("%v", err)
			}
			break
		}
	}
	for i, h := range all {
		if !equalAU(h.data, h.copies) {
			t.Failf("unit %d changed after it was delivered", i)
		}
	}
	if !bytes.Equal(data, orig) {
		t.Failf("the source was modified")
	}
	if len(all) > 1 {
		t.NonTrivial()
	}
}

// c32Extractors: the extractors do not touch the units, and depend on nothing but their history.
func c32Extractors(t *T) {
	is265 := t.Bool()
	hist := genHistory(t, is265, t.Int(2, 25))
	if t.Chance(1, 3) {
		hist = append(hist, genHistory(t, is265, t.Int(1, 10))...)
	}
	var a264, b264 h264.DTSExtractor
	var a265, b265 h265.DTSExtractor
	a264.Initialize()
	b264.Initialize()
	a265.Initialize()
	b265.Initialize()
	for i := range hist {
		h := &hist[i]
		if t.Chance(1, 10) && len(h.au) > 0 {
			j := t.Pick(len(h.au))
			if n := mutateBytes(t, h.au[j]); len(n) > 0 {
				h.au[j] = n
			}
		}
		plain := cloneParts(h.au)
		if t.Rendering() {
			logAU(t, fmt.Sprintf("unit %d, pts %d", i, h.pts), h.au)
		}
		check := guarded(&h.au)
		var d1, d2 int64
		var e1, e2 error
		if is265 {
			d1, e1 = a265.Extract(h.au, h.pts)
			d2, e2 = b265.Extract(plain, h.pts)
		} else {
			d1, e1 = a264.Extract(h.au, h.pts)
			d2, e2 = b264.Extract(plain, h.pts)
		}
		if d1 != d2 || (e1 == nil) != (e2 == nil) {
			t.Failf("unit %d: %d (%v) with spare capacity, %d (%v) without", i, d1, e1, d2, e2)
		}
		if !equalAU(plain, h.au) {
			t.Failf("unit %d was modified", i)
		}
		if err := check(); err != nil {
			t.Failf("unit %d: %v", i, err)
		}
		if e1 == nil && i > 0 {
			t.NonTrivial()
		}
	}
}

func init() {
	Register(&Prop{
		ID:    "C32",
		Title: "Encoding and decoding are pure: no leftovers, no side effects, deterministic",
		Rule:  "the last decoding is accepted and compared with a fresh one; values encoded twice; streams with several units",
		Assumptions: []string{
			"nil and empty lists are the same; unexported fields are compared through their effects only",
			"values left by a decoding that failed are not compared, they are decoded into again",
		},
		Subs: []Sub{
			{Name: "reuse", Fn: c32Reuse, Quick: 600000},
			{Name: "mp4-reuse", Fn: c32MP4Reuse, Quick: 15000},
			{Name: "encode", Fn: c32Encode, Quick: 60000},
			{Name: "reader", Fn: c32Reader, Quick: 15000},
			{Name: "extractors", Fn: c32Extractors, Quick: 40000},
		},
	})
}
