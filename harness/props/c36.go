package props

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"runtime"
	"strings"
	"sync"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/ac3"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/av1"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/eac3"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg1audio"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/opus"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/substructs"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

// actor is a computation: it works on objects of its own, and reads inputs that may be shared.
// y yields to the other goroutines.
type actor struct {
	name string
	run  func(y func()) string
}

// rendering of what an actor obtains
func outcome(vs ...any) string {
	var sb strings.Builder
	for _, v := range vs {
		switch v := v.(type) {
		case error:
			fmt.Fprintf(&sb, "|%v", v)
		case []byte:
			h := fnv.New64a()
			h.Write(v) //nolint:errcheck
			fmt.Fprintf(&sb, "|%d:%x", len(v), h.Sum64())
		default:
			sb.WriteString("|" + dump(v))
		}
	}
	return sb.String()
}

// yieldReader yields on every read.
type yieldReader struct {
	*bytes.Reader
	y func()
}

func (r *yieldReader) Read(p []byte) (int, error) {
	r.y()
	return r.Reader.Read(p)
}

type yieldBuffer struct {
	seekablebuffer.Buffer
	y func()
}

func (b *yieldBuffer) Write(p []byte) (int, error) {
	b.y()
	return b.Buffer.Write(p)
}

func actDecode(t *T, d *decoder) actor {
	in, aux := d.gen(t)
	if t.Chance(1, 4) {
		in = c01Damage(t, d.name, in)
	}
	// a value decoded beforehand, that is queried by everyone
	shared := d.mk(aux)
	usable := d.dec(shared, append([]byte{}, in...)) == nil && t.Bool()
	if usable {
		t.Class("shared-value:" + d.name)
	}
	return actor{d.name, func(y func()) string {
		var out []any
		if usable {
			y()
			out = append(out, fmt.Sprint(d.use(shared)...))
		}
		for i := 0; i < 2; i++ {
			v := d.mk(aux)
			y()
			err := d.dec(v, in)
			out = append(out, err)
			if err == nil {
				y()
				out = append(out, v, fmt.Sprint(d.use(v)...))
			}
		}
		return outcome(out...)
	}}
}

func genActor(t *T) actor {
	switch t.Weighted(6, 2, 2, 2, 2, 2, 3, 3, 2, 1, 2) {
	case 0:
		return actDecode(t, &decoders[t.Pick(len(decoders))])

	case 1:
		in := &fmp4.Init{}
		for i, n := 0, t.Int(1, 3); i < n; i++ {
			in.Tracks = append(in.Tracks, &fmp4.InitTrack{ID: i + 1, TimeScale: 90000, Codec: genMP4Model(t, t.Pick(mp4Kinds)).codec})
		}
		if t.Chance(1, 3) {
			in.UserData = genUserData(t)
		}
		return actor{"fmp4.Init", func(y func()) string {
			b := &yieldBuffer{y: y}
			err := in.Marshal(b)
			if err != nil {
				return outcome(err)
			}
			var dec fmp4.Init
			err = dec.Unmarshal(&yieldReader{bytes.NewReader(b.Bytes()), y})
			return outcome(b.Bytes(), err, dec)
		}}

	case 2:
		ps := toFMP4(genFragParts(t))
		return actor{"fmp4.Parts", func(y func()) string {
			b := &yieldBuffer{y: y}
			err := ps.Marshal(b)
			if err != nil {
				return outcome(err)
			}
			y()
			var dec fmp4.Parts
			err = dec.Unmarshal(b.Bytes())
			return outcome(b.Bytes(), err, dec)
		}}

	case 3:
		p := toPMP4(genPres(t, 2))
		return actor{"pmp4.Presentation", func(y func()) string {
			b := &yieldBuffer{y: y}
			err := p.Marshal(b)
			if err != nil {
				return outcome(err)
			}
			var dec pmp4.Presentation
			err = dec.Unmarshal(&yieldReader{bytes.NewReader(b.Bytes()), y})
			out := []any{b.Bytes(), err}
			for _, tr := range dec.Tracks {
				out = append(out, tr.ID, tr.TimeScale, tr.TimeOffset, tr.Codec, len(tr.Samples))
				for i, s := range tr.Samples {
					if i > 20 {
						break
					}
					pl, err := s.GetPayload()
					out = append(out, s.Duration, s.PTSOffset, s.IsNonSyncSample, pl, err)
				}
			}
			return outcome(out...)
		}}

	case 4:
		codec := t.Pick(3)
		au := genVideoAU(t, codec)
		if len(au) == 0 {
			t.Skip()
		}
		return actor{"samples", func(y func()) string {
			var s fmp4.Sample
			var e1, e2 error
			var g [][]byte
			y()
			switch codec {
			case 0:
				e1 = s.FillH264(3, au)
				y()
				g, e2 = s.GetH264()
			case 1:
				e1 = s.FillH265(3, au)
				y()
				g, e2 = s.GetH265()
			default:
				e1 = s.FillAV1(au)
				y()
				g, e2 = s.GetAV1()
			}
			a, e3 := h264.AVCC(au).Marshal()
			y()
			b, e4 := h264.AnnexB(au).Marshal()
			return outcome(s, e1, e2, g, a, e3, b, e4)
		}}

	case 5:
		is265 := t.Bool()
		hist := genHistory(t, is265, t.Int(2, 15))
		return actor{"extractor", func(y func()) string {
			var a h264.DTSExtractor
			var b h265.DTSExtractor
			a.Initialize()
			b.Initialize()
			var out []any
			for _, h := range hist {
				y()
				var d int64
				var err error
				if is265 {
					d, err = b.Extract(h.au, h.pts)
				} else {
					d, err = a.Extract(h.au, h.pts)
				}
				out = append(out, d, err)
			}
			return outcome(out...)
		}}

	case 6:
		s := genTSStream(t, tsOpts{maxTracks: 4, maxUnits: 10})
		return actor{"mpegts.Writer", func(y func()) string {
			b := &yieldBuffer{y: y}
			w := &mpegts.Writer{W: b}
			ms := make([]*tsModel, len(s.models))
			for i, m := range s.models {
				c := *m
				tr := *m.track
				c.track = &tr
				ms[i] = &c
				w.Tracks = append(w.Tracks, &tr)
			}
			if err := w.Initialize(); err != nil {
				return outcome(err)
			}
			for i := range s.units {
				if err := tsWrite(w, ms[s.units[i].track], &s.units[i]); err != nil {
					return outcome(err)
				}
			}
			return outcome(b.Bytes())
		}}

	case 7:
		data := genTSStream(t, tsOpts{maxTracks: 4, maxUnits: 10}).data
		if t.Chance(1, 3) {
			data = mutateTS(t, data, t.Int(1, 4))
		}
		return actor{"mpegts.Reader", func(y func()) string {
			res := tsRead(&yieldReader{bytes.NewReader(data), y}, 0)
			if res.err != nil && !errors.Is(res.err, io.EOF) {
				return outcome(res.err)
			}
			out := []any{res.initErr, len(res.errs)}
			for _, tr := range res.tracks {
				out = append(out, tr.PID, fmt.Sprintf("%T", tr.Codec))
				for _, g := range res.got[tr.PID] {
					out = append(out, g.pts, g.dts)
					for _, d := range g.data {
						out = append(out, d)
					}
				}
			}
			return outcome(out...)
		}}

	case 8:
		c := genSMC(t, true)
		e := mpeg4audio.AudioMuxElement{MuxConfigPresent: t.Bool(), StreamMuxConfig: c}
		e.Payloads = genPayloads(t, c, &ref.BitWriter{})
		a := genASC(t)
		d := genOpusDesc(t)
		m := genMetadataDesc(t)
		return actor{"audio", func(y func()) string {
			var out []any
			for _, f := range []func() ([]byte, error){e.Marshal, c.Marshal, a.Marshal, d.Marshal, m.Marshal} {
				y()
				b, err := f()
				out = append(out, b, err)
			}
			return outcome(out...)
		}}

	case 9: // queries, on values that no decoder produces too
		od := &substructs.OpusAudioDescriptor{ChannelConfigCode: uint8(t.Draw(255)), ExplicitChannelCount: t.Int(0, 255)}
		mh := &mpeg1audio.FrameHeader{SampleRate: t.Int(0, 50000), Bitrate: t.Int(0, 400000), Layer: uint8(t.Pick(5)), MPEG2: t.Bool()}
		as := &ac3.SyncInfo{Fscod: uint8(t.Draw(255)), Frmsizecod: uint8(t.Draw(255))}
		ab := &ac3.BSI{Acmod: uint8(t.Draw(255)), LfeOn: t.Bool()}
		es := &eac3.SyncInfo{Frmsiz: uint16(t.Draw(1 << 16)), Fscod: uint8(t.Draw(5)), Fscod2: uint8(t.Draw(5)), Numblkscod: uint8(t.Draw(8)), Acmod: uint8(t.Draw(255)), Lfeon: t.Bool()}
		op := t.Bytes(t.Int(0, 3))
		t6, t5, tv := h264.NALUType(t.Draw(255)), h265.NALUType(t.Draw(255)), av1.OBUType(t.Draw(255))
		qs := []func() any{
			func() any { return od.ChannelCount() },
			func() any { return mh.FrameLen() },
			func() any { return mh.SampleCount() },
			func() any { return as.SampleRate() },
			func() any { return as.FrameSize() },
			func() any { return ab.ChannelCount() },
			func() any { return es.SampleRate() },
			func() any { return es.FrameSize() },
			func() any { return es.ChannelCount() },
			func() any { return es.NumBlocks() },
			func() any { return opus.PacketDuration2(op) },
			func() any { return t6.String() + t5.String() },
			func() any { return tv },
		}
		return actor{"queries", func(y func()) string {
			var out []any
			for _, q := range qs {
				y()
				out = append(out, func() (ret any) {
					defer func() {
						if r := recover(); r != nil {
							ret = fmt.Sprint("panic: ", r)
						}
					}()
					return q()
				}())
			}
			return outcome(out...)
		}}

	default:
		start := t.Edge(0, mask33)
		diffs := make([]int64, t.Int(1, 20))
		for i := range diffs {
			diffs[i] = t.Edge(-1<<31, 1<<31)
		}
		return actor{"time-decoder", func(y func()) string {
			var d mpegts.TimeDecoder
			d.Initialize()
			v := start
			var out []any
			for _, x := range diffs {
				y()
				out = append(out, d.Decode(v))
				v = (v + x) & mask33
			}
			return outcome(out...)
		}}
	}
}

func runActor(a actor, y func()) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprintf("panic: %v", r)
		}
	}()
	return a.run(y)
}

// concurrently runs lists of actors, each in its own goroutine.
func concurrently(lists [][]actor, seeds []uint64) [][]string {
	out := make([][]string, len(lists))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range lists {
		out[i] = make([]string, len(lists[i]))
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := seeds[i]
			y := func() {
				s = s*6364136223846793005 + 1442695040888963407
				if s>>40&3 == 0 {
					runtime.Gosched()
				}
			}
			<-start
			for j, a := range lists[i] {
				out[i][j] = runActor(a, y)
			}
		}()
	}
	close(start)
	wg.Wait()
	return out
}

var c36Cold sync.Once

// firstUse runs all decoders in several goroutines when the process has not used them yet.
func firstUse(t *T) {
	c36Cold.Do(func() {
		g := NewLive(1, "quick", "C36", "cold", 0)
		var lists [][]actor
		var seeds []uint64
		for i := 0; i < 4; i++ {
			lists = append(lists, nil)
			seeds = append(seeds, g.Draw(1<<60))
		}
		for i := range decoders {
			d := &decoders[i]
			in, aux := coldInput(g, d)
			a := actor{d.name, func(y func()) string {
				v := d.mk(aux)
				y()
				if err := d.dec(v, in); err != nil {
					return outcome(err)
				}
				return outcome(v, fmt.Sprint(d.use(v)...))
			}}
			for k := range lists {
				lists[k] = append(lists[k], a)
			}
		}
		res := concurrently(lists, seeds)
		for k := range lists {
			for j, a := range lists[k] {
				if want := runActor(a, func() {}); res[k][j] != want {
					t.Failf("%s, first use: %s concurrently, %s alone", a.name, res[k][j], want)
				}
			}
		}
	})
}

func coldInput(g *T, d *decoder) (in []byte, aux any) {
	for i := 0; i < 50; i++ {
		if func() (ok bool) {
			defer func() { ok = recover() == nil }() // discarded
			in, aux = d.gen(g)
			return
		}() {
			return in, aux
		}
	}
	return nil, nil
}

func c36Mixed(t *T) {
	firstUse(t)
	pool := make([]actor, t.Int(1, 6))
	for i := range pool {
		pool[i] = genActor(t)
	}
	n := t.Int(2, 8)
	lists := make([][]actor, n)
	seeds := make([]uint64, n)
	used := map[int]int{}
	same := t.Bool() // all in the same order
	for i := range lists {
		seeds[i] = t.Draw(1 << 60)
		for j, m := 0, t.Int(1, 4); j < m; j++ {
			k := t.Pick(len(pool))
			if same {
				k = j % len(pool)
			}
			used[k]++
			lists[i] = append(lists[i], pool[k])
		}
	}
	if t.Rendering() {
		for i, l := range lists {
			s := ""
			for _, a := range l {
				s += " " + a.name
			}
			t.Logf("goroutine %d:%s", i, s)
		}
	}
	got := concurrently(lists, seeds)
	for i := range lists {
		for j, a := range lists[i] {
			want := runActor(a, func() {})
			if strings.HasPrefix(want, "panic") {
				t.Failf("%s: %s", a.name, want)
			}
			if got[i][j] != want {
				t.Failf("%s: %s concurrently, %s alone", a.name, got[i][j], want)
			}
		}
	}
	for k, c := range used {
		t.Class("actor:" + pool[k].name)
		if c > 1 {
			t.Class("shared-input")
		}
	}
	t.NonTrivial()
}

func init() {
	Register(&Prop{
		ID:    "C36",
		Title: "Independent objects can be used concurrently",
		Race:  true,
		Rule:  "at least two goroutines work at the same time, each on one or more objects",
		Assumptions: []string{
			"built with the race detector; schedules are those of the Go scheduler, perturbed with yields at every operation and at every read and write",
			"MPEG-TS tracks belong to one writer (PIDs are assigned by the writer)",
		},
		Subs: []Sub{
			{Name: "mixed", Fn: c36Mixed, Quick: 2500},
		},
	})
}
