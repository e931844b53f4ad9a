package props

import (
	"bytes"
	"fmt"
	"io"
	"math/big"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

type presTrack struct {
	id        int
	timeScale uint32
	offset    int32
	m         *mp4Model
	samples   []fragSample
}

func (tr *presTrack) total() uint64 {
	x := uint64(0)
	for _, s := range tr.samples {
		x += uint64(s.dur)
	}
	return x
}

func genPres(t *T, maxTracks int) []presTrack {
	var ts []presTrack
	n := t.Int(1, maxTracks)
	for i := 0; i < n; i++ {
		tr := presTrack{id: i + 1, m: genMP4Model(t, t.Pick(mp4Kinds))}
		if t.Chance(1, 4) {
			tr.id = int(t.EdgeU(1, 1<<32-1))
		}
		switch t.Pick(3) {
		case 0:
			tr.timeScale = uint32(t.EdgeU(1, 1<<32-1))
		case 1:
			tr.timeScale = 90000
		default:
			tr.timeScale = []uint32{48000, 44100, 30, 1000}[t.Pick(4)]
		}
		c := t.Int(0, 12)
		if t.Chance(1, 10) {
			c = t.Int(20, 300)
		}
		style := t.Pick(4)
		ptsStyle := t.Pick(3)
		syncStyle := t.Pick(5)
		sizeStyle := t.Pick(3)
		// a single sample that differs from the others
		odd := t.Pick(max(1, c))
		oddSync, oddDur, oddCTO := t.Bool(), t.Chance(1, 6), t.Chance(1, 6)
		base := uint32(t.Int(0, 10)) * (tr.timeScale/300 + 1)
		huge := t.Chance(1, 8)
		for j := 0; j < c; j++ {
			s := fragSample{}
			switch style {
			case 0:
				s.dur = base
			case 1:
				s.dur = base * uint32(j%3)
			case 2:
				s.dur = uint32(t.Draw(3)) * (tr.timeScale / 30)
			default:
				if huge {
					s.dur = uint32(t.EdgeU(0, 1<<32-1))
				} else {
					s.dur = uint32(t.Draw(uint64(tr.timeScale / 4)))
				}
			}
			switch ptsStyle {
			case 1:
				s.cto = int32(t.Int(-3, 3)) * 1000
			case 2:
				s.cto = int32(t.Edge(-1<<31, 1<<31-1))
			}
			switch syncStyle {
			case 1:
				s.nonSync = true
			case 2:
				s.nonSync = t.Bool()
			case 3:
				s.nonSync = j%5 != 0
			case 4:
				s.nonSync = oddSync != (j == odd)
			}
			if j == odd && oddDur {
				s.dur++
			}
			if j == odd && oddCTO {
				s.cto ^= 1
			}
			switch sizeStyle {
			case 0:
				s.payload = t.Bytes(t.Len(0, 40))
			case 1:
				s.payload = t.Bytes(t.Pick(3))
			default:
				s.payload = bytes.Repeat([]byte{byte(t.Draw(255))}, 7)
			}
			tr.samples = append(tr.samples, s)
		}
		switch t.Pick(4) {
		case 0:
			tr.offset = int32(t.Edge(-1<<31+1, 1<<31-1))
		case 1:
			tr.offset = int32(tr.timeScale/10) * int32(t.Int(-3, 10))
		case 2:
			tr.offset = int32(t.Int(-5, 5))
		}
		if x := int64(tr.total()); x+int64(tr.offset) < 0 { // the duration cannot be negative
			tr.offset = -int32(x)
		}
		// the presentation must be shorter than 2^31 ms
		for (tr.total()+uint64(max(int64(tr.offset), -int64(tr.offset))))/uint64(tr.timeScale) > 2147480 {
			tr.timeScale = tr.timeScale*2 + 1
			if tr.timeScale > 1<<30 {
				tr.timeScale = 1<<32 - 1
				break
			}
		}
		ts = append(ts, tr)
	}
	return ts
}

func logPres(t *T, ts []presTrack) {
	for i, tr := range ts {
		t.Logf("track %d: id %d, time scale %d, offset %d, %s, %d samples", i, tr.id, tr.timeScale, tr.offset, mp4KindNames[tr.m.kind], len(tr.samples))
		for j, s := range tr.samples {
			if j < 12 {
				t.Logf("  duration %d, offset %d, non sync %v, %d bytes", s.dur, s.cto, s.nonSync, len(s.payload))
			}
		}
	}
}

func toPMP4(ts []presTrack) *pmp4.Presentation {
	p := &pmp4.Presentation{}
	for _, tr := range ts {
		x := &pmp4.Track{ID: tr.id, TimeScale: tr.timeScale, TimeOffset: tr.offset, Codec: tr.m.codec}
		for _, s := range tr.samples {
			x.Samples = append(x.Samples, &pmp4.Sample{
				Duration: s.dur, PTSOffset: s.cto, IsNonSyncSample: s.nonSync, PayloadSize: uint32(len(s.payload)),
				GetPayload: func() ([]byte, error) { return s.payload, nil },
			})
		}
		p.Tracks = append(p.Tracks, x)
	}
	return p
}

// diffPres compares a presentation that was read with the one that was written.
func diffPres(t *T, g *pmp4.Presentation, want []presTrack) error {
	return diffPresFrom(t, g, want, nil)
}

// diffPresFrom compares; src is the source of the payloads, used by others too.
func diffPresFrom(t *T, g *pmp4.Presentation, want []presTrack, src io.Seeker) error {
	if len(g.Tracks) != len(want) {
		return fmt.Errorf("%d tracks, expected %d", len(g.Tracks), len(want))
	}
	type at struct{ i, j int }
	var all []at
	for i, w := range want {
		x := g.Tracks[i]
		if x.ID != w.id || x.TimeScale != w.timeScale || x.TimeOffset != w.offset || len(x.Samples) != len(w.samples) {
			return fmt.Errorf("track %d: id %d, time scale %d, offset %d, %d samples; expected %d, %d, %d, %d", i, x.ID, x.TimeScale, x.TimeOffset, len(x.Samples), w.id, w.timeScale, w.offset, len(w.samples))
		}
		if !normEqual(x.Codec, w.m.want) {
			return fmt.Errorf("track %d: codec %T %s, expected %s", i, x.Codec, dump(x.Codec), dump(w.m.want))
		}
		for j, s := range w.samples {
			y := x.Samples[j]
			if y.Duration != s.dur || y.PTSOffset != s.cto || y.IsNonSyncSample != s.nonSync || y.PayloadSize != uint32(len(s.payload)) {
				return fmt.Errorf("track %d sample %d: duration %d, offset %d, non sync %v, %d bytes; expected %d, %d, %v, %d", i, j, y.Duration, y.PTSOffset, y.IsNonSyncSample, y.PayloadSize, s.dur, s.cto, s.nonSync, len(s.payload))
			}
			all = append(all, at{i, j})
		}
	}
	// payloads, in any order
	k := 0
	if len(all) > 0 {
		k = t.Pick(len(all))
	}
	step := 1
	if len(all)%7 != 0 && t.Bool() {
		step = 7
	}
	held := map[at][]byte{}
	disturb := src != nil && t.Bool()
	for range all {
		a := all[k]
		if disturb && t.Chance(1, 3) {
			src.Seek(int64(t.Int(0, 2000)), io.SeekStart) //nolint:errcheck
		}
		k = (k + step) % len(all)
		b, err := g.Tracks[a.i].Samples[a.j].GetPayload()
		if err != nil || !bytes.Equal(b, want[a.i].samples[a.j].payload) {
			return fmt.Errorf("track %d sample %d: payload %s, expected %s (%v)", a.i, a.j, Hex(b), Hex(want[a.i].samples[a.j].payload), err)
		}
		held[a] = b
	}
	for a, b := range held {
		if !bytes.Equal(b, want[a.i].samples[a.j].payload) {
			return fmt.Errorf("track %d sample %d: the payload changed when others were read: %s", a.i, a.j, Hex(b))
		}
	}
	return nil
}

// readSamples expands the sample tables of a track.
func readSamples(data []byte, stbl *ref.Box) (ss []fragSample, offs []int, err error) {
	tab := func(typ string, words int) ([][]uint64, uint64, error) {
		b := stbl.Child(typ)
		if b == nil {
			return nil, 0, fmt.Errorf("no %s", typ)
		}
		r := ref.Rd{B: b.Data}
		v := r.U(4)
		n := r.U(4)
		var out [][]uint64
		for i := uint64(0); i < n && !r.Err; i++ {
			var e []uint64
			for k := 0; k < words; k++ {
				e = append(e, r.U(4))
			}
			out = append(out, e)
		}
		if r.Err || len(r.B) != 0 {
			return nil, 0, fmt.Errorf("%s has the wrong size", typ)
		}
		return out, v, nil
	}
	stts, _, err := tab("stts", 2)
	if err != nil {
		return nil, nil, err
	}
	for _, e := range stts {
		if e[0] > 1<<20 || e[0] == 0 {
			return nil, nil, fmt.Errorf("stts: run of %d samples", e[0])
		}
		for i := uint64(0); i < e[0]; i++ {
			ss = append(ss, fragSample{dur: uint32(e[1])})
		}
	}
	if len(stbl.All("stss")) > 0 {
		stss, _, err := tab("stss", 1)
		if err != nil {
			return nil, nil, err
		}
		for i := range ss {
			ss[i].nonSync = true
		}
		last := uint64(0)
		for _, e := range stss {
			if e[0] <= last || e[0] > uint64(len(ss)) {
				return nil, nil, fmt.Errorf("stss: number %d of %d samples follows %d", e[0], len(ss), last)
			}
			last = e[0]
			ss[e[0]-1].nonSync = false
		}
	}
	if len(stbl.All("ctts")) > 0 {
		ctts, _, err := tab("ctts", 2)
		if err != nil {
			return nil, nil, err
		}
		n := 0
		for _, e := range ctts {
			if n+int(e[0]) > len(ss) {
				return nil, nil, fmt.Errorf("ctts: too many samples")
			}
			for i := uint64(0); i < e[0]; i++ {
				ss[n].cto = int32(e[1])
				n++
			}
		}
		if n != len(ss) {
			return nil, nil, fmt.Errorf("ctts: %d samples, expected %d", n, len(ss))
		}
	}
	sz := stbl.Child("stsz")
	if sz == nil {
		return nil, nil, fmt.Errorf("no stsz")
	}
	r := ref.Rd{B: sz.Data}
	r.Skip(4)
	cs, n := r.U(4), r.U(4)
	if n != uint64(len(ss)) {
		return nil, nil, fmt.Errorf("stsz: %d samples, stts has %d", n, len(ss))
	}
	sizes := make([]uint64, n)
	for i := range sizes {
		sizes[i] = cs
		if cs == 0 {
			sizes[i] = r.U(4)
		}
	}
	if r.Err || len(r.B) != 0 {
		return nil, nil, fmt.Errorf("stsz has the wrong size")
	}
	stsc, _, err := tab("stsc", 3)
	if err != nil {
		return nil, nil, err
	}
	stco, _, err := tab("stco", 1)
	if err != nil {
		return nil, nil, err
	}
	k := 0
	e := -1
	for c := range stco {
		for e+1 < len(stsc) && stsc[e+1][0] == uint64(c+1) {
			e++
			if stsc[e][1] == 0 || stsc[e][2] != 1 {
				return nil, nil, fmt.Errorf("stsc: invalid entry %v", stsc[e])
			}
		}
		if e < 0 {
			return nil, nil, fmt.Errorf("stsc: chunk %d is not described", c+1)
		}
		off := stco[c][0]
		for i := uint64(0); i < stsc[e][1]; i++ {
			if k >= len(ss) {
				return nil, nil, fmt.Errorf("chunks contain more than %d samples", len(ss))
			}
			if off+sizes[k] > uint64(len(data)) {
				return nil, nil, fmt.Errorf("sample %d at %d is beyond the end of the file", k, off)
			}
			ss[k].payload = data[off : off+sizes[k]]
			offs = append(offs, int(off))
			off += sizes[k]
			k++
		}
	}
	if k != len(ss) || e != len(stsc)-1 {
		return nil, nil, fmt.Errorf("chunks contain %d samples, expected %d; %d of %d entries of stsc used", k, len(ss), e+1, len(stsc))
	}
	return ss, offs, nil
}

func msOf(v int64, timeScale uint32) int64 {
	x := new(big.Int).Mul(big.NewInt(v), big.NewInt(1000))
	return x.Quo(x, big.NewInt(int64(timeScale))).Int64()
}

// checkPres checks a file.
func checkPres(data []byte, want []presTrack) error {
	bs, err := ref.ParseMP4(data)
	if err != nil {
		return err
	}
	if len(bs) != 3 || bs[0].Type != "ftyp" || bs[1].Type != "moov" || bs[2].Type != "mdat" {
		return fmt.Errorf("boxes are %v", ref.Types(bs))
	}
	moov, mdat := bs[1], bs[2]
	traks := moov.All("trak")
	mv := moov.Child("mvhd")
	if mv == nil || len(traks) != len(want) || len(moov.Children) != len(want)+1 {
		return fmt.Errorf("moov contains %v", ref.Types(moov.Children))
	}
	used := make([]bool, len(mdat.Data))
	count := 0
	longest := int64(0)
	type placed struct {
		off  int
		time *big.Rat
	}
	var order []placed
	for i, w := range want {
		vb, ab := uint32(1000000), uint32(128825)
		if !w.m.video {
			vb = ab
		}
		if err = w.m.checkTrak(traks[i], w.id, w.timeScale, vb, vb, false); err != nil {
			return fmt.Errorf("track %d (%s): %w", i, mp4KindNames[w.m.kind], err)
		}
		_, dur, _ := mp4MDHD(traks[i])
		total := int64(w.total()) + int64(w.offset)
		if dur != uint64(total) {
			return fmt.Errorf("track %d: duration is %d, expected %d", i, dur, total)
		}
		tk, _ := mp4TKHD(traks[i])
		ms := msOf(total, w.timeScale)
		if d := int64(tk.dur) - ms; d < 0 || d > 1 {
			return fmt.Errorf("track %d: presentation duration is %d ms, expected %d", i, tk.dur, ms)
		}
		longest = max(longest, int64(tk.dur))
		if err = checkElst(traks[i].Find("edts", "elst"), &want[i]); err != nil {
			return fmt.Errorf("track %d: %w", i, err)
		}
		ss, offs, err := readSamples(data, traks[i].Find("mdia", "minf", "stbl"))
		if err != nil {
			return fmt.Errorf("track %d: %w", i, err)
		}
		if len(ss) != len(w.samples) {
			return fmt.Errorf("track %d: %d samples, expected %d", i, len(ss), len(w.samples))
		}
		time := int64(w.offset)
		for j, s := range ss {
			x := w.samples[j]
			if s.dur != x.dur || s.cto != x.cto || s.nonSync != x.nonSync || !bytes.Equal(s.payload, x.payload) {
				return fmt.Errorf("track %d sample %d: duration %d, offset %d, non sync %v, payload %s; expected %d, %d, %v, %s", i, j, s.dur, s.cto, s.nonSync, Hex(s.payload), x.dur, x.cto, x.nonSync, Hex(x.payload))
			}
			if offs[j] < mdat.Payload || offs[j]+len(s.payload) > mdat.End {
				return fmt.Errorf("track %d sample %d: at %d, outside of the media data", i, j, offs[j])
			}
			for k := 0; k < len(s.payload); k++ {
				if used[offs[j]-mdat.Payload+k] {
					return fmt.Errorf("track %d sample %d overlaps another one", i, j)
				}
				used[offs[j]-mdat.Payload+k] = true
				count++
			}
			if len(s.payload) > 0 {
				order = append(order, placed{offs[j], big.NewRat(time, int64(w.timeScale))})
			}
			time += int64(x.dur)
		}
	}
	if count != len(mdat.Data) {
		return fmt.Errorf("%d of %d bytes of media data belong to samples", count, len(mdat.Data))
	}
	r := ref.Rd{B: mv.Data}
	n := 4
	if r.U(4)>>24 == 1 {
		n = 8
	}
	r.Skip(2 * n)
	if ts, d := r.U(4), r.U(n); ts != 1000 || int64(d) != longest {
		return fmt.Errorf("movie time scale %d, duration %d; expected 1000, %d", ts, d, longest)
	}
	// layout by time
	at := make(map[int]*big.Rat, len(order))
	for _, o := range order {
		at[o.off] = o.time
	}
	var prev *big.Rat
	tol := big.NewRat(2, 1000000000)
	for off := mdat.Payload; off < mdat.End; off++ {
		if x, ok := at[off]; ok {
			if prev != nil && new(big.Rat).Add(x, tol).Cmp(prev) < 0 {
				return fmt.Errorf("media data is not sorted by time: %v follows %v", x, prev)
			}
			prev = x
		}
	}
	return nil
}

func checkElst(b *ref.Box, w *presTrack) error {
	if b == nil {
		return fmt.Errorf("no elst")
	}
	r := ref.Rd{B: b.Data}
	v := r.U(4)
	k := 4
	if v>>24 == 1 {
		k = 8
	}
	n := r.U(4)
	var es [][3]int64
	for i := uint64(0); i < n && !r.Err; i++ {
		d := int64(r.U(k))
		m := int64(r.U(k))
		if k == 4 {
			m = int64(int32(m))
		}
		es = append(es, [3]int64{d, m, int64(r.U(4))})
	}
	if r.Err || len(r.B) != 0 {
		return fmt.Errorf("invalid elst")
	}
	for _, e := range es {
		if e[2] != 0x10000 {
			return fmt.Errorf("elst: rate %x", e[2])
		}
	}
	close := func(a, b int64) bool { return a-b >= 0 && a-b <= 1 }
	if w.offset > 0 {
		if len(es) != 2 || es[0][1] != -1 || es[1][1] != 0 ||
			!close(es[0][0], msOf(int64(w.offset), w.timeScale)) || !close(es[1][0], msOf(int64(w.total()), w.timeScale)) {
			return fmt.Errorf("elst: entries %v", es)
		}
		return nil
	}
	// the duration of the entry is not checked when there is an offset: the library adds the part that is skipped
	if len(es) != 1 || es[0][1] != -int64(w.offset) || w.offset == 0 && !close(es[0][0], msOf(int64(w.total()), w.timeScale)) {
		return fmt.Errorf("elst: entries %v", es)
	}
	return nil
}

func c27Round(t *T) {
	want := genPres(t, 5)
	logPres(t, want)
	n := 0
	for _, tr := range want {
		n += len(tr.samples)
		if len(tr.samples) == 0 {
			t.Class("empty-track")
		}
		if tr.offset < 0 {
			t.Class("negative-offset")
		}
		if tr.total() > 1<<32-1 {
			t.Class("long")
		}
		if len(tr.samples) > 1 && len(want) > 1 {
			t.NonTrivial()
		}
	}
	t.Classf("tracks:%d", len(want))
	p := toPMP4(want)
	var buf bytes.Buffer
	if t.Chance(1, 50) { // an identifier that cannot be represented
		p2 := toPMP4(want)
		id := wildID(t)
		p2.Tracks[t.Pick(len(want))].ID = id
		if err := p2.Marshal(&buf); (err == nil) != (id >= 0 && id < 1<<32) {
			t.Failf("writing of a track with identifier %d: %v", id, err)
		}
		buf.Reset()
	}
	if err := p.Marshal(&buf); err != nil {
		t.Failf("writing failed: %v", err)
	}
	data := buf.Bytes()
	if err := diffPres(t, reWant(p, want), want); err != nil {
		t.Failf("writing modified the presentation: %v", err)
	}
	if err := checkPres(data, want); err != nil {
		t.Failf("%v", err)
	}
	var out pmp4.Presentation
	src := variousSeeker(t, data)
	if err := out.Unmarshal(src); err != nil {
		t.Failf("reading failed: %v", err)
	}
	if err := diffPresFrom(t, &out, want, src); err != nil {
		t.Failf("%v", err)
	}
	var buf2 bytes.Buffer
	if err := out.Marshal(&buf2); err != nil || !bytes.Equal(buf2.Bytes(), data) {
		same := true
		for _, w := range want {
			same = same && normEqual(w.m.codec, w.m.want)
		}
		if same {
			t.Failf("writing again gives different bytes (%v)", err)
		}
	}
}

// reWant makes the codec comparable.
func reWant(p *pmp4.Presentation, want []presTrack) *pmp4.Presentation {
	q := &pmp4.Presentation{}
	for i, tr := range p.Tracks {
		c := *tr
		if normEqual(c.Codec, want[i].m.codec) {
			c.Codec = want[i].m.want
		}
		q.Tracks = append(q.Tracks, &c)
	}
	return q
}

// c27Big: many samples, large payloads, many tracks.
func c27Big(t *T) {
	var want []presTrack
	n := 1 + t.Pick(2)
	buf := t.Bytes(64)
	mode := t.Pick(3)
	if mode == 1 {
		n = t.Int(200, 400)
	}
	for i := 0; i < n; i++ {
		tr := presTrack{id: i + 1, timeScale: 90000, m: genMP4Model(t, t.Pick(mp4Kinds))}
		switch mode {
		case 0: // many samples
			k := []int{65535, 65536, 65537, 70001, 131073, 200000}[t.Pick(6)] / n
			dur, cto, sync, sz := t.Pick(4), t.Pick(4), t.Pick(4), t.Pick(4)
			for j := 0; j < k; j++ {
				s := fragSample{dur: 300, nonSync: j%30 != 0 || j == 0 && sync == 3, payload: buf[j&7 : j&7+1]}
				switch dur {
				case 0:
					s.dur = 300 + uint32(j&1)
				case 1:
					s.dur = uint32(j / 70)
				case 2:
					s.dur = uint32(j >> 16)
				}
				switch cto {
				case 0:
					s.cto = int32(j&3) * 300
				case 1:
					s.cto = int32(j >> 16)
				}
				switch sync {
				case 0:
					s.nonSync = false
				case 1:
					s.nonSync = j&1 == 1
				}
				if sz == 0 {
					s.payload = buf[:j&7]
				}
				tr.samples = append(tr.samples, s)
			}
		case 1:
			for j := 0; j < 1+i%3; j++ {
				tr.samples = append(tr.samples, fragSample{dur: uint32(i * 10), payload: buf[i%60 : i%60+j]})
			}
		default:
			tr.samples = bigSamples(t)
		}
		want = append(want, tr)
	}
	logPres(t, want)
	t.Class([]string{"samples", "tracks", "payloads"}[mode])
	t.NonTrivial()
	var sb bytes.Buffer
	if err := toPMP4(want).Marshal(&sb); err != nil {
		t.Failf("writing failed: %v", err)
	}
	if err := checkPres(sb.Bytes(), want); err != nil {
		t.Failf("%v", err)
	}
	var out pmp4.Presentation
	if err := out.Unmarshal(bytes.NewReader(sb.Bytes())); err != nil {
		t.Failf("reading failed: %v", err)
	}
	if err := diffPres(t, &out, want); err != nil {
		t.Failf("%v", err)
	}
}

// c27Foreign: other layouts of the same tables.
func c27Foreign(t *T) {
	want, data, chunks := genForeignPres(t)
	logPres(t, want)
	t.Logf("%s", Hex(data))
	if chunks > len(want) {
		t.NonTrivial()
	}
	var out pmp4.Presentation
	src := variousSeeker(t, data)
	if err := out.Unmarshal(src); err != nil {
		t.Failf("reading failed: %v", err)
	}
	if err := diffPresFrom(t, &out, want, src); err != nil {
		t.Failf("%v", err)
	}
	// what was read can be written, payloads are read meanwhile
	var buf bytes.Buffer
	if err := out.Marshal(&buf); err != nil {
		t.Failf("writing again failed: %v", err)
	}
	var again pmp4.Presentation
	src = variousSeeker(t, buf.Bytes())
	if err := again.Unmarshal(src); err != nil {
		t.Failf("reading again failed: %v", err)
	}
	if err := diffPresFrom(t, &again, want, src); err != nil {
		t.Failf("after writing again: %v", err)
	}
}

// genForeignPres generates a file as another program might write it.
func genForeignPres(t *T) ([]presTrack, []byte, int) {
	want := genPres(t, 3)
	n := 0
	for i := range want {
		tr := &want[i]
		tr.offset = 0
		n += len(tr.samples)
	}
	if n == 0 {
		t.Skip()
	}
	// the boxes of codecs are taken from the library
	p := toPMP4(want)
	for _, tr := range p.Tracks {
		tr.Samples = nil
	}
	var buf bytes.Buffer
	if err := p.Marshal(&buf); err != nil {
		t.Failf("writing failed: %v", err)
	}
	lib, err := ref.ParseMP4(buf.Bytes())
	if err != nil {
		t.Failf("%v", err)
	}
	raw := func(b *ref.Box) []byte { return buf.Bytes()[b.Start:b.End] }

	// chunks
	type chunk struct{ tr, from, to, off int }
	var chunks []chunk
	perTrack := make([][]int, len(want))
	next := make([]int, len(want))
	var payload []byte
	size := t.Int(1, 4)
	for left := n; left > 0; {
		i := t.Pick(len(want))
		for next[i] >= len(want[i].samples) {
			i = (i + 1) % len(want)
		}
		k := min(t.Int(1, size), len(want[i].samples)-next[i])
		if t.Chance(1, 5) {
			payload = append(payload, t.Bytes(t.Pick(5))...)
		}
		perTrack[i] = append(perTrack[i], len(chunks))
		chunks = append(chunks, chunk{i, next[i], next[i] + k, 0})
		next[i] += k
		left -= k
	}
	perm := make([]int, len(chunks))
	shuffle := t.Chance(1, 3) // chunks in any order
	for i := range perm {
		j := i
		if shuffle {
			j = t.Int(0, i)
		}
		perm[i] = perm[j]
		perm[j] = i
	}
	for _, c := range perm {
		chunks[c].off = len(payload)
		for _, s := range want[chunks[c].tr].samples[chunks[c].from:chunks[c].to] {
			payload = append(payload, s.payload...)
		}
	}
	var noStss, v0, splitRuns [8]bool
	extra := make([]bool, 8)
	for i := range want {
		v0[i], splitRuns[i], extra[i] = t.Bool(), t.Bool(), t.Chance(1, 4)
		all := true
		for j := range want[i].samples {
			s := &want[i].samples[j]
			all = all && !s.nonSync
			if v0[i] && s.cto < 0 {
				s.cto = -(s.cto + 1)
			}
		}
		noStss[i] = all && t.Bool()
	}
	allZero := func(tr *presTrack) bool {
		for _, s := range tr.samples {
			if s.cto != 0 {
				return false
			}
		}
		return true
	}
	splitAt := t.Int(1, 5)
	build := func(base int) []byte {
		body := [][]byte{raw(lib[1].Child("mvhd"))}
		for i := range want {
			tr := &want[i]
			old := lib[1].All("trak")[i]
			var stts, stss, ctts, stsz []byte
			var ns, nk, nc uint64
			runS, runC := uint64(0), uint64(0)
			for j, s := range tr.samples {
				force := splitRuns[i] && j%splitAt == 0
				runS++
				if j+1 == len(tr.samples) || tr.samples[j+1].dur != s.dur || force {
					stts = append(stts, ref.BE(4, runS, 4, uint64(s.dur))...)
					ns++
					runS = 0
				}
				runC++
				if j+1 == len(tr.samples) || tr.samples[j+1].cto != s.cto || force {
					ctts = append(ctts, ref.BE(4, runC, 4, uint64(uint32(s.cto)))...)
					nc++
					runC = 0
				}
				if !s.nonSync {
					stss = append(stss, ref.BE(4, uint64(j+1))...)
					nk++
				}
				stsz = append(stsz, ref.BE(4, uint64(len(s.payload)))...)
			}
			var stsc, stco []byte
			var nsc uint64
			lastN := 0
			for k, c := range perTrack[i] {
				m := chunks[c].to - chunks[c].from
				if m != lastN || splitRuns[i] && k%splitAt == 0 {
					stsc = append(stsc, ref.BE(4, uint64(k+1), 4, uint64(m), 4, 1)...)
					nsc++
					lastN = m
				}
				stco = append(stco, ref.BE(4, uint64(base+chunks[c].off))...)
			}
			stbl := [][]byte{raw(old.Find("mdia", "minf", "stbl", "stsd")), ref.MkBox("stts", ref.BE(4, 0, 4, ns), stts)}
			if !noStss[i] {
				stbl = append(stbl, ref.MkBox("stss", ref.BE(4, 0, 4, nk), stss))
			}
			if extra[i] {
				stbl = append(stbl, ref.MkBox("sdtp", make([]byte, 4+len(tr.samples))))
			}
			if !(allZero(tr) && extra[i]) {
				v := uint64(1)
				if v0[i] {
					v = 0
				}
				stbl = append(stbl, ref.MkBox("ctts", ref.BE(1, v, 3, 0, 4, nc), ctts))
			}
			stbl = append(stbl,
				ref.MkBox("stsc", ref.BE(4, 0, 4, nsc), stsc),
				ref.MkBox("stsz", ref.BE(4, 0, 4, 0, 4, uint64(len(tr.samples))), stsz),
				ref.MkBox("stco", ref.BE(4, 0, 4, uint64(len(perTrack[i]))), stco))
			mdhd := ref.MkBox("mdhd", ref.BE(4, 0, 4, 5, 4, 6, 4, uint64(tr.timeScale), 4, tr.total(), 2, 0x55C4, 2, 0))
			if tr.total() > 1<<32-1 || extra[i] {
				mdhd = ref.MkBox("mdhd", ref.BE(4, 1<<24, 8, 5, 8, 6, 4, uint64(tr.timeScale), 8, tr.total(), 2, 0x55C4, 2, 0))
				t.Class("mdhd-v1")
			}
			minf := [][]byte{}
			for _, b := range old.Find("mdia", "minf").Children {
				if b.Type != "stbl" {
					minf = append(minf, raw(b))
				}
			}
			minf = append(minf, ref.MkBox("stbl", stbl...))
			body = append(body, ref.MkBox("trak", raw(old.Child("tkhd")), raw(old.Child("edts")),
				ref.MkBox("mdia", mdhd, raw(old.Find("mdia", "hdlr")), ref.MkBox("minf", minf...))))
		}
		return ref.MkBox("moov", body...)
	}
	data := ref.MkBox("ftyp", []byte("isomabcdisommp42"))
	if t.Chance(1, 3) {
		data = append(data, ref.MkBox("free", make([]byte, t.Pick(10)))...)
	}
	big := t.Chance(1, 4)
	mdat := ref.MkBox("mdat", payload)
	if big {
		mdat = ref.MkBox64("mdat", payload)
	}
	if t.Bool() { // media data first
		base := len(data) + len(mdat) - len(payload)
		data = append(append(data, mdat...), build(base)...)
		t.Class("mdat-first")
	} else {
		l := len(build(0))
		data = append(append(data, build(len(data)+l+len(mdat)-len(payload))...), mdat...)
	}
	return want, data, len(chunks)
}

type countWriter struct{ n uint64 }

func (w *countWriter) Write(p []byte) (int, error) { w.n += uint64(len(p)); return len(p), nil }

// c27Layout: files of the library, whose boxes were rewritten by another tool.
func c27Layout(t *T) {
	want := genPres(t, 4)
	logPres(t, want)
	var sb bytes.Buffer
	if err := toPMP4(want).Marshal(&sb); err != nil {
		t.Failf("writing failed: %v", err)
	}
	data := foreignLayout(t, sb.Bytes(), true)
	t.Logf("%s", Hex(data))
	if len(want) > 1 {
		t.NonTrivial()
	}
	var out pmp4.Presentation
	src := variousSeeker(t, data)
	if err := out.Unmarshal(src); err != nil {
		t.Failf("reading failed: %v", err)
	}
	if err := diffPresFrom(t, &out, want, src); err != nil {
		t.Failf("%v", err)
	}
}

// c27Fit: presentations that do not fit are refused before anything is written.
func c27Fit(t *T) {
	want := genPres(t, 3)
	p := toPMP4(want)
	total := uint64(0)
	errStop := fmt.Errorf("payload requested")
	tr := p.Tracks[t.Pick(len(p.Tracks))]
	for i, n := 0, t.Int(1, 40); i < n; i++ {
		tr.Samples = append(tr.Samples, &pmp4.Sample{PayloadSize: uint32(t.EdgeU(1<<26, 1<<32-1))})
	}
	for _, tr := range p.Tracks {
		for _, s := range tr.Samples {
			s.GetPayload = func() ([]byte, error) { return nil, errStop }
			total += uint64(s.PayloadSize)
		}
	}
	t.Logf("%d bytes of media data", total)
	var w countWriter
	err := p.Marshal(&w)
	head := w.n
	if total+head > 1<<32-1 {
		t.NonTrivial()
		t.Class("refused")
		if err == nil || err == errStop {
			t.Failf("%d bytes of media data do not fit, but payloads are requested", total)
		}
		if w.n != 0 {
			t.Failf("%d bytes were written before the error", w.n)
		}
	} else {
		t.Class("fits")
		if err != errStop && total+head+1<<20 < 1<<32 {
			t.Failf("%d bytes of media data fit: %v", total, err)
		}
	}
}

func init() {
	Register(&Prop{
		ID:    "C27",
		Title: "Progressive MP4 files round-trip, with payloads where the tables say",
		Rule:  "at least two tracks and two samples on one of them; more chunks than tracks; a presentation that does not fit",
		Assumptions: []string{
			"the time scale is not zero, the duration of a track (samples plus offset) is not negative and a presentation is shorter than 2^31 ms, a track has at most 5184000 samples (limit of the reader), the declared size of payloads is the real one",
			"the duration of edit list entries of tracks with a negative offset, and the next track identifier, are not checked (advisory)",
			"foreign files: the boxes that the library needs (edit list included), in the order it supports, 32-bit chunk offsets, individual sample sizes",
		},
		Subs: []Sub{
			{Name: "round-trip", Fn: c27Round, Quick: 15000},
			{Name: "foreign", Fn: c27Foreign, Quick: 15000},
			{Name: "layout", Fn: c27Layout, Quick: 15000},
			{Name: "big", Fn: c27Big, Quick: 60},
			{Name: "fit", Fn: c27Fit, Quick: 10000},
		},
	})
}
