package props

import (
	"bytes"
	"fmt"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

type fragSample struct {
	dur     uint32
	cto     int32
	nonSync bool
	payload []byte
}

type fragTrack struct {
	id      uint32
	base    uint64
	samples []fragSample
}

type fragPart struct {
	seq    uint32
	tracks []fragTrack
}

func genFragSample(t *T) fragSample {
	s := fragSample{nonSync: t.Bool()}
	switch t.Pick(3) {
	case 0:
		s.dur = uint32(t.EdgeU(0, 1<<32-1))
	case 1:
		s.dur = 90000 / 30
	default:
		s.dur = uint32(t.Draw(100))
	}
	if t.Chance(1, 2) {
		s.cto = int32(t.Edge(-1<<31, 1<<31-1))
	}
	s.payload = t.Bytes(t.Len(0, 60))
	if t.Chance(1, 200) {
		s.payload = t.Bytes(t.Int(60000, 140000))
	}
	return s
}

func genFragParts(t *T) []fragPart {
	var ps []fragPart
	for i, n := 0, t.Int(1, 4); i < n; i++ {
		p := fragPart{seq: uint32(t.EdgeU(0, 1<<32-1))}
		for k, m := 0, t.Weighted(1, 6, 4, 2, 1); k < m; k++ {
			tr := fragTrack{id: uint32(k + 1), base: t.EdgeU(0, 1<<64-1)}
			if t.Chance(1, 3) {
				tr.id = uint32(t.EdgeU(1, 1<<32-1))
			}
			c := t.Int(0, 8)
			if t.Chance(1, 30) {
				c = t.Int(100, 600)
			}
			uniform := t.Chance(1, 4)
			odd := -1 // a sample that differs from the others
			if t.Bool() {
				odd = t.Pick(max(1, c))
			}
			for j := 0; j < c; j++ {
				if (j > 20 || uniform && j > 0) && j != odd {
					s := tr.samples[max(0, j-1)]
					if j == odd+1 && j > 1 {
						s = tr.samples[j-2]
					}
					s.payload = bytes.Repeat([]byte{byte(j)}, len(s.payload))
					tr.samples = append(tr.samples, s)
					continue
				}
				tr.samples = append(tr.samples, genFragSample(t))
			}
			p.tracks = append(p.tracks, tr)
		}
		ps = append(ps, p)
	}
	return ps
}

func logFrag(t *T, ps []fragPart) {
	for i, p := range ps {
		t.Logf("part %d, sequence number %d", i, p.seq)
		for _, tr := range p.tracks {
			t.Logf("  track %d, base time %d, %d samples", tr.id, tr.base, len(tr.samples))
			for j, s := range tr.samples {
				if j < 10 {
					t.Logf("    duration %d, offset %d, non sync %v, %s", s.dur, s.cto, s.nonSync, Hex(s.payload))
				}
			}
		}
	}
}

func toFMP4(ps []fragPart) fmp4.Parts {
	var out fmp4.Parts
	for _, p := range ps {
		q := &fmp4.Part{SequenceNumber: p.seq}
		for _, tr := range p.tracks {
			x := &fmp4.PartTrack{ID: int(tr.id), BaseTime: tr.base}
			for _, s := range tr.samples {
				x.Samples = append(x.Samples, &fmp4.Sample{Duration: s.dur, PTSOffset: s.cto, IsNonSyncSample: s.nonSync, Payload: s.payload})
			}
			q.Tracks = append(q.Tracks, x)
		}
		out = append(out, q)
	}
	return out
}

func diffFrag(got fmp4.Parts, want []fragPart) error {
	if len(got) != len(want) {
		return fmt.Errorf("%d parts, expected %d", len(got), len(want))
	}
	for i, w := range want {
		g := got[i]
		if g.SequenceNumber != w.seq || len(g.Tracks) != len(w.tracks) {
			return fmt.Errorf("part %d: sequence number %d and %d tracks, expected %d and %d", i, g.SequenceNumber, len(g.Tracks), w.seq, len(w.tracks))
		}
		for k, wt := range w.tracks {
			gt := g.Tracks[k]
			if gt.ID != int(wt.id) || gt.BaseTime != wt.base || len(gt.Samples) != len(wt.samples) {
				return fmt.Errorf("part %d track %d: id %d, base time %d, %d samples; expected %d, %d, %d", i, k, gt.ID, gt.BaseTime, len(gt.Samples), wt.id, wt.base, len(wt.samples))
			}
			for j, ws := range wt.samples {
				gs := gt.Samples[j]
				if gs.Duration != ws.dur || gs.PTSOffset != ws.cto || gs.IsNonSyncSample != ws.nonSync || !bytes.Equal(gs.Payload, ws.payload) {
					return fmt.Errorf("part %d track %d sample %d: duration %d, offset %d, non sync %v, payload %s; expected %d, %d, %v, %s", i, k, j,
						gs.Duration, gs.PTSOffset, gs.IsNonSyncSample, Hex(gs.Payload), ws.dur, ws.cto, ws.nonSync, Hex(ws.payload))
				}
			}
		}
	}
	return nil
}

// readFrag reads fragments independently of the library. It checks that samples do not overlap and fill the mdat.
func readFrag(data []byte) ([]fragPart, error) {
	bs, err := ref.ParseMP4(data)
	if err != nil {
		return nil, err
	}
	var out []fragPart
	for i := 0; i < len(bs); i += 2 {
		if bs[i].Type != "moof" || i+1 >= len(bs) || bs[i+1].Type != "mdat" {
			return nil, fmt.Errorf("boxes are %v", ref.Types(bs))
		}
		moof, mdat := bs[i], bs[i+1]
		mf := moof.Child("mfhd")
		if mf == nil || moof.Children[0] != mf || len(mf.Data) != 8 || len(moof.All("traf")) != len(moof.Children)-1 {
			return nil, fmt.Errorf("moof contains %v", ref.Types(moof.Children))
		}
		r := ref.Rd{B: mf.Data[4:]}
		p := fragPart{seq: uint32(r.U(4))}
		used := make([]bool, len(mdat.Data))
		count := 0
		for _, tf := range moof.All("traf") {
			h, d := tf.Child("tfhd"), tf.Child("tfdt")
			if h == nil || d == nil || tf.Children[0] != h {
				return nil, fmt.Errorf("traf contains %v", ref.Types(tf.Children))
			}
			r = ref.Rd{B: h.Data}
			hf := r.U(4)
			var tr fragTrack
			tr.id = uint32(r.U(4))
			if hf&0x020000 == 0 || hf&1 != 0 {
				return nil, fmt.Errorf("offsets are not relative to the moof: flags %x", hf)
			}
			if hf&2 != 0 {
				r.Skip(4)
			}
			var ddur, dsize, dflags uint64
			if hf&8 != 0 {
				ddur = r.U(4)
			}
			if hf&0x10 != 0 {
				dsize = r.U(4)
			}
			if hf&0x20 != 0 {
				dflags = r.U(4)
			}
			if r.Err || len(r.B) != 0 {
				return nil, fmt.Errorf("invalid tfhd")
			}
			r = ref.Rd{B: d.Data}
			if v := r.U(4); v>>24 == 1 {
				tr.base = r.U(8)
			} else {
				tr.base = r.U(4)
			}
			if r.Err || len(r.B) != 0 {
				return nil, fmt.Errorf("invalid tfdt")
			}
			for _, tn := range tf.All("trun") {
				r = ref.Rd{B: tn.Data}
				f := r.U(4)
				n := r.U(4)
				if f&1 == 0 {
					return nil, fmt.Errorf("run without offset")
				}
				pos := moof.Start + int(int32(r.U(4)))
				var first uint64
				if f&4 != 0 {
					first = r.U(4)
				}
				for k := uint64(0); k < n && !r.Err; k++ {
					dur, size, flags := ddur, dsize, dflags
					if f&0x100 != 0 {
						dur = r.U(4)
					}
					if f&0x200 != 0 {
						size = r.U(4)
					}
					if k == 0 && f&4 != 0 {
						flags = first
					}
					if f&0x400 != 0 {
						flags = r.U(4)
					}
					var cto int32
					if f&0x800 != 0 {
						cto = int32(r.U(4))
					}
					if pos < mdat.Payload || pos+int(size) > mdat.End {
						return nil, fmt.Errorf("sample at %d, size %d, not in the mdat", pos, size)
					}
					for x := pos; x < pos+int(size); x++ {
						if used[x-mdat.Payload] {
							return nil, fmt.Errorf("samples overlap at %d", x)
						}
						used[x-mdat.Payload] = true
						count++
					}
					tr.samples = append(tr.samples, fragSample{uint32(dur), cto, flags&0x10000 != 0, data[pos : pos+int(size)]})
					pos += int(size)
				}
				if r.Err || len(r.B) != 0 {
					return nil, fmt.Errorf("invalid trun")
				}
			}
			p.tracks = append(p.tracks, tr)
		}
		if count != len(mdat.Data) {
			return nil, fmt.Errorf("%d of %d bytes of mdat belong to samples", count, len(mdat.Data))
		}
		out = append(out, p)
	}
	return out, nil
}

func c26Round(t *T) {
	want := genFragParts(t)
	logFrag(t, want)
	ps := toFMP4(want)
	n := 0
	for _, p := range want {
		for _, tr := range p.tracks {
			n += len(tr.samples)
			t.Classf("samples:%d", min(len(tr.samples), 3))
		}
		t.Classf("tracks:%d", len(p.tracks))
	}
	if n > 1 {
		t.NonTrivial()
	}

	if t.Chance(1, 50) { // an identifier that cannot be represented
		ps := toFMP4(want)
		for _, p := range ps {
			if len(p.Tracks) != 0 {
				id := wildID(t)
				p.Tracks[t.Pick(len(p.Tracks))].ID = id
				var sb seekablebuffer.Buffer
				if err := ps.Marshal(&sb); (err == nil) != (id >= 0 && id < 1<<32) {
					t.Failf("writing of a track with identifier %d: %v", id, err)
				}
				break
			}
		}
	}

	// the position of the output may be anywhere
	var sb seekablebuffer.Buffer
	prefix := 0
	if t.Chance(1, 3) {
		pre := ref.MkBox("styp", []byte("msdhabcdmsdhmsix"))
		for i, k := 0, t.Int(0, 20); i < k; i++ {
			pre = append(pre, ref.MkBox("free", make([]byte, i))...)
		}
		prefix = len(pre)
		sb.Write(pre)
		t.Class("prefix")
	}
	var err error
	if t.Bool() {
		err = ps.Marshal(&sb)
	} else {
		for _, p := range ps {
			if err = p.Marshal(&sb); err != nil {
				break
			}
		}
	}
	if err != nil {
		t.Failf("writing failed: %v", err)
	}
	if err = diffFrag(ps, want); err != nil {
		t.Failf("writing modified the parts: %v", err)
	}
	data := append([]byte(nil), sb.Bytes()...)

	got, err := readFrag(data[prefix:])
	if err != nil {
		t.Failf("structure: %v", err)
	}
	if err = diffFrag(toFMP4(got), want); err != nil {
		t.Failf("independent reading: %v", err)
	}

	var out fmp4.Parts
	if err = out.Unmarshal(data); err != nil {
		t.Failf("reading failed: %v", err)
	}
	if err = diffFrag(out, want); err != nil {
		t.Failf("%v", err)
	}
	out = nil
	if err = out.Unmarshal(data[prefix:]); err != nil {
		t.Failf("reading failed: %v", err)
	}
	if err = diffFrag(out, want); err != nil {
		t.Failf("without prefix: %v", err)
	}
	var sb2 seekablebuffer.Buffer
	if err = out.Marshal(&sb2); err != nil || !bytes.Equal(sb2.Bytes(), data[prefix:]) {
		t.Failf("writing again gives different bytes (%v)", err)
	}
	if t.Chance(1, 8) {
		writtenElsewhere(t, ps.Marshal, data[prefix:])
	}
}

// bigSamples are samples with large payloads, 16 MiB and more together in half of the cases.
func bigSamples(t *T) []fragSample {
	total := []int{65535, 65536, 1 << 20, 1<<24 - 1, 1 << 24, 1<<24 + 70000, 20 << 20}[t.Pick(7)]
	pat := t.Bytes(1021)
	all := make([]byte, total)
	for i := range all {
		all[i] = pat[i%1021] + byte(i>>12)
	}
	var out []fragSample
	for len(all) > 0 {
		n := min(len(all), []int{total, 65535, 65536, 1 << 20, 5 << 20, 8 << 20}[t.Pick(6)])
		if len(out) > 50 {
			n = len(all)
		}
		out = append(out, fragSample{uint32(n), 0, len(out)%2 == 1, all[:n:n]})
		all = all[n:]
	}
	t.Logf("%d bytes in %d samples", total, len(out))
	return out
}

// c26Big: a single track with many samples, up to the limit of a run; large payloads; many tracks; many parts.
func c26Big(t *T) {
	n := []int{19200, 19199, 5000, 3, 18000}[t.Pick(5)]
	sz := t.Pick(4)
	tr := fragTrack{id: 1, base: t.EdgeU(0, 1<<64-1)}
	buf := t.Bytes(64)
	for i := 0; i < n; i++ {
		tr.samples = append(tr.samples, fragSample{uint32(i), int32(i & 3), i%7 != 0, buf[i&15 : i&15+sz*(i&3)]})
	}
	want := []fragPart{{seq: 1, tracks: []fragTrack{tr, {id: 2, samples: tr.samples[:2]}}}}
	switch t.Pick(4) {
	case 1: // large payloads
		n = 2
		tr.samples = bigSamples(t)
		want[0].tracks = append(want[0].tracks, tr)
	case 2: // many tracks
		n = t.Int(200, 700)
		want[0].tracks = nil
		for i := 0; i < n; i++ {
			want[0].tracks = append(want[0].tracks, fragTrack{id: uint32(i + 1), base: uint64(i) << 30, samples: tr.samples[i%2 : 3]})
		}
	case 3: // many parts
		n = t.Int(200, 700)
		want = nil
		for i := 0; i < n; i++ {
			want = append(want, fragPart{seq: uint32(i), tracks: []fragTrack{{id: uint32(i + 1), base: uint64(i) << 31, samples: tr.samples[i%2 : 3]}}})
		}
	}
	t.Logf("%d samples, tracks or parts", n)
	t.Classf("parts:%d tracks:%d", min(2, len(want)), min(3, len(want[0].tracks)))
	t.NonTrivial()
	var sb seekablebuffer.Buffer
	if err := toFMP4(want).Marshal(&sb); err != nil {
		t.Failf("%v", err)
	}
	got, err := readFrag(sb.Bytes())
	if err == nil {
		err = diffFrag(toFMP4(got), want)
	}
	if err != nil {
		t.Failf("independent reading: %v", err)
	}
	var out fmp4.Parts
	if err = out.Unmarshal(sb.Bytes()); err == nil {
		err = diffFrag(out, want)
	}
	if err != nil {
		t.Failf("%v", err)
	}
}

// c26Foreign: fragments of another writer.
func c26Foreign(t *T) {
	want, data, runsTotal := genForeignFrag(t)
	logFrag(t, want)
	t.Logf("%s", Hex(data))
	if runsTotal > 1 {
		t.NonTrivial()
	}
	var out fmp4.Parts
	if err := out.Unmarshal(data); err != nil {
		t.Failf("reading failed: %v", err)
	}
	if err := diffFrag(out, want); err != nil {
		t.Failf("%v", err)
	}
	// what was read can be written
	var sb seekablebuffer.Buffer
	for i, p := range out {
		var one seekablebuffer.Buffer
		if err := p.Marshal(&one); err != nil {
			t.Failf("part %d cannot be written again: %v", i, err)
		}
		if _, err := sb.Write(one.Bytes()); err != nil {
			t.Failf("%v", err)
		}
	}
	var again fmp4.Parts
	if err := again.Unmarshal(sb.Bytes()); err != nil {
		t.Failf("reading again failed: %v", err)
	}
	if err := diffFrag(again, want); err != nil {
		t.Failf("after writing again: %v", err)
	}
}

// genForeignFrag generates fragments as another program might write them.
func genForeignFrag(t *T) ([]fragPart, []byte, int) {
	want := genFragParts(t)
	var data []byte
	extra := func() {
		if !t.Chance(1, 4) {
			return
		}
		switch t.Pick(4) {
		case 0:
			data = append(data, ref.MkBox("styp", []byte("msdhabcdmsdhmsix"))...)
		case 1:
			data = append(data, ref.MkBox("free", t.Bytes(t.Pick(20)))...)
		case 2:
			data = append(data, ref.MkBox("sidx", ref.BE(4, 0, 4, 1, 4, 1000, 4, 0, 4, 0, 2, 0, 2, 0))...)
		default:
			data = append(data, ref.MkBox("abcd", t.Bytes(t.Pick(20)))...)
		}
		t.Class("extra-boxes")
	}
	runsTotal := 0
	for pi := range want {
		p := &want[pi]
		extra()
		// order of runs in the media data
		type run struct {
			tr, from, to int
			flags        uint64
			version      uint64
			off          int
			gap          []byte
		}
		var runs []run
		type hdr struct {
			flags             uint64
			dur, size, flags2 uint64
			v                 uint64
		}
		hdrs := make([]hdr, len(p.tracks))
		for k := range p.tracks {
			tr := &p.tracks[k]
			if t.Chance(1, 4) {
				tr.base &= 1<<32 - 1
				hdrs[k].v = 0
			} else {
				hdrs[k].v = 1
			}
			h := &hdrs[k]
			h.flags = 0x020000
			if t.Bool() {
				h.flags |= 2
			}
			uni := t.Chance(2, 3)
			pos := 0
			for pos < len(tr.samples) {
				to := pos + t.Int(1, len(tr.samples)-pos)
				runs = append(runs, run{tr: k, from: pos, to: to, version: uint64(t.Pick(2))})
				pos = to
			}
			if t.Chance(1, 8) {
				runs = append(runs, run{tr: k, from: pos, to: pos})
			}
			// defaults
			if len(tr.samples) > 0 {
				s := tr.samples[t.Int(0, len(tr.samples)-1)]
				if t.Bool() {
					h.flags |= 8
					h.dur = uint64(s.dur)
				}
				if t.Bool() {
					h.flags |= 0x10
					h.size = uint64(len(s.payload))
				}
				if t.Bool() {
					h.flags |= 0x20
					h.flags2 = flagsOf(t, s.nonSync)
				}
			}
			for i := range runs {
				r := &runs[i]
				if r.tr != k {
					continue
				}
				ss := tr.samples[r.from:r.to]
				if uni && len(ss) > 0 { // make samples fit the defaults
					for j := range ss {
						if h.flags&8 != 0 && t.Chance(3, 4) {
							ss[j].dur = uint32(h.dur)
						}
						if h.flags&0x10 != 0 && len(ss[j].payload) > int(h.size) {
							ss[j].payload = ss[j].payload[:h.size]
						}
						if h.flags&0x20 != 0 && t.Chance(7, 8) {
							ss[j].nonSync = h.flags2&0x10000 != 0
						}
						if t.Chance(1, 2) {
							ss[j].cto = 0
						}
					}
				}
				r.flags = 1
				durOK, sizeOK, flagsOK, flagsOK1, ctoOK := h.flags&8 != 0, h.flags&0x10 != 0, h.flags&0x20 != 0, h.flags&0x20 != 0, true
				for j, s := range ss {
					if uint64(s.dur) != h.dur {
						durOK = false
					}
					if uint64(len(s.payload)) != h.size {
						sizeOK = false
					}
					if s.nonSync != (h.flags2&0x10000 != 0) {
						flagsOK = false
						if j > 0 {
							flagsOK1 = false
						}
					}
					if s.cto != 0 {
						ctoOK = false
					}
				}
				if !durOK || t.Chance(1, 4) {
					r.flags |= 0x100
				}
				if !sizeOK || t.Chance(1, 4) {
					r.flags |= 0x200
				}
				switch {
				case flagsOK && !t.Chance(1, 4):
					t.Class("default-flags")
				case flagsOK1 && !t.Chance(1, 4):
					r.flags |= 4
					t.Class("first-sample-flags")
				default:
					r.flags |= 0x400
				}
				if !ctoOK || t.Chance(1, 4) {
					r.flags |= 0x800
				}
				if r.version == 0 { // unsigned offsets
					for j := range ss {
						if ss[j].cto < 0 {
							ss[j].cto = -(ss[j].cto + 1)
						}
					}
				}
				if r.flags&0x100 == 0 {
					t.Class("default-duration")
				}
				if r.flags&0x200 == 0 {
					t.Class("default-size")
				}
				if t.Chance(1, 6) {
					r.gap = t.Bytes(t.Pick(10))
				}
				runsTotal++
			}
		}
		// placement of the runs
		perm := make([]int, len(runs))
		for i := range perm {
			j := t.Int(0, i)
			perm[i] = perm[j]
			perm[j] = i
		}
		var payload []byte
		for _, i := range perm {
			r := &runs[i]
			payload = append(payload, r.gap...)
			r.off = len(payload)
			for _, s := range p.tracks[r.tr].samples[r.from:r.to] {
				payload = append(payload, s.payload...)
			}
		}
		firstFlags := map[int]uint64{}
		for i := range runs {
			r := &runs[i]
			if r.flags&4 != 0 && r.from < r.to {
				firstFlags[i] = flagsOf(t, p.tracks[r.tr].samples[r.from].nonSync)
			}
		}
		// two passes, to know the size of the moof
		noise := t.Draw(1<<32 - 1)
		trafExtra := t.Chance(1, 5)
		tfdtFirst := t.Chance(1, 5)
		mdatHdr := 8
		big := t.Chance(1, 6)
		if big {
			mdatHdr = 16
		}
		between := ref.MkBox("free", make([]byte, t.Pick(5)))
		if !t.Chance(1, 5) {
			between = nil
		}
		build := func(size int) []byte {
			body := [][]byte{ref.MkBox("mfhd", ref.BE(4, 0, 4, uint64(p.seq)))}
			for k, tr := range p.tracks {
				h := hdrs[k]
				b := ref.BE(4, h.flags, 4, uint64(tr.id))
				if h.flags&2 != 0 {
					b = append(b, 0, 0, 0, 1)
				}
				if h.flags&8 != 0 {
					b = append(b, ref.BE(4, h.dur)...)
				}
				if h.flags&0x10 != 0 {
					b = append(b, ref.BE(4, h.size)...)
				}
				if h.flags&0x20 != 0 {
					b = append(b, ref.BE(4, h.flags2)...)
				}
				tfhd := ref.MkBox("tfhd", b)
				tfdt := ref.MkBox("tfdt", ref.BE(1, h.v, 3, 0, 4+4*h.v, tr.base))
				parts := [][]byte{tfhd, tfdt}
				if tfdtFirst {
					parts = [][]byte{tfdt, tfhd}
				}
				for i, r := range runs {
					if r.tr != k {
						continue
					}
					b = ref.BE(1, r.version, 3, r.flags, 4, uint64(r.to-r.from), 4, uint64(uint32(size+len(between)+mdatHdr+r.off)))
					if r.flags&4 != 0 {
						b = append(b, ref.BE(4, firstFlags[i])...)
					}
					for _, s := range tr.samples[r.from:r.to] {
						if r.flags&0x100 != 0 {
							b = append(b, ref.BE(4, uint64(s.dur))...)
						}
						if r.flags&0x200 != 0 {
							b = append(b, ref.BE(4, uint64(len(s.payload)))...)
						}
						if r.flags&0x400 != 0 {
							f := uint64(0x02000000)
							if s.nonSync {
								f = 0x01010000
							}
							b = append(b, ref.BE(4, f^noise&0x1FF0)...)
						}
						if r.flags&0x800 != 0 {
							b = append(b, ref.BE(4, uint64(uint32(s.cto)))...)
						}
					}
					parts = append(parts, ref.MkBox("trun", b))
				}
				if trafExtra {
					parts = append(parts, ref.MkBox("uuid", make([]byte, 16)), ref.MkBox("sdtp", []byte{0, 0, 0, 0}))
				}
				body = append(body, ref.MkBox("traf", parts...))
			}
			return ref.MkBox("moof", body...)
		}
		size := len(build(0))
		data = append(data, build(size)...)
		data = append(data, between...)
		if big {
			data = append(data, ref.MkBox64("mdat", payload)...)
			t.Class("64-bit-mdat")
		} else {
			data = append(data, ref.MkBox("mdat", payload)...)
		}
	}
	extra()
	return want, data, runsTotal
}

func flagsOf(t *T, nonSync bool) uint64 {
	f := uint64(t.Draw(1<<32-1)) & 0x0FFE_FFFF
	if nonSync {
		f |= 0x10000
	}
	return f
}

// c26Units: access units survive being carried in samples.
func c26Units(t *T) {
	codec := t.Pick(3)
	au := genVideoAU(t, codec)
	if len(au) == 0 {
		t.Skip()
	}
	if t.Chance(1, 60) { // lengths which need two or three bytes
		i := t.Pick(len(au))
		au[i] = append(append([]byte(nil), au[i]...), naluOfSize(t, t.Int(200, 300000))...)
	}
	logAU(t, "unit", au)
	off := int32(t.Edge(-1<<31, 1<<31-1))
	var s fmp4.Sample
	if t.Bool() { // samples can be reused
		s = fmp4.Sample{Duration: 3, PTSOffset: 7, IsNonSyncSample: t.Bool(), Payload: []byte{1, 2, 3}}
	}
	var err error
	var key bool
	switch codec {
	case 0:
		err = s.FillH264(off, au)
		key = h264Key(au)
	case 1:
		err = s.FillH265(off, au)
		key = h265Key(au)
	default:
		off = s.PTSOffset
		err = s.FillAV1(au)
		key = av1Key(au)
	}
	if err != nil {
		t.Failf("%v", err)
	}
	if s.IsNonSyncSample == key || s.PTSOffset != off {
		t.Failf("non sync %v, offset %d; expected %v, %d", s.IsNonSyncSample, s.PTSOffset, !key, off)
	}
	s.Duration = uint32(t.Draw(1 << 31))
	want := append([]byte(nil), s.Payload...)
	p := fmp4.Part{SequenceNumber: 1, Tracks: []*fmp4.PartTrack{{ID: 1, Samples: []*fmp4.Sample{{Payload: []byte{9}}, &s, {Payload: []byte{8}}}}}}
	var sb seekablebuffer.Buffer
	if err = p.Marshal(&sb); err != nil {
		t.Failf("%v", err)
	}
	var out fmp4.Parts
	if err = out.Unmarshal(sb.Bytes()); err != nil {
		t.Failf("%v", err)
	}
	g := out[0].Tracks[0].Samples[1]
	if !bytes.Equal(g.Payload, want) || g.PTSOffset != off || g.IsNonSyncSample == key {
		t.Failf("sample altered")
	}
	var res [][]byte
	switch codec {
	case 0:
		res, err = g.GetH264()
	case 1:
		res, err = g.GetH265()
	default:
		res, err = g.GetAV1()
	}
	if err != nil || !equalAU(res, au) {
		t.Failf("access unit altered: %x (%v)", res, err)
	}
	t.Classf("codec:%d", codec)
	t.NonTrivial()
}

func init() {
	Register(&Prop{
		ID:    "C26",
		Title: "Fragmented-MP4 parts round-trip and are structurally sound",
		Rule:  "at least two samples; several runs; a carried access unit",
		Assumptions: []string{
			"track identifiers fit 32 bits, a track has at most 19200 samples per run (limit of the reader), a part is smaller than 2 GiB",
			"foreign fragments: data offsets are present and relative to the movie fragment (default-base-is-moof); defaults come from the fragment, not from the initialization segment; offsets of version 0 runs are below 2^31",
		},
		Subs: []Sub{
			{Name: "round-trip", Fn: c26Round, Quick: 20000},
			{Name: "big", Fn: c26Big, Quick: 120},
			{Name: "foreign", Fn: c26Foreign, Quick: 30000},
			{Name: "units", Fn: c26Units, Quick: 30000},
		},
	})
}
