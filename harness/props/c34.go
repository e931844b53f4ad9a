package props

import (
	"bytes"
	"io"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/av1"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/vp8"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/vp9"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
	mp4codecs "github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"
	. "verif/harness/engine" //nolint:revive
)

func h264Key(au [][]byte) bool {
	for _, n := range au {
		if n[0]&0x1F == 5 {
			return true
		}
	}
	return false
}

func h265Key(au [][]byte) bool {
	for _, n := range au {
		if x := n[0] >> 1 & 0x3F; x == 19 || x == 20 || x == 21 {
			return true
		}
	}
	return false
}

func av1Key(tu [][]byte) bool {
	for _, n := range tu {
		if len(n) > 0 && n[0]>>3&0xF == 1 {
			return true
		}
	}
	return false
}

// c34First enumerates the first byte of single-unit access units, in every position of a pair.
func c34First(t *T) {
	n := 0
	for a := 0; a < 256; a++ {
		for b := 0; b < 256; b++ {
			au := [][]byte{{byte(a), 1}, {byte(b), 1}}
			if h264.IsRandomAccess(au) != h264Key(au) {
				t.Failf("H264 %x: %v", au, !h264Key(au))
			}
			if h265.IsRandomAccess(au) != h265Key(au) {
				t.Failf("H265 %x: %v", au, !h265Key(au))
			}
			if av1.IsRandomAccess2(au) != av1Key(au) {
				t.Failf("AV1 %x: %v", au, !av1Key(au))
			}
			// the deprecated function looks at the first OBU only
			if v, err := av1.IsRandomAccess(au); err != nil || v != av1Key(au[:1]) { //nolint:staticcheck
				t.Failf("AV1 %x (deprecated function): %v (%v)", au, v, err)
			}
			n++
		}
		// empty OBUs
		for _, au := range [][][]byte{{{}, {byte(a), 1}}, {{byte(a), 1}, {}}, {{}, {byte(a)}, nil, {0x32}}, {nil, {0x32}, {byte(a)}}} {
			if av1.IsRandomAccess2(au) != av1Key(au) {
				t.Failf("AV1 %x: %v", au, !av1Key(au))
			}
			n++
		}
		f := []byte{byte(a), 0, 0}
		if vp8.IsRandomAccess(f) != (a&1 == 0) {
			t.Failf("VP8 %x", f)
		}
		f = f[:1]
		if vp8.IsRandomAccess(f) != (a&1 == 0) {
			t.Failf("VP8 %x", f)
		}
		n += 2
	}
	if h264.IsRandomAccess(nil) || h265.IsRandomAccess(nil) || av1.IsRandomAccess2(nil) || vp8.IsRandomAccess(nil) || vp9.IsRandomAccess(nil) {
		t.Failf("nothing is not a random access point")
	}
	t.Enumerated(n, n)
}

func genVideoAU(t *T, codec int) [][]byte {
	n := t.Int(1, 6)
	if t.Chance(1, 12) {
		n = t.Int(7, 25)
	}
	keyAt := -1
	if t.Bool() {
		keyAt = t.Int(0, n-1)
	}
	if codec == 2 {
		n = min(n, av1.MaxOBUsPerTemporalUnit)
		keyAt = min(keyAt, n-1)
	}
	au := make([][]byte, n)
	for i := range au {
		b := t.Bytes(1 + t.Len(1, 40))
		switch codec {
		case 0:
			typ := t.Pick(32)
			for typ == 5 {
				typ = t.Pick(5)
			}
			if i == keyAt {
				typ = 5
			}
			b[0] = byte(t.Pick(4))<<5 | byte(typ)
		case 1:
			typ := t.Pick(64)
			for typ >= 19 && typ <= 21 {
				typ = t.Pick(19)
			}
			if i == keyAt {
				typ = 19 + t.Pick(3)
			}
			b[0] = byte(typ)<<1 | byte(t.Draw(1))
		default:
			typ := t.Pick(16)
			if typ == 1 {
				typ = 2
			}
			if i == keyAt {
				typ = 1
			}
			b[0] = byte(typ)<<3 | byte(t.Draw(1))
			if t.Chance(1, 6) {
				b = b[:1]
			}
		}
		au[i] = b
	}
	return au
}

// c34Samples: sync flags of MP4 samples, and their survival.
func c34Samples(t *T) {
	codec := t.Pick(3)
	n := t.Int(1, 12)
	var ss []*fmp4.Sample
	var keys []bool
	var aus [][][]byte
	mixed := [2]bool{}
	for i := 0; i < n; i++ {
		au := genVideoAU(t, codec)
		key := [](func([][]byte) bool){h264Key, h265Key, av1Key}[codec](au)
		reuse := t.Bool()
		s := &fmp4.Sample{}
		if reuse {
			s = &fmp4.Sample{IsNonSyncSample: t.Bool(), Payload: []byte{1, 2, 3}, PTSOffset: 99}
		}
		off := int32(t.Edge(-1<<31, 1<<31-1))
		var err error
		switch codec {
		case 0:
			if reuse {
				err = s.FillH264(off, au)
			} else {
				s, err = fmp4.NewSampleH264(off, au) //nolint:staticcheck
			}
		case 1:
			if reuse {
				err = s.FillH265(off, au)
			} else {
				s, err = fmp4.NewSampleH265(off, au) //nolint:staticcheck
			}
		default:
			off = s.PTSOffset
			if reuse {
				err = s.FillAV1(au)
			} else {
				s, err = fmp4.NewSampleAV12(au) //nolint:staticcheck
			}
		}
		if err != nil {
			t.Failf("sample %d: %v", i, err)
		}
		t.Logf("sample %d: codec %d au=%x key=%v", i, codec, au, key)
		if s.IsNonSyncSample == key {
			t.Failf("sample %d: IsNonSyncSample is %v, the access unit contains a key picture: %v", i, s.IsNonSyncSample, key)
		}
		if s.PTSOffset != off {
			t.Failf("sample %d: PTS offset is %d, expected %d", i, s.PTSOffset, off)
		}
		s.Duration = uint32(t.Int(1, 100000))
		mixed[b2i(key)] = true
		ss, keys, aus = append(ss, s), append(keys, key), append(aus, au)
	}
	if mixed[0] && mixed[1] {
		t.NonTrivial()
	}

	check := func(what string, i int, s *fmp4.Sample) {
		if s.IsNonSyncSample == keys[i] {
			t.Failf("%s: sample %d has IsNonSyncSample=%v, expected %v", what, i, s.IsNonSyncSample, !keys[i])
		}
		var au [][]byte
		var err error
		var ra bool
		switch codec {
		case 0:
			au, err = s.GetH264()
			ra = err == nil && h264.IsRandomAccess(au)
		case 1:
			au, err = s.GetH265()
			ra = err == nil && h265.IsRandomAccess(au)
		default:
			au, err = s.GetAV1()
			ra = err == nil && av1.IsRandomAccess2(au)
		}
		if err != nil {
			t.Failf("%s: sample %d: %v", what, i, err)
		}
		want := aus[i]
		if !equalAU(au, want) {
			t.Failf("%s: sample %d gives %x, expected %x", what, i, au, want)
		}
		if ra != keys[i] {
			t.Failf("%s: sample %d: random access is %v, expected %v", what, i, ra, keys[i])
		}
	}
	for i, s := range ss {
		check("built sample", i, s)
	}

	// fragments
	parts := fmp4.Parts{}
	for i := 0; i < n; {
		k := t.Int(1, n-i)
		parts = append(parts, &fmp4.Part{
			SequenceNumber: uint32(len(parts)),
			Tracks:         []*fmp4.PartTrack{{ID: 1, BaseTime: uint64(i) * 1000, Samples: ss[i : i+k]}},
		})
		i += k
	}
	var sb seekablebuffer.Buffer
	if err := parts.Marshal(&sb); err != nil {
		t.Failf("writing fragments failed: %v", err)
	}
	var rp fmp4.Parts
	if err := rp.Unmarshal(sb.Bytes()); err != nil {
		t.Failf("reading fragments failed: %v", err)
	}
	i := 0
	for _, p := range rp {
		for _, tr := range p.Tracks {
			for _, s := range tr.Samples {
				if i >= n {
					t.Failf("too many samples")
				}
				check("fragments", i, s)
				i++
			}
		}
	}
	if i != n {
		t.Failf("%d samples read from fragments, expected %d", i, n)
	}

	// file
	pr := pmp4.Presentation{Tracks: []*pmp4.Track{{
		ID: 1, TimeScale: 90000,
		Codec: &mp4codecs.MPEG4Audio{Config: mpeg4audio.Config{Type: 2, SampleRate: 48000, ChannelConfig: 2, ChannelCount: 2}},
	}}}
	for _, s := range ss {
		pl := s.Payload
		pr.Tracks[0].Samples = append(pr.Tracks[0].Samples, &pmp4.Sample{
			Duration: s.Duration, PTSOffset: s.PTSOffset, IsNonSyncSample: s.IsNonSyncSample,
			PayloadSize: uint32(len(pl)), GetPayload: func() ([]byte, error) { return pl, nil },
		})
	}
	var fb bytes.Buffer
	if err := pr.Marshal(&fb); err != nil {
		t.Failf("writing file failed: %v", err)
	}
	var rpr pmp4.Presentation
	if err := rpr.Unmarshal(bytes.NewReader(fb.Bytes())); err != nil {
		t.Failf("reading file failed: %v", err)
	}
	if len(rpr.Tracks) != 1 || len(rpr.Tracks[0].Samples) != n {
		t.Failf("file has wrong shape")
	}
	for i, s := range rpr.Tracks[0].Samples {
		pl, err := s.GetPayload()
		if err != nil {
			t.Failf("payload of sample %d: %v", i, err)
		}
		check("file", i, &fmp4.Sample{IsNonSyncSample: s.IsNonSyncSample, Payload: pl})
	}
}

// c34Long: access units of many units, the one that matters at any position.
func c34Long(t *T) {
	n := t.Int(1, 300)
	at := t.Pick(n)
	key := t.Bool()
	other := [][]byte{{0x41}, {0x02}, {0x32}}
	keys := [][]byte{{0x65}, {19 << 1}, {0x0A}}
	for codec := 0; codec < 3; codec++ {
		au := make([][]byte, n)
		for i := range au {
			au[i] = []byte{other[codec][0], byte(i), byte(i >> 8)}
			if i == at && key {
				au[i] = append([]byte(nil), keys[codec]...)
				if t.Bool() {
					au[i] = append(au[i], t.Bytes(3)...)
				}
			}
		}
		got := [](func([][]byte) bool){h264.IsRandomAccess, h265.IsRandomAccess, av1.IsRandomAccess2}[codec](au)
		if got != key {
			t.Failf("codec %d, %d units, the one at position %d is a key one: %v; random access is %v", codec, n, at, key, got)
		}
	}
	t.Logf("%d units, position %d, key %v", n, at, key)
	if n > 1 && key {
		t.NonTrivial()
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// c34VP9: key frames of VP9, and VP8.
func c34VP9(t *T) {
	h, buf, bitLen := genVP9(t)
	key := !h.ShowExistingFrame && !h.NonKeyFrame
	t.Logf("header %s, frame %x", dump(h), buf)
	if vp9.IsRandomAccess(buf) != key {
		t.Failf("random access is %v, expected %v", !key, key)
	}
	// truncated headers are not random access points
	for i := 0; i < (bitLen+7)/8 && i < len(buf); i++ {
		if vp9.IsRandomAccess(buf[:i:i]) {
			t.Failf("truncated header %x is a random access point", buf[:i])
		}
	}
	if key {
		t.NonTrivial()
	}
}

// c34TS: random access indicators of MPEG-TS packets.
func c34TS(t *T) {
	s := genTSStream(t, tsOpts{maxTracks: 4, maxUnits: 40, big: t.Chance(1, 6)})
	pess := tsInspect(t, s)
	mixed := [2]bool{}
	for i, e := range pess {
		u := &s.units[i]
		m := s.models[u.track]
		want := u.key || !m.isVideo()
		if e.First.RAI != want {
			t.Failf("unit %d (%s): random access indicator is %v, expected %v", i, tsKindNames[m.kind], e.First.RAI, want)
		}
		for k, p := range e.Packets[1:] {
			if p.RAI {
				t.Failf("unit %d: packet %d has a random access indicator", i, k+1)
			}
		}
		if m.isVideo() {
			mixed[b2i(u.key)] = true
		}
	}
	if mixed[0] && mixed[1] {
		t.NonTrivial()
	}
	// what is delivered is detected the same way
	res := tsRead(bytes.NewReader(s.data), 0)
	if res.initErr != nil || res.err != io.EOF {
		t.Failf("reading failed: %v %v", res.initErr, res.err)
	}
	for k, m := range s.models {
		if m.kind != tsH264 && m.kind != tsH265 {
			continue
		}
		j := 0
		for i := range s.units {
			if s.units[i].track != k {
				continue
			}
			g := res.got[m.want.PID]
			if j >= len(g) {
				t.Failf("track %d: units are missing", k)
			}
			ra := h264.IsRandomAccess
			if m.kind == tsH265 {
				ra = h265.IsRandomAccess
			}
			if len(g[j].data) != 0 && ra(g[j].data) != s.units[i].key {
				t.Failf("unit %d: random access after reading is not %v", i, s.units[i].key)
			}
			j++
		}
	}
}

func init() {
	Register(&Prop{
		ID:    "C34",
		Boost: 2,
		Title: "Random access points are identified consistently",
		Rule:  "key and non-key access units in the same history; enumerated first bytes; VP9 key frames",
		Assumptions: []string{
			"NAL units are not empty",
			"MPEG-4 video: random access means a group of VOP start code (00 00 01 B3), MPEG-1/2 video: a group of pictures start code (00 00 01 B8), as the library's writer defines",
		},
		Subs: []Sub{
			{Name: "first-bytes", Fn: c34First, Once: true},
			{Name: "samples", Fn: c34Samples, Quick: 30000},
			{Name: "long", Fn: c34Long, Quick: 3000},
			{Name: "vp9", Fn: c34VP9, Quick: 60000},
			{Name: "ts", Fn: c34TS, Quick: 10000},
		},
	})
}
