package props

import (
	"bytes"
	"fmt"
	"io"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	tscodecs "github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/codecs"
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

// tsInspect checks the emitted stream with the independent parser.
func tsInspect(t *T, s *tsStream) []*ref.TSPES {
	pkts, err := ref.ParseTS(s.data)
	if err != nil {
		t.Failf("emitted stream: %v", err)
	}
	lead := int(s.models[s.units[0].track].want.PID)
	pids := s.pids()

	var lastPMT *ref.TSPMT
	var lastPMTPayload []byte
	versions := map[int]string{}
	seenPAT := false
	pmtPID := -1
	for _, p := range pkts {
		switch {
		case p.PID == 0:
			pat, err2 := ref.ParsePAT(p)
			if err2 != nil {
				t.Failf("PAT at packet %d: %v", p.Index, err2)
			}
			if len(pat) != 1 {
				t.Failf("PAT with %d programs", len(pat))
			}
			for _, v := range pat {
				if pmtPID >= 0 && v != pmtPID {
					t.Failf("PMT PID changed")
				}
				pmtPID = v
			}
			seenPAT = true
		case p.PID == pmtPID:
			pmt, err2 := ref.ParsePMT(p)
			if err2 != nil {
				t.Failf("PMT at packet %d: %v", p.Index, err2)
			}
			if len(pmt.ES) != len(s.models) {
				t.Failf("PMT with %d streams, expected %d", len(pmt.ES), len(s.models))
			}
			for i, es := range pmt.ES {
				m := s.models[i]
				if es.PID != int(m.want.PID) || es.Type != tsStreamTypes[m.kind] {
					t.Failf("PMT: stream %d has PID %d and type %#x, expected %d and %#x", i, es.PID, es.Type, m.want.PID, tsStreamTypes[m.kind])
				}
				lang := ""
				for _, d := range es.Desc {
					if d[0] == 0x0A && len(d) >= 5 {
						lang = string(d[2:5])
					}
				}
				if lang != m.want.Language {
					t.Failf("PMT: stream %d has language %q, expected %q", i, lang, m.want.Language)
				}
			}
			if !pids[pmt.PCRPID] {
				t.Failf("PMT: PCR PID %d is not a stream", pmt.PCRPID)
			}
			if lastPMT != nil && lastPMT.Version == pmt.Version && !bytes.Equal(lastPMTPayload, p.Payload) {
				t.Failf("PMT changed and its version did not")
			}
			if v, ok := versions[pmt.Version]; ok && v != string(p.Payload) {
				t.Failf("PMT version %d has two contents", pmt.Version)
			}
			versions[pmt.Version] = string(p.Payload)
			lastPMT, lastPMTPayload = pmt, p.Payload
		case pids[p.PID]:
			if !seenPAT || lastPMT == nil {
				t.Failf("packet %d: media before the tables", p.Index)
			}
			if lastPMT.PCRPID != lead {
				t.Failf("packet %d: the table in force says that clock references are on PID %d, the leading track has PID %d", p.Index, lastPMT.PCRPID, lead)
			}
			if p.HasPCR && p.PID != lead {
				t.Failf("packet %d: clock reference on PID %d, expected on %d only", p.Index, p.PID, lead)
			}
		default:
			t.Failf("packet %d: unexpected PID %d", p.Index, p.PID)
		}
	}

	pess, err := ref.ReassemblePES(pkts, pids)
	if err != nil {
		t.Failf("emitted stream: %v", err)
	}
	if len(pess) != len(s.units) {
		t.Failf("stream contains %d PES packets, expected %d", len(pess), len(s.units))
	}
	without := 0
	s.large, s.single = make([]bool, len(s.units)), make([]bool, len(s.units))
	for i, e := range pess {
		s.large[i] = e.Length == 0 && !s.models[s.units[i].track].isVideo()
		s.single[i] = len(e.Packets) == 1
		u := &s.units[i]
		m := s.models[u.track]
		if e.PID != int(m.want.PID) {
			t.Failf("PES %d is on PID %d, expected %d", i, e.PID, m.want.PID)
		}
		if m.kind == tsKLVAsync {
			if e.HasPTS {
				t.Failf("PES %d of an asynchronous track has a timestamp", i)
			}
		} else if !e.HasPTS || e.PTS != u.pts&mask33 || e.DTS != u.dts&mask33 {
			t.Failf("PES %d has timestamps %d/%d, expected %d/%d", i, e.PTS, e.DTS, u.pts&mask33, u.dts&mask33)
		}
		if m.isVideo() && e.StreamID&0xF0 != 0xE0 {
			t.Failf("PES %d of a video track has stream id %#x", i, e.StreamID)
		}
		if e.Length == 0 && !m.isVideo() && len(e.Data)+14-6 <= 65000 {
			t.Failf("PES %d has no length", i)
		}
		for k, p := range e.Packets {
			if p.HasPCR && m.kind != tsKLVAsync {
				ahead := (u.dts - p.PCRBase) & mask33
				if ahead >= 1<<32 {
					t.Failf("PES %d: clock reference %d is ahead of the decoding time %d", i, p.PCRBase, u.dts&mask33)
				}
			}
			if k > 0 && (p.RAI || p.HasPCR) {
				t.Failf("PES %d: random access or clock reference inside the PES", i)
			}
		}
		if e.PID == lead {
			if e.First.HasPCR {
				without = 0
			} else if without++; without > 12 || i == 0 {
				t.Failf("PES %d: clock references are missing on the leading track", i)
			}
		}
	}
	return pess
}

// expected deliveries, per track: asynchronous units take the time of the last PES with a timestamp.
type tsExpect struct {
	unit   int
	pts    int64 // of asynchronous units
	ptsSet bool  // whether the time is determined
	timed  bool  // whether a timed unit precedes
}

func tsExpected(s *tsStream) map[int][]tsExpect {
	r := map[int][]tsExpect{}
	var last int64
	has := false
	for i := range s.units {
		u := &s.units[i]
		m := s.models[u.track]
		if m.kind != tsKLVAsync {
			last, has = u.pts&mask33, true
			r[u.track] = append(r[u.track], tsExpect{unit: i})
			continue
		}
		if s.large[i] {
			// delivered when the next unit of the track, or the end, is found
			r[u.track] = append(r[u.track], tsExpect{unit: i, timed: has})
			continue
		}
		if has {
			r[u.track] = append(r[u.track], tsExpect{unit: i, pts: last, ptsSet: true})
		}
	}
	return r
}

func c28(t *T) {
	o := tsOpts{maxTracks: 6, maxUnits: 60, big: t.Chance(1, 4), tables: t.Chance(1, 3)}
	if t.Chance(1, 20) {
		o.maxTracks = 33
	}
	if t.Chance(1, 700) {
		o.maxUnits, o.big = 3000, false
	}
	s := genTSStream(t, o)
	if len(s.units) > 1000 {
		t.Class("long")
	}
	if len(s.models) > 20 {
		t.Class("many-tracks")
	}
	c28Check(t, s)
	if len(s.models) > 1 && len(s.units) > len(s.models) {
		t.NonTrivial()
	}
}

func c28Check(t *T, s *tsStream) {
	tsInspect(t, s)

	res := tsRead(variousReader(t, s.data), 0)
	if res.initErr != nil {
		t.Failf("opening failed: %v", res.initErr)
	}
	if res.err != io.EOF {
		t.Failf("reading ended with %v", res.err)
	}
	if res.altered != nil {
		t.Failf("%v", res.altered)
	}
	if len(res.errs) != 0 {
		t.Failf("decode error: %v", res.errs[0])
	}
	checkTSTracks(t, s.models, res.tracks)
	if err := tsCompare(s, res.got); err != nil {
		t.Failf("%v", err)
	}

	// the tracks that were read can be written again, and give the same stream
	if len(s.tables) == 0 {
		s2 := &tsStream{units: s.units}
		for i, m := range s.models {
			m2 := *m
			m2.track = res.tracks[i]
			s2.models = append(s2.models, &m2)
		}
		tsWriteAll(t, s2)
		if !bytes.Equal(s.data, s2.data) {
			t.Failf("writing again with the tracks that were read gives a different stream")
		}
	}
}

// c28Callbacks: tracks without a callback do not matter; errors of callbacks end the read in progress, and nothing else.
func c28Callbacks(t *T) {
	var data []byte
	if t.Bool() {
		s := genTSStream(t, tsOpts{maxTracks: 5, maxUnits: 25, tables: t.Chance(1, 3)})
		data = s.data
	} else {
		data = genForeignTS(t).data
	}
	t.Key(data)
	full := tsRead(bytes.NewReader(data), 0)
	if full.initErr != nil {
		t.Failf("opening failed: %v", full.initErr)
	}
	r := &mpegts.Reader{R: bytes.NewReader(data)}
	if err := r.Initialize(); err != nil {
		t.Failf("%v", err)
	}
	got := map[uint16][]tsGot{}
	var inj error
	failed, delivered := 0, 0
	listened := map[uint16]bool{}
	for _, tr := range r.Tracks() {
		if t.Chance(1, 3) {
			continue
		}
		listened[tr.PID] = true
		pid := tr.PID
		t.Logf("listening to %d", pid)
		add := func(pts, dts int64, data [][]byte) error {
			got[pid] = append(got[pid], tsGot{pts, dts, cloneParts(data)})
			delivered++
			if t.Chance(1, 6) {
				inj = fmt.Errorf("refused, %d", failed)
				failed++
				return inj
			}
			return nil
		}
		if t.Chance(1, 4) { // replaced by the next one
			bad := func(int64, int64, [][]byte) error { t.Failf("a replaced callback was called"); return nil }
			tsListen(r, tr, bad,
				func(int64, []byte) error { return bad(0, 0, nil) },
				func(int64, [][]byte) error { return bad(0, 0, nil) })
		}
		tsListen(r, tr, add,
			func(pts int64, data []byte) error { return add(pts, pts, [][]byte{data}) },
			func(pts int64, data [][]byte) error { return add(pts, pts, data) })
	}
	for n := 0; ; n++ {
		inj = nil
		before := delivered
		err := r.Read()
		if delivered > before+1 {
			t.Failf("%d units were delivered by a read", delivered-before)
		}
		if inj != nil {
			if err != inj { //nolint:errorlint
				t.Failf("the callback returned %q, the read returned %v", inj, err)
			}
			continue
		}
		if err == io.EOF {
			break
		}
		if err != nil {
			t.Failf("reading failed: %v", err)
		}
		if n > 2*len(data)/188+1000 {
			t.Failf("no end of input after %d reads", n)
		}
	}
	want := 0
	for _, tr := range r.Tracks() {
		g, w := got[tr.PID], full.got[tr.PID]
		if !listened[tr.PID] {
			continue
		}
		want += len(w)
		if len(g) != len(w) {
			t.Failf("PID %d: %d units delivered, %d without errors", tr.PID, len(g), len(w))
		}
		for i := range g {
			if g[i].pts != w[i].pts || g[i].dts != w[i].dts || !equalAU(g[i].data, w[i].data) {
				t.Failf("PID %d, unit %d is different", tr.PID, i)
			}
		}
	}
	if want != delivered {
		t.Failf("%d units delivered, expected %d", delivered, want)
	}
	if failed > 0 && len(listened) < len(r.Tracks()) {
		t.NonTrivial()
	}
}

// tsCompare checks that everything was delivered.
func tsCompare(s *tsStream, got map[uint16][]tsGot) error {
	exp := tsExpected(s)
	for k, m := range s.models {
		g := got[m.want.PID]
		e := exp[k]
		same := func(i, j int) error {
			u := &s.units[e[i].unit]
			if err := tsSameUnit(m, u, &g[j]); err != nil {
				return err
			}
			if m.kind == tsKLVAsync && e[i].ptsSet && g[j].pts != e[i].pts {
				return fmt.Errorf("time %d, expected that of the preceding unit, %d", g[j].pts, e[i].pts)
			}
			return nil
		}
		// units that may be missing:
		// - known finding: a large unit of a track without video, followed by a unit that fits a packet
		// - a large asynchronous unit, completed before any time is known
		optional := func(i int) bool {
			if !s.large[e[i].unit] {
				return false
			}
			return i+1 < len(e) && s.single[e[i+1].unit] || m.kind == tsKLVAsync && !e[i].timed
		}
		// ok[i][j]: e[i:] matches g[j:]
		ok := make([][]bool, len(e)+1)
		for i := range ok {
			ok[i] = make([]bool, len(g)+1)
		}
		ok[len(e)][len(g)] = true
		for i := len(e) - 1; i >= 0; i-- {
			for j := len(g); j >= 0; j-- {
				if d := (len(e) - i) - (len(g) - j); d < 0 || d > 0 && !anyLarge(s) {
					continue
				}
				ok[i][j] = optional(i) && ok[i+1][j] || j < len(g) && ok[i+1][j+1] && same(i, j) == nil
			}
		}
		if ok[0][0] {
			continue
		}
		for i := range e {
			if i >= len(g) {
				break
			}
			if err := same(i, i); err != nil && !optional(i) {
				return fmt.Errorf("track %d (%s), unit %d: %w", k, tsKindNames[m.kind], i, err)
			}
		}
		return fmt.Errorf("track %d (%s): %d units delivered, expected %d", k, tsKindNames[m.kind], len(g), len(e))
	}
	return nil
}

func anyLarge(s *tsStream) bool {
	for _, x := range s.large {
		if x {
			return true
		}
	}
	return false
}

// c28Huge: units far beyond a PES length, KLV units of more than 256 cells.
func c28Huge(t *T) {
	m := genTSModel(t, []int{tsKLVSync, tsKLVSync, tsH264, tsH265, tsMPEG4Video, tsKLVAsync, tsDVB}[t.Pick(7)])
	m.want.PID = 256
	v := genTSModel(t, tsMPEG1Video)
	v.want.PID = 257
	s := &tsStream{models: []*tsModel{m, v}}
	n := t.Int(200000, 700000)
	if m.kind == tsKLVSync {
		n = 65535 * t.Int(1, 9)
		if t.Bool() {
			n += t.Int(-1, 1)
		}
	}
	mk := func(n int) tsUnit {
		u := tsUnit{pts: 1000}
		b := t.Bytes(n)
		if m.kind == tsH264 || m.kind == tsH265 {
			b[0] = 0x41
			b = fixNALU(b)
		}
		u.data = [][]byte{b}
		u.want = u.data
		u.dts = u.pts
		return u
	}
	u0 := tsUnit{track: 1, pts: 500, dts: 500, data: [][]byte{{1, 2, 3}}}
	u0.want = u0.data
	u3 := u0
	u3.pts, u3.dts = 1500, 1500
	s.units = []tsUnit{u0, mk(n), mk(10), u3}
	t.Logf("%s unit of %d bytes", tsKindNames[m.kind], n)
	tsWriteAll(t, s)
	c28Check(t, s)
	t.Class("huge:" + tsKindNames[m.kind])
	t.NonTrivial()
}

// c28PIDs: every identifier is either refused (when it belongs to other contents) or works.
func c28PIDs(t *T) {
	one := func(pids ...uint16) (bool, string) {
		var tracks []*mpegts.Track
		for _, p := range pids {
			tracks = append(tracks, &mpegts.Track{PID: p, Codec: &tscodecs.MPEG4Video{}})
		}
		var buf bytes.Buffer
		w := &mpegts.Writer{W: &buf, Tracks: tracks}
		if err := w.Initialize(); err != nil {
			return false, ""
		}
		for i, tr := range tracks {
			if err := w.WriteMPEG4Video(tr, int64(1000+i), []byte{0, 0, 1, 0xB3, byte(i)}); err != nil {
				return true, err.Error()
			}
		}
		r := &mpegts.Reader{R: &buf}
		if err := r.Initialize(); err != nil {
			return true, err.Error()
		}
		if len(r.Tracks()) != len(tracks) {
			return true, fmt.Sprintf("%d tracks", len(r.Tracks()))
		}
		n := 0
		for i, tr := range r.Tracks() {
			if tr.PID != tracks[i].PID || (pids[i] != 0 && tr.PID != pids[i]) {
				return true, fmt.Sprintf("track %d has PID %d", i, tr.PID)
			}
			r.OnDataMPEGxVideo(tr, func(pts int64, frame []byte) error {
				if pts != int64(1000+i) || !bytes.Equal(frame, []byte{0, 0, 1, 0xB3, byte(i)}) {
					return fmt.Errorf("unit of track %d: %d %x", i, pts, frame)
				}
				n++
				return nil
			})
		}
		for {
			if err := r.Read(); err != nil {
				if err != io.EOF {
					return true, err.Error()
				}
				break
			}
		}
		if n != len(tracks) {
			return true, fmt.Sprintf("%d units delivered, expected %d", n, len(tracks))
		}
		return true, ""
	}
	n := 0
	for p := 1; p < 1<<16; p++ {
		ok, msg := one(uint16(p))
		if msg != "" {
			t.Failf("PID %d: %s", p, msg)
		}
		if !ok && p >= 0x20 && p < 0x1FFF && p != 0x1000 {
			t.Failf("PID %d was refused", p)
		}
		n++
	}
	for a := 0; a < 12; a++ {
		for b := 0; b < 12; b++ {
			for c := 0; c < 12; c++ {
				pids := []uint16{0, 0, 0}
				dup := false
				for i, v := range []int{a, b, c} {
					if v > 0 {
						pids[i] = uint16(252 + v)
					}
					for _, w := range []int{a, b, c}[:i] {
						dup = dup || (v != 0 && v == w)
					}
				}
				ok, msg := one(pids...)
				if msg != "" {
					t.Failf("PIDs %v: %s", pids, msg)
				}
				if ok == dup {
					t.Failf("PIDs %v: accepted %v, expected %v", pids, ok, !dup)
				}
				n++
			}
		}
	}
	t.Enumerated(n, n)
}

// tsFlow is a stream, with what its packets carry.
type tsFlow struct {
	models  []*tsModel
	units   []tsUnit
	data    []byte
	pktUnit []int // per packet: the unit, -1 tables, -2 others
	timed   bool  // a timed unit begins before asynchronous ones
	inter   bool
	exact   bool           // everything must be delivered
	unknown map[uint16]int // position in the table of streams that are not supported
	strange bool           // there are packets that are not of the first program
}

// genForeignTS generates streams of another multiplexer, with interleaved packets and everything the standard leaves free.
func genForeignTS(t *T) *tsFlow {
	maxTracks, room := 5, 166
	many := t.Chance(1, 40)
	if many { // the table takes several packets
		maxTracks, room = 60, 700
	}
	ms := genTSModelsIn(t, maxTracks, room)
	n := t.Int(len(ms), len(ms)+20)
	if len(ms) > 20 {
		t.Class("many-tracks")
	}
	s := &tsStream{models: ms}
	noLen := make([]bool, len(ms))
	streamID := make([]byte, len(ms))
	for i, m := range ms {
		noLen[i] = t.Chance(1, 3)
		switch {
		case m.isVideo():
			streamID[i] = 0xE0 + byte(t.Pick(16))
		case m.kind == tsKLVSync:
			streamID[i] = 0xFC
		case m.kind == tsAC3 || m.kind == tsEAC3 || m.kind == tsOpus || m.kind == tsKLVAsync || m.kind == tsDVB:
			streamID[i] = 0xBD
		default:
			streamID[i] = 0xC0 + byte(t.Pick(32))
		}
		m.want.PID = uint16(0x20 + 0x111*i + t.Pick(0x110))
		if many {
			m.want.PID = uint16(0x20 + 0x30*i + t.Pick(0x30))
		}
		if m.want.PID == 0x1000 {
			m.want.PID++
		}
	}
	mux := &ref.TSMuxer{}
	stuffing := t.Chance(1, 2)
	mux.Stuff = func() int {
		if stuffing && t.Chance(1, 6) {
			return t.Int(1, 60)
		}
		return 0
	}
	pmtPID := 0x1000
	if t.Bool() {
		pmtPID = 0x1C00 + t.Pick(0x300)
	}
	var es []ref.TSES
	unknown := map[uint16]int{}
	var otherPIDs []int // of streams that are not read
	addUnknown := func() {
		if t.Chance(1, 8) {
			e := tsUnknownES(t, 0x1800+len(es))
			unknown[uint16(e.PID)] = len(es)
			otherPIDs = append(otherPIDs, e.PID)
			es = append(es, e)
		}
	}
	for _, m := range ms {
		addUnknown()
		es = append(es, tsForeignES(t, m))
	}
	addUnknown()
	var info []byte
	if t.Chance(1, 3) { // push the table over several packets
		for len(info) < 170 {
			l := t.Int(1, 40)
			info = append(append(info, 0x80+byte(t.Pick(60)), byte(l)), t.Bytes(l)...)
		}
	}
	progs := [][2]int{{1 + t.Pick(1000), pmtPID}}
	if t.Chance(1, 4) {
		progs = append([][2]int{{0, 0x10}}, progs...)
	}
	first := len(progs) - 1
	var es2 []ref.TSES
	if t.Chance(1, 8) { // another program
		progs = append(progs, [2]int{1 + t.Pick(1000) + 1000, 0x1F00})
		es2 = []ref.TSES{{Type: 0x1B, PID: 0x1A00}, {Type: 0x0F, PID: 0x1A01}}
		otherPIDs = append(otherPIDs, 0x1A00, 0x1A01)
		t.Class("two-programs")
	}
	tables := func() []byte {
		mux.Out = nil
		mux.PAT(progs)
		mux.PMT(pmtPID, progs[first][0], es[0].PID, info, es)
		if es2 != nil {
			mux.PMT(0x1F00, progs[first+1][0], es2[0].PID, nil, es2)
		}
		return mux.Out
	}
	stream := append([]byte(nil), tables()...)
	f := &tsFlow{models: ms, unknown: unknown, strange: es2 != nil}
	mark := func(unit int) {
		for len(f.pktUnit) < len(stream)/188 {
			f.pktUnit = append(f.pktUnit, unit)
		}
	}
	mark(-1)

	// queues of packets, per PID
	queues := make([][][]byte, len(ms))
	starts := make([][]bool, len(ms))
	owner := make([][]int, len(ms))
	for i := 0; i < n; i++ {
		k := i
		if i >= len(ms) {
			k = t.Pick(len(ms))
		}
		m := ms[k]
		u := genTSUnit(t, m, false)
		u.track = k
		if m.kind == tsMP3 { // MPEG-2 frames too
			u.data = nil
			for j, nf := 0, t.Int(1, 3); j < nf; j++ {
				b, _ := genMPAFrame(t, true)
				u.data = append(u.data, b)
			}
			u.want = u.data
		}
		u.pts &= mask33
		u.dts &= mask33
		p := tsForeignPayload(t, m, &u)
		if len(p) > 60000 {
			continue
		}
		o := ref.PESOpts{
			StreamID: streamID[k], HasPTS: m.kind != tsKLVAsync, PTS: u.pts, DTS: u.dts, HasDTS: u.pts != u.dts || t.Chance(1, 6),
			NoLength: noLen[k], RAI: t.Bool(), Flags: byte(t.Pick(16)),
		}
		o.HasDTS = o.HasDTS && o.HasPTS
		if t.Chance(1, 4) {
			o.HdrStuff = t.Int(1, 20)
		}
		o.ESRate = t.Chance(1, 8)
		o.HasPCR = t.Chance(1, 3)
		o.PCR = t.I64(0, mask33)
		if t.Chance(1, 8) {
			o.Private = t.Bytes(t.Int(1, 20))
		}
		if t.Chance(1, 8) { // little more than the header in the first packet
			o.SplitAfter = len(ref.PESBytes(o, nil))
			if t.Bool() {
				o.SplitAfter += t.Pick(40)
			}
		}
		mux.Out = nil
		mux.PESPackets(int(m.want.PID), o, p)
		for j := 0; j < len(mux.Out); j += 188 {
			queues[k] = append(queues[k], mux.Out[j:j+188])
			starts[k] = append(starts[k], j == 0)
			owner[k] = append(owner[k], len(s.units))
		}
		if t.Chance(1, 6) {
			mux.Out = nil
			mux.PCROnly(int(m.want.PID), o.PCR)
			queues[k] = append(queues[k], mux.Out)
			starts[k] = append(starts[k], false)
			owner[k] = append(owner[k], -2)
		}
		s.units = append(s.units, u)
		t.Logf("unit %d: track %d pts=%d dts=%d payload %d bytes, %+v", i, k, u.pts, u.dts, len(p), o)
	}
	// a timed unit begins before asynchronous ones
	firstTimed := -1
	for k := range ms {
		if ms[k].kind != tsKLVAsync && firstTimed < 0 && len(queues[k]) > 0 {
			firstTimed = k
		}
	}
	interleave := t.Bool()
	pos := make([]int, len(ms))
	emit := func(k int) {
		stream = append(stream, queues[k][pos[k]]...)
		mark(owner[k][pos[k]])
		pos[k]++
	}
	if firstTimed >= 0 {
		emit(firstTimed)
	}
	for {
		var avail []int
		for k := range ms {
			if pos[k] < len(queues[k]) {
				avail = append(avail, k)
			}
		}
		if len(avail) == 0 {
			break
		}
		k := avail[t.Pick(len(avail))]
		emit(k)
		for !interleave && pos[k] < len(queues[k]) && !starts[k][pos[k]] {
			emit(k)
		}
		if t.Chance(1, 10) {
			mux.Out = nil
			mux.Null()
			stream = append(stream, mux.Out...)
			mark(-2)
		}
		if len(otherPIDs) > 0 && t.Chance(1, 10) {
			mux.Out = nil
			mux.PESPackets(otherPIDs[t.Pick(len(otherPIDs))], ref.PESOpts{StreamID: 0xBD, HasPTS: true, PTS: t.I64(0, mask33)}, t.Bytes(t.Len(1, 500)))
			stream = append(stream, mux.Out...)
			mark(-2)
		}
		if t.Chance(1, 30) {
			stream = append(stream, tables()...)
			mark(-1)
		}
	}
	t.Logf("tables: PMT PID %d info %d bytes, streams %v", pmtPID, len(info), es)

	f.units, f.data, f.timed, f.inter = s.units, stream, firstTimed >= 0, interleave
	return f
}

// checkTracks checks what was read of the tables.
func (s *tsFlow) checkTracks(t *T, tracks []*mpegts.Track) {
	var known []*mpegts.Track
	for i, tr := range tracks {
		if j, ok := s.unknown[tr.PID]; ok {
			if _, ok := tr.Codec.(*tscodecs.Unsupported); !ok || i != j {
				t.Failf("track %d: PID %d %T, expected a track %d that is not supported", i, tr.PID, tr.Codec, j)
			}
			t.Class("unsupported-track")
			continue
		}
		known = append(known, tr)
	}
	if len(tracks)-len(known) != len(s.unknown) {
		t.Failf("tracks are missing: %s", dump(tracks))
	}
	checkTSTracks(t, s.models, known)
}

func c28Foreign(t *T) {
	s := genForeignTS(t)
	ms := s.models
	res := tsRead(bytes.NewReader(s.data), 0)
	if res.initErr != nil {
		t.Failf("opening failed: %v", res.initErr)
	}
	if res.err != io.EOF {
		t.Failf("reading ended with %v", res.err)
	}
	if res.altered != nil {
		t.Failf("%v", res.altered)
	}
	if len(res.errs) != 0 && !s.strange {
		t.Failf("decode error: %v", res.errs[0])
	}
	s.checkTracks(t, res.tracks)
	for k, m := range ms {
		if m.kind == tsKLVAsync && !s.timed {
			continue
		}
		g := res.got[m.want.PID]
		j := 0
		for i := range s.units {
			u := &s.units[i]
			if u.track != k {
				continue
			}
			if j >= len(g) {
				t.Failf("track %d (%s): only %d units delivered", k, tsKindNames[m.kind], len(g))
			}
			if err := tsSameUnit(m, u, &g[j]); err != nil {
				t.Failf("track %d (%s), unit %d: %v", k, tsKindNames[m.kind], j, err)
			}
			j++
		}
		if j != len(g) {
			t.Failf("track %d (%s): %d units delivered, expected %d", k, tsKindNames[m.kind], len(g), j)
		}
	}
	if s.inter && len(ms) > 1 {
		t.Class("interleaved")
		t.NonTrivial()
	}
}

// c28Transmux: what was read of a stream of another multiplexer can be written with the tracks that were read.
func c28Transmux(t *T) {
	f := genForeignTS(t)
	t.Key(f.data)
	r := &mpegts.Reader{R: bytes.NewReader(f.data)}
	if t.Bool() {
		var err error
		if r, err = mpegts.NewReader(bytes.NewReader(f.data)); err != nil { //nolint:staticcheck
			t.Failf("opening failed: %v", err)
		}
	} else if err := r.Initialize(); err != nil {
		t.Failf("opening failed: %v", err)
	}
	byPID := map[uint16]*tsModel{}
	for _, m := range f.models {
		byPID[m.want.PID] = m
	}
	s := &tsStream{}
	var tracks []*mpegts.Track
	remap := map[*mpegts.Track]uint16{}
	for _, tr := range r.Tracks() {
		if _, ok := tr.Codec.(*tscodecs.Unsupported); ok {
			continue
		}
		m := *byPID[tr.PID]
		m.track = tr
		k := len(s.models)
		s.models = append(s.models, &m)
		tracks = append(tracks, tr)
		add := func(pts, dts int64, data [][]byte) error {
			s.units = append(s.units, tsUnit{track: k, pts: pts, dts: dts, data: data, want: cloneParts(data)})
			return nil
		}
		tsListen(r, tr, add,
			func(pts int64, data []byte) error { return add(pts, pts, [][]byte{data}) },
			func(pts int64, data [][]byte) error { return add(pts, pts, data) })
	}
	for {
		if err := r.Read(); err == io.EOF {
			break
		} else if err != nil {
			t.Failf("reading failed: %v", err)
		}
	}
	for _, tr := range tracks {
		if t.Chance(1, 3) {
			tr.PID = 0
		}
		remap[tr] = tr.PID
	}
	// tables must fit a packet
	if len(tracks) > 5 {
		t.Skip()
	}
	var buf bytes.Buffer
	w := &mpegts.Writer{W: &buf, Tracks: tracks}
	if err := w.Initialize(); err != nil {
		t.Failf("initialization of the writer failed: %v", err)
	}
	for _, tr := range tracks {
		if remap[tr] != 0 && tr.PID != remap[tr] {
			t.Failf("PID %d became %d", remap[tr], tr.PID)
		}
	}
	params := map[int]bool{}
	var written []tsUnit
	for i := range s.units {
		u := &s.units[i]
		m := s.models[u.track]
		if len(u.data) == 0 {
			continue
		}
		if m.kind == tsMP3 { // MPEG-2 audio can be read only
			mpeg2 := false
			for _, fr := range u.data {
				mpeg2 = mpeg2 || fr[1]&8 == 0
			}
			if mpeg2 {
				if err := tsWrite(w, m, u); err == nil {
					t.Class("mpeg2-audio-written")
					written = append(written, *u)
				}
				continue
			}
		}
		if !params[u.track] && m.needsParams() {
			params[u.track] = true
		}
		if err := tsWrite(w, m, u); err != nil {
			t.Failf("unit %d of track %d (%T) cannot be written: %v", i, u.track, m.track.Codec, err)
		}
		if !equalAU(u.data, u.want) {
			t.Failf("unit %d of track %d was altered", i, u.track)
		}
		if m.kind == tsH264 && u.data[0][0] == byte(h264.NALUTypeAccessUnitDelimiter) ||
			m.kind == tsH265 && u.data[0][0] == byte(h265.NALUType_AUD_NUT)<<1 {
			u.want = u.want[1:] // delimiters are not delivered
		}
		written = append(written, *u)
	}
	for k, m := range s.models {
		if m.needsParams() && !params[k] { // no data, it cannot be opened
			t.Skip()
		}
	}
	if len(written) == 0 {
		return
	}
	res := tsRead(&buf, 0)
	if res.initErr != nil || res.err != io.EOF || len(res.errs) != 0 {
		t.Failf("reading again: %v, %v, %v", res.initErr, res.err, res.errs)
	}
	if len(res.tracks) != len(tracks) {
		t.Failf("%d tracks, expected %d", len(res.tracks), len(tracks))
	}
	for i, tr := range res.tracks {
		if tr.PID != tracks[i].PID || tr.Language != tracks[i].Language || !normEqual(tr.Codec, tracks[i].Codec) {
			t.Failf("track %d: %s, was %s", i, dump(tr), dump(tracks[i]))
		}
	}
	for k, m := range s.models {
		var want []*tsUnit
		for i := range written {
			if written[i].track == k {
				want = append(want, &written[i])
			}
		}
		got := res.got[m.track.PID]
		if m.kind == tsKLVAsync && len(got) < len(want) { // units before any time
			want = want[len(want)-len(got):]
		}
		if len(got) != len(want) {
			t.Failf("track %d (%s): %d units, expected %d", k, tsKindNames[m.kind], len(got), len(want))
		}
		for i := range got {
			if err := tsSameUnit(m, want[i], &got[i]); err != nil {
				t.Failf("track %d (%s), unit %d: %v", k, tsKindNames[m.kind], i, err)
			}
		}
	}
	if len(tracks) > 1 && len(written) > len(tracks) {
		t.NonTrivial()
	}
}

func init() {
	Register(&Prop{
		ID:    "C28",
		Title: "MPEG-TS streams round-trip for every codec and interleaving",
		Rule:  "several tracks and more units than tracks; huge units; some track without callback and some refused unit",
		Assumptions: []string{
			"access units are not empty (MPEG-TS cannot carry an empty payload), NAL units are not empty and have no start code inside",
			"asynchronous KLV units carry no time: the reader gives them the time of the most recent timestamped unit (units before any are not delivered)",
			"the PMT fits a packet (the muxer refuses larger ones)",
			"parameters of AAC, AC-3 and E-AC-3 tracks appear in the first megabyte",
		},
		Subs: []Sub{
			{Name: "streams", Fn: c28, Quick: 15000},
			{Name: "foreign", Fn: c28Foreign, Quick: 20000},
			{Name: "callbacks", Fn: c28Callbacks, Quick: 6000},
			{Name: "transmux", Fn: c28Transmux, Quick: 6000},
			{Name: "huge", Fn: c28Huge, Quick: 30, Thorough: 120},
			{Name: "identifiers", Fn: c28PIDs, Quick: 1, Thorough: 1},
		},
	})
}
