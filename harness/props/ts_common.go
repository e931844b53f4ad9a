package props

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"slices"

	"github.com/asticode/go-astits"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	tscodecs "github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/codecs"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/substructs"
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

const mask33 = 1<<33 - 1

// kinds of MPEG-TS tracks
const (
	tsH264 = iota
	tsH265
	tsMPEG4Video
	tsMPEG1Video
	tsOpus
	tsAAC
	tsLATM
	tsMP3
	tsAC3
	tsEAC3
	tsKLVSync
	tsKLVAsync
	tsDVB
	tsKinds
)

var tsKindNames = []string{
	"H264", "H265", "MPEG4Video", "MPEG1Video", "Opus", "MPEG4Audio", "LATM", "MPEG1Audio", "AC3", "EAC3", "KLV-sync", "KLV-async", "DVB",
}

var tsStreamTypes = []int{0x1B, 0x24, 0x10, 0x02, 0x06, 0x0F, 0x11, 0x03, 0x81, 0x87, 0x15, 0x06, 0x06}

// tsUnit is an access unit.
type tsUnit struct {
	track    int
	pts, dts int64
	data     [][]byte
	want     [][]byte // what the reader must deliver
	key      bool
	size     int
}

// tsModel is a track under test.
type tsModel struct {
	kind  int
	track *mpegts.Track // as written
	want  *mpegts.Track // as it must be read
	units int

	aac         mpeg4audio.Config
	ac3, ac3Mod int
	ac3LFE      bool
	desc        int // bytes of descriptors in the PMT
}

func (m *tsModel) isVideo() bool { return m.kind <= tsMPEG1Video }

func (m *tsModel) needsParams() bool { return m.kind == tsAAC || m.kind == tsAC3 || m.kind == tsEAC3 }

func genTSModel(t *T, kind int) *tsModel {
	m := &tsModel{kind: kind}
	var c, w tscodecs.Codec
	switch kind {
	case tsH264:
		c, w = &tscodecs.H264{}, &tscodecs.H264{}
	case tsH265:
		c, w = &tscodecs.H265{}, &tscodecs.H265{}
	case tsMPEG4Video:
		c, w = &tscodecs.MPEG4Video{}, &tscodecs.MPEG4Video{}
	case tsMPEG1Video:
		c, w = &tscodecs.MPEG1Video{}, &tscodecs.MPEG1Video{}
	case tsOpus:
		if t.Bool() {
			d := genOpusDesc(t)
			if b, _ := d.Marshal(); len(b) > 100 { // would not fit the table
				d = &substructs.OpusAudioDescriptor{ChannelConfigCode: uint8(t.Int(1, 8))}
			}
			e := *d
			c, w = &tscodecs.Opus{Desc: d}, &tscodecs.Opus{Desc: &e, ChannelCount: d.ChannelCount()}
			b, err := d.Marshal()
			if err != nil {
				t.Failf("encoding of descriptor failed: %v", err)
			}
			m.desc = 6 + 3 + len(b)
		} else {
			n := t.Int(1, 8)
			oc := &tscodecs.Opus{ChannelCount: n}
			c = oc
			w = nil // filled below: implied by the channel count
			m.desc = 6 + 4
		}
	case tsAAC:
		cfg := t.Pick(8)
		m.aac = mpeg4audio.Config{
			Type: mpeg4audio.ObjectType(t.Int(1, 4)), SampleRate: aacRates[t.Pick(13)],
			ChannelConfig: uint8(cfg), ChannelCount: aacChannels[cfg],
		}
		in := m.aac
		if cfg != 0 {
			switch t.Pick(3) {
			case 1:
				in.ChannelConfig = 0
			case 2:
				in.ChannelCount = 0
			}
		}
		c, w = &tscodecs.MPEG4Audio{Config: in}, &tscodecs.MPEG4Audio{Config: m.aac}
	case tsLATM:
		c, w = &tscodecs.MPEG4AudioLATM{}, &tscodecs.MPEG4AudioLATM{}
	case tsMP3:
		c, w = &tscodecs.MPEG1Audio{}, &tscodecs.MPEG1Audio{}
	case tsAC3:
		m.ac3, m.ac3Mod, m.ac3LFE = t.Pick(3), t.Pick(8), t.Bool()
		ch := ac3Channels[m.ac3Mod]
		if m.ac3LFE {
			ch++
		}
		a := tscodecs.AC3{SampleRate: []int{48000, 44100, 32000}[m.ac3], ChannelCount: ch}
		b := a
		c, w = &a, &b
		m.desc = 2 + 3
	case tsEAC3:
		m.ac3, m.ac3Mod, m.ac3LFE = t.Pick(6), t.Pick(8), t.Bool()
		ch := ac3Channels[m.ac3Mod]
		if m.ac3LFE {
			ch++
		}
		a := tscodecs.EAC3{SampleRate: []int{48000, 44100, 32000, 24000, 22050, 16000}[m.ac3], ChannelCount: ch}
		b := a
		c, w = &a, &b
		m.desc = 2 + 3
	case tsKLVSync:
		c, w = &tscodecs.KLV{Synchronous: true}, &tscodecs.KLV{Synchronous: true}
		m.desc = 40
	case tsKLVAsync:
		c, w = &tscodecs.KLV{}, &tscodecs.KLV{}
		m.desc = 6
	case tsDVB:
		var a, b tscodecs.DVBSubtitle
		for i, n := 0, t.Int(1, 3); i < n; i++ {
			it := astits.DescriptorSubtitlingItem{
				AncillaryPageID: uint16(t.EdgeU(0, 65535)), CompositionPageID: uint16(t.EdgeU(0, 65535)),
				Language: []byte{byte(t.Int('a', 'z')), byte(t.Int('a', 'z')), byte(t.Int('a', 'z'))}, Type: byte(t.Draw(255)),
			}
			it2 := it
			it2.Language = append([]byte(nil), it.Language...)
			a.Items = append(a.Items, &it)
			b.Items = append(b.Items, &it2)
			m.desc += 8
		}
		m.desc += 2
		c, w = &a, &b
	}
	m.track = &mpegts.Track{Codec: c}
	m.want = &mpegts.Track{Codec: w}
	if t.Chance(1, 3) {
		m.track.Language = string([]byte{byte(t.Int('a', 'z')), byte(t.Int('a', 'z')), byte(t.Int('a', 'z'))})
		m.want.Language = m.track.Language
		m.desc += 6
	}
	return m
}

// genTSModels generates a set of tracks whose table fits a packet.
func genTSModels(t *T, maxTracks int) []*tsModel {
	return genTSModelsIn(t, maxTracks, 183-12-4-1)
}

// genTSModelsIn generates a set of tracks that need at most room bytes in the table.
func genTSModelsIn(t *T, maxTracks, room int) []*tsModel {
	n := t.Int(1, maxTracks)
	var ms []*tsModel
	explicit := t.Chance(1, 3)
	mixed := explicit && t.Bool() // some identifiers are left to the writer
	used := map[uint16]bool{0x1000: true}
	for i := 0; i < n; i++ {
		m := genTSModel(t, t.Pick(tsKinds))
		for k := 0; maxTracks == 33 && m.desc > 0 && k < 8; k++ { // as many as possible
			m = genTSModel(t, t.Pick(tsKinds))
		}
		if room -= 5 + m.desc; room < 0 && len(ms) > 0 {
			break
		}
		if explicit && !(mixed && t.Bool()) {
			if mixed && t.Bool() { // what the writer would use
				m.track.PID = uint16(t.Int(256, 260))
			}
			for k := 0; m.track.PID == 0 || used[m.track.PID]; k++ {
				if k > 4 {
					m.track.PID = uint16(0x100 + len(used) + k)
					continue
				}
				m.track.PID = uint16(t.Edge(0x20, 0x1FFE))
				if used[m.track.PID] {
					m.track.PID = uint16(0x100 + len(used) + t.Pick(64))
				}
			}
			used[m.track.PID] = true
			m.want.PID = m.track.PID
		}
		t.Logf("track %d: %s PID %d language %q", i, tsKindNames[m.kind], m.track.PID, m.track.Language)
		t.Class("track:" + tsKindNames[m.kind])
		ms = append(ms, m)
	}
	next := uint16(256)
	for _, m := range ms {
		if m.track.PID == 0 {
			for used[next] {
				next++
			}
			m.want.PID = next
			next++
		}
	}
	return ms
}

// sizes of payloads: around packet boundaries, sometimes large.
func tsSize(t *T, lo int, big bool) int {
	switch t.Weighted(10, 6, 3, 1) {
	case 1: // around the boundaries of packets
		return max(lo, 184*t.Int(1, 4)-t.Int(0, 50))
	case 2:
		return max(lo, t.Int(lo, 2000))
	case 3:
		if big {
			switch t.Pick(4) {
			case 0: // around the largest PES length
				return 65535 - t.Int(0, 24)
			case 1:
				return t.Int(65536, 70000)
			}
			return t.Int(2000, 150000)
		}
		return max(lo, t.Int(lo, 5000))
	}
	return max(lo, t.Len(lo, 200))
}

// payload without random start codes being likely, but possible.
func tsPayload(t *T, n int) []byte {
	if n < 200 && t.Chance(1, 4) {
		return t.ZBytes(n)
	}
	b := t.Bytes(n)
	if n >= 8 && t.Chance(1, 8) {
		// something that looks like a PES start, at any place
		copy(b[t.Int(0, n-4):], []byte{0, 0, 1, 0xE0})
	}
	return b
}

func tsNALU(t *T, n int, first byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = 0xA5
	}
	if n <= 300 {
		b = t.ZBytes(n)
	} else {
		t.Fill(b)
	}
	b[0] = first
	return fixNALU(b)
}

// fixNALU removes start codes and trailing zeros in place.
func fixNALU(b []byte) []byte {
	for i := 2; i < len(b); i++ {
		if b[i-2] == 0 && b[i-1] == 0 && b[i] <= 3 {
			b[i] = 4
		}
	}
	if b[len(b)-1] == 0 {
		b[len(b)-1] = 0x80
	}
	return b
}

// tsCount is a number of audio frames of a unit.
func tsCount(t *T, usual int) int {
	if t.Chance(1, 60) {
		return t.Int(usual+1, 40)
	}
	return t.Int(1, usual)
}

// genTSUnit generates an access unit; big allows large ones.
func genTSUnit(t *T, m *tsModel, big bool) tsUnit {
	var u tsUnit
	switch m.kind {
	case tsH264, tsH265:
		n := t.Int(1, 5)
		if t.Chance(1, 40) {
			n = t.Int(6, 48)
		}
		for i := 0; i < n; i++ {
			var first byte
			if m.kind == tsH264 {
				typ := []int{1, 5, 7, 8, 6, 9, 1, 1, 12, 14, 20, 24, 31, 2}[t.Pick(14)]
				if typ == 9 && i > 0 && t.Bool() {
					typ = 1
				}
				first = byte(t.Pick(4))<<5 | byte(typ)
				if typ == 9 && t.Bool() {
					first = 9
				}
				u.key = u.key || typ == 5
			} else {
				typ := []int{1, 0, 19, 20, 21, 32, 33, 34, 35, 39, 8, 9, 16, 18, 22, 23, 40, 48, 63}[t.Pick(19)]
				first = byte(typ << 1)
				if t.Chance(1, 8) {
					first |= 1
				}
				u.key = u.key || typ == 19 || typ == 20 || typ == 21
			}
			l := tsSize(t, 1, big && n <= 3)
			u.data = append(u.data, tsNALU(t, l, first))
		}
		u.want = u.data
		if m.kind == tsH264 && u.data[0][0] == byte(h264.NALUTypeAccessUnitDelimiter) ||
			m.kind == tsH265 && u.data[0][0] == byte(h265.NALUType_AUD_NUT)<<1 {
			u.want = u.want[1:]
		}
	case tsMPEG4Video, tsMPEG1Video:
		b := tsPayload(t, tsSize(t, 1, big))
		code := byte(0xB3)
		if m.kind == tsMPEG1Video {
			code = 0xB8
		}
		if len(b) >= 4 && t.Chance(1, 3) {
			copy(b[t.Int(0, len(b)-4):], []byte{0, 0, 1, code})
		}
		for i := 0; i+3 < len(b); i++ {
			if b[i] == 0 && b[i+1] == 0 && b[i+2] == 1 && b[i+3] == code {
				u.key = true
			}
		}
		u.data = [][]byte{b}
	case tsOpus:
		n := tsCount(t, 4)
		for i := 0; i < n; i++ {
			l := tsSize(t, 0, big && n < 5)
			if t.Chance(1, 4) {
				l = []int{0, 254, 255, 256, 510, 765}[t.Pick(6)]
			}
			u.data = append(u.data, tsPayload(t, l))
		}
	case tsAAC:
		for i, n := 0, tsCount(t, 4); i < n; i++ {
			u.data = append(u.data, tsPayload(t, min(tsSize(t, 1, big && n < 5), mpeg4audio.MaxAccessUnitSize)))
		}
		if big && t.Chance(1, 20) { // more than 65535 bytes
			for len(u.data) < 16 {
				u.data = append(u.data, t.Bytes(mpeg4audio.MaxAccessUnitSize))
			}
		}
	case tsLATM:
		for i, n := 0, tsCount(t, 4); i < n; i++ {
			u.data = append(u.data, tsPayload(t, min(tsSize(t, 0, big && n < 5), 8191)))
		}
	case tsMP3:
		for i, n := 0, tsCount(t, 3); i < n; i++ {
			b, _ := genMPAFrame(t, false)
			u.data = append(u.data, b)
		}
	case tsAC3:
		fsz := t.Pick(38)
		if !big {
			fsz = t.Pick(12)
		}
		h := ac3Frame(t.Draw(65535), m.ac3, fsz, t.Pick(9), t.Pick(8), m.ac3Mod, t.Draw(63), m.ac3LFE)
		words := ac3Rates[fsz/2] * 1000 * 1536 / 16 / []int{48000, 44100, 32000}[m.ac3]
		if m.ac3 == 1 && fsz%2 == 1 {
			words++
		}
		b := t.Bytes(2 * words)
		copy(b, h)
		u.data = [][]byte{b}
	case tsEAC3:
		f := eac3Fields{strmtyp: t.Pick(4), sub: t.Pick(8), frmsiz: t.Int(3, 2047), fscod: m.ac3, blk: t.Pick(4), acmod: m.ac3Mod, lfe: m.ac3LFE, bsid: 16}
		if m.ac3 >= 3 {
			f.fscod, f.fscod2 = 3, m.ac3-3
		}
		u.data = [][]byte{f.write(t.Bytes(tsSize(t, 0, big)))}
	case tsKLVSync:
		lo := 0
		n := tsSize(t, lo, big)
		if big && t.Chance(1, 15) {
			k := t.Int(1, 3)
			if t.Chance(1, 20) {
				k = t.Int(4, 24)
			}
			n = 65535*k + t.Int(-2, 2)
		}
		u.data = [][]byte{tsPayload(t, n)}
	default:
		u.data = [][]byte{tsPayload(t, tsSize(t, 1, big))}
	}
	if u.want == nil {
		u.want = u.data
	}
	for _, d := range u.data {
		u.size += len(d) + 8
	}
	switch t.Weighted(6, 2, 1, 1) {
	case 0:
		u.pts = t.I64(0, mask33)
	case 1:
		u.pts = t.I64(0, 90000*10)
	case 2: // around the wrap
		u.pts = 1<<33 + t.I64(-20000, 20000)
	default:
		u.pts = t.Edge(-1<<34, 1<<40)
	}
	u.dts = u.pts
	if (m.kind == tsH264 || m.kind == tsH265) && t.Bool() {
		u.dts = u.pts - t.I64(0, 90000)
		if t.Chance(1, 16) { // not legal, but not altered
			u.dts = u.pts + t.I64(0, 90000)
		}
	}
	return u
}

func cloneParts(p [][]byte) [][]byte {
	r := make([][]byte, len(p))
	for i := range p {
		r[i] = append([]byte{}, p[i]...)
	}
	return r
}

// tsWrite writes a unit.
func tsWrite(w *mpegts.Writer, m *tsModel, u *tsUnit) error {
	switch m.kind {
	case tsH264:
		return w.WriteH264(m.track, u.pts, u.dts, u.data)
	case tsH265:
		return w.WriteH265(m.track, u.pts, u.dts, u.data)
	case tsMPEG4Video:
		return w.WriteMPEG4Video(m.track, u.pts, u.data[0])
	case tsMPEG1Video:
		return w.WriteMPEG1Video(m.track, u.pts, u.data[0])
	case tsOpus:
		return w.WriteOpus(m.track, u.pts, u.data)
	case tsAAC:
		return w.WriteMPEG4Audio(m.track, u.pts, u.data)
	case tsLATM:
		return w.WriteMPEG4AudioLATM(m.track, u.pts, u.data)
	case tsMP3:
		return w.WriteMPEG1Audio(m.track, u.pts, u.data)
	case tsAC3:
		return w.WriteAC3(m.track, u.pts, u.data[0])
	case tsEAC3:
		return w.WriteEAC3(m.track, u.pts, u.data[0])
	case tsKLVSync, tsKLVAsync:
		return w.WriteKLV(m.track, u.pts, u.data[0])
	default:
		return w.WriteDVBSubtitle(m.track, u.pts, u.data[0])
	}
}

// tsStream is a generated stream.
type tsStream struct {
	models []*tsModel
	units  []tsUnit
	bounds []int // end offset of each unit in the stream
	data   []byte
	w      *mpegts.Writer
	tables []int  // offsets at which tables were requested explicitly
	large  []bool // per unit: does not fit a PES length and is not video
	single []bool // per unit: fits a packet
}

type tsOpts struct {
	maxTracks, maxUnits int
	big                 bool
	tables              bool // explicit WriteTables calls
}

func (s *tsStream) pids() map[int]bool {
	r := map[int]bool{}
	for _, m := range s.models {
		r[int(m.want.PID)] = true
	}
	return r
}

// genTSStream generates tracks and units and writes them with the library.
func genTSStream(t *T, o tsOpts) *tsStream {
	s := &tsStream{models: genTSModels(t, o.maxTracks)}
	n := t.Int(1, o.maxUnits)
	// order of the tracks
	var order []int
	for i := 0; i < n; i++ {
		order = append(order, t.Pick(len(s.models)))
	}
	need := map[int]bool{}
	for i, m := range s.models {
		if m.needsParams() {
			need[i] = true
		}
	}
	for _, x := range order {
		delete(need, x)
	}
	for i := range s.models { // deterministic
		if need[i] {
			order = append(order, i)
		}
	}
	// parameters must be in the first megabyte: allow big units after them only
	lastParam := -1
	seen := map[int]bool{}
	for i, x := range order {
		if !seen[x] {
			seen[x] = true
			if s.models[x].needsParams() {
				lastParam = i
			}
		}
	}
	for i, x := range order {
		u := genTSUnit(t, s.models[x], o.big && i > lastParam)
		u.track = x
		s.models[x].units++
		s.units = append(s.units, u)
	}

	var buf bytes.Buffer
	var tracks []*mpegts.Track
	for _, m := range s.models {
		tracks = append(tracks, m.track)
	}
	s.w = newTSWriter(t, &buf, tracks)
	for i := range s.units {
		u := &s.units[i]
		if o.tables && t.Chance(1, 12) {
			s.tables = append(s.tables, buf.Len())
			if _, err := s.w.WriteTables(); err != nil {
				t.Failf("WriteTables failed: %v", err)
			}
			t.Class("explicit-tables")
		}
		if t.Rendering() {
			l := []int{}
			for _, d := range u.data {
				l = append(l, len(d))
			}
			t.Logf("write %d: track %d %s pts=%d dts=%d sizes=%v key=%v", i, u.track, tsKindNames[s.models[u.track].kind], u.pts, u.dts, l, u.key)
		}
		if err := tsWrite(s.w, s.models[u.track], u); err != nil {
			t.Failf("write %d failed: %v", i, err)
		}
		s.bounds = append(s.bounds, buf.Len())
	}
	s.data = buf.Bytes()
	return s
}

// tsGot is a delivered unit.
type tsGot struct {
	pts, dts int64
	data     [][]byte
}

// tsReadResult is what reading a stream gave.
type tsReadResult struct {
	tracks  []*mpegts.Track
	got     map[uint16][]tsGot
	errs    []error
	initErr error
	err     error
	reads   int
	altered error // something that was delivered changed later
}

// tsRead reads a stream to its end.
func tsRead(src io.Reader, maxReads int) *tsReadResult {
	return tsReadWith(src, maxReads, true)
}

// tsReadWith reads a stream to its end, without a callback for errors when told so.
func tsReadWith(src io.Reader, maxReads int, listen bool) *tsReadResult {
	res := &tsReadResult{got: map[uint16][]tsGot{}}
	r := &mpegts.Reader{R: src}
	if res.initErr = r.Initialize(); res.initErr != nil {
		return res
	}
	res.tracks = r.Tracks()
	if listen {
		r.OnDecodeError(func(err error) { res.errs = append(res.errs, err) })
	}
	live := map[uint16][][][]byte{}
	defer func() {
		for pid, l := range live {
			for i := range l {
				if !equalAU(l[i], res.got[pid][i].data) {
					res.altered = fmt.Errorf("PID %d: unit %d was altered after it was delivered: %s", pid, i, firstDiff(l[i], res.got[pid][i].data))
				}
			}
		}
	}()
	for _, tr := range r.Tracks() {
		pid := tr.PID
		add := func(pts, dts int64, data [][]byte) error {
			res.got[pid] = append(res.got[pid], tsGot{pts, dts, cloneParts(data)})
			live[pid] = append(live[pid], data)
			return nil
		}
		add1 := func(pts int64, data []byte) error { return add(pts, pts, [][]byte{data}) }
		addN := func(pts int64, data [][]byte) error { return add(pts, pts, data) }
		tsListen(r, tr, add, add1, addN)
	}
	for {
		res.reads++
		if res.err = r.Read(); res.err != nil {
			// the end remains the end
			if res.err == io.EOF {
				for i := 0; i < 2; i++ {
					n := len(res.errs)
					for _, g := range res.got {
						n += len(g)
					}
					if err := r.Read(); err != io.EOF {
						res.err = fmt.Errorf("after the end of the input, reading returned %v", err)
						return res
					}
					for _, g := range res.got {
						n -= len(g)
					}
					if n != len(res.errs) {
						res.err = fmt.Errorf("data was delivered after the end of the input")
						return res
					}
				}
			}
			return res
		}
		if maxReads > 0 && res.reads > maxReads {
			res.err = fmt.Errorf("no end of input after %d reads", res.reads)
			return res
		}
	}
}

func tsListen(r *mpegts.Reader, tr *mpegts.Track,
	add func(int64, int64, [][]byte) error, add1 func(int64, []byte) error, addN func(int64, [][]byte) error,
) {
	switch c := tr.Codec.(type) {
	case *tscodecs.H264:
		r.OnDataH264(tr, add)
	case *tscodecs.H265:
		r.OnDataH265(tr, add)
	case *tscodecs.MPEG4Video, *tscodecs.MPEG1Video:
		r.OnDataMPEGxVideo(tr, add1)
	case *tscodecs.Opus:
		r.OnDataOpus(tr, addN)
	case *tscodecs.MPEG4Audio:
		r.OnDataMPEG4Audio(tr, addN)
	case *tscodecs.MPEG4AudioLATM:
		r.OnDataMPEG4AudioLATM(tr, addN)
	case *tscodecs.MPEG1Audio:
		r.OnDataMPEG1Audio(tr, addN)
	case *tscodecs.AC3:
		r.OnDataAC3(tr, add1)
	case *tscodecs.EAC3:
		r.OnDataEAC3(tr, add1)
	case *tscodecs.KLV:
		_ = c
		r.OnDataKLV(tr, add1)
	case *tscodecs.DVBSubtitle:
		r.OnDataDVBSubtitle(tr, add1)
	}
}

// tsWantUnit is the delivery expected for a unit; asynchronous units have no timestamp of their own.
func tsSameUnit(m *tsModel, u *tsUnit, g *tsGot) error {
	if !equalAU(u.want, g.data) {
		return fmt.Errorf("content differs: got %d parts (%s), expected %d (%s)", len(g.data), firstDiff(g.data, u.want), len(u.want), firstDiff(u.want, g.data))
	}
	if m.kind == tsKLVAsync {
		return nil
	}
	if g.pts != u.pts&mask33 || g.dts != u.dts&mask33 {
		return fmt.Errorf("timestamps are %d/%d, expected %d/%d", g.pts, g.dts, u.pts&mask33, u.dts&mask33)
	}
	return nil
}

func firstDiff(a, b [][]byte) string {
	for i := range a {
		if i >= len(b) || !bytes.Equal(a[i], b[i]) {
			return fmt.Sprintf("part %d: %s", i, Hex(a[i]))
		}
	}
	return "-"
}

// checkTSTracks compares read tracks with the model.
func checkTSTracks(t *T, ms []*tsModel, got []*mpegts.Track) {
	if len(got) != len(ms) {
		t.Failf("read %d tracks, expected %d", len(got), len(ms))
	}
	for i, m := range ms {
		g, w := got[i], m.want
		if g.PID != w.PID || g.Language != w.Language {
			t.Failf("track %d: PID %d language %q, expected %d %q", i, g.PID, g.Language, w.PID, w.Language)
		}
		if w.Codec == nil { // Opus by channel count
			o, ok := g.Codec.(*tscodecs.Opus)
			if !ok || o.Desc == nil || o.ChannelCount != m.track.Codec.(*tscodecs.Opus).ChannelCount || o.Desc.ChannelCount() != o.ChannelCount { //nolint:staticcheck
				t.Failf("track %d: read as %s", i, dump(g.Codec))
			}
			continue
		}
		if !normEqual(g.Codec, w.Codec) || reflect.TypeOf(g.Codec) != reflect.TypeOf(w.Codec) {
			t.Failf("track %d: codec read as %T %s, expected %T %s", i, g.Codec, dump(g.Codec), w.Codec, dump(w.Codec))
		}
		if g.Codec.IsVideo() != m.isVideo() {
			t.Failf("track %d: IsVideo() is %v", i, g.Codec.IsVideo())
		}
	}
}

// newTSWriter creates a writer, sometimes with the deprecated constructor.
func newTSWriter(t *T, buf *bytes.Buffer, tracks []*mpegts.Track) *mpegts.Writer {
	if t.Chance(1, 8) {
		t.Class("deprecated-constructor")
		return mpegts.NewWriter(buf, tracks) //nolint:staticcheck
	}
	w := &mpegts.Writer{W: buf, Tracks: tracks}
	if err := w.Initialize(); err != nil {
		t.Failf("initialization of the writer failed: %v", err)
	}
	return w
}

// tsWriteAll writes the units of a stream.
func tsWriteAll(t *T, s *tsStream) {
	var buf bytes.Buffer
	var tracks []*mpegts.Track
	for _, m := range s.models {
		tracks = append(tracks, m.track)
	}
	s.w = newTSWriter(t, &buf, tracks)
	for i := range s.units {
		u := &s.units[i]
		if err := tsWrite(s.w, s.models[u.track], u); err != nil {
			t.Failf("write %d failed: %v", i, err)
		}
		s.bounds = append(s.bounds, buf.Len())
	}
	s.data = buf.Bytes()
}

// tsForeignES describes a track as another multiplexer would.
func tsForeignES(t *T, m *tsModel) ref.TSES {
	e := ref.TSES{Type: tsStreamTypes[m.kind], PID: int(m.want.PID)}
	lang := func() {
		if m.want.Language != "" {
			d := append([]byte(m.want.Language), byte(t.Pick(4)))
			more := t.Weighted(8, 1, 1)
			if more == 1 { // several languages, the first is the main one
				d = append(d, 'z', 'z', 'z', byte(t.Pick(4)))
			}
			e.Desc = append(e.Desc, append([]byte{0x0A, byte(len(d))}, d...))
			if more == 2 {
				e.Desc = append(e.Desc, []byte{0x0A, 4, 'z', 'z', 'z', 0})
			}
		}
	}
	before := t.Bool()
	if before {
		lang()
	}
	switch m.kind {
	case tsMPEG1Video:
		if t.Bool() {
			e.Type = 0x01
		}
	case tsOpus:
		d := m.track.Codec.(*tscodecs.Opus).Desc
		if d == nil {
			d = &substructs.OpusAudioDescriptor{ChannelConfigCode: uint8(m.track.Codec.(*tscodecs.Opus).ChannelCount)} //nolint:staticcheck
		}
		b, err := d.Marshal()
		if err != nil {
			t.Failf("encoding of descriptor failed: %v", err)
		}
		e.Desc = append(e.Desc, []byte{5, 4, 'O', 'p', 'u', 's'}, append([]byte{0x7F, byte(1 + len(b)), 0x80}, b...))
	case tsKLVSync:
		if t.Chance(1, 6) { // other metadata
			d := tsMetadataDesc(t, tsOtherFormat(t))
			if t.Bool() { // truncated
				d = d[:2+t.Int(1, 6)]
				d[1] = byte(len(d) - 2)
			}
			e.Desc = append(e.Desc, d)
		}
		e.Desc = append(e.Desc, []byte{0x26, 9, 1, byte(t.Pick(4)), 0xFF, 'K', 'L', 'V', 'A', byte(t.Draw(255)), 0x0F})
		if t.Bool() {
			e.Desc = append(e.Desc, []byte{0x27, 9, 0xC0, 0, 1, 0xC0, 0, 1, 0xC0, 0, 1})
		}
	case tsKLVAsync:
		e.Desc = append(e.Desc, []byte{5, 4, 'K', 'L', 'V', 'A'})
	case tsDVB:
		b := []byte{}
		for _, it := range m.track.Codec.(*tscodecs.DVBSubtitle).Items {
			b = append(append(b, it.Language...), it.Type, byte(it.CompositionPageID>>8), byte(it.CompositionPageID), byte(it.AncillaryPageID>>8), byte(it.AncillaryPageID))
		}
		e.Desc = append(e.Desc, append([]byte{0x59, byte(len(b))}, b...))
	}
	if !before {
		lang()
	}
	if t.Chance(1, 3) { // of no interest
		k := t.Int(1, 3)
		if t.Chance(1, 30) {
			k = t.Int(4, 40)
		}
		for ; k > 0; k-- {
			e.Desc = slices.Insert(e.Desc, t.Int(0, len(e.Desc)), tsUnrelatedDesc(t))
		}
	}
	return e
}

// tsUnrelatedDesc is a descriptor that says nothing about the codec or the language.
func tsUnrelatedDesc(t *T) []byte {
	x := byte(t.Draw(255))
	switch t.Pick(8) {
	case 0: // stream identifier
		return []byte{0x52, 1, x}
	case 1: // maximum bitrate
		return []byte{0x0E, 3, 0xC0 | x, x, x}
	case 2: // data stream alignment
		return []byte{0x06, 1, x}
	case 3: // private data indicator
		return []byte{0x0F, 4, x, 'b', 'c', 'd'}
	case 4: // private data specifier
		return []byte{0x5F, 4, 0, 0, 0, x}
	case 5: // supplementary audio
		return []byte{0x7F, 2, 0x06, x &^ 1}
	case 6: // another extension
		return append([]byte{0x7F, 4, []byte{0x0F, 0x15, 0x0E, 0x19, 0x20}[t.Pick(5)]}, x, 2, 3)
	default: // user private
		return []byte{0x80 + x&0x7F, 2, x, 'u'}
	}
}

func tsMetadataDesc(t *T, format string) []byte {
	return []byte{0x26, 9, 1, byte(t.Pick(4)), 0xFF, format[0], format[1], format[2], format[3], byte(t.Draw(255)), 0x0F}
}

// tsOtherFormat is a format identifier that the library does not know.
func tsOtherFormat(t *T) string {
	return []string{"ID3 ", "BSSD", "VANC", "KLVB", "KLVa", "KLV ", "JLVA", "LLVA", "ZZZZ", "OPUS", "Opur", "opus", "HEVC", "\xff\xff\xff\xff", "\x00\x00\x00\x01"}[t.Pick(15)]
}

// tsUnknownES describes a stream which descriptors identify no codec that is supported, or more than one.
func tsUnknownES(t *T, pid int) ref.TSES {
	e := ref.TSES{PID: pid}
	reg := func(id string) {
		e.Desc = append(e.Desc, []byte{5, 4, id[0], id[1], id[2], id[3]})
	}
	switch t.Pick(6) {
	case 0:
		e.Type = []int{0x07, 0x08, 0x14, 0x20, 0x21, 0x33, 0x42, 0xD1, 0x1C, 0x80, 0xEA}[t.Pick(11)]
	case 1:
		e.Type = 6
	case 2:
		e.Type = 6
		reg(tsOtherFormat(t))
	case 3:
		e.Type = 6
		ids := []string{"KLVA", "Opus", "BSSD"}
		for i, n := 0, t.Int(2, 4); i < n; i++ {
			reg(ids[t.Pick(3)])
			if t.Chance(1, 3) {
				e.Desc = append(e.Desc, []byte{0x52, 1, byte(t.Draw(255))})
			}
		}
		if t.Bool() {
			e.Desc = append(e.Desc, []byte{0x7F, 2, 0x80, 2})
		}
		t.Class("ambiguous-stream")
	case 4:
		e.Type = 0x15
		if t.Bool() {
			e.Desc = append(e.Desc, tsMetadataDesc(t, tsOtherFormat(t)))
		}
		if t.Bool() {
			reg("KLVA")
		}
	default:
		e.Type = 0x15
		for i, n := 0, t.Int(2, 4); i < n; i++ {
			e.Desc = append(e.Desc, tsMetadataDesc(t, "KLVA"))
		}
		t.Class("ambiguous-stream")
	}
	if t.Chance(1, 4) {
		e.Desc = append(e.Desc, []byte{0x52, 1, byte(t.Draw(255))})
	}
	return e
}

// tsForeignPayload serializes a unit as another multiplexer would, and updates what must be delivered.
func tsForeignPayload(t *T, m *tsModel, u *tsUnit) []byte {
	var b []byte
	switch m.kind {
	case tsH264, tsH265:
		for i, n := range u.data {
			if i == 0 || t.Bool() {
				b = append(b, 0)
			}
			b = append(b, 0, 0, 1)
			b = append(b, n...)
		}
	case tsOpus:
		for _, p := range u.data {
			au := genOpusAU(t)
			au.Packet = p
			au.ControlHeader.PayloadSize = len(p)
			x := make([]byte, au.MarshalSize())
			if _, err := au.MarshalTo(x); err != nil {
				t.Failf("encoding failed: %v", err)
			}
			b = append(b, x...)
		}
	case tsAAC:
		sr := 0
		for aacRates[sr] != m.aac.SampleRate {
			sr++
		}
		for _, p := range u.data {
			f := genADTSFields(t)
			f.profile, f.sr, f.ch, f.frameLen = int(m.aac.Type)-1, sr, int(m.aac.ChannelConfig), len(p)+7
			b = append(b, f.write(p)...)
		}
	case tsLATM:
		for _, p := range u.data {
			w := &ref.BitWriter{}
			w.U(0x2B7, 11)
			w.U(uint64(len(p)), 13)
			b = append(append(b, w.B...), p...)
		}
	case tsKLVSync:
		d := u.data[0]
		n := t.Int(1, 4)
		if len(d) > 300 && t.Chance(1, 4) {
			n = t.Int(250, 300)
		}
		for i := 0; i < n; i++ {
			l := len(d) / (n - i)
			ind := 0
			switch {
			case n == 1:
				ind = 3
			case i == 0:
				ind = 2
			case i == n-1:
				ind = 1
			}
			b = append(b, byte(t.Draw(255)), byte(i), byte(ind)<<6|byte(t.Draw(3))<<4|0xF, byte(l>>8), byte(l))
			b = append(b, d[:l]...)
			d = d[l:]
		}
	default:
		for _, p := range u.data {
			b = append(b, p...)
		}
	}
	return b
}
