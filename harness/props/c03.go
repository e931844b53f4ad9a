package props

import (
	"bytes"
	"io"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	tscodecs "github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/codecs"
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

// feedTS reads a stream and checks how reading behaves.
func feedTS(t *T, data []byte) *tsReadResult {
	var src io.Reader
	var sp *tsSplit
	if t.Chance(1, 3) {
		var name string
		sp, name = genSplit(t, data)
		t.Logf("reads of %s", name)
	} else {
		sp = &tsSplit{data: data, next: func() int { return 1 << 30 }}
	}
	src = sp
	t.Logf("%s", Hex(data))
	t.Key(data)
	t.NonTrivial()
	a0 := allocated()
	res := tsRead(src, 2*len(data)/188+1000)
	if a := allocated() - a0; a > 8<<20+200*uint64(len(data)) {
		t.Failf("reading %d bytes allocated %d bytes", len(data), a)
	}
	if sp.ended > 200 {
		t.Failf("the source was asked for data %d times after its end", sp.ended)
	}
	if res.initErr != nil {
		t.Class("not-opened")
		return res
	}
	t.Class("opened")
	if res.err != io.EOF {
		t.Failf("reading ended with %v", res.err)
	}
	if len(sp.data) != 0 {
		t.Failf("reading ended, %d bytes of the source were not read", len(sp.data))
	}
	if len(res.errs) > 0 {
		t.Class("decode-errors")
	}
	if t.Chance(1, 6) { // nobody listens to errors
		t.Class("no-error-callback")
		res2 := tsReadWith(bytes.NewReader(data), 2*len(data)/188+1000, false)
		if err := sameRead(res, res2, false); err != nil {
			t.Failf("without a callback for errors: %v", err)
		}
	}
	n := 0
	total := 0
	for _, g := range res.got {
		for _, u := range g {
			n++
			for _, p := range u.data {
				total += len(p)
			}
		}
	}
	if total > len(data) {
		t.Failf("a stream of %d bytes delivered %d bytes", len(data), total)
	}
	if n > 0 {
		t.Class("delivered")
	}
	for _, tr := range res.tracks {
		if tr == nil || tr.Codec == nil {
			t.Failf("a track without codec was yielded")
		}
		tr.Codec.IsVideo()
		if _, ok := tr.Codec.(*tscodecs.Unsupported); ok {
			t.Class("unsupported-track") // cannot be written
			return res
		}
	}
	// what was read can be written
	w := &mpegts.Writer{W: &bytes.Buffer{}, Tracks: res.tracks}
	if len(res.tracks) > 0 && w.Initialize() != nil {
		t.Class("not-writable")
	}
	return res
}

// c03Mutated damages valid streams.
func c03Mutated(t *T) {
	f := genFlow(t, t.Chance(1, 10))
	n := t.Weighted(1, 4, 4, 3, 2)
	if n == 4 {
		n = t.Int(4, 30)
	}
	feedTS(t, mutateTS(t, f.data, n))
}

// c03Payloads builds valid packets with damaged payloads, descriptors and PES headers.
func c03Payloads(t *T) {
	ms := genTSModels(t, 4)
	mux := &ref.TSMuxer{}
	plain := true
	var es []ref.TSES
	for i, m := range ms {
		plain = plain && m.kind != tsKLVAsync
		m.want.PID = uint16(256 + i)
		e := tsForeignES(t, m)
		if t.Chance(1, 4) {
			e.Desc = append([][]byte{}, e.Desc...)
			switch {
			case len(e.Desc) > 0 && t.Bool(): // damage a descriptor
				j := t.Pick(len(e.Desc))
				d := mutateBytes(t, e.Desc[j])
				if len(d) >= 2 && len(d) < 60 {
					if t.Chance(3, 4) {
						d[1] = byte(len(d) - 2)
					}
					e.Desc[j] = d
				}
			default:
				l := t.Len(0, 30)
				tag := []byte{0x05, 0x0A, 0x26, 0x59, 0x56, 0x6A, 0x7A, 0x7F, 0x52, 0x28, 0x2A, 0x4D, 0x48, 0x55, 0x58, 0x45, 0x46, 0x83, 0x0E, 0x0F, 0x06, 0x5F, 0x50, 0x54, 0x7C, 0x40, 0x41, 0x4E}[t.Pick(28)]
				b := t.Bytes(l)
				if t.Chance(1, 3) && l >= 4 {
					copy(b, []string{"Opus", "KLVA", "AC-3", "HEVC"}[t.Pick(4)])
				}
				e.Desc = append(e.Desc, append([]byte{tag, byte(l)}, b...))
			}
			t.Class("descriptor")
			plain = false
		}
		if t.Chance(1, 8) {
			e.Type = []int{0x1B, 0x24, 0x10, 0x02, 0x06, 0x0F, 0x11, 0x03, 0x04, 0x81, 0x87, 0x15, 0x05, 0x00, 0xFF}[t.Pick(15)]
			t.Class("stream-type")
			plain = false
		}
		es = append(es, e)
	}
	size := 0
	for _, e := range es {
		size += 5
		for _, d := range e.Desc {
			size += len(d)
		}
	}
	if size > 900 {
		t.Skip()
	}
	mux.PAT([][2]int{{1, 0x1000}})
	mux.PMT(0x1000, 1, 256, nil, es)
	sent := 0
	pending := map[int]bool{}
	for i, n := 0, t.Int(1, 20); i < n; i++ {
		m := ms[t.Pick(len(ms))]
		var p []byte
		switch t.Weighted(3, 5, 1, 1, 2) {
		case 4:
			p = tsHostile(t, m)
			t.Class("hostile-headers")
		case 0, 1:
			u := genTSUnit(t, m, false)
			p = tsForeignPayload(t, m, &u)
			if len(p) > 20000 {
				p = p[:20000]
			}
			for c := t.Weighted(1, 3, 2, 1); c > 0; c-- {
				p = mutateBytes(t, p)
			}
		case 2:
			p = t.Bytes(t.Len(0, 300))
		}
		o := ref.PESOpts{StreamID: byte(0xBC + t.Pick(68)), HasPTS: !t.Chance(1, 10), PTS: t.I64(0, mask33), NoLength: t.Bool()}
		o.HasDTS = o.HasPTS && t.Chance(1, 6)
		o.DTS = o.PTS
		if o.HasDTS && t.Bool() { // only allowed for video
			o.DTS = t.I64(0, mask33)
		}
		if m.isVideo() {
			o.StreamID = 0xE0
		} else if t.Chance(2, 3) {
			o.StreamID = []byte{0xBD, 0xC0, 0xFC, 0xBE, 0xBF}[t.Weighted(6, 6, 3, 1, 1)]
		}
		pid := int(m.want.PID)
		if t.Chance(1, 30) {
			pid = 0x200 + t.Pick(3)
			t.Class("undeclared")
		}
		l0 := len(mux.Out)
		mux.PESPackets(pid, o, p)
		sent++
		// a known limit of the demultiplexer, see C28
		if pending[pid] && len(mux.Out)-l0 == 188 {
			plain = false
		}
		pending[pid] = o.NoLength
	}
	data := mux.Out
	if t.Chance(1, 4) {
		data = mutateTS(t, data, t.Int(1, 4))
		plain = false
	}
	res := feedTS(t, data)
	if plain && res.initErr == nil {
		n := 0
		for _, g := range res.got {
			n += len(g)
		}
		if n+len(res.errs) != sent {
			t.Failf("%d units were sent: %d were delivered and %d decode errors were reported", sent, n, len(res.errs))
		}
		t.Class("accounted")
	}
}

// tsHostile makes a payload of frame headers of a codec with arbitrary fields, extreme sizes in particular.
func tsHostile(t *T, m *tsModel) []byte {
	var b []byte
	field := func(n int) uint64 { // a field of n bits
		switch t.Pick(4) {
		case 0:
			return 0
		case 1:
			return 1<<n - 1
		default:
			return t.Draw(1<<n - 1)
		}
	}
	for i, n := 0, t.Int(1, 6); i < n; i++ {
		w := &ref.BitWriter{}
		switch m.kind {
		case tsMP3:
			w.U(0x7FF, 11)
			for _, l := range []int{2, 2, 1, 4, 2, 1, 1, 2, 2, 1, 1, 2} {
				w.U(field(l), l)
			}
		case tsAAC:
			w.U(0xFFF, 12)
			for _, l := range []int{1, 2, 1, 2, 4, 1, 3, 1, 1, 1, 1} {
				w.U(field(l), l)
			}
			w.U([]uint64{0, 6, 7, 8, 9, 8191, t.Draw(8191)}[t.Pick(7)], 13)
			w.U(field(11), 11)
			w.U(field(2), 2)
		case tsLATM:
			w.U(0x2B7, 11)
			w.U(field(13), 13)
		case tsOpus:
			w.U(0x3FF, 11)
			for _, l := range []int{1, 1, 1, 2, 8, 8, 8} {
				w.U(field(l), l)
			}
		case tsAC3:
			w.U(0x0B77, 16)
			for _, l := range []int{16, 2, 6, 5, 3, 3} {
				w.U(field(l), l)
			}
		case tsEAC3:
			w.U(0x0B77, 16)
			for _, l := range []int{2, 3, 11, 2, 2, 3, 1} {
				w.U(field(l), l)
			}
			w.U([]uint64{16, field(5)}[t.Pick(2)], 5)
		case tsKLVSync:
			w.U(field(8), 8)
			w.U(uint64(i), 8)
			w.U([]uint64{2, 0, 1, 3}[t.Pick(4)], 2)
			w.U(field(6), 6)
			w.U(field(16), 16)
		case tsH264, tsH265:
			w.U([]uint64{1, 0}[t.Pick(2)], []int{24, 32}[t.Pick(2)])
			w.U(field(8), 8)
		default:
			w.U(field(32), 32)
		}
		b = append(b, w.B...)
		if t.Chance(1, 3) {
			b = append(b, t.Bytes(t.Len(0, 400))...)
		}
	}
	return b
}

// c03Raw feeds bytes and packets that make no sense.
func c03Raw(t *T) {
	var data []byte
	switch t.Pick(4) {
	case 0:
		data = t.Bytes(t.Len(0, 3000))
	case 1: // valid headers
		for i, n := 0, t.Int(1, 40); i < n; i++ {
			p := t.Bytes(188)
			p[0] = 0x47
			pid := []int{0, 256, 0x1000, 257, 0x1FFF, 17}[t.Pick(6)]
			p[1] = byte(pid>>8) | byte(t.Pick(2))<<6
			p[2] = byte(pid)
			p[3] = 0x10 | byte(i&0xF) | byte(t.Pick(2))<<5
			if p[3]&0x20 != 0 && t.Bool() {
				p[4] = byte(t.EdgeU(0, 183))
			}
			if p[1]&0x40 != 0 && p[3]&0x20 == 0 && t.Bool() {
				copy(p[4:], []byte{0, 0, 1, 0xE0, 0, 0, 0x80, 0x80, 5})
			}
			data = append(data, p...)
		}
	case 2: // sync bytes everywhere
		data = bytes.Repeat([]byte{0x47}, t.Len(0, 4000))
		for c := t.Pick(60); c > 0 && len(data) > 0; c-- {
			data[t.Pick(len(data))] = byte(t.Draw(255))
		}
	default: // tables, then noise
		mux := &ref.TSMuxer{}
		mux.PAT([][2]int{{1, 0x1000}})
		mux.PMT(0x1000, 1, 256, nil, []ref.TSES{{Type: []int{0x1B, 0x24, 0x0F, 0x81, 0x87, 0x11, 0x03}[t.Pick(7)], PID: 256}})
		data = append(mux.Out, t.Bytes(t.Len(0, 4000))...)
	}
	feedTS(t, data)
}

// endless repeats packets.
type endless struct {
	head   []byte
	unit   []byte
	limit  int
	pos    int
	served int
}

func (r *endless) Read(p []byte) (int, error) {
	if r.served >= r.limit {
		return 0, io.EOF
	}
	n := 0
	for n < len(p) {
		var c int
		if r.pos < len(r.head) {
			c = copy(p[n:], r.head[r.pos:])
		} else {
			c = copy(p[n:], r.unit[(r.pos-len(r.head))%len(r.unit):])
		}
		r.pos += c
		n += c
	}
	r.served += n
	return n, nil
}

// c03Endless: opening an endless stream that cannot be opened fails, after a bounded amount of data;
// long streams are read with bounded memory.
func c03Endless(t *T) {
	mux := &ref.TSMuxer{}
	kind := t.Pick(4)
	var head []byte
	typ := 0x1B
	if kind >= 1 {
		if kind == 1 {
			typ = []int{0x0F, 0x81, 0x87}[t.Pick(3)] // parameters never come
		}
		mux.PAT([][2]int{{1, 0x1000}})
		mux.PMT(0x1000, 1, 256, nil, []ref.TSES{{Type: typ, PID: 256}})
		head = append(head, mux.Out...)
		mux.Out = nil
	}
	limit := 3 << 20
	switch kind {
	case 0: // no tables
		switch t.Pick(3) {
		case 0:
			mux.Null()
		case 1:
			mux.PESPackets(256, ref.PESOpts{StreamID: 0xE0, HasPTS: true}, t.Bytes(300))
		default:
			mux.Out = t.Bytes(t.Int(1, 400))
		}
	case 1: // no parameters
		if t.Bool() {
			mux.Null()
		} else {
			mux.PESPackets(256, ref.PESOpts{StreamID: 0xBD, HasPTS: true}, make([]byte, t.Int(1, 2000)))
		}
	case 2: // a unit that never ends
		mux.PESPackets(256, ref.PESOpts{StreamID: 0xE0, HasPTS: true, NoLength: true}, make([]byte, 184*17))
		head = append(head, mux.Out[:188]...)
		mux.Out = mux.Out[188:]
		mux.Out = mux.Out[:188*16]
		limit = 1 << 20
	default: // many units
		for i := 0; i < 16; i++ {
			mux.PESPackets(256, ref.PESOpts{StreamID: 0xE0, HasPTS: true}, append([]byte{0, 0, 0, 1, 0x41}, t.Bytes(100)...))
		}
		limit = 12 << 20
	}
	src := &endless{head: head, unit: mux.Out, limit: limit}
	t.Logf("kind %d, %d bytes; repeated: %s", kind, limit, Hex(mux.Out))
	r := &mpegts.Reader{R: src}
	a0 := allocated()
	err := r.Initialize()
	if kind <= 1 {
		if err == nil {
			t.Failf("a stream without tables or parameters was opened")
		}
		if src.served > 1<<20+4096 {
			t.Failf("opening consumed %d bytes", src.served)
		}
		if a := allocated() - a0; a > 64<<20 {
			t.Failf("opening allocated %d bytes", a)
		}
		t.Classf("endless:%d", kind)
		t.NonTrivial()
		return
	}
	if err != nil {
		t.Failf("opening failed: %v", err)
	}
	n := 0
	r.OnDataH264(r.Tracks()[0], func(_, _ int64, _ [][]byte) error { n++; return nil })
	peak := uint64(0)
	for i := 0; ; i++ {
		err = r.Read()
		if err != nil {
			break
		}
		if kind == 3 && i%4000 == 0 {
			peak = max(peak, liveHeap())
		}
	}
	if err != io.EOF {
		t.Failf("reading ended with %v", err)
	}
	if kind == 3 {
		if n < limit/188/4 {
			t.Failf("%d units delivered", n)
		}
		if peak > 200<<20 {
			t.Failf("%d bytes are retained while reading", peak)
		}
	}
	t.Classf("endless:%d", kind)
	t.NonTrivial()
}

func init() {
	Register(&Prop{
		ID:    "C03",
		Title: "The MPEG-TS reader survives arbitrary streams",
		Rule:  "every case (damaged, random or endless stream)",
		Assumptions: []string{
			"streams up to about 12 MiB, units without end up to 1 MiB (the demultiplexer needs quadratic time on them)",
			"allocation bound: 8 MiB + 200 bytes for each byte of input",
			"the source makes progress: it does not return (0, nil) forever",
			"a case that needs more than 25 s of CPU time is a hang",
		},
		Subs: []Sub{
			{Name: "mutated", Fn: c03Mutated, Quick: 40000},
			{Name: "payloads", Fn: c03Payloads, Quick: 60000},
			{Name: "tables", Fn: func(t *T) { tsTables(t, true) }, Quick: 5000},
			{Name: "raw", Fn: c03Raw, Quick: 20000},
			{Name: "endless", Fn: c03Endless, Quick: 60, Thorough: 600},
		},
	})
}
