package props

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/rewindablereader"
	. "verif/harness/engine" //nolint:revive
)

type ioFault struct{ msg string }

func (e *ioFault) Error() string { return e.msg }

// faulty is a source or destination whose n-th call fails.
type faulty struct {
	r    io.ReadSeeker
	w    io.WriteSeeker
	size func() int // sizes of reads, nil: as requested
	err  error
	at   int // call that fails, -1: none
	once bool
	// with the failure, the call transfers this many bytes; reads then fail again
	partial int
	eofWith bool // the end of input is returned with the last bytes

	calls int
	fired bool
	log   []byte // kinds of the calls
	wrote int
}

func (f *faulty) fault() bool {
	i := f.calls
	f.calls++
	if f.at >= 0 && (i == f.at || (i > f.at && !f.once)) {
		f.fired = true
		return true
	}
	return false
}

func (f *faulty) Read(p []byte) (int, error) {
	if f.at < 0 {
		f.log = append(f.log, 'r')
	}
	if f.fault() {
		n := 0
		if f.partial > 0 && f.calls == f.at+1 && !f.once {
			n, _ = f.r.Read(p[:min(len(p)-1, f.partial)])
		}
		return n, f.err
	}
	if f.size != nil && len(p) > 1 {
		p = p[:min(len(p), f.size())]
	}
	n, err := f.r.Read(p)
	if f.eofWith && err == nil && n > 0 {
		pos, _ := f.r.Seek(0, io.SeekCurrent)
		end, _ := f.r.Seek(0, io.SeekEnd)
		f.r.Seek(pos, io.SeekStart)
		if pos == end {
			err = io.EOF
		}
	}
	return n, err
}

func (f *faulty) Write(p []byte) (int, error) {
	if f.at < 0 {
		f.log = append(f.log, 'w')
	}
	if f.fault() {
		n := 0
		if f.partial > 0 && f.calls == f.at+1 {
			n, _ = f.w.Write(p[:min(max(len(p)-1, 0), f.partial)])
		}
		f.wrote += n
		return n, f.err
	}
	f.wrote += len(p)
	return f.w.Write(p)
}

func (f *faulty) Seek(off int64, whence int) (int64, error) {
	if f.at < 0 {
		f.log = append(f.log, 's')
	}
	if f.fault() {
		return 0, f.err
	}
	if f.r != nil {
		return f.r.Seek(off, whence)
	}
	return f.w.Seek(off, whence)
}

// temporaryFault is what network connections return.
type temporaryFault struct{ timeout, temporary bool }

func (e temporaryFault) Error() string   { return "injected network failure" }
func (e temporaryFault) Timeout() bool   { return e.timeout }
func (e temporaryFault) Temporary() bool { return e.temporary }

func genFault(t *T) error {
	switch t.Pick(10) {
	case 6:
		return &net.OpError{Op: "io", Net: "udp", Err: temporaryFault{t.Bool(), t.Bool()}}
	case 7:
		return temporaryFault{t.Bool(), t.Bool()}
	case 8:
		return []error{
			syscall.EAGAIN, syscall.EINTR, syscall.ECONNRESET, syscall.ENOSPC, syscall.EPIPE, syscall.EINVAL, syscall.ESPIPE,
			&os.PathError{Op: "io", Path: "device", Err: syscall.EIO},
		}[t.Pick(8)]
	case 9:
		return []error{
			context.Canceled, context.DeadlineExceeded, io.ErrShortWrite, io.ErrShortBuffer, net.ErrClosed, os.ErrClosed, os.ErrInvalid,
			bufio.ErrBufferFull, bufio.ErrTooLong, errors.Join(errors.New("injected"), os.ErrDeadlineExceeded),
		}[t.Pick(10)]
	case 0, 1:
		return &ioFault{"injected"}
	case 2:
		return fmt.Errorf("connection: %w", os.ErrDeadlineExceeded)
	case 3:
		return io.ErrClosedPipe
	case 4:
		return io.ErrNoProgress
	default:
		return errors.New("injected")
	}
}

// faultPoints lists the calls to be failed: all of them, when they are not too many.
func faultPoints(t *T, n, limit int) []int {
	var out []int
	if n <= limit {
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
		return out
	}
	t.Class("sampled-calls")
	seen := map[int]bool{}
	for i := 0; i < 8; i++ {
		seen[i], seen[n-1-i] = true, true
	}
	for i := 16; i < limit; i++ {
		seen[t.Pick(n)] = true
	}
	for i := 0; i < n; i++ {
		if seen[i] {
			out = append(out, i)
		}
	}
	return out
}

func sizer(t *T) func() int {
	switch t.Pick(4) {
	case 0:
		return nil
	case 1:
		return func() int { return 1 }
	case 2:
		n := t.Int(1, 40)
		return func() int { return n }
	default:
		s := t.Draw(1<<32 - 1)
		return func() int {
			s = s*6364136223846793005 + 1442695040888963407
			return 1 + int(s>>33)%17
		}
	}
}

// largePayload makes one of the payloads large.
func largePayload(t *T, pr []presTrack) {
	tr := pr[t.Pick(len(pr))]
	if len(tr.samples) > 0 {
		tr.samples[t.Pick(len(tr.samples))].payload = t.Bytes([]int{t.Long(1 << 20), t.Int(60000, 300000)}[t.Pick(2)])
	}
}

// c33MP4Read: reading MP4 files.
func c33MP4Read(t *T) {
	isInit := t.Bool()
	var data []byte
	if isInit {
		data = validInit(t)
	} else if t.Bool() {
		_, data, _ = genForeignPres(t)
	} else if t.Chance(1, 10) { // large payloads
		pr := genPres(t, 2)
		largePayload(t, pr)
		var sb seekablebuffer.Buffer
		if err := toPMP4(pr).Marshal(&sb); err != nil {
			t.Failf("%v", err)
		}
		data = sb.Bytes()
	} else {
		var sb seekablebuffer.Buffer
		if err := toPMP4(genPres(t, 2)).Marshal(&sb); err != nil {
			t.Failf("%v", err)
		}
		data = sb.Bytes()
	}
	points := 60
	if len(data) > 30000 {
		points = 20
		t.Class("large")
	}
	t.Logf("%s", Hex(data))
	read := func(f *faulty) (any, error) {
		if isInit {
			var in fmp4.Init
			err := in.Unmarshal(f)
			return in, err
		}
		var p pmp4.Presentation
		err := p.Unmarshal(f)
		return p, err
	}
	clean := &faulty{r: bytes.NewReader(data), at: -1}
	want, err := read(clean)
	if err != nil {
		t.Failf("%v", err)
	}
	// granularity
	sz := sizer(t)
	f := &faulty{r: bytes.NewReader(data), at: -1, size: sz, eofWith: t.Bool()}
	got, err := read(f)
	if err != nil || !normEqual(snapshot(got), snapshot(want)) {
		t.Failf("short reads change the result: %v", err)
	}
	if !isInit {
		a, b := want.(pmp4.Presentation), got.(pmp4.Presentation)
		for i, tr := range a.Tracks {
			for j, s := range tr.Samples {
				if j > 4 {
					break
				}
				p1, e1 := s.GetPayload()
				p2, e2 := b.Tracks[i].Samples[j].GetPayload()
				if e1 != nil || e2 != nil || !bytes.Equal(p1, p2) {
					t.Failf("short reads change payload %d/%d (%v, %v)", i, j, e1, e2)
				}
			}
		}
	}
	// failures
	n := 0
	fe := genFault(t)
	once := t.Bool()
	partial := t.Pick(4)
	for _, i := range faultPoints(t, len(clean.log), points) {
		f = &faulty{r: bytes.NewReader(data), at: i, err: fe, once: once, partial: partial}
		got, err = read(f)
		if !f.fired {
			continue
		}
		n++
		if err == nil && clean.log[i] == 's' && normEqual(snapshot(got), snapshot(want)) {
			// the size of the file could not be probed, everything was read nevertheless
			continue
		}
		if err == nil {
			t.Failf("call %d (%c) failed with %q (once: %v), reading reported success", i, clean.log[i], fe, once)
		}
		if err != nil && clean.log[i] == 's' {
			// what follows is read from another position
			continue
		}
		if !errors.Is(err, fe) {
			t.Failf("call %d (%c) failed with %q (once: %v), reading reported %q", i, clean.log[i], fe, once, err)
		}
	}
	if !isInit { // payloads
		p := want.(pmp4.Presentation)
		for i, tr := range p.Tracks {
			if len(tr.Samples) == 0 {
				continue
			}
			j := t.Pick(len(tr.Samples))
			s := tr.Samples[j]
			clean.calls, clean.log = 0, nil
			pl, err := s.GetPayload()
			if err != nil {
				t.Failf("%v", err)
			}
			calls := append([]byte{}, clean.log...)
			for _, c := range faultPoints(t, len(calls), points) {
				clean.calls, clean.at, clean.err, clean.once, clean.partial = 0, c, fe, once, partial
				_, err = s.GetPayload()
				if err == nil || !errors.Is(err, fe) {
					t.Failf("payload %d/%d: call %d (%c) failed with %q, GetPayload reported %v", i, j, c, calls[c], fe, err)
				}
				n++
				clean.at = -1
				p2, err := s.GetPayload()
				if err != nil || !bytes.Equal(p2, pl) {
					t.Failf("payload %d/%d: cannot be requested after a failure (%v)", i, j, err)
				}
			}
			// a file that was truncated afterwards
			if len(pl) > 0 {
				cut := t.Pick(len(data))
				r := clean.r
				clean.r = bytes.NewReader(data[:cut])
				p2, err := s.GetPayload()
				if err == nil && !bytes.Equal(p2, pl) {
					t.Failf("payload %d/%d: %d bytes obtained from a truncated file, expected %d", i, j, len(p2), len(pl))
				}
				clean.r = r
			}
		}
	}
	t.Enumerated(n, n)
	t.NonTrivial()
	t.Classf("init:%v", isInit)
}

// c33MP4Write: writing MP4 files.
func c33MP4Write(t *T) {
	kind := t.Pick(3)
	var write func(w io.WriteSeeker) error
	switch kind {
	case 0:
		in := &fmp4.Init{}
		for i, n := 0, t.Int(1, 3); i < n; i++ {
			in.Tracks = append(in.Tracks, &fmp4.InitTrack{ID: i + 1, TimeScale: 90000, Codec: genMP4Model(t, t.Pick(mp4Kinds)).codec})
		}
		if t.Chance(1, 3) {
			in.UserData = genUserData(t)
		}
		t.Logf("%s", dump(in))
		write = func(w io.WriteSeeker) error { return in.Marshal(w) }
	case 1:
		fs := genFragParts(t)
		if t.Chance(1, 40) {
			b := t.Bytes(t.Long(1 << 20))
			fs = append(fs, fragPart{seq: 1, tracks: []fragTrack{{id: 1, samples: []fragSample{{1, 0, false, b}, {1, 0, false, b[len(b)/2:]}}}}})
		}
		logFrag(t, fs)
		ps := toFMP4(fs)
		write = func(w io.WriteSeeker) error { return ps.Marshal(w) }
	default:
		pr := genPres(t, 2)
		if t.Chance(1, 10) {
			largePayload(t, pr)
		}
		logPres(t, pr)
		p := toPMP4(pr)
		write = func(w io.WriteSeeker) error { return p.Marshal(w) }
		// payloads that cannot be obtained
		if len(p.Tracks) > 0 {
			tr := p.Tracks[t.Pick(len(p.Tracks))]
			if len(tr.Samples) > 0 {
				s := tr.Samples[t.Pick(len(tr.Samples))]
				get := s.GetPayload
				fe := genFault(t)
				s.GetPayload = func() ([]byte, error) { return nil, fe }
				var sb seekablebuffer.Buffer
				if err := write(&sb); !errors.Is(err, fe) {
					t.Failf("a payload is not available (%q), writing reported %v", fe, err)
				}
				s.GetPayload = get
			}
		}
	}
	var sb seekablebuffer.Buffer
	clean := &faulty{w: &sb, at: -1}
	if err := write(clean); err != nil {
		t.Failf("%v", err)
	}
	n := 0
	fe := genFault(t)
	once := t.Bool()
	partial := t.Pick(4)
	points := 60
	if len(sb.Bytes()) > 200000 {
		points = 20
		t.Class("large")
	}
	for _, i := range faultPoints(t, len(clean.log), points) {
		var sb2 seekablebuffer.Buffer
		f := &faulty{w: &sb2, at: i, err: fe, once: once, partial: partial}
		err := write(f)
		if !f.fired {
			continue
		}
		n++
		if err == nil {
			t.Failf("call %d (%c) failed with %q (once: %v), writing reported success", i, clean.log[i], fe, once)
		}
		if !errors.Is(err, fe) {
			t.Failf("call %d (%c) failed with %q (once: %v), writing reported %q", i, clean.log[i], fe, once, err)
		}
	}
	t.Enumerated(n, n)
	t.NonTrivial()
	t.Classf("kind:%d", kind)
}

type plainReader struct{ f *faulty }

func (r plainReader) Read(p []byte) (int, error) { return r.f.Read(p) }

// tsFaultRead reads a stream; it stops when an error is returned.
func tsFaultRead(src io.Reader, cb func() error) *tsReadResult {
	res := &tsReadResult{got: map[uint16][]tsGot{}}
	r := &mpegts.Reader{R: src}
	if res.initErr = r.Initialize(); res.initErr != nil {
		return res
	}
	res.tracks = r.Tracks()
	r.OnDecodeError(func(err error) { res.errs = append(res.errs, err) })
	for _, tr := range r.Tracks() {
		pid := tr.PID
		add := func(pts, dts int64, data [][]byte) error {
			res.got[pid] = append(res.got[pid], tsGot{pts, dts, cloneParts(data)})
			if cb != nil {
				return cb()
			}
			return nil
		}
		tsListen(r, tr, add,
			func(pts int64, data []byte) error { return add(pts, pts, [][]byte{data}) },
			func(pts int64, data [][]byte) error { return add(pts, pts, data) })
	}
	for res.err == nil && res.reads < 1000000 {
		res.reads++
		res.err = r.Read()
	}
	return res
}

// c33TSRead: reading MPEG-TS streams.
func c33TSRead(t *T) {
	f := genFlow(t, t.Chance(1, 30))
	points := 40
	if len(f.data) > 188*400 {
		points = 18
		t.Class("large")
	}
	t.Logf("%s", Hex(f.data))
	sz := sizer(t)
	if len(f.data) > 188*60 && t.Chance(3, 4) {
		sz = nil
	}
	clean := &faulty{r: bytes.NewReader(f.data), at: -1, size: sz, eofWith: t.Chance(1, 3)}
	want := tsFaultRead(plainReader{clean}, nil)
	if want.initErr != nil || want.err != io.EOF {
		t.Failf("%v, %v", want.initErr, want.err)
	}
	n := 0
	fe := genFault(t)
	eofLike := false
	if t.Chance(1, 5) { // ends of input in disguise
		fe = []error{io.ErrUnexpectedEOF, fmt.Errorf("connection: %w", io.EOF), fmt.Errorf("connection: %w", io.ErrUnexpectedEOF)}[t.Pick(3)]
		eofLike = true
		t.Class("end-of-input")
	}
	once := t.Bool() && !eofLike
	partial := t.Pick(4)
	if t.Chance(1, 4) {
		partial = 188
	}
	delivered := 0
	for _, i := range faultPoints(t, len(clean.log), points) {
		src := &faulty{r: bytes.NewReader(f.data), at: i, err: fe, once: once, partial: partial, size: sz, eofWith: clean.eofWith}
		res := tsFaultRead(plainReader{src}, nil)
		if !src.fired { // sizes of reads are different
			if res.initErr != nil || res.err != io.EOF {
				t.Failf("no failure, reported errors are %v, %v", res.initErr, res.err)
			}
			continue
		}
		n++
		err := res.initErr
		if err == nil {
			err = res.err
		}
		if err == nil {
			t.Failf("read %d failed with %q: no error was reported", i, fe)
		}
		if !errors.Is(err, fe) && !(eofLike && err == io.EOF) {
			t.Failf("read %d failed with %q (once: %v), reported error is %q", i, fe, once, err)
		}
		if res.initErr != nil {
			continue
		}
		// what was delivered is what precedes the failure
		for pid, g := range res.got {
			w := want.got[pid]
			last := len(g)
			if eofLike {
				last-- // the last unit can be truncated
			}
			if len(g) > len(w) {
				t.Failf("read %d failed: %d units delivered, there are %d", i, len(g), len(w))
			}
			for k := 0; k < last; k++ {
				if !equalAU(g[k].data, w[k].data) || (f.timed && (g[k].pts != w[k].pts || g[k].dts != w[k].dts)) {
					t.Failf("read %d failed: unit %d of PID %d differs", i, k, pid)
				}
				delivered++
			}
		}
	}
	// errors of the callback
	total := 0
	for _, g := range want.got {
		total += len(g)
	}
	if total > 0 {
		k := t.Pick(total)
		fe = genFault(t)
		c := 0
		res := tsFaultRead(bytes.NewReader(f.data), func() error {
			c++
			if c == k+1 {
				return fe
			}
			return nil
		})
		if res.initErr != nil || !errors.Is(res.err, fe) || c != k+1 {
			t.Failf("the callback of unit %d failed with %q, reading reported %v after %d units", k, fe, res.err, c)
		}
		t.Class("callback")
	}
	t.Enumerated(n, n)
	if delivered > 0 {
		t.NonTrivial()
	}
}

// c33TSWrite: writing MPEG-TS streams.
func c33TSWrite(t *T) {
	points := 40
	o := tsOpts{maxTracks: 3, maxUnits: 12}
	if t.Chance(1, 40) {
		o.big = true
		points = 18
		t.Class("large")
	}
	s := genTSStream(t, o)
	write := func(f *faulty) (op int, err error) {
		w := &mpegts.Writer{W: f}
		for _, m := range s.models {
			w.Tracks = append(w.Tracks, m.track)
		}
		if err = w.Initialize(); err != nil {
			return -1, err
		}
		for i := range s.units {
			c := f.calls
			if err = tsWrite(w, s.models[s.units[i].track], &s.units[i]); err != nil {
				return i, err
			}
			if f.fired {
				t.Failf("call %d failed with %q, write %d (calls %d-%d) reported success", f.at, f.err, i, c, f.calls)
			}
		}
		return len(s.units), nil
	}
	var sb seekablebuffer.Buffer
	clean := &faulty{w: &sb, at: -1}
	if _, err := write(clean); err != nil {
		t.Failf("%v", err)
	}
	if !bytes.Equal(sb.Bytes(), s.data) {
		t.Failf("another stream was written")
	}
	n := 0
	fe := genFault(t)
	once := t.Bool()
	partial := t.Pick(3) * t.Int(1, 187)
	for _, i := range faultPoints(t, len(clean.log), points) {
		var sb2 seekablebuffer.Buffer
		f := &faulty{w: &sb2, at: i, err: fe, once: once, partial: partial}
		op, err := write(f)
		if err == nil {
			t.Failf("call %d failed with %q: no error was reported", i, fe)
		}
		n++
		if !errors.Is(err, fe) {
			t.Failf("call %d failed with %q, reported error is %q", i, fe, err)
		}
		// the units that were reported as written are there
		if op > 0 && sb2.Bytes() != nil && len(sb2.Bytes()) < s.bounds[op-1] {
			t.Failf("call %d failed during write %d: %d bytes written, expected at least %d", i, op, len(sb2.Bytes()), s.bounds[op-1])
		}
		if !once && !bytes.HasPrefix(s.data, sb2.Bytes()) {
			t.Failf("call %d failed: what was written is not a prefix of the stream", i)
		}
	}
	// tables
	f := &faulty{w: &seekablebuffer.Buffer{}, at: t.Pick(2), err: fe}
	w := &mpegts.Writer{W: f}
	for _, m := range s.models {
		w.Tracks = append(w.Tracks, m.track)
	}
	if err := w.Initialize(); err == nil {
		if _, err = w.WriteTables(); f.fired && !errors.Is(err, fe) {
			t.Failf("call %d failed with %q, WriteTables reported %v", f.at, fe, err)
		}
	}
	t.Enumerated(n, n)
	t.NonTrivial()
}

// c33Rewind: the rewindable reader.
func c33Rewind(t *T) {
	data := t.Bytes(t.Len(1, 400))
	fe := genFault(t)
	f := &faulty{r: bytes.NewReader(data), at: t.Int(0, 12), err: fe, size: sizer(t), partial: t.Pick(3)}
	maxRead := 60
	if t.Chance(1, 100) {
		data = t.Bytes(1 + t.Long(1<<20))
		f.r, f.at, f.size = bytes.NewReader(data), t.Long(300), nil
		maxRead = 70000
		t.Class("large")
	}
	r := &rewindablereader.Reader{R: f}
	var got []byte
	rewindAt := t.Int(0, 14)
	rewinded := false
	t.Logf("%d bytes, call %d fails, rewind at %d", len(data), f.at, rewindAt)
	for i := 0; i < 5000; i++ {
		if i == rewindAt {
			r.Rewind()
			rewinded = true
			got = nil
		}
		b := make([]byte, t.Int(1, maxRead))
		n, err := r.Read(b)
		got = append(got, b[:n]...)
		if !bytes.HasPrefix(data, got) {
			t.Failf("wrong data")
		}
		if err == io.EOF {
			if len(got) != len(data) {
				t.Failf("end of input after %d bytes of %d", len(got), len(data))
			}
			break
		}
		if err != nil {
			if !errors.Is(err, fe) {
				t.Failf("error is %v, expected %v", err, fe)
			}
			if rewinded {
				break
			}
		}
	}
	if f.fired {
		t.NonTrivial()
	}
}

func init() {
	Register(&Prop{
		ID:    "C33",
		Title: "I/O failures are reported, never swallowed",
		Rule:  "each failed call counts as an input; non-trivial: the call was reached (MP4, writers), units were delivered before it (MPEG-TS reading)",
		Assumptions: []string{
			"every call is failed when they are up to 40-60, otherwise the first 8, the last 8 and random ones",
			"a failure that is returned along with data is returned again by the next call (as with io.ReadFull, it may be ignored otherwise)",
			"io.EOF, io.ErrUnexpectedEOF and errors that wrap them are ends of input for the MPEG-TS reader",
		},
		Subs: []Sub{
			{Name: "mp4-read", Fn: c33MP4Read, Quick: 1000},
			{Name: "mp4-write", Fn: c33MP4Write, Quick: 1000},
			{Name: "ts-read", Fn: c33TSRead, Quick: 6000},
			{Name: "ts-write", Fn: c33TSWrite, Quick: 4000},
			{Name: "rewind", Fn: c33Rewind, Quick: 40000},
		},
	})
}
