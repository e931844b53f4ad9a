package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"

	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

// tsSplit delivers data in pieces.
type tsSplit struct {
	data  []byte
	next  func() int // size of the next piece
	eofIn bool       // the last piece comes with io.EOF
	zero  func() bool
	calls int
	ended int // calls after the end
}

func (r *tsSplit) Read(p []byte) (int, error) {
	r.calls++
	if len(r.data) == 0 {
		r.ended++
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.zero != nil && r.zero() {
		return 0, nil
	}
	n := max(1, min(r.next(), len(p), len(r.data)))
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if len(r.data) == 0 && r.eofIn {
		return n, io.EOF
	}
	return n, nil
}

func genSplit(t *T, data []byte) (*tsSplit, string) {
	r := &tsSplit{data: data, eofIn: t.Bool()}
	// sizes come from a generator seeded by one draw, streams are long
	seed := t.Draw(1<<32 - 1)
	rnd := func(n uint64) uint64 {
		seed = seed*6364136223846793005 + 1442695040888963407
		return (seed >> 33) % n
	}
	mode := t.Pick(7)
	name := ""
	switch mode {
	case 0:
		name, r.next = "one byte", func() int { return 1 }
	case 1:
		k := t.Int(2, 400)
		name, r.next = fmt.Sprintf("%d bytes", k), func() int { return k }
	case 2:
		name, r.next = "1 to 10 bytes", func() int { return 1 + int(rnd(10)) }
	case 3:
		name, r.next = "1 to 3000 bytes", func() int { return 1 + int(rnd(3000)) }
	case 4:
		k := 188 * t.Int(1, 9)
		name, r.next = fmt.Sprintf("%d bytes", k), func() int { return k }
	case 5:
		k := t.Int(1, 187)
		first := true
		name, r.next = fmt.Sprintf("%d bytes, then packets", k), func() int {
			if first {
				first = false
				return k
			}
			return 188
		}
	default:
		name, r.next = "everything", func() int { return 1 << 30 }
	}
	if t.Chance(1, 4) {
		name += ", with empty reads"
		r.zero = func() bool { return rnd(4) == 0 }
	}
	t.Classf("split:%d", mode)
	return r, name
}

// genFlow generates a stream, of the library or of another multiplexer.
func genFlow(t *T, big bool) *tsFlow {
	if t.Chance(1, 3) {
		f := genForeignTS(t)
		f.exact = true
		t.Class("foreign")
		return f
	}
	s := genTSStream(t, tsOpts{maxTracks: 5, maxUnits: 40, big: big, tables: t.Bool()})
	f := &tsFlow{models: s.models, units: s.units, data: s.data, exact: true}
	pkts, err := ref.ParseTS(s.data)
	if err != nil {
		t.Failf("emitted stream: %v", err)
	}
	pids := s.pids()
	u := 0
	first := true
	for i, p := range pkts {
		for u < len(s.bounds)-1 && i*188 >= s.bounds[u] {
			u++
		}
		k := u
		if !pids[p.PID] {
			k = -1
		}
		f.pktUnit = append(f.pktUnit, k)
		if k >= 0 && first {
			first = false
			f.timed = s.models[s.units[k].track].kind != tsKLVAsync
		}
		if k >= 0 && p.PUSI && !s.models[s.units[k].track].isVideo() && p.Payload[4] == 0 && p.Payload[5] == 0 {
			f.exact = false // large units, see C28
		}
	}
	return f
}

func sameRead(a, b *tsReadResult, errs bool) error {
	if (a.initErr == nil) != (b.initErr == nil) {
		return fmt.Errorf("opening: %v, was %v", b.initErr, a.initErr)
	}
	if a.initErr != nil {
		if a.initErr.Error() != b.initErr.Error() {
			return fmt.Errorf("opening: %v, was %v", b.initErr, a.initErr)
		}
		return nil
	}
	if b.altered != nil {
		return b.altered
	}
	if d1, d2 := dump(a.tracks), dump(b.tracks); d1 != d2 {
		return fmt.Errorf("tracks: %s, were %s", d2, d1)
	}
	if (a.err == nil) != (b.err == nil) || a.err != nil && a.err.Error() != b.err.Error() {
		return fmt.Errorf("end: %v, was %v", b.err, a.err)
	}
	if errs {
		if len(a.errs) != len(b.errs) {
			return fmt.Errorf("%d decode errors, were %d", len(b.errs), len(a.errs))
		}
		for i := range a.errs {
			if a.errs[i].Error() != b.errs[i].Error() {
				return fmt.Errorf("decode error %d: %v, was %v", i, b.errs[i], a.errs[i])
			}
		}
	}
	for _, tr := range a.tracks {
		if err := sameGot(a.got[tr.PID], b.got[tr.PID], true); err != nil {
			return fmt.Errorf("PID %d: %w", tr.PID, err)
		}
	}
	return nil
}

func sameGot(a, b []tsGot, times bool) error {
	for i := 0; i < len(a) && i < len(b); i++ {
		if !equalAU(a[i].data, b[i].data) {
			return fmt.Errorf("unit %d: %s, was %s", i, firstDiff(b[i].data, a[i].data), firstDiff(a[i].data, b[i].data))
		}
		if times && (a[i].pts != b[i].pts || a[i].dts != b[i].dts) {
			return fmt.Errorf("unit %d: times %d/%d, were %d/%d", i, b[i].pts, b[i].dts, a[i].pts, a[i].dts)
		}
	}
	if len(a) != len(b) {
		return fmt.Errorf("%d units, were %d", len(b), len(a))
	}
	return nil
}

// c29Split: splitting does not matter, also on damaged streams.
func c29Split(t *T) {
	f := genFlow(t, t.Chance(1, 8))
	data := f.data
	if t.Chance(1, 2) {
		data = mutateTS(t, data, t.Int(1, 6))
		t.Class("damaged")
	}
	want := tsRead(variousReader(t, data), 0)
	for i, n := 0, t.Int(1, 2); i < n; i++ {
		r, name := genSplit(t, data)
		t.Logf("split in %s (EOF with data: %v), stream %s", name, r.eofIn, Hex(data))
		got := tsRead(r, 0)
		if err := sameRead(want, got, true); err != nil {
			t.Failf("reads of %s: %v", name, err)
		}
	}
	t.NonTrivial()
}

// garbageBytes has no sync byte.
func garbageBytes(t *T, n int) []byte {
	b := t.Bytes(n)
	for i := range b {
		if b[i] == 0x47 {
			b[i] = 0x46
		}
	}
	return b
}

// c29Garbage: garbage between packets does not matter.
func c29Garbage(t *T) {
	f := genFlow(t, t.Chance(1, 8))
	want := tsRead(bytes.NewReader(f.data), 0)
	var data []byte
	np := len(f.data) / 188
	n := t.Int(1, 6)
	at := map[int]bool{}
	for i := 0; i < n; i++ {
		at[int(t.EdgeU(0, uint64(np)))] = true
	}
	left := 400000
	for i := 0; i <= np; i++ {
		if at[i] {
			var l int
			switch t.Pick(4) {
			case 0:
				l = t.Int(1, 10)
			case 1:
				l = 188*t.Int(1, 3) + t.Int(-2, 2)
			case 2:
				l = t.Int(1, 600)
			default:
				l = t.Len(1, 20000)
			}
			l = min(l, left)
			left -= l
			data = append(data, garbageBytes(t, l)...)
			t.Logf("%d bytes of garbage before packet %d", l, i)
		}
		if i < np {
			data = append(data, f.data[i*188:(i+1)*188]...)
		}
	}
	r, name := genSplit(t, data)
	t.Logf("split in %s, stream %s", name, Hex(data))
	got := tsRead(r, 0)
	if err := sameRead(want, got, false); err != nil {
		t.Failf("after inserting garbage: %v", err)
	}
	if want.initErr != nil {
		t.Failf("opening failed: %v", want.initErr)
	}
	t.NonTrivial()
}

// tsPos returns the offset of the payload of a packet.
func tsPos(b []byte) int {
	if b[3]&0x20 != 0 {
		return 5 + int(b[4])
	}
	return 4
}

// c29Damage: damage to packets of a track costs the units they carry, and neighbours on the same track.
func c29Damage(t *T) {
	f := genFlow(t, false)
	clean := tsRead(bytes.NewReader(f.data), 0)
	if clean.initErr != nil {
		t.Failf("opening failed: %v", clean.initErr)
	}
	if !f.exact {
		t.Skip()
	}
	victim := t.Pick(len(f.models))
	m := f.models[victim]
	var cand []int
	paramsUnit := -1
	for i, u := range f.pktUnit {
		if u >= 0 && f.units[u].track == victim {
			cand = append(cand, i)
			if paramsUnit < 0 {
				paramsUnit = u
			}
		}
	}
	if len(cand) == 0 {
		t.Skip()
	}
	type action struct{ kind, a, b int }
	acts := map[int]action{}
	damaged := map[int]bool{}
	// altered parameters would be taken as they are, when nothing precedes them
	alter := true
	if m.needsParams() {
		alter = t.Bool()
		if alter {
			next := neighbour(f, paramsUnit, 1)
			for len(cand) > 0 && (f.pktUnit[cand[0]] == paramsUnit || f.pktUnit[cand[0]] == next) {
				cand = cand[1:]
			}
			if len(cand) == 0 {
				t.Skip()
			}
		}
	}
	for i, n := 0, t.Int(1, 4); i < n; i++ {
		at := t.Pick(len(cand))
		run := 1
		kind := t.Weighted(4, 2, 2, 2, 1, 2)
		if kind == 0 && t.Chance(1, 3) {
			run = t.Int(1, 40)
		}
		for k := at; k < at+run && k < len(cand); k++ {
			u := f.pktUnit[cand[k]]
			if !alter && kind >= 2 && kind != 3 {
				kind = 0
			}
			acts[cand[k]] = action{kind: kind, a: t.Pick(184), b: t.Int(1, 255)}
			damaged[u] = true
		}
	}
	var data []byte
	mods := 0
	for i := range f.pktUnit {
		p := append([]byte{}, f.data[i*188:(i+1)*188]...)
		a, ok := acts[i]
		if !ok {
			data = append(data, p...)
			continue
		}
		mods++
		pos := tsPos(p)
		t.Logf("packet %d (unit %d): damage %d", i, f.pktUnit[i], a.kind)
		switch a.kind {
		case 0: // lost
			continue
		case 1: // transport error
			p[1] |= 0x80
		case 2: // altered byte of the payload
			p[pos+a.a%(188-pos)] ^= byte(a.b)
		case 3: // altered continuity counter
			p[3] ^= byte(a.b&0xF | 1)
		case 4: // altered adaptation field
			if pos > 5 {
				p[4+a.a%(pos-4)] ^= byte(a.b)
			} else {
				p[1] |= 0x80
			}
		default: // random payload
			for k := pos; k < 188; k++ {
				p[k] = byte(mixByte(a.b*7919 + a.a*104729 + k))
			}
			if a.a%4 == 0 { // sync bytes, start codes
				copy(p[pos:], []byte{0, 0, 1, 0xE0, 0, 0, 0x80, 0x80, 5})
			}
		}
		data = append(data, p...)
	}
	t.Logf("victim: track %d %s; stream %s", victim, tsKindNames[m.kind], Hex(data))
	t.Classf("victim:%s", tsKindNames[m.kind])
	got := tsRead(bytes.NewReader(data), 0)
	if got.initErr != nil {
		// the parameters of the track may be gone
		if m.needsParams() {
			whole := false
			for u := range f.units {
				if f.units[u].track == victim && !damaged[u] && !damaged[neighbour(f, u, -1)] && !damaged[neighbour(f, u, 1)] {
					whole = true
				}
			}
			if !whole {
				t.Class("no-parameters-left")
				return
			}
		}
		t.Failf("opening failed after damage of a track: %v", got.initErr)
	}
	if got.err != io.EOF {
		t.Failf("reading ended with %v", got.err)
	}
	if d1, d2 := dump(clean.tracks), dump(got.tracks); d1 != d2 {
		t.Failf("tracks: %s, were %s", d2, d1)
	}
	// time of asynchronous units comes from other tracks
	clock := false // an undamaged track with times is always available
	for i, u := range f.pktUnit {
		if u >= 0 && f.models[f.units[u].track].kind != tsKLVAsync {
			_, hit := acts[i]
			clock = !hit
			break
		}
	}
	for k, mk := range f.models {
		if k == victim {
			continue
		}
		if mk.kind == tsKLVAsync {
			if !clock || m.kind == tsKLVAsync && !f.timed {
				continue
			}
		}
		if err := sameGot(clean.got[mk.want.PID], got.got[mk.want.PID], mk.kind != tsKLVAsync); err != nil {
			t.Failf("track %d (%s), which was not damaged: %v", k, tsKindNames[mk.kind], err)
		}
	}
	if m.kind == tsKLVAsync && !clock {
		return
	}
	// the damaged track
	g := got.got[m.want.PID]
	j := 0
	intact := 0
	units := 0
	timed := false
	for i := range f.units {
		u := &f.units[i]
		timed = timed || f.models[u.track].kind != tsKLVAsync
		if u.track != victim {
			continue
		}
		units++
		if damaged[i] || damaged[neighbour(f, i, -1)] || damaged[neighbour(f, i, 1)] || m.kind == tsKLVAsync && !timed {
			continue
		}
		intact++
		for {
			if j >= len(g) {
				t.Failf("damaged track (%s): unit %d was not damaged (nor were its neighbours), and was not delivered, unchanged and in order (%d units delivered)", tsKindNames[m.kind], i, len(g))
			}
			j++
			if tsSameUnit(m, u, &g[j-1]) == nil {
				break
			}
		}
	}
	if len(g) > units+2*mods {
		t.Failf("damaged track: %d units delivered, the stream has %d", len(g), units)
	}
	if intact > 0 {
		t.NonTrivial()
	}
}

func mixByte(x int) int {
	x *= 2654435761
	return x >> 13 & 0xFF
}

// neighbour returns the previous or next unit of the same track, -1 if there is none.
func neighbour(f *tsFlow, i, d int) int {
	for j := i + d; j >= 0 && j < len(f.units); j += d {
		if f.units[j].track == f.units[i].track {
			return j
		}
	}
	return -1
}

// c29Tables: damage to repeated tables, null packets, packets without payload and undeclared streams do not matter.
func c29Tables(t *T) { tsTables(t, false) }

func tsTables(t *T, reports bool) {
	f := genFlow(t, false)
	clean := tsRead(bytes.NewReader(f.data), 0)
	if clean.initErr != nil {
		t.Failf("opening failed: %v", clean.initErr)
	}
	firstMedia := 0
	for i, u := range f.pktUnit {
		if u >= 0 {
			firstMedia = i
			break
		}
	}
	used := map[int]bool{0x1FFF: true, 0: true}
	for _, b := range f.pktUnit {
		_ = b
	}
	for i := range f.pktUnit {
		used[int(f.data[i*188+1]&0x1F)<<8|int(f.data[i*188+2])] = true
	}
	other := 0x1E00
	for used[other] {
		other++
	}
	var data []byte
	undeclared := false
	altered := 0
	intact := map[int]bool{} // the previous packet of the stream is intact
	started := map[int]int{} // units of each stream
	for _, m := range f.models {
		started[int(m.want.PID)] = 0
	}
	opened := false // opening certainly needs no further packets
	cc := map[int]byte{}
	for i, u := range f.pktUnit {
		p := append([]byte{}, f.data[i*188:(i+1)*188]...)
		pid := int(p[1]&0x1F)<<8 | int(p[2])
		cc[pid] = p[3] & 0xF
		if n, ok := started[pid]; ok && p[1]&0x40 != 0 {
			started[pid] = n + 1
			opened = true
			for _, n := range started {
				opened = opened && n >= 3
			}
		}
		prev := intact[pid]
		intact[pid] = true
		if u == -1 && i > firstMedia && t.Chance(1, 2) {
			intact[pid] = false
			switch t.Pick(4) {
			case 0:
				t.Class("table-lost")
				continue
			case 1:
				p[1] |= 0x80
			case 2:
				p[3] ^= byte(t.Int(1, 15))
			default:
				pos := tsPos(p)
				p[pos+5+t.Pick(12)] ^= 1 << t.Pick(8) // CRC does not match
				t.Class("table-altered")
				if prev && opened && p[1]&0x40 != 0 && pos+4+(int(p[pos+2]&0xF)<<8|int(p[pos+3])) <= 188 {
					t.Class("table-altered-while-reading")
					altered++
				}
				intact[pid] = true
			}
		}
		data = append(data, p...)
		if t.Chance(1, 12) {
			x := make([]byte, 188)
			x[0] = 0x47
			switch t.Pick(3) {
			case 0: // null packet
				x[1], x[2], x[3] = 0x1F, 0xFF, 0x10|byte(t.Pick(16))
				t.Fill(x[4:])
				t.Class("null-packet")
			case 1: // adaptation field only, continuity counter does not change
				x[1], x[2], x[3] = byte(pid>>8), byte(pid), 0x20|cc[pid]
				x[4] = 183
				for k := 6; k < 188; k++ {
					x[k] = 0xFF
				}
				t.Class("no-payload")
			default: // undeclared stream
				x[1], x[2], x[3] = 0x40|byte(other>>8), byte(other), 0x10|byte(t.Pick(16))
				t.Fill(x[4:])
				if t.Bool() {
					copy(x[4:], []byte{0, 0, 1, 0xE0, 0, 10, 0x80, 0, 0, 1, 2, 3, 4, 5, 6, 7})
				}
				undeclared = true
				t.Class("undeclared-stream")
			}
			data = append(data, x...)
		}
	}
	t.Logf("stream %s", Hex(data))
	got := tsRead(bytes.NewReader(data), 0)
	if got.initErr != nil {
		t.Failf("opening failed: %v", got.initErr)
	}
	if got.err != io.EOF {
		t.Failf("reading ended with %v", got.err)
	}
	if d1, d2 := dump(clean.tracks), dump(got.tracks); d1 != d2 {
		t.Failf("tracks: %s, were %s", d2, d1)
	}
	if reports && altered > len(got.errs) {
		t.Failf("%d tables do not match their CRC, %d errors were reported", altered, len(got.errs))
	}
	for k, m := range f.models {
		if err := sameGot(clean.got[m.want.PID], got.got[m.want.PID], true); err != nil {
			if m.kind == tsKLVAsync && undeclared {
				continue
			}
			t.Failf("track %d (%s): %v", k, tsKindNames[m.kind], err)
		}
	}
	t.NonTrivial()
}

// c29Join: reading starts anywhere.
func c29Join(t *T) {
	f := genFlow(t, false)
	if !f.exact {
		t.Skip()
	}
	np := len(f.pktUnit)
	from := t.Pick(np)
	cutByte := 0
	if t.Chance(1, 3) { // inside a packet
		cutByte = t.Int(1, 187)
	}
	start := from // first whole packet
	if cutByte > 0 {
		start++
		for _, b := range f.data[from*188+cutByte : min(len(f.data), (from+1)*188)] {
			if b == 0x47 {
				t.Skip() // imitates a packet
			}
		}
	}
	data := f.data[from*188+cutByte:]
	// tables after the join point
	pat, tables := -1, -1
	for i := start; i < np; i++ {
		if f.pktUnit[i] != -1 {
			continue
		}
		pid := int(f.data[i*188+1]&0x1F)<<8 | int(f.data[i*188+2])
		if pid == 0 {
			if pat < 0 {
				pat = i
			}
		} else if pat >= 0 {
			// the table may span several packets
			tables = i
			for tables+1 < np && f.pktUnit[tables+1] == -1 {
				tables++
			}
			if f.data[i*188+1]&0x40 == 0 {
				tables = -1 // in the middle of a table
				continue
			}
			break
		}
	}
	first := make([]int, len(f.units)) // first packet of each unit
	for i := range first {
		first[i] = -1
	}
	for i := np - 1; i >= 0; i-- {
		if u := f.pktUnit[i]; u >= 0 {
			first[u] = i
		}
	}
	t.Logf("join at packet %d + %d bytes of %d, tables complete at packet %d; stream %s", from, cutByte, np, tables, Hex(data))
	got := tsRead(bytes.NewReader(data), 0)
	params := true
	for k, m := range f.models {
		if !m.needsParams() {
			continue
		}
		ok := false
		for i := range f.units {
			if f.units[i].track == k && first[i] > tables {
				ok = true
			}
		}
		params = params && ok
	}
	if tables < 0 || !params {
		if got.initErr == nil {
			t.Class("opened-anyway")
		} else {
			t.Class("nothing-to-open")
		}
		return
	}
	if got.initErr != nil {
		t.Failf("opening failed, though tables and parameters are available after the join point: %v", got.initErr)
	}
	if got.err != io.EOF {
		t.Failf("reading ended with %v", got.err)
	}
	f.checkTracks(t, got.tracks)
	timedFrom := np
	for i, u := range f.pktUnit {
		if i > tables && u >= 0 && first[u] == i && f.models[f.units[u].track].kind != tsKLVAsync {
			timedFrom = i
			break
		}
	}
	n := 0
	for k, m := range f.models {
		g := got.got[m.want.PID]
		j := 0
		available := 0
		for i := range f.units {
			u := &f.units[i]
			if u.track != k {
				continue
			}
			if first[i] >= start {
				available++
			}
			if first[i] <= tables || m.kind == tsKLVAsync && first[i] <= timedFrom {
				continue
			}
			n++
			for {
				if j >= len(g) {
					t.Failf("track %d (%s): unit %d begins after the join point and the tables, and was not delivered unchanged and in order", k, tsKindNames[m.kind], i)
				}
				j++
				if tsSameUnit(m, u, &g[j-1]) == nil {
					break
				}
			}
		}
		if len(g) > available+1 {
			t.Failf("track %d: %d units delivered, the stream has %d after the join point", k, len(g), available)
		}
	}
	if n > 0 && from > 0 {
		t.NonTrivial()
	}
}

// c29Datagrams: the buffered reader passes on datagrams made of whole packets, whatever the sizes of the reads.
func c29Datagrams(t *T) {
	var data []byte
	var cuts []int
	bad := -1
	n := t.Int(1, 20)
	for i := 0; i < n; i++ {
		l := 188 * t.Int(1, 7)
		if t.Chance(1, 30) && bad < 0 {
			l = t.Int(1, 1499)
			if l%188 != 0 {
				bad = i
			}
		}
		data = append(data, t.Bytes(l)...)
		cuts = append(cuts, l)
	}
	i, given := 0, 0
	fail := errors.New("device error")
	end := io.EOF
	if t.Bool() {
		end = fail
	}
	early := t.Chance(1, 3) // the last datagram is returned along with the end
	src := readFunc(func(p []byte) (n2 int, err2 error) {
		if i == len(cuts) {
			return 0, end
		}
		if early && i == len(cuts)-1 {
			defer func() { err2 = end }()
		}
		if len(p) < cuts[i] {
			t.Failf("a datagram of %d bytes is read into a buffer of %d bytes", cuts[i], len(p))
		}
		i++
		given += cuts[i-1]
		return copy(p, data[given-cuts[i-1]:given]), nil
	})
	r := mpegts.NewBufferedReader(src) //nolint:staticcheck
	t.Logf("datagrams %v", cuts)
	var got []byte
	var err error
	refused := 0
	for {
		p := make([]byte, t.Len(1, 2000))
		var k int
		k, err = r.Read(p)
		got = append(got, p[:k]...)
		if err != nil {
			if !errors.Is(err, end) && refused < 1 && bad >= 0 {
				refused++ // a datagram of odd size: go on
				continue
			}
			break
		}
		if k == 0 && len(got) > len(data) {
			t.Failf("too many empty reads")
		}
		if len(got) > len(data) {
			t.Failf("%d bytes were read, there are %d", len(got), len(data))
		}
	}
	want := data
	if bad >= 0 {
		if refused == 0 {
			t.Failf("a datagram of %d bytes was accepted", cuts[bad])
		}
		l := 0
		for _, c := range cuts[:bad] {
			l += c
		}
		want = append(append([]byte(nil), data[:l]...), data[l+cuts[bad]:]...)
		t.Class("odd-size")
	}
	if !errors.Is(err, end) {
		t.Failf("ended with %v, expected %v", err, end)
	}
	if !bytes.Equal(got, want) {
		t.Failf("read %s, expected %s", Hex(got), Hex(want))
	}
	t.NonTrivial()
}

type readFunc func(p []byte) (int, error)

func (f readFunc) Read(p []byte) (int, error) { return f(p) }

func init() {
	Register(&Prop{
		ID:    "C29",
		Title: "MPEG-TS reading tolerates garbage, loss and any splitting of the input",
		Rule:  "split, garbage, tables: every case; damage: some unit of the damaged track is intact; join: after the first packet, some unit is required",
		Assumptions: []string{
			"garbage and truncated packets do not contain the sync byte",
			"damage does not alter the PID of packets; the times given to asynchronous KLV units come from other tracks and are not checked under damage",
			"altered bytes do not touch the first unit of tracks that derive their parameters from it",
			"repeated packets (legal duplicates) are treated as damage by the demultiplexer, and are not generated",
			"garbage is smaller than the 1 MiB window of the reader for opening",
		},
		Subs: []Sub{
			{Name: "split", Fn: c29Split, Quick: 8000},
			{Name: "garbage", Fn: c29Garbage, Quick: 8000},
			{Name: "damage", Fn: c29Damage, Quick: 40000},
			{Name: "tables", Fn: c29Tables, Quick: 15000},
			{Name: "join", Fn: c29Join, Quick: 25000},
			{Name: "datagrams", Fn: c29Datagrams, Quick: 5000},
		},
	})
}
