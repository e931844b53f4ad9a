package props

import (
	"bytes"
	"errors"
	"io"

	"github.com/bluenviron/mediacommon/v2/pkg/rewindablereader"
	. "verif/harness/engine" //nolint:revive
)

// splitReader delivers data in chosen pieces, then an error.
type splitReader struct {
	data  []byte
	next  func(max int) int // bytes of the next read, <= max
	err   error
	early bool // deliver the final error together with the last bytes
	reads int
	ended bool
	// a failure that does not end the stream, along with data or not
	glitch   func() bool
	glitchAt int
	glitched bool
}

func (r *splitReader) Read(p []byte) (int, error) {
	r.reads++
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.data) == 0 {
		r.ended = true
		return 0, r.err
	}
	if r.glitch != nil && r.glitchAt == 0 && r.glitch() {
		r.glitched = true
		return 0, errGlitch
	}
	n := r.next(min(len(p), len(r.data)))
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if r.glitch != nil && r.glitchAt == 1 && len(r.data) > 0 && r.glitch() {
		r.glitched = true
		return n, errGlitch
	}
	if r.early && len(r.data) == 0 {
		r.ended = true
		return n, r.err
	}
	return n, nil
}

var errInjected = errors.New("injected")

var errGlitch = errors.New("temporary failure")

func c23History(t *T) {
	const limit = 1 << 20
	big := t.Chance(1, 60)
	size := t.Len(0, 3000)
	if big {
		size = limit + t.Int(-3, 3000)
	}
	data := t.Bytes(size)
	mode := t.Pick(3)
	zero := t.Chance(1, 5)
	r := &splitReader{data: data, early: t.Chance(1, 4), err: io.EOF}
	if t.Bool() {
		r.err = errInjected
	}
	r.next = func(m int) int {
		if zero = zero && r.reads < 4000; zero && t.Chance(1, 4) {
			return 0
		}
		switch mode {
		case 0:
			return m
		case 1:
			if big {
				return m
			}
			return 1
		default:
			return t.Int(1, m)
		}
	}
	glitches := 0
	if t.Chance(1, 4) {
		r.glitch = func() bool {
			if glitches < 20 && t.Chance(1, 3) {
				glitches++
				return true
			}
			return false
		}
		r.glitchAt = t.Pick(2)
	}
	// passed tells whether a failure that does not end the stream was passed on, as it must.
	passed := func(err error) bool {
		was := r.glitched
		r.glitched = false
		if was != (err == errGlitch) {
			t.Failf("the underlying reader failed for a moment (%v), the reader returned %v", was, err)
		}
		if was {
			t.Class("temporary-failure")
		}
		return was
	}
	t.Logf("stream of %d bytes, end error %v (with the last bytes: %v), split mode %d", size, r.err, r.early, mode)
	rr := &rewindablereader.Reader{R: r}
	pos := 0
	// many small reads
	many := !big && t.Chance(1, 300)
	if many {
		size = t.Int(3000, 70000)
		data = t.Bytes(size)
		r.data = data
		t.Class("many-reads")
		t.Logf("many reads of a stream of %d bytes", size)
	}
	nread := func() int {
		if many {
			return t.Int(1, 4)
		}
		if big {
			return t.Int(1, 40000)
		}
		return t.Len(0, 1200)
	}
	// before
	n1 := t.Int(0, 12)
	if big {
		n1 = 1000000
		if t.Bool() {
			n1 = t.Int(1, 60)
		}
	}
	if many {
		n1 = t.Int(1, size)
	}
	for i := 0; i < n1; i++ {
		p := make([]byte, nread())
		n, err := rr.Read(p)
		t.Logf("read %d -> %d, %v", len(p), n, err)
		got := size - len(r.data)
		if got > limit {
			if err == nil {
				t.Failf("read %d bytes before rewinding, without error", got)
			}
			t.Class("limit-exceeded")
			t.NonTrivial()
			return
		}
		if n != got-pos || !bytes.Equal(p[:n], data[pos:pos+n]) {
			t.Failf("read of %d bytes at %d returned %d bytes, or wrong ones", len(p), pos, n)
		}
		pos = got
		if passed(err) {
			continue
		}
		if err != nil {
			if err != r.err || !r.ended {
				t.Failf("unexpected error: %v", err)
			}
			if big {
				break
			}
		} else if r.ended && len(p) > 0 {
			t.Failf("the end is not reported")
		}
	}
	recorded := pos
	rr.Rewind()
	t.Logf("rewind after %d bytes", recorded)
	r.ended = false
	pos = 0
	reads := 0
	for i := 0; ; i++ {
		p := make([]byte, nread())
		if i%8 == 7 {
			p = make([]byte, max(1, len(p)))
		}
		before := len(r.data)
		n, err := rr.Read(p)
		t.Logf("read %d -> %d, %v", len(p), n, err)
		if n > size-pos || !bytes.Equal(p[:n], data[pos:pos+n]) {
			t.Failf("after the rewind, read at %d returned %d bytes, or wrong ones: %s", pos, n, Hex(p[:n]))
		}
		if pos < recorded && len(r.data) != before {
			t.Failf("underlying reader consumed before the recorded data is over")
		}
		pos += n
		if passed(err) {
			continue
		}
		if err != nil {
			if err != r.err {
				t.Failf("unexpected error %v", err)
			}
			if pos != size {
				t.Failf("ended after %d of %d bytes", pos, size)
			}
			break
		}
		if reads++; reads > 40*size+100000 {
			t.Failf("no progress")
		}
	}
	if recorded > 0 && recorded < size {
		t.NonTrivial()
	}
	if recorded == size && size > 0 {
		t.Class("everything-recorded")
	}
}

func init() {
	Register(&Prop{
		ID:    "C23",
		Boost: 10,
		Title: "A rewindable reader replays exactly what was read, then continues",
		Rule:  "random histories of reads before and after the rewind over random splittings, streams around the 1 MiB limit; non-trivial: rewind in the middle of the stream, limit exceeded",
		Subs:  []Sub{{Name: "history", Fn: c23History, Quick: 30000}},
	})
}
