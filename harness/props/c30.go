package props

import (
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	. "verif/harness/engine" //nolint:revive
)

func c30Timeline(t *T) {
	const mod = int64(1) << 33
	var d mpegts.TimeDecoder
	if t.Bool() {
		d = *mpegts.NewTimeDecoder()
	} else {
		d.Initialize()
	}
	start := t.Edge(0, mod-1)
	if t.Bool() {
		// just around the wrap-around
		start = (mod + int64(t.Int(-4, 4))) % mod
	}
	cur := start
	n := t.Int(1, 60)
	if t.Chance(1, 20) {
		n = t.Int(1, 600)
	}
	kind := t.Pick(4)
	wraps := 0
	for i := 0; i < n; i++ {
		if i > 0 {
			const m = mod/2 - 1
			var step int64
			switch kind {
			case 0: // small
				step = t.Edge(-90000*10, 90000*10)
			case 1: // always forward
				step = t.Edge(0, m)
			case 2: // always back
				step = t.Edge(-m, 0)
			default:
				step = t.Edge(-m, m)
			}
			if floorDiv(cur, mod) != floorDiv(cur+step, mod) {
				wraps++
			}
			cur += step
		}
		in := ((cur % mod) + mod) % mod
		got := d.Decode(in)
		t.Logf("decode(%d) = %d", in, got)
		if got != cur-start {
			t.Failf("timestamp %d (%d after the first): got %d", in, cur-start, got)
		}
	}
	if wraps > 0 {
		t.NonTrivial()
		t.Class("wrap")
	}
	if wraps > 3 {
		t.Class("many-wraps")
	}
}

// c30Long: millions of timestamps, up to 2^56 away from the first.
func c30Long(t *T) {
	const mod = int64(1) << 33
	const m = mod/2 - 1
	var d mpegts.TimeDecoder
	d.Initialize()
	start := t.Edge(0, mod-1)
	cur := start
	n := t.Long(1 << 24)
	kind := t.Pick(4)
	x := t.Draw(1<<62) | 1
	t.Logf("%d timestamps, first %d, kind %d, seed %d", n, start, kind, x)
	for i := 0; i < n; i++ {
		if i > 0 {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			step := int64(x & uint64(m))
			switch kind {
			case 0:
			case 1:
				step = -step
			case 2: // forward, at times far back
				if x>>60 == 0 {
					step = -step
				}
			default:
				step = int64(x&(1<<33-1)) - (1 << 32) + int64(x>>40&1)
			}
			cur += max(-m, min(m, step))
		}
		if got := d.Decode(cur & (mod - 1)); got != cur-start {
			t.Failf("timestamp number %d, %d (%d after the first): got %d", i, cur&(mod-1), cur-start, got)
		}
	}
	if n > 1<<20 {
		t.NonTrivial()
	}
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

func init() {
	Register(&Prop{
		ID:    "C30",
		Boost: 8,
		Title: "Timestamp unwrapping recovers the true timeline",
		Rule:  "random timelines (jitter, forward only, backward only, mixed) with steps up to 2^32-1 against 64-bit arithmetic; and of up to 2^24 timestamps; non-trivial: at least one wrap-around, more than 2^20 timestamps",
		Subs:  []Sub{{Name: "timeline", Fn: c30Timeline, Quick: 200000}, {Name: "long", Fn: c30Long, Quick: 200}},
	})
}
