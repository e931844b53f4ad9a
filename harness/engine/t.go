// Package engine is a small property-based testing engine.
//
// Every random decision of a case is a draw on a tape of unsigned integers. A
// case is a pure function of its tape, hence it can be replayed, and shrunk
// by editing the tape (removing, zeroing, lowering draws).
package engine

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math/bits"
	"strings"
)

type failure struct{ msg string }
type skip struct{}

// T is the context of a case.
type T struct {
	// source
	rng    uint64 // live mode state
	mode   int    // 0 live, 1 tape, 2 bytes
	in     []uint64
	inPos  int
	data   []byte
	Tape   []uint64
	tapeH  uint64
	Tier   string
	rendr  bool
	logs   []string
	class  map[string]int
	nontr  bool
	key    uint64
	hasKey bool
	more   int
	moreNT int
	rec    bool
	recB   []byte
}

// draws past the end of a tape
const maxPast = 10000000

const (
	modeLive = iota
	modeTape
	modeBytes
)

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (t *T) next() uint64 {
	t.rng += 0x9e3779b97f4a7c15
	return mix(t.rng)
}

// Draw draws an integer in [0, max].
func (t *T) Draw(max uint64) uint64 {
	var v uint64
	switch t.mode {
	case modeLive:
		if max == ^uint64(0) {
			v = t.next()
		} else {
			hi, _ := bits.Mul64(t.next(), max+1)
			v = hi
		}
	case modeTape:
		if t.inPos < len(t.in) {
			v = t.in[t.inPos]
			t.inPos++
		}
		if max != ^uint64(0) && v > max {
			v %= max + 1
		}
	case modeBytes:
		n := (bits.Len64(max) + 7) / 8
		var b [8]byte
		c := copy(b[:n], t.data)
		t.data = t.data[c:]
		v = binary.LittleEndian.Uint64(b[:])
		if max != ^uint64(0) && v > max {
			v %= max + 1
		}
	}
	if t.mode != modeLive && len(t.Tape) > len(t.in)+maxPast {
		panic(skip{}) // edited or fuzzed draws ended, and the generator does not
	}
	if t.rec {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], v)
		t.recB = append(t.recB, b[:(bits.Len64(max)+7)/8]...)
	}
	t.Tape = append(t.Tape, v)
	t.tapeH = (t.tapeH ^ v) * 0x100000001b3
	t.tapeH ^= t.tapeH >> 29
	return v
}

// Int draws an integer in [lo, hi], 0-draw = lo.
func (t *T) Int(lo, hi int) int {
	if hi < lo {
		hi = lo
	}
	return lo + int(t.Draw(uint64(hi-lo)))
}

// I64 draws an integer in [lo, hi].
func (t *T) I64(lo, hi int64) int64 {
	return int64(uint64(lo) + t.Draw(uint64(hi)-uint64(lo)))
}

// Edge draws in [lo, hi], favouring the boundaries and small values.
func (t *T) Edge(lo, hi int64) int64 {
	span := uint64(hi) - uint64(lo)
	switch t.Draw(9) {
	case 0, 1, 2, 3:
		return t.I64(lo, hi)
	case 4:
		return lo
	case 5:
		return hi
	case 6: // near lo
		return lo + int64(t.Draw(min(span, 8)))
	case 7: // near hi
		return hi - int64(t.Draw(min(span, 8)))
	default: // log-uniform offset, with power-of-two neighbourhood
		n := bits.Len64(span)
		b := t.Draw(uint64(n))
		var v uint64
		if b > 0 {
			v = uint64(1)<<(b-1) | t.Draw(uint64(1)<<(b-1)-1)
			switch t.Draw(3) {
			case 0:
				v = uint64(1) << (b - 1)
			case 1:
				v = uint64(1)<<(b-1) - 1
			}
		}
		if v > span {
			v = span
		}
		return lo + int64(v)
	}
}

// EdgeU is Edge on unsigned integers.
func (t *T) EdgeU(lo, hi uint64) uint64 {
	return uint64(t.edgeOff(hi-lo)) + lo
}

func (t *T) edgeOff(span uint64) uint64 {
	switch t.Draw(9) {
	case 0, 1, 2, 3:
		return t.Draw(span)
	case 4:
		return 0
	case 5:
		return span
	case 6:
		return t.Draw(min(span, 8))
	case 7:
		return span - t.Draw(min(span, 8))
	default:
		n := bits.Len64(span)
		b := t.Draw(uint64(n))
		var v uint64
		if b > 0 {
			v = uint64(1)<<(b-1) | t.Draw(uint64(1)<<(b-1)-1)
			switch t.Draw(3) {
			case 0:
				v = uint64(1) << (b - 1)
			case 1:
				v = uint64(1)<<(b-1) - 1
			}
		}
		return min(v, span)
	}
}

// Bool draws a boolean; false is the simplest.
func (t *T) Bool() bool { return t.Draw(1) == 1 }

// Chance is true with probability num/den.
func (t *T) Chance(num, den int) bool { return int(t.Draw(uint64(den-1))) >= den-num }

// Pick draws an index in [0, n).
func (t *T) Pick(n int) int { return int(t.Draw(uint64(n - 1))) }

// Weighted draws an index with the given weights.
func (t *T) Weighted(w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	v := int(t.Draw(uint64(sum - 1)))
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return len(w) - 1
}

// Fill fills b.
func (t *T) Fill(b []byte) {
	if len(b) > 256 {
		s := t.Draw(^uint64(0))
		if s == 0 {
			return
		}
		for i := 0; i < len(b); i += 8 {
			s += 0x9e3779b97f4a7c15
			var x [8]byte
			binary.LittleEndian.PutUint64(x[:], mix(s))
			copy(b[i:], x[:])
		}
		return
	}
	for i := 0; i < len(b); i += 8 {
		n := min(8, len(b)-i)
		var m uint64 = ^uint64(0)
		if n < 8 {
			m = uint64(1)<<(8*n) - 1
		}
		var x [8]byte
		binary.LittleEndian.PutUint64(x[:], t.Draw(m))
		copy(b[i:i+n], x[:])
	}
}

// Bytes draws n bytes.
func (t *T) Bytes(n int) []byte {
	b := make([]byte, n)
	t.Fill(b)
	return b
}

// ZBytes draws n bytes among few values (zero-heavy), to hit start codes and escapes.
func (t *T) ZBytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch t.Draw(9) {
		case 0, 1, 2, 3, 4:
			b[i] = 0
		case 5, 6:
			b[i] = byte(t.Draw(4))
		default:
			b[i] = byte(t.Draw(255))
		}
	}
	return b
}

// Len draws a length, small most of the time.
func (t *T) Len(lo, hi int) int {
	span := hi - lo
	if span <= 0 {
		return lo
	}
	switch t.Draw(5) {
	case 0, 1, 2:
		return lo + int(t.Draw(uint64(min(span, 6))))
	case 3, 4:
		return lo + int(t.Draw(uint64(min(span, 40))))
	default:
		return lo + int(t.Draw(uint64(span)))
	}
}

// Long draws a length up to hi, uniform in the number of its bits.
func (t *T) Long(hi int) int {
	b := t.Int(0, bits.Len(uint(hi)))
	return min(hi, int(t.Draw(1<<uint(b)-1)))
}

// Failf fails the case.
func (t *T) Failf(format string, a ...any) { panic(failure{fmt.Sprintf(format, a...)}) }

// Skip discards the case.
func (t *T) Skip() { panic(skip{}) }

// Class counts the case in a class.
func (t *T) Class(c string) {
	if t.class == nil {
		t.class = make(map[string]int)
	}
	t.class[c]++
}

// Classf is Class with a format.
func (t *T) Classf(f string, a ...any) { t.Class(fmt.Sprintf(f, a...)) }

// NonTrivial marks the case as non trivial.
func (t *T) NonTrivial() { t.nontr = true }

// Key sets what identifies the case for distinctness; the default is the tape.
func (t *T) Key(b []byte) {
	h := fnv.New64a()
	h.Write(b)
	t.key = h.Sum64()
	t.hasKey = true
}

// Enumerated reports that the case evaluated n inputs by enumeration, nt of which are non-trivial and distinct.
func (t *T) Enumerated(n, nt int) { t.more += n; t.moreNT += nt }

// Rendering tells whether logs are collected.
func (t *T) Rendering() bool { return t.rendr }

// Logf describes the case; evaluated only when rendering.
func (t *T) Logf(format string, a ...any) {
	if t.rendr && len(t.logs) < 400 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		t.logs = append(t.logs, s)
	}
}

// Hex renders bytes, shortened.
func Hex(b []byte) string {
	if len(b) > 96 {
		return fmt.Sprintf("%x...(%d bytes)", b[:96], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// Logs returns the description of the case.
func (t *T) Logs() []string { return t.logs }

func (t *T) logText() string { return strings.Join(t.logs, " | ") }
