package engine

import (
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Sub is a generator plus an oracle.
type Sub struct {
	Name     string
	Fn       func(*T)
	Quick    int // number of cases in the quick tier
	Thorough int // number of cases in the thorough tier (default 20x)
	Once     bool
}

// Prop is a property.
type Prop struct {
	ID          string
	Title       string
	Rule        string // what makes a case non-trivial
	Level       string
	Assumptions []string
	Subs        []Sub
	Boost       int  // multiplies the cases of the quick tier (default 1); the thorough tier has at least twice as many
	Race        bool // built with the race detector
	Exhaustive  bool
}

// Registry of properties.
var Registry = map[string]*Prop{}

// Register registers a property.
func Register(p *Prop) {
	if _, ok := Registry[p.ID]; ok {
		panic("duplicate " + p.ID)
	}
	if p.Level == "" {
		p.Level = "exploration"
	}
	Registry[p.ID] = p
}

// IDs returns the identifiers of the properties.
func IDs() []string {
	var r []string
	for id := range Registry {
		r = append(r, id)
	}
	sort.Strings(r)
	return r
}

// Count returns the number of cases of a sub.
func (s *Sub) Count(tier string, boost int) int {
	if s.Once {
		return 1
	}
	boost = max(1, boost)
	if tier == "thorough" {
		if s.Thorough > 0 {
			return max(s.Thorough, 2*boost*s.Quick)
		}
		return s.Quick * 20
	}
	return s.Quick * boost
}

// Outcome is the result of a case.
type Outcome struct {
	Failed  bool
	Skipped bool
	Msg     string
}

func seedOf(seed uint64, prop, sub string, i int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", seed, prop, sub, i)
	return mix(h.Sum64())
}

// NewLive makes a generating context.
func NewLive(seed uint64, tier, prop, sub string, i int) *T {
	return &T{mode: modeLive, rng: seedOf(seed, prop, sub, i), Tier: tier}
}

// NewTape makes a replaying context.
func NewTape(tape []uint64, tier string) *T {
	return &T{mode: modeTape, in: tape, Tier: tier}
}

// NewTapeDone makes the context of a case that already ran.
func NewTapeDone(tape []uint64, tier string) *T {
	return &T{mode: modeTape, Tape: tape, Tier: tier}
}

// NewBytes makes a context driven by bytes.
func NewBytes(b []byte) *T {
	return &T{mode: modeBytes, data: b, Tier: "thorough"}
}

// Encode runs a generated case and returns the bytes that give the same case with NewBytes.
func Encode(seed uint64, prop, sub string, i int, fn func(*T)) []byte {
	t := NewLive(seed, "thorough", prop, sub, i)
	t.rec = true
	Exec(t, fn)
	return t.recB
}

// Exec runs a case.
func Exec(t *T, fn func(*T)) (o Outcome) {
	defer func() {
		if r := recover(); r != nil {
			switch v := r.(type) {
			case failure:
				o = Outcome{Failed: true, Msg: v.msg}
			case skip:
				o = Outcome{Skipped: true}
			default:
				o = Outcome{Failed: true, Msg: fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))}
			}
		}
	}()
	fn(t)
	return Outcome{}
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.Contains(l, "mediacommon") || strings.Contains(l, "go-mp4") || strings.Contains(l, "astits") ||
			strings.Contains(l, "verif/harness/props") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 14 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Shrink minimises a failing tape, within a time budget.
func Shrink(tape []uint64, tier string, fn func(*T), budget time.Duration) []uint64 {
	deadline := time.Now().Add(budget)
	cur := append([]uint64(nil), tape...)
	try := func(c []uint64) bool {
		if time.Now().After(deadline) {
			return false
		}
		t := NewTape(c, tier)
		o := Exec(t, fn)
		if !o.Failed {
			return false
		}
		n := t.Tape
		// drop the unread tail
		if less(n, cur) {
			cur = append([]uint64(nil), n...)
			return true
		}
		return false
	}
	try(cur)
	for improved := true; improved && time.Now().Before(deadline); {
		improved = false
		// delete blocks
		for size := len(cur) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(cur); {
				c := append(append([]uint64(nil), cur[:i]...), cur[i+size:]...)
				if try(c) {
					improved = true
				} else {
					i += size
				}
				if time.Now().After(deadline) {
					return cur
				}
			}
		}
		// zero blocks
		for size := 8; size >= 1; size /= 2 {
			for i := 0; i+size <= len(cur); i++ {
				all := true
				for _, v := range cur[i : i+size] {
					all = all && v == 0
				}
				if all {
					continue
				}
				c := append([]uint64(nil), cur...)
				for j := i; j < i+size; j++ {
					c[j] = 0
				}
				if try(c) {
					improved = true
				}
			}
		}
		// lower values
		for i := 0; i < len(cur); i++ {
			lo, hi := uint64(0), cur[i]
			for lo < hi && i < len(cur) {
				mid := lo + (hi-lo)/2
				c := append([]uint64(nil), cur...)
				c[i] = mid
				if try(c) {
					improved = true
					if i >= len(cur) || cur[i] >= hi {
						break
					}
					hi = cur[i]
				} else {
					lo = mid + 1
				}
				if time.Now().After(deadline) {
					return cur
				}
			}
		}
		// delete + decrement of an earlier length
		for i := 0; i < len(cur) && i < 200; i++ {
			if cur[i] == 0 || cur[i] > 10000 {
				continue
			}
			for j := i + 1; j < len(cur) && j < i+60; j++ {
				c := append([]uint64(nil), cur...)
				c[i]--
				c = append(c[:j], c[j+1:]...)
				if try(c) {
					improved = true
					break
				}
			}
		}
	}
	return cur
}

func less(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}
