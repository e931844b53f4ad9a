package engine

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/metrics"
	"sync/atomic"
	"syscall"
	"time"
)

const (
	// ExitHang is the exit code of a worker whose case used too much CPU.
	ExitHang = 40
	// ExitMem is the exit code of a worker whose case used too much memory.
	ExitMem = 41
	// ExitStall is the exit code of a worker whose case does not progress without using CPU.
	ExitStall = 42

	caseCPULimit  = 25 * time.Second
	caseWallLimit = 240 * time.Second
	heapLimit     = 3 << 30
)

// Failure is a failing case.
type Failure struct {
	Property string   `json:"property"`
	Sub      string   `json:"sub"`
	Seed     uint64   `json:"seed"`
	Case     int      `json:"case"`
	Tier     string   `json:"tier"`
	Msg      string   `json:"message"`
	Tape     []uint64 `json:"tape"`
	Log      []string `json:"log"`
	Bytes    []byte   `json:"bytes,omitempty"`
	Live     bool     `json:"live,omitempty"` // tape not available: regenerate from seed+case
}

// WorkerResult is what a worker reports.
type WorkerResult struct {
	Evals      int            `json:"evals"`
	Skipped    int            `json:"skipped"`
	NonTriv    int            `json:"nontriv"`
	Keys       []uint64       `json:"keys"`
	Class      map[string]int `json:"class"`
	Samples    []string       `json:"samples"`
	PerSub     map[string]int `json:"per_sub"`
	Failures   []*Failure     `json:"failures"`
	Done       bool           `json:"done"`
	Enumerated int            `json:"enumerated"`
	EnumNT     int            `json:"enum_nt"`
}

var curCase atomic.Int64

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// StartWatchdog ends the process when a case is too expensive.
func StartWatchdog(raceFactor int) {
	go func() {
		last := int64(-1)
		var since time.Time
		var cpu0 time.Duration
		s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		for {
			time.Sleep(100 * time.Millisecond)
			metrics.Read(s)
			if s[0].Value.Uint64() > heapLimit {
				fmt.Fprintf(os.Stderr, "watchdog: heap %d MB\n", s[0].Value.Uint64()>>20)
				os.Exit(ExitMem)
			}
			c := curCase.Load()
			if c != last {
				last = c
				since = time.Now()
				cpu0 = cpuTime()
				continue
			}
			if c < 0 {
				continue
			}
			if cpuTime()-cpu0 > caseCPULimit*time.Duration(raceFactor) {
				fmt.Fprintf(os.Stderr, "watchdog: case %d used %v of CPU\n", c, cpuTime()-cpu0)
				os.Exit(ExitHang)
			}
			if time.Since(since) > caseWallLimit*time.Duration(raceFactor) {
				os.Exit(ExitStall)
			}
		}
	}()
}

// SetCase tells the watchdog that another case begins.
func SetCase(n int64) { curCase.Store(n) }

// Job is what a worker must run.
type Job struct {
	Prop     string
	Tier     string
	Seed     uint64
	Shard    int
	Shards   int
	Progress string // file: the current global case number
	Scale    float64
	Last     int  // last case, 0 = all of them
	Strict   bool // tell which case allocates out of proportion
}

// allocated returns the number of bytes that were ever allocated.
func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// Strict runs a function and ends the process when it allocates out of proportion.
// In contrast with the watchdog, it doesn't depend on timings.
func Strict(f func()) {
	before := allocated()
	f()
	if n := allocated() - before; n > heapLimit {
		fmt.Fprintf(os.Stderr, "case allocated %d MB\n", n>>20)
		os.Exit(ExitMem)
	}
}

// CaseList enumerates (sub, index), interleaved.
func CaseList(p *Prop, tier string, scale float64) [][2]int {
	var out [][2]int
	for si := range p.Subs {
		n := p.Subs[si].Count(tier, p.Boost)
		if !p.Subs[si].Once && scale != 1 {
			n = max(1, int(float64(n)*scale))
		}
		for i := 0; i < n; i++ {
			out = append(out, [2]int{si, i})
		}
	}
	return out
}

// RunWorker runs the cases of a shard.
func RunWorker(j Job) *WorkerResult {
	p := Registry[j.Prop]
	res := &WorkerResult{Class: map[string]int{}, PerSub: map[string]int{}}
	keys := map[uint64]struct{}{}
	samplesPerSub := map[int]int{}
	var pf *os.File
	if j.Progress != "" {
		pf, _ = os.OpenFile(j.Progress, os.O_RDWR|os.O_CREATE, 0o644)
	}
	cases := CaseList(p, j.Tier, j.Scale)
	failedSubs := map[int]bool{}
	var buf [20]byte
	for g := j.Shard; g < len(cases) && (j.Last == 0 || g <= j.Last); g += j.Shards {
		si, ci := cases[g][0], cases[g][1]
		if failedSubs[si] {
			continue
		}
		s := &p.Subs[si]
		curCase.Store(int64(g))
		if pf != nil {
			copy(buf[:], fmt.Sprintf("%-20d", g))
			pf.WriteAt(buf[:], 0) //nolint:errcheck
		}
		t := NewLive(j.Seed, j.Tier, p.ID, s.Name, ci)
		var o Outcome
		if j.Strict {
			Strict(func() { o = Exec(t, s.Fn) })
		} else {
			o = Exec(t, s.Fn)
		}
		res.Evals++
		res.PerSub[s.Name]++
		if o.Skipped {
			res.Skipped++
			continue
		}
		res.Enumerated += t.more
		res.EnumNT += t.moreNT
		for k, v := range t.class {
			if v > 0 {
				res.Class[s.Name+":"+k]++
			}
		}
		if t.nontr && !o.Failed {
			res.NonTriv++
			k := t.tapeH
			if t.hasKey {
				k = t.key
			}
			k ^= mix(uint64(si) + 1)
			if len(keys) < 400000 {
				keys[k] = struct{}{}
			}
			if j.Shard == 0 && samplesPerSub[si] < 2 {
				// re-run to render
				samplesPerSub[si]++
				tr := NewTape(t.Tape, j.Tier)
				tr.rendr = true
				Exec(tr, s.Fn)
				txt := tr.logText()
				if len(txt) > 700 {
					txt = txt[:700] + "..."
				}
				res.Samples = append(res.Samples, s.Name+" #"+fmt.Sprint(ci)+": "+txt)
			}
		}
		if o.Failed {
			failedSubs[si] = true
			res.Failures = append(res.Failures, MakeFailure(p, s, j, ci, t, o))
			if len(res.Failures) >= 2 {
				break
			}
		}
	}
	curCase.Store(-1)
	for k := range keys {
		res.Keys = append(res.Keys, k)
	}
	res.Done = true
	return res
}

// MakeFailure shrinks and renders a failing case.
func MakeFailure(p *Prop, s *Sub, j Job, ci int, t *T, o Outcome) *Failure {
	curCase.Store(-1)
	tape := t.Tape
	budget := 20 * time.Second
	if d, err := time.ParseDuration(os.Getenv("VERIF_SHRINK")); err == nil {
		budget = d
	}
	small := Shrink(tape, j.Tier, s.Fn, budget)
	tr := NewTape(small, j.Tier)
	tr.rendr = true
	o2 := Exec(tr, s.Fn)
	if !o2.Failed {
		// not reproducible from the shrunk tape; keep the original
		tr = NewTape(tape, j.Tier)
		tr.rendr = true
		o2 = Exec(tr, s.Fn)
		small = tape
	}
	msg := o2.Msg
	if !o2.Failed {
		msg = "(not reproduced on replay) " + o.Msg
	}
	return &Failure{
		Property: p.ID, Sub: s.Name, Seed: j.Seed, Case: ci, Tier: j.Tier,
		Msg: msg, Tape: small, Log: tr.logs,
	}
}

// Render replays a tape with logs.
func Render(tape []uint64, tier string, fn func(*T)) (*T, Outcome) {
	tr := NewTape(tape, tier)
	tr.rendr = true
	o := Exec(tr, fn)
	return tr, o
}

// WriteJSON writes a file.
func WriteJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	tmp := path + ".tmp"
	if err = os.WriteFile(tmp, b, 0o644); err != nil {
		return err
	}
	return os.Rename(tmp, path)
}
