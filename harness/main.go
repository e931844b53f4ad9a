// Command harness runs the property-based checks.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/harness/engine"
	_ "verif/harness/props"
)

const exitError = 3

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "check error: "+f+"\n", a...)
	os.Exit(exitError)
}

func seedFromEnv() uint64 {
	s := os.Getenv("VERIF_SEED")
	if s == "" {
		return 1
	}
	v, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		u, err2 := strconv.ParseUint(s, 10, 64)
		if err2 != nil {
			fatal("invalid VERIF_SEED %q", s)
		}
		return u
	}
	return uint64(v)
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: harness run|worker|one|replay|list")
	}
	switch os.Args[1] {
	case "list":
		for _, id := range engine.IDs() {
			p := engine.Registry[id]
			fmt.Println(id, p.Title)
			for _, s := range p.Subs {
				fmt.Println("   ", s.Name, s.Count("quick", engine.Registry[id].Boost), s.Count("thorough", engine.Registry[id].Boost))
			}
		}
	case "israce":
		p := engine.Registry[os.Args[2]]
		if p == nil {
			fatal("unknown property")
		}
		fmt.Println(p.Race)
	case "run":
		run(os.Args[2], os.Args[3])
	case "worker":
		worker()
	case "replay":
		replay(os.Args[2])
	case "fuzzdone":
		fuzzDone(os.Args[2], os.Args[3])
	default:
		fatal("unknown command")
	}
}

type workerSpec struct {
	engine.Job
	Only int // global case number, -1 = all
	Out  string
}

func worker() {
	var spec workerSpec
	if err := json.Unmarshal([]byte(os.Getenv("HARNESS_JOB")), &spec); err != nil {
		fatal("bad job: %v", err)
	}
	// a case must not fill the memory of the sandbox
	lim := syscall.Rlimit{Cur: 0, Max: 0}
	syscall.Setrlimit(syscall.RLIMIT_CORE, &lim) //nolint:errcheck
	rf := 1
	if p := engine.Registry[spec.Prop]; p != nil && p.Race {
		rf = 3
	}
	engine.StartWatchdog(rf)
	var res *engine.WorkerResult
	if spec.Only >= 0 {
		j := spec.Job
		j.Shard = spec.Only
		j.Shards = 1 << 60
		res = engine.RunWorker(j)
	} else {
		res = engine.RunWorker(spec.Job)
	}
	if err := engine.WriteJSON(spec.Out, res); err != nil {
		fatal("%v", err)
	}
}

func replay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var f engine.Failure
	if err = json.Unmarshal(b, &f); err != nil {
		fatal("%v", err)
	}
	p := engine.Registry[f.Property]
	if p == nil {
		fatal("unknown property %q", f.Property)
	}
	for i := range p.Subs {
		s := &p.Subs[i]
		if s.Name != f.Sub {
			continue
		}
		tape := f.Tape
		rf := 1
		if p.Race {
			rf = 3
		}
		engine.StartWatchdog(rf)
		engine.SetCase(1)
		if len(f.Bytes) > 0 {
			t := engine.NewBytes(f.Bytes)
			o := engine.Exec(t, s.Fn)
			fmt.Println(o.Msg)
			tape = t.Tape
			engine.SetCase(2)
		}
		if f.Live {
			t := engine.NewLive(f.Seed, f.Tier, p.ID, s.Name, f.Case)
			engine.Strict(func() { fmt.Println(engine.Exec(t, s.Fn).Msg) })
			tape = t.Tape
		}
		t, o := engine.Render(tape, f.Tier, s.Fn)
		fmt.Println("property", p.ID, "check", s.Name)
		for _, l := range t.Logs() {
			fmt.Println("  ", l)
		}
		if o.Failed {
			fmt.Println("FAILED:", o.Msg)
			os.Exit(1)
		}
		fmt.Println("passed")
		return
	}
	fatal("unknown check %q", f.Sub)
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type shardResult struct {
	res  *engine.WorkerResult
	code int
	msg  string
	cur  int
}

func spawn(self, dir string, spec workerSpec, name string) shardResult {
	spec.Out = filepath.Join(dir, name+".json")
	spec.Progress = filepath.Join(dir, name+".cur")
	b, _ := json.Marshal(spec)
	cmd := exec.Command(self, "worker")
	gomax := "2"
	if p := engine.Registry[spec.Prop]; p != nil && p.Race {
		gomax = "4"
	}
	cmd.Env = append(os.Environ(), "HARNESS_JOB="+string(b), "GOMAXPROCS="+gomax, "GOTRACEBACK=single",
		"GORACE=halt_on_error=1 exitcode=66")
	errPath := filepath.Join(dir, name+".err")
	ef, err := os.Create(errPath)
	if err != nil {
		fatal("%v", err)
	}
	cmd.Stdout = ef
	cmd.Stderr = ef
	err = cmd.Run()
	ef.Close()
	sr := shardResult{cur: -1}
	if c, err2 := os.ReadFile(spec.Progress); err2 == nil {
		if v, err3 := strconv.Atoi(strings.TrimSpace(string(c))); err3 == nil {
			sr.cur = v
		}
	}
	if err != nil {
		sr.code = cmd.ProcessState.ExitCode()
		if sr.code == 0 {
			sr.code = exitError
		}
		eb, _ := os.ReadFile(errPath)
		if len(eb) > 6000 {
			eb = eb[:6000]
		}
		sr.msg = string(eb)
		return sr
	}
	rb, err := os.ReadFile(spec.Out)
	if err != nil {
		sr.code = exitError
		sr.msg = err.Error()
		return sr
	}
	var r engine.WorkerResult
	if err = json.Unmarshal(rb, &r); err != nil || !r.Done {
		sr.code = exitError
		sr.msg = "incomplete result"
		return sr
	}
	sr.res = &r
	return sr
}

func run(id, tier string) {
	start := time.Now()
	p := engine.Registry[id]
	if p == nil {
		fatal("unknown property %q", id)
	}
	if tier != "quick" && tier != "thorough" {
		fatal("unknown tier %q", tier)
	}
	seed := seedFromEnv()
	scale := 1.0
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		scale, _ = strconv.ParseFloat(s, 64)
	}
	dir, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir) //nolint:errcheck
	self, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	shards := min(8, max(2, runtime.NumCPU()))
	if p.Race {
		shards = min(shards, 4)
	}

	results := make([]shardResult, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			results[i] = spawn(self, dir, workerSpec{
				Job:  engine.Job{Prop: id, Tier: tier, Seed: seed, Shard: i, Shards: shards, Scale: scale},
				Only: -1,
			}, fmt.Sprintf("s%d", i))
		}()
	}
	wg.Wait()

	cases := engine.CaseList(p, tier, scale)
	var failures []*engine.Failure
	errored := ""

	total := &engine.WorkerResult{Class: map[string]int{}, PerSub: map[string]int{}}
	keys := map[uint64]struct{}{}
	for i := range results {
		r := results[i]
		if r.res == nil {
			if r.cur < 0 || r.cur >= len(cases) {
				errored = fmt.Sprintf("worker %d ended with code %d: %s", i, r.code, r.msg)
				continue
			}
			// run the case alone, to tell a property of the code from an accident of the machine
			again := spawn(self, dir, workerSpec{
				Job:  engine.Job{Prop: id, Tier: tier, Seed: seed, Scale: scale, Strict: true},
				Only: r.cur,
			}, fmt.Sprintf("r%d", i))
			if again.res != nil && len(again.res.Failures) == 0 && r.code == engine.ExitMem {
				// the memory may have been taken by one of the previous cases
				first := r.cur
				for k := 0; k < 200 && first >= shards; k++ {
					first -= shards
				}
				if prev := spawn(self, dir, workerSpec{
					Job: engine.Job{
						Prop: id, Tier: tier, Seed: seed, Scale: scale, Strict: true,
						Shard: first, Shards: shards, Last: r.cur,
					},
					Only: -1,
				}, fmt.Sprintf("p%d", i)); prev.res == nil && prev.code == engine.ExitMem && prev.cur >= 0 {
					again = prev
					r.cur = prev.cur
				}
			}
			sub, ci := &p.Subs[cases[r.cur][0]], cases[r.cur][1]
			if again.res != nil {
				if len(again.res.Failures) > 0 {
					failures = append(failures, again.res.Failures...)
					continue
				}
				if p.Race && r.code == 66 {
					// a data race was reported: that is proof enough
					failures = append(failures, &engine.Failure{
						Property: id, Sub: sub.Name, Seed: seed, Case: ci, Tier: tier, Live: true,
						Msg: "data race:\n" + r.msg,
					})
					continue
				}
				errored = fmt.Sprintf("worker %d ended with code %d at case %d, not reproduced: %s", i, r.code, r.cur, r.msg)
				continue
			}
			what := ""
			switch again.code {
			case engine.ExitHang:
				what = "does not terminate (CPU time limit exceeded)"
			case engine.ExitMem:
				what = "uses memory out of proportion (heap limit exceeded)"
			case 66:
				what = "data race"
			case 2:
				what = "fatal error"
			}
			if what == "" {
				errored = fmt.Sprintf("worker %d ended with code %d: %s", i, again.code, again.msg)
				continue
			}
			failures = append(failures, &engine.Failure{
				Property: id, Sub: sub.Name, Seed: seed, Case: ci, Tier: tier, Live: true,
				Msg: what + "\n" + again.msg,
			})
			continue
		}
		total.Evals += r.res.Evals
		total.Skipped += r.res.Skipped
		total.NonTriv += r.res.NonTriv
		total.Enumerated += r.res.Enumerated
		total.EnumNT += r.res.EnumNT
		for k, v := range r.res.Class {
			total.Class[k] += v
		}
		for k, v := range r.res.PerSub {
			total.PerSub[k] += v
		}
		total.Samples = append(total.Samples, r.res.Samples...)
		for _, k := range r.res.Keys {
			keys[k] = struct{}{}
		}
		failures = append(failures, r.res.Failures...)
	}

	sort.SliceStable(failures, func(i, j int) bool {
		if failures[i].Sub != failures[j].Sub {
			return failures[i].Sub < failures[j].Sub
		}
		return failures[i].Case < failures[j].Case
	})

	if len(total.Samples) > 40 {
		total.Samples = total.Samples[:40]
	}
	ev := map[string]any{
		"property": id,
		"tier":     tier,
		"seed":     int64(seed),
		"level":    p.Level,
		"coverage": map[string]any{
			"evaluations":         total.Evals + total.Enumerated,
			"discarded":           total.Skipped,
			"distinct_nontrivial": len(keys) + total.EnumNT,
			"rule":                p.Rule,
			"samples":             total.Samples,
			"classes":             total.Class,
			"per_check":           total.PerSub,
			"exhaustive":          p.Exhaustive,
			"enumerated":          total.Enumerated,
		},
		"assumptions": append([]string{}, p.Assumptions...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(failures),
	}
	evDir := filepath.Join(verifDir(), "evidence")
	if err = os.MkdirAll(evDir, 0o755); err != nil {
		fatal("%v", err)
	}
	if err = engine.WriteJSON(filepath.Join(evDir, id+".json"), ev); err != nil {
		fatal("%v", err)
	}

	if len(failures) > 0 {
		f := failures[0]
		rd := filepath.Join(verifDir(), "replays")
		if err = os.MkdirAll(rd, 0o755); err != nil {
			fatal("%v", err)
		}
		path := filepath.Join(rd, fmt.Sprintf("%s-%s-%d-%d.json", id, f.Sub, f.Seed, f.Case))
		if err = engine.WriteJSON(path, f); err != nil {
			fatal("%v", err)
		}
		seen := map[string]bool{}
		for _, f := range failures {
			if seen[f.Sub] {
				continue
			}
			seen[f.Sub] = true
			fmt.Printf("check %s, case %d: %s\n", f.Sub, f.Case, f.Msg)
			for _, l := range f.Log {
				fmt.Println("   ", l)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		os.RemoveAll(dir) //nolint:errcheck
		os.Exit(1)
	}
	if errored != "" {
		os.RemoveAll(dir) //nolint:errcheck
		fatal("%s", errored)
	}
	fmt.Printf("%s %s seed=%d: %d cases (%d discarded), %d distinct non-trivial, %.1fs: held\n",
		id, tier, seed, total.Evals+total.Enumerated, total.Skipped, len(keys)+total.EnumNT, time.Since(start).Seconds())
}

// fuzzDone reports on a coverage-guided run: failing cases left in dir, numbers added to the evidence.
func fuzzDone(id, dir string) {
	p := engine.Registry[id]
	if p == nil {
		fatal("unknown property %q", id)
	}
	evPath := filepath.Join(verifDir(), "evidence", id+".json")
	var ev map[string]any
	if b, err := os.ReadFile(evPath); err == nil {
		json.Unmarshal(b, &ev) //nolint:errcheck
	}
	files, _ := filepath.Glob(filepath.Join(dir, "fail-*.json"))
	sort.Strings(files)
	var fails []*engine.Failure
	for _, f := range files {
		var fl engine.Failure
		b, err := os.ReadFile(f)
		if err != nil || json.Unmarshal(b, &fl) != nil {
			continue
		}
		fails = append(fails, &fl)
	}
	log, _ := os.ReadFile(filepath.Join(dir, "log"))
	if ev != nil {
		cov, _ := ev["coverage"].(map[string]any)
		if cov != nil {
			execs := 0
			last := ""
			for _, l := range strings.Split(string(log), "\n") {
				if i := strings.Index(l, "execs: "); i >= 0 {
					fmt.Sscanf(l[i:], "execs: %d", &execs) //nolint:errcheck
					last = l
				}
			}
			cov["fuzz"] = map[string]any{"executions": execs, "last": last}
			if n, ok := cov["evaluations"].(float64); ok {
				cov["evaluations"] = int(n) + execs
			}
		}
		ev["violations"] = len(fails)
		engine.WriteJSON(evPath, ev) //nolint:errcheck
	}
	// inputs that ended the fuzzing process
	var names []string
	for i := range p.Subs {
		if !p.Subs[i].Once {
			names = append(names, p.Subs[i].Name)
		}
	}
	crashers, _ := filepath.Glob(filepath.Join(dir, "testdata", "fuzz", "FuzzProp", "*"))
	for _, c := range crashers {
		b, err := os.ReadFile(c)
		if err != nil || len(fails) > 0 || len(names) == 0 {
			break
		}
		_, q, ok := strings.Cut(string(b), "[]byte(")
		if !ok {
			continue
		}
		q, err = strconv.Unquote(strings.TrimSuffix(strings.TrimSpace(q), ")"))
		if err != nil || len(q) < 2 {
			continue
		}
		f := &engine.Failure{
			Property: id, Sub: names[int(q[0])%len(names)], Tier: "thorough", Bytes: []byte(q[1:]),
			Msg: "the process ended (fatal error, CPU or heap limit)",
		}
		rd := filepath.Join(verifDir(), "replays")
		os.MkdirAll(rd, 0o755) //nolint:errcheck
		path := filepath.Join(rd, fmt.Sprintf("%s-%s-fuzz.json", id, f.Sub))
		engine.WriteJSON(path, f) //nolint:errcheck
		self, _ := os.Executable()
		cmd := exec.Command(self, "replay", path)
		out, err := cmd.CombinedOutput()
		if err == nil {
			os.Remove(path) //nolint:errcheck
			continue
		}
		if len(out) > 4000 {
			out = out[:4000]
		}
		fmt.Printf("check %s (fuzzing): exit code %d\n%s\n", f.Sub, cmd.ProcessState.ExitCode(), out)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		os.Exit(1)
	}
	for _, f := range fails {
		for i := range p.Subs {
			s := &p.Subs[i]
			if s.Name != f.Sub {
				continue
			}
			rd := filepath.Join(verifDir(), "replays")
			os.MkdirAll(rd, 0o755) //nolint:errcheck
			path := filepath.Join(rd, fmt.Sprintf("%s-%s-fuzz.json", id, f.Sub))
			if len(f.Tape) > 0 {
				f = engine.MakeFailure(p, s, engine.Job{Prop: id, Tier: f.Tier}, 0, engine.NewTapeDone(f.Tape, f.Tier), engine.Outcome{Failed: true, Msg: f.Msg})
			}
			if err := engine.WriteJSON(path, f); err != nil {
				fatal("%v", err)
			}
			fmt.Printf("check %s (fuzzing): %s\n", f.Sub, f.Msg)
			for _, l := range f.Log {
				fmt.Println("   ", l)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			os.Exit(1)
		}
	}
}
