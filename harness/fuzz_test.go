package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"verif/harness/engine"
	_ "verif/harness/props"
)

// FuzzProp drives the generators and oracles of property FUZZ_PROP with the bytes of the coverage-guided fuzzer.
// The first byte selects the check, the others are the draws.
func FuzzProp(f *testing.F) {
	p := engine.Registry[os.Getenv("FUZZ_PROP")]
	if p == nil {
		f.Skip("FUZZ_PROP not set")
	}
	dir := os.Getenv("FUZZ_OUT")
	var subs []*engine.Sub
	for i := range p.Subs {
		if !p.Subs[i].Once {
			subs = append(subs, &p.Subs[i])
		}
	}
	if len(subs) == 0 {
		f.Skip("nothing to fuzz")
	}
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if !strings.Contains(strings.Join(os.Args, " "), "-test.fuzzworker") {
		for i, s := range subs {
			n := 0
			for c := 0; c < 400 && n < 40; c++ {
				b := engine.Encode(seed+1000, p.ID, s.Name, c, s.Fn)
				if len(b) > 20000 {
					continue
				}
				f.Add(append([]byte{byte(i)}, b...))
				n++
			}
			f.Add([]byte{byte(i)})
		}
	}
	engine.StartWatchdog(4)
	n := int64(0)
	f.Fuzz(func(t *testing.T, b []byte) {
		if len(b) == 0 || len(b) > 1<<17 {
			return
		}
		s := subs[int(b[0])%len(subs)]
		n++
		engine.SetCase(n)
		c := engine.NewBytes(b[1:])
		o := engine.Exec(c, s.Fn)
		engine.SetCase(-1)
		if o.Failed && !engine.Exec(engine.NewTape(c.Tape, "thorough"), s.Fn).Failed {
			return // an accident
		}
		if o.Failed {
			engine.WriteJSON(filepath.Join(dir, fmt.Sprintf("fail-%d.json", os.Getpid())), &engine.Failure{ //nolint:errcheck
				Property: p.ID, Sub: s.Name, Tier: "thorough", Msg: o.Msg, Tape: c.Tape,
			})
			t.Fatalf("check %s: %s", s.Name, o.Msg)
		}
	})
}
