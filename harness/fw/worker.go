package fw

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// exit codes of a worker or replay process
const (
	exitOK      = 0
	exitFail    = 1
	exitInfra   = 4
	exitHang    = 5
	exitTooLate = 6
)

type workerResult struct {
	Evaluations int               `json:"evaluations"`
	Comparisons int               `json:"comparisons"`
	Hashes      []uint64          `json:"hashes"`
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	FailCase    json.RawMessage   `json:"fail_case,omitempty"`
	FailMsg     string            `json:"fail_msg,omitempty"`
	Truncated   bool              `json:"truncated"`
	GenErr      string            `json:"gen_err,omitempty"`
	Wall        float64           `json:"wall"`
}

// tbShim is a rapid.TB outside the testing package.
type tbShim struct {
	failed bool
	log    []string
}

func (t *tbShim) Helper()                   {}
func (t *tbShim) Name() string              { return "verif" }
func (t *tbShim) Logf(f string, a ...any)   { t.log = append(t.log, fmt.Sprintf(f, a...)) }
func (t *tbShim) Log(a ...any)              { t.log = append(t.log, fmt.Sprint(a...)) }
func (t *tbShim) Skipf(f string, a ...any)  { runtime.Goexit() }
func (t *tbShim) Skip(a ...any)             { runtime.Goexit() }
func (t *tbShim) SkipNow()                  { runtime.Goexit() }
func (t *tbShim) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *tbShim) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *tbShim) Fatalf(f string, a ...any) { t.Logf(f, a...); t.FailNow() }
func (t *tbShim) Fatal(a ...any)            { t.Log(a...); t.FailNow() }
func (t *tbShim) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *tbShim) Fail()                     { t.failed = true }
func (t *tbShim) Failed() bool              { return t.failed }

// watchdog kills the process when one case takes too long.
type watchdog struct{ started atomic.Int64 }

func (w *watchdog) begin() { w.started.Store(time.Now().UnixNano()) }
func (w *watchdog) end()   { w.started.Store(0) }
func (w *watchdog) watch(limit time.Duration) {
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			s := w.started.Load()
			if s != 0 && time.Since(time.Unix(0, s)) > limit {
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				if n > 60000 {
					n = 60000
				}
				fmt.Fprintf(os.Stderr, "HANG: case did not finish within %v\n%s\n", limit, buf[:n])
				os.Exit(exitHang)
			}
		}
	}()
}

// Worker runs n generated cases of property id and writes its result to out.
func Worker(id string, n int, seed uint64, out, tmpRoot string, budget time.Duration, shrink time.Duration, first bool) int {
	p := Get(id)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return exitInfra
	}
	testing.Init()
	_ = flag.CommandLine.Parse(nil)
	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			panic(err)
		}
	}
	if seed == 0 {
		seed = 1
	}
	set("rapid.checks", strconv.Itoa(n))
	set("rapid.seed", strconv.FormatUint(seed, 10))
	set("rapid.nofailfile", "true")
	set("rapid.shrinktime", shrink.String())

	start := time.Now()
	res := workerResult{Labels: map[string]int{}}
	seen := map[uint64]struct{}{}
	curPath := filepath.Join(tmpRoot, "current.json")
	var wd watchdog
	wd.watch(time.Duration(p.HangSec) * time.Second)
	failing := false

	one := func(c any) string {
		b, err := json.Marshal(c)
		if err != nil {
			panic(infraError{fmt.Errorf("case not JSON-able: %w", err)})
		}
		if err := os.WriteFile(curPath, b, 0o644); err != nil {
			panic(infraError{err})
		}
		// run the decoded copy, so that what runs is what a replay runs
		c2, err := p.decode(b)
		if err != nil {
			panic(infraError{fmt.Errorf("case does not decode: %w", err)})
		}
		wd.begin()
		o, msg := p.runCase(c2, tmpRoot, false)
		wd.end()
		if !failing {
			res.Evaluations++
			res.Comparisons += o.evals
			for l, k := range o.labels {
				_ = k
				res.Labels[l]++
			}
			if o.nontrivial {
				h := hashOf(b)
				if _, ok := seen[h]; !ok {
					seen[h] = struct{}{}
					if len(res.Samples) < 2 && len(b) < 6000 {
						res.Samples = append(res.Samples, b)
					}
				}
			}
		}
		if msg != "" {
			failing = true
			res.FailCase, res.FailMsg = b, msg
		}
		return msg
	}

	code := exitOK
	done := make(chan struct{})
	tb := &tbShim{}
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				fmt.Fprintf(os.Stderr, "worker error: %v\n", r)
				code = exitInfra
			}
		}()
		if first {
			for _, c := range p.small {
				if one(c) != "" {
					return
				}
			}
		}
		rapid.Check(tb, func(t *rapid.T) {
			if !failing && time.Since(start) > budget {
				res.Truncated = true
				return
			}
			c := p.gen(t)
			if msg := one(c); msg != "" {
				t.Fatalf("violation")
			}
		})
	}()
	<-done
	if code == exitOK && tb.failed && res.FailMsg == "" {
		for _, l := range tb.log {
			fmt.Fprintln(os.Stderr, l)
		}
		code = exitInfra
	}
	if res.FailMsg != "" {
		code = exitFail
	}
	for h := range seen {
		res.Hashes = append(res.Hashes, h)
	}
	res.Wall = time.Since(start).Seconds()
	b, err := json.Marshal(res)
	if err == nil {
		err = os.WriteFile(out, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitInfra
	}
	return code
}

// ReplayFile is the saved form of a failure.
type ReplayFile struct {
	Property string          `json:"property"`
	Message  string          `json:"message,omitempty"`
	Seed     uint64          `json:"seed,omitempty"`
	Case     json.RawMessage `json:"case"`
}

// Replay runs a saved case in this process.
func Replay(path string, tmpRoot string, known bool) (int, string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return exitInfra, err.Error()
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		return exitInfra, err.Error()
	}
	p := Get(rf.Property)
	if p == nil {
		return exitInfra, "unknown property " + rf.Property
	}
	c, err := p.decode(rf.Case)
	if err != nil {
		return exitInfra, err.Error()
	}
	var wd watchdog
	wd.watch(time.Duration(p.HangSec) * time.Second)
	runs := 1
	if p.Flaky && !known {
		runs = 20
	}
	for i := 0; i < runs; i++ {
		wd.begin()
		_, msg := p.runCase(c, tmpRoot, known)
		wd.end()
		if msg != "" {
			return exitFail, msg
		}
	}
	return exitOK, ""
}

// PropOf reads the property id out of a replay file.
func PropOf(path string) string {
	b, _ := os.ReadFile(path)
	var rf ReplayFile
	_ = json.Unmarshal(b, &rf)
	return rf.Property
}
