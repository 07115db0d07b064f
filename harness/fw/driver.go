package fw

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Config is how the driver runs one check.
type Config struct {
	Tier     string
	Seed     uint64
	VerifDir string
	Self     string
	RaceBin  string
	Scale    float64
}

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

type known struct{ id, text string }

// readKnown reads the committed known-findings file:
//
//	known: property=C01 id=<name> <what fails>   (case in known/<name>.json)
//	fixed: property=C01 <commit> <what failed>   (suppresses nothing)
func readKnown(dir, prop string) ([]known, error) {
	f, err := os.Open(filepath.Join(dir, "KNOWN_FINDINGS"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var ks []known
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		parts := strings.SplitN(l, " ", 4)
		if len(parts) < 4 || !strings.HasPrefix(parts[2], "id=") {
			return nil, fmt.Errorf("bad known-findings line: %s", l)
		}
		ks = append(ks, known{strings.TrimPrefix(parts[2], "id="), parts[3]})
	}
	return ks, sc.Err()
}

func runProc(bin string, args []string, env []string, limit time.Duration) (code int, killed bool, stderr string) {
	cmd := exec.Command(bin, args...)
	var sb strings.Builder
	cmd.Stdout = &limitWriter{b: &sb}
	cmd.Stderr = cmd.Stdout
	cmd.Env = append(os.Environ(), env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return exitInfra, false, err.Error()
	}
	timer := time.AfterFunc(limit, func() {
		killed = true
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	err := cmd.Wait()
	timer.Stop()
	if err == nil {
		return 0, killed, sb.String()
	}
	if ee, ok := err.(*exec.ExitError); ok {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			return 128 + int(ws.Signal()), killed, sb.String()
		}
		return ee.ExitCode(), killed, sb.String()
	}
	return exitInfra, killed, err.Error()
}

type limitWriter struct {
	mu sync.Mutex
	b  *strings.Builder
}

func (l *limitWriter) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

// Run runs the check of one property and returns its exit code.
func Run(id string, cfg Config) int {
	start := time.Now()
	p := Get(id)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	bin := cfg.Self
	if p.Race && cfg.RaceBin != "" {
		bin = cfg.RaceBin
	}
	root, err := os.MkdirTemp("", "verifbond-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(root)

	total, budget, shrink := p.Quick, 240*time.Second, 20*time.Second
	if cfg.Tier == "thorough" {
		total, budget, shrink = p.Thorough, 600*time.Second, 60*time.Second
	}
	if cfg.Scale > 0 {
		total = int(float64(total) * cfg.Scale)
	}
	if total < p.Workers {
		total = p.Workers
	}
	limit := budget + shrink + time.Duration(p.HangSec)*time.Second + 30*time.Second

	env := []string{"GORACE=halt_on_error=1 exitcode=66 history_size=3", "TMPDIR=" + root}

	// known findings first
	ks, err := readKnown(cfg.VerifDir, id)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for i, k := range ks {
		d := filepath.Join(root, fmt.Sprintf("known-%d", i))
		_ = os.MkdirAll(d, 0o755)
		path := filepath.Join(cfg.VerifDir, "known", k.id+".json")
		code, _, outp := runProc(bin, []string{"replay-known", path, d}, env, limit)
		switch code {
		case exitFail:
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
		case exitOK:
			fmt.Printf("note: known finding %s of %s no longer fails\n", k.id, id)
		default:
			fmt.Fprintf(os.Stderr, "known finding %s: exit %d\n%s\n", k.id, code, tail(outp, 40))
			return 2
		}
	}

	type done struct {
		i      int
		code   int
		killed bool
		out    string
		res    *workerResult
	}
	ch := make(chan done, p.Workers)
	per := (total + p.Workers - 1) / p.Workers
	for i := 0; i < p.Workers; i++ {
		go func(i int) {
			d := filepath.Join(root, fmt.Sprintf("w%d", i))
			_ = os.MkdirAll(d, 0o755)
			resPath := filepath.Join(d, "result.json")
			seed := splitmix(splitmix(cfg.Seed^hashOf([]byte(id)))+uint64(i)) >> 1
			first := "0"
			if i == 0 {
				first = "1"
			}
			code, killed, outp := runProc(bin, []string{"worker", id, fmt.Sprint(per), fmt.Sprint(seed), resPath, d, budget.String(), shrink.String(), first}, env, limit)
			var res *workerResult
			if b, err := os.ReadFile(resPath); err == nil {
				res = &workerResult{}
				if json.Unmarshal(b, res) != nil {
					res = nil
				}
			}
			ch <- done{i, code, killed, outp, res}
		}(i)
	}
	cov := workerResult{Labels: map[string]int{}}
	distinct := map[uint64]struct{}{}
	infra := ""
	var fails []ReplayFile
	truncated := false
	for n := 0; n < p.Workers; n++ {
		d := <-ch
		if d.res != nil {
			cov.Evaluations += d.res.Evaluations
			cov.Comparisons += d.res.Comparisons
			for l, k := range d.res.Labels {
				cov.Labels[l] += k
			}
			for _, h := range d.res.Hashes {
				distinct[h] = struct{}{}
			}
			if len(cov.Samples) < 4 {
				cov.Samples = append(cov.Samples, d.res.Samples...)
			}
			truncated = truncated || d.res.Truncated
		}
		switch {
		case d.code == exitOK && d.res != nil:
		case d.code == exitFail && d.res != nil && d.res.FailMsg != "":
			fails = append(fails, ReplayFile{Property: id, Message: d.res.FailMsg, Seed: cfg.Seed, Case: d.res.FailCase})
		case d.code == exitInfra || d.killed || d.code == 137:
			infra = fmt.Sprintf("worker %d: exit %d killed=%v\n%s", d.i, d.code, d.killed, tail(d.out, 60))
		default:
			// the process died inside a case (fatal error, race report, hang):
			// believe it only if the case alone does it again in a fresh process
			cur := filepath.Join(root, fmt.Sprintf("w%d", d.i), "current.json")
			b, err := os.ReadFile(cur)
			if err != nil {
				infra = fmt.Sprintf("worker %d: exit %d, no current case\n%s", d.i, d.code, tail(d.out, 60))
				break
			}
			what := "process died (exit " + fmt.Sprint(d.code) + ")"
			if d.code == exitHang {
				what = "case hangs"
			} else if d.code == 66 {
				what = "data race reported"
			}
			rf := ReplayFile{Property: id, Message: what + "\n" + head(d.out, 60), Seed: cfg.Seed, Case: b}
			tries := 2
			if p.Flaky {
				tries = 4
			}
			again := d.code == 66 // a race report is itself the evidence
			for k := 0; k < tries && !again; k++ {
				rp := filepath.Join(root, fmt.Sprintf("confirm-%d-%d.json", d.i, k))
				rb, _ := json.Marshal(rf)
				_ = os.WriteFile(rp, rb, 0o644)
				cd := filepath.Join(root, fmt.Sprintf("confirm-%d-%d", d.i, k))
				_ = os.MkdirAll(cd, 0o755)
				code, killed, _ := runProc(bin, []string{"replay-raw", rp, cd}, env, limit)
				again = !killed && code != exitOK && code != exitInfra && code != 137
			}
			if again {
				fails = append(fails, rf)
			} else {
				infra = fmt.Sprintf("worker %d: exit %d, not reproduced from its case\n%s", d.i, d.code, tail(d.out, 60))
			}
		}
	}

	samples := cov.Samples
	if len(samples) > 4 {
		samples = samples[:4]
	}
	if samples == nil {
		samples = []json.RawMessage{}
	}
	ev := map[string]any{
		"property": id,
		"tier":     cfg.Tier,
		"seed":     cfg.Seed,
		"level":    p.Level,
		"coverage": map[string]any{
			"evaluations":         cov.Evaluations,
			"distinct_nontrivial": len(distinct),
			"rule":                p.Rule,
			"samples":             samples,
			"comparisons":         cov.Comparisons,
			"labels":              cov.Labels,
			"time_budget_hit":     truncated,
			"known_findings":      len(ks),
		},
		"assumptions": p.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(fails),
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	evb, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(cfg.VerifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(cfg.VerifDir, "evidence", id+".json"), append(evb, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d comparisons, %.1fs\n", id, cfg.Tier, cfg.Seed, cov.Evaluations, len(distinct), cov.Comparisons, time.Since(start).Seconds())
	if os.Getenv("VERIF_LABELS") != "" {
		var ls []string
		for l := range cov.Labels {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		for _, l := range ls {
			fmt.Printf("   %-50s %d\n", l, cov.Labels[l])
		}
	}

	if len(fails) > 0 {
		sort.Slice(fails, func(i, j int) bool { return len(fails[i].Case) < len(fails[j].Case) })
		rf := fails[0]
		dir := filepath.Join(cfg.VerifDir, "replays")
		_ = os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", id, hashOf(rf.Case)))
		b, _ := json.MarshalIndent(rf, "", " ")
		if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Println(head(rf.Message, 60))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	if infra != "" {
		fmt.Fprintln(os.Stderr, "error:", infra)
		return 2
	}
	if len(distinct) == 0 {
		fmt.Fprintln(os.Stderr, "error: no non-trivial case was generated")
		return 2
	}
	return 0
}

func head(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func tail(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, "\n")
}
