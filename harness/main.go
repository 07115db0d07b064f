// Command verifbond runs the property checks of /verif against /repo.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"

	"verifbond/fw"
	_ "verifbond/props"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verifbond run ID | replay FILE | list")
		os.Exit(2)
	}
	atou := func(s string) uint64 {
		v, err := strconv.ParseUint(strings.TrimSpace(s), 10, 64)
		if err != nil {
			return uint64(len(s)) + 1
		}
		return v
	}
	switch os.Args[1] {
	case "list":
		for _, id := range fw.IDs() {
			p := fw.Get(id)
			fmt.Println(id, p.Race, p.Title)
		}
	case "israce":
		if p := fw.Get(os.Args[2]); p != nil && p.Race {
			os.Exit(0)
		}
		os.Exit(1)
	case "run":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		seed := uint64(1)
		if s := os.Getenv("VERIF_SEED"); s != "" {
			seed = atou(s)
		}
		self, err := os.Executable()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		scale := 0.0
		if s := os.Getenv("VERIF_SCALE"); s != "" {
			scale, _ = strconv.ParseFloat(s, 64)
		}
		dir := os.Getenv("VERIF_DIR")
		if dir == "" {
			dir = "/verif"
		}
		os.Exit(fw.Run(os.Args[2], fw.Config{Tier: tier, Seed: seed, VerifDir: dir, Self: self, RaceBin: os.Getenv("VERIF_RACE_BIN"), Scale: scale}))
	case "worker":
		a := os.Args[2:]
		n, _ := strconv.Atoi(a[1])
		budget, _ := time.ParseDuration(a[5])
		shrink, _ := time.ParseDuration(a[6])
		_ = os.Chdir(a[4])
		stop := func() {}
		if d := os.Getenv("VERIF_PROF"); d != "" { // CPU profiles of the workers, for tuning
			if f, err := os.Create(filepath.Join(d, fmt.Sprintf("%s.%d.prof", a[0], os.Getpid()))); err == nil {
				_ = pprof.StartCPUProfile(f)
				stop = pprof.StopCPUProfile
			}
		}
		code := fw.Worker(a[0], n, atou(a[2]), a[3], a[4], budget, shrink, a[7] == "1")
		stop()
		os.Exit(code)
	case "replay", "replay-raw", "replay-known":
		tmp := ""
		if len(os.Args) > 3 {
			tmp = os.Args[3]
		} else {
			d, err := os.MkdirTemp("", "verifbond-replay-")
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			tmp = d
		}
		path, _ := filepath.Abs(os.Args[2])
		_ = os.Chdir(tmp)
		code, msg := fw.Replay(path, tmp, os.Args[1] == "replay-known")
		if len(os.Args) <= 3 {
			_ = os.Chdir("/")
			_ = os.RemoveAll(tmp)
		}
		if msg != "" {
			fmt.Println(msg)
		}
		if os.Args[1] == "replay" {
			if code == 1 {
				fmt.Printf("VIOLATION property=%s replay=%s\n", fw.PropOf(path), path)
			} else if code == 0 {
				fmt.Println("replay: the property holds on this case")
			}
		}
		os.Exit(code)
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}
