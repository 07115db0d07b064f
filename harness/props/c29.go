package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/cockroachdb/pebble/vfs"
	"github.com/go-bond/bond"
	"pgregory.net/rapid"
	"verifbond/fw"
)

// CLICase dumps and restores with the command line tool.
type CLICase struct {
	S       []Schema
	Setup   []TOp
	Dump    []int // tables
	Index   bool
	Restore []int // tables
	RIndex  bool
	// Lib: the dump (restore) is made by the library instead
	LibDump, LibRestore bool
	// List: tables are given as one list instead of one flag each
	List bool
	Path string
	// Bad is a command that must be refused before the good one
	Bad string `json:",omitempty"`
	// After are writes to the restored database
	After []TOp
}

// cliPath is the command line tool that was built for this run.
func cliPath(o *fw.Obs) string {
	p := os.Getenv("VERIF_CLI")
	if p == "" {
		o.Infra(errors.New("VERIF_CLI is not set: the command line tool was not built"))
	}
	return p
}

// bondCLI runs the tool and returns what it wrote to its error output.
func bondCLI(o *fw.Obs, args ...string) (failed bool, text string) {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, cliPath(o), args...)
	cmd.Dir = o.TempDir()
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	err := cmd.Run()
	if ctx.Err() != nil {
		o.Failf("bond-cli %s did not end", strings.Join(args, " "))
	}
	var exit *exec.ExitError
	if err != nil && !errors.As(err, &exit) {
		o.Infra(err)
	}
	if exit != nil && exit.ExitCode() == 2 && strings.Contains(stderr.String(), "goroutine ") {
		o.Failf("bond-cli %s crashed:\n%s", strings.Join(args, " "), stderr.String())
	}
	return err != nil, stdout.String() + stderr.String()
}

func init() {
	fw.Register(fw.Prop{
		ID: "C29", Title: "The command line tool dumps and restores what it is told to",
		Rule: "a case is a database on disk with one to three tables with indexes filled by all kinds of writes, a dump of some tables by bond-cli, run as a process, or by the library, with or without indexes, and a restore of some of them into a new directory by bond-cli or the library, in some cases after a command that must be refused; the restored database is opened by the library, compared with the model, written to and reopened; " +
			"it is non-trivial when rows and index entries went through the tool, or were restored without their indexes, and a table or the indexes were left out",
		Assumptions: []string{"a dump is restored once: Pebble's ingestion moves its files into the database"},
		Quick:       160, Thorough: 2500,
	}, func(t *rapid.T) CLICase {
		c := CLICase{Index: rapid.Bool().Draw(t, "index"), RIndex: rapid.IntRange(0, 2).Draw(t, "rindex") > 0, List: rapid.Bool().Draw(t, "list"),
			Path: rapid.SampledFrom([]string{"dump", "table_1", "my dump", "index"}).Draw(t, "path"),
			Bad:  rapid.SampledFrom([]string{"", "", "", "absent table", "absent table", "range", "negative", "text", "no dir", "no tables", "existing dir", "no dump", "no source", "open source"}).Draw(t, "bad")}
		switch rapid.IntRange(0, 5).Draw(t, "who") {
		case 0:
			c.LibDump = true
		case 1:
			c.LibRestore = true
		}
		nt := rapid.IntRange(1, 3).Draw(t, "tables")
		ids := rapid.Permutation(dumpTableIDs).Draw(t, "ids")
		var ms models
		var ds []Dom
		for i := 0; i < nt; i++ {
			s := genSchema(t, 2)
			s.TableID = ids[i]
			xs := rapid.Permutation(dumpIndexIDs).Draw(t, "ixids")
			for j := range s.Indexes {
				s.Indexes[j].ID = xs[j]
			}
			c.S = append(c.S, s)
			ms = append(ms, newModel(s))
			ds = append(ds, genDom(t))
		}
		c.Setup = genTOps(t, ms, ds, rapid.IntRange(1, 8).Draw(t, "setup"), 6)
		c.Dump = rapid.SliceOfNDistinct(rapid.IntRange(0, nt-1), 1, nt, func(i int) int { return i }).Draw(t, "dump")
		for _, d := range c.Dump {
			if len(c.Restore) == 0 || rapid.IntRange(0, 2).Draw(t, "restore") > 0 {
				c.Restore = append(c.Restore, d)
			}
		}
		c.After = genTOps(t, ms, ds, rapid.IntRange(0, 2).Draw(t, "after"), 3)
		return c
	}, runCLI)
}

func runCLI(c CLICase, o *fw.Obs) {
	ids := map[uint8]bool{}
	for _, s := range c.S {
		if s.TableID == 0 || ids[s.TableID] {
			return
		}
		ids[s.TableID] = true
	}
	dumped := map[int]bool{}
	for _, d := range c.Dump {
		if d < 0 || d >= len(c.S) || dumped[d] {
			return
		}
		dumped[d] = true
	}
	restored := map[int]bool{}
	for _, d := range c.Restore {
		if !dumped[d] || restored[d] {
			return
		}
		restored[d] = true
	}
	if len(c.Dump) == 0 || len(c.Restore) == 0 || c.Path == "" || strings.Contains(c.Path, "/") {
		return
	}
	srcDir, dstDir := filepath.Join(o.TempDir(), "src"), filepath.Join(o.TempDir(), "dst")
	dir := filepath.Join(o.TempDir(), "dumps", c.Path)
	o.Infra(os.MkdirAll(filepath.Dir(dir), 0o755))
	opt := DBOpt{Default: true}
	st := openStoreFS(o, opt, vfs.Default, srcDir)
	open := func(st *Store, pre string) (tbs []Tbl) {
		for i, s := range c.S {
			tbs = append(tbs, openTable(st.db, s, func(o *tblOpts) { o.name = fmt.Sprintf("%s%d", pre, i) }))
		}
		return
	}
	write := func(tbs []Tbl, ms models, op TOp, what string) {
		if op.T < 0 || op.T >= len(tbs) {
			return
		}
		w := op.W
		w.B, w.Drop = "", false
		if (w.K == "uinsert" || w.K == "uupdate") && !unsafeOK(ms[op.T], w) {
			return
		}
		before := ms[op.T].copy()
		ok := ms[op.T].apply(w)
		err := doWrite(tbs[op.T], before, w, nil)
		if ok != (err == nil) || errors.Is(err, errMutated) {
			o.Failf("%s: %s of %s: error %v, but the model says accepted=%v", what, w.K, canons(w.Rs), err, ok)
		}
	}
	var ms models
	for _, s := range c.S {
		ms = append(ms, newModel(s))
	}
	tbs := open(st, "src")
	for i, op := range c.Setup {
		write(tbs, ms, op, fmt.Sprintf("setup %d", i))
	}
	before := st.rawDump()
	tableArgs := func(ts []int) (args []string, ids []bond.TableID) {
		var list []string
		for _, i := range ts {
			list = append(list, strconv.Itoa(int(c.S[i].TableID)))
			ids = append(ids, bond.TableID(c.S[i].TableID))
		}
		if c.List {
			return []string{"--tables", strings.Join(list, ",")}, ids
		}
		for _, l := range list {
			args = append(args, "--tables", l)
		}
		return
	}
	index := func(on bool) []string {
		if on {
			return []string{"--with-index"}
		}
		return nil
	}
	good := func(args []string) {
		failed, text := bondCLI(o, args...)
		if failed || strings.Contains(text, "[Error]") {
			o.Failf("bond-cli %s failed (exit status not zero: %v): %s", strings.Join(args, " "), failed, text)
		}
	}
	refused := func(args []string) {
		if failed, text := bondCLI(o, args...); !failed || !strings.Contains(text, "[Error]") {
			o.Failf("bond-cli %s: exit status not zero: %v, an error was expected; output: %s", strings.Join(args, " "), failed, text)
		}
		o.Label("refused: " + c.Bad)
	}

	// dump
	args, tabs := tableArgs(c.Dump)
	if c.LibDump {
		o.NoErr(st.db.Dump(bg, dir, tabs, c.Index), "Dump of %v", tabs)
		st.close()
	} else {
		if c.Bad == "open source" {
			// a process has the database open
			refused(append([]string{"dump", "--bond-dir", srcDir, "--dir", dir}, args...))
		}
		st.close()
		base := append([]string{"dump", "--bond-dir", srcDir, "--dir", dir}, index(c.Index)...)
		switch c.Bad {
		case "range":
			refused(append(append(base, args...), "--tables", strconv.Itoa(256+int(tabs[0]))))
		case "negative":
			refused(append(append(base, args...), "--tables", strconv.Itoa(int(tabs[0])-256)))
		case "text":
			refused(append(append(base, args...), "--tables", "one"))
		case "no dir":
			refused(append([]string{"dump", "--bond-dir", srcDir}, args...))
		case "no tables":
			refused(base)
		case "no source":
			refused(append([]string{"dump", "--bond-dir", srcDir + "x", "--dir", dir}, args...))
		case "existing dir":
			other := filepath.Join(o.TempDir(), "existing")
			o.Infra(os.MkdirAll(other, 0o755))
			o.Infra(os.WriteFile(filepath.Join(other, "x"), []byte("x"), 0o644))
			refused(append([]string{"dump", "--bond-dir", srcDir, "--dir", other}, args...))
			if es, _ := os.ReadDir(other); len(es) != 1 {
				o.Failf("a refused dump left files in the existing directory: %v", es)
			}
		}
		if _, err := os.Stat(dir); err == nil {
			o.Failf("a refused dump created %s", dir)
		}
		good(append(base, args...))
	}
	st.open()
	if now := st.rawDump(); now != before {
		o.Failf("the dump changed the source:\n%s\nbefore:\n%s", now, before)
	}
	st.close()

	// restore
	args, tabs = tableArgs(c.Restore)
	if c.LibRestore {
		dst := openStoreFS(o, opt, vfs.Default, dstDir)
		o.NoErr(dst.db.Restore(bg, dir, tabs, c.RIndex), "Restore of %v", tabs)
		dst.close()
	} else {
		base := append([]string{"restore", "--bond-dir", dstDir, "--dir", dir}, index(c.RIndex)...)
		switch c.Bad {
		case "absent table":
			for id := 1; id < 255; id++ {
				has := false
				for _, d := range c.Dump {
					has = has || int(c.S[d].TableID) == id
				}
				if !has {
					refused(append(append(base, args...), "--tables", strconv.Itoa(id)))
					break
				}
			}
		case "no dump":
			refused(append([]string{"restore", "--bond-dir", dstDir, "--dir", dir + "x"}, args...))
		}
		if c.Bad == "absent table" || c.Bad == "no dump" {
			dst := openStoreFS(o, opt, vfs.Default, dstDir)
			for _, s := range c.S {
				if n := len(dst.rawKeys(s.TableID)); n > 0 {
					o.Failf("a refused restore brought %d keys of table %d", n, s.TableID)
				}
			}
			dst.close()
		}
		good(append(base, args...))
	}
	dst := openStoreFS(o, opt, vfs.Default, dstDir)
	got := make(models, len(c.S))
	rows, ents := 0, 0
	for i, s := range c.S {
		got[i] = newModel(s)
		if restored[i] {
			got[i] = ms[i].copy()
			rows += len(ms[i].rows)
			for j := range s.Indexes {
				ents += len(ms[i].entries(&s.Indexes[j]))
			}
		}
	}
	tbs = open(dst, "dst")
	for i, tb := range tbs {
		checkTable(o, dst, tb, got[i], nil, true)
		if restored[i] && !(c.Index && c.RIndex) {
			if n, all := len(dst.rawKeys(c.S[i].TableID)), len(got[i].rows); n != all {
				o.Failf("%d stored keys of table %d restored without indexes, want %d", n, c.S[i].TableID, all)
			}
			var xs []uint8
			for _, ix := range c.S[i].Indexes {
				xs = append(xs, ix.ID)
			}
			if len(xs) > 0 {
				o.NoErr(tb.ReIndex(xs), "ReIndex of the restored table")
			}
		} else if restored[i] {
			if now, want := dst.storedPart(c.S[i].TableID, true), partOf(before, c.S[i].TableID); now != want {
				o.Failf("table %d is stored as\n%s\nin the source it was\n%s", c.S[i].TableID, now, want)
			}
		}
		checkIndexes(o, dst, tb, got[i], true)
	}
	if rows > 0 && ents > 0 && (len(restored) < len(c.S) || !(c.Index && c.RIndex)) {
		o.NonTrivial()
	}
	for i, op := range c.After {
		write(tbs, got, op, fmt.Sprintf("write %d after the restore", i))
	}
	dst.reopen()
	tbs = open(dst, "dst")
	for i, tb := range tbs {
		checkTable(o, dst, tb, got[i], nil, true)
		checkIndexes(o, dst, tb, got[i], true)
	}
	dst.close()
}
