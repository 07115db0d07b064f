package props

import (
	"errors"
	"fmt"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"

	"github.com/cockroachdb/pebble/vfs"
	"github.com/go-bond/bond"
	"pgregory.net/rapid"
	"verifbond/fw"
)

// readFaultFS fails reads of sstables.
type readFaultFS struct {
	vfs.FS
	armed atomic.Bool
	left  atomic.Int64 // reads before the failure
	once  bool         // one read fails, or all from that one on
	fired atomic.Int64
	reads atomic.Int64
}

func (f *readFaultFS) arm(n int, once bool) {
	f.left.Store(int64(n))
	f.once = once
	f.fired.Store(0)
	f.reads.Store(0)
	f.armed.Store(true)
}

func (f *readFaultFS) disarm() { f.armed.Store(false) }

var errRead = errors.New("injected read failure")

func (f *readFaultFS) check() error {
	if !f.armed.Load() {
		return nil
	}
	f.reads.Add(1)
	n := f.left.Add(-1)
	if n == -1 || n < 0 && !f.once {
		f.fired.Add(1)
		return errRead
	}
	return nil
}

func (f *readFaultFS) Open(n string, o ...vfs.OpenOption) (vfs.File, error) {
	x, err := f.FS.Open(n, o...)
	if err != nil || !strings.HasSuffix(n, ".sst") {
		return x, err
	}
	return &readFaultFile{x, f}, nil
}

type readFaultFile struct {
	vfs.File
	f *readFaultFS
}

func (x *readFaultFile) Read(p []byte) (int, error) {
	if err := x.f.check(); err != nil {
		return 0, err
	}
	return x.File.Read(p)
}

func (x *readFaultFile) ReadAt(p []byte, off int64) (int, error) {
	if err := x.f.check(); err != nil {
		return 0, err
	}
	return x.File.ReadAt(p, off)
}

// ReadOp is one operation that is run with its reads failing.
type ReadOp struct {
	K     string // scan sel get point query write reindex dump filter
	Index uint8  `json:",omitempty"`
	Sel   Sel    `json:",omitempty"`
	Rev   bool   `json:",omitempty"`
	Q     *Q     `json:",omitempty"`
	W     *Op    `json:",omitempty"`
	// Ids are the indexes to rebuild
	Ids []uint8 `json:",omitempty"`
}

type ReadFaultCase struct {
	T TableCase
	// FlushAt and Compact shape the files: flushed after these load steps
	FlushAt []int `json:",omitempty"`
	Compact bool  `json:",omitempty"`
	Once    bool
	Ops     []ReadOp
}

func init() {
	fw.Register(fw.Prop{
		ID: "C28", Level: "fault_enumeration",
		Title: "Failing reads of the storage are reported, never taken for missing rows",
		Rule: "a case is a filled table whose rows are in several sstables, with nothing cached, and up to five operations (scans, selectors through every read path, gets, queries, intersections, every kind of write, index rebuilds, dumps, filter initializations); each operation is run with its first storage read failing, then its second, and so on (one read only, or all from that one on); " +
			"each run must fail or give the exact result, a failed write must leave the stored content as it was, and after the last fault everything must be readable and right; the case is non-trivial when an operation failed at two reads or more and gave a non-empty result without a fault",
		Assumptions: []string{"Exist has no error result and is left out", "a rebuild of an index that fails is repeated before the index is used"},
		Quick:       3000, Thorough: 40000,
	}, func(t *rapid.T) ReadFaultCase {
		tc, m, d := genTableCase(t, 3)
		tc.DB.SmallMem, tc.DB.Manual = true, true
		c := ReadFaultCase{T: tc, Once: rapid.Bool().Draw(t, "once"), Compact: rapid.IntRange(0, 2).Draw(t, "compact") == 0}
		for i := range tc.Load {
			if rapid.Bool().Draw(t, "flushat") {
				c.FlushAt = append(c.FlushAt, i)
			}
		}
		for n := rapid.IntRange(1, 5).Draw(t, "ops"); n > 0; n-- {
			op := ReadOp{K: rapid.SampledFrom([]string{"scan", "sel", "sel", "get", "point", "query", "query", "inter", "write", "write", "write", "reindex", "dump", "filter", "anyscan"}).Draw(t, "k"),
				Rev: rapid.Bool().Draw(t, "rev")}
			switch op.K {
			case "sel":
				op.Index = genIdx(t, tc.S)
				op.Sel = genSel(t, tc.S, op.Index, m, d)
			case "get":
				op.Sel = genSel(t, tc.S, 0, m, d)
			case "point":
				op.Sel = Sel{Kind: "point", Recs: []Rec{genPos(t, tc.S, nil, m, d)}}
			case "query":
				q := genQ(t, tc.S, m, d)
				op.Q = &q
			case "inter":
				q := genIntersect(t, tc.S, m, d)
				op.K, op.Q = "query", &q
			case "write":
				if tc.UseBatch {
					continue // a failed write leaves a batch partly written
				}
				w := genWrite(t, m, d, 5)
				w.B, w.Drop = "", false
				if len(w.Rs) == 0 {
					continue
				}
				m.apply(w)
				op.W = &w
			case "reindex":
				for _, ix := range tc.S.Indexes {
					if rapid.Bool().Draw(t, "id") {
						op.Ids = append(op.Ids, ix.ID)
					}
				}
				if len(op.Ids) == 0 || tc.UseBatch {
					continue
				}
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}, runReadFaults)
}

func runReadFaults(c ReadFaultCase, o *fw.Obs) {
	ff := &readFaultFS{FS: vfs.NewMem()}
	c.T.DB.Manual = true
	st := openStoreFS(o, c.T.DB, ff, o.TempDir())
	tb := openTable(st.db, c.T.S)
	m := newModel(c.T.S)
	flush := map[int]bool{}
	for _, i := range c.FlushAt {
		flush[i] = true
	}
	for i := range c.T.Load {
		step := c.T
		step.Load = c.T.Load[i : i+1]
		step.runLoad(o, st, tb, m)
		if flush[i] {
			st.flush()
		}
	}
	settle := func() {
		st.flush()
		if c.Compact {
			st.compact()
		}
	}
	settle()
	main := m.copy() // what the database holds
	// rest ends the fault and waits until its last traces are gone: Pebble opens files in the background as well,
	// and a reader that meets such an attempt gets its failure, even when the storage delivers again.
	rest := func() {
		ff.disarm()
		for try := 0; ; try++ {
			it, err := st.db.Backend().NewIter(nil)
			if err == nil {
				for ok := it.First(); ok; ok = it.Next() {
				}
				err = it.Close()
			}
			if err == nil {
				return
			}
			if try == 200 {
				o.Failf("the storage delivers again, but two seconds later reading the database fails with %v", err)
			}
			o.Label("retried after the fault")
			time.Sleep(10 * time.Millisecond)
		}
	}
	b := c.T.pend(o, st, tb, m)

	for i, op := range c.Ops {
		op := op
		what := fmt.Sprintf("op %d (%s)", i, op.K)
		nonEmpty := false
		var run func() error
		switch op.K {
		case "scan", "anyscan":
			want := m.all()
			if op.Rev {
				want = reversed(want)
			}
			nonEmpty = len(want) > 0
			f := []func() ([]Rec, error){func() ([]Rec, error) { return tb.Scan(bg, op.Rev, b) }}
			if op.K == "anyscan" {
				f = []func() ([]Rec, error){func() ([]Rec, error) { return tb.AnyScanAll(bg, op.Rev, b) }, func() ([]Rec, error) { return tb.AnyScanEach(bg, op.Rev, b) }}
			}
			run = func() error {
				for _, f := range f {
					got, err := f()
					if err != nil {
						return err
					}
					expectRecs(o, what, got, nil, want)
				}
				return nil
			}
		case "sel":
			if !validSel(c.T.S, op.Index, op.Sel) {
				continue
			}
			want := m.sel(c.T.S.index(op.Index), op.Sel)
			if op.Rev {
				want = reversed(want)
			}
			nonEmpty = len(want) > 0
			what += fmt.Sprintf(" index %d selector %s reverse=%v", op.Index, mustJSON(op.Sel), op.Rev)
			paths := []func() error{
				func() error {
					got, err := tb.ScanIdx(bg, op.Index, op.Sel, op.Rev, b)
					if err == nil {
						expectRecs(o, "ScanIndex in "+what, got, nil, want)
					}
					return err
				},
				func() error {
					var got []Rec
					err := tb.ScanEach(bg, op.Index, op.Sel, op.Rev, b, func(key []byte, get func() (Rec, error)) (bool, error) {
						r, err := get()
						got = append(got, r)
						return true, err
					})
					if err == nil {
						expectRecs(o, "ScanIndexForEach in "+what, got, nil, want)
					}
					return err
				},
				func() error {
					n := 0
					err := tb.ScanEach(bg, op.Index, op.Sel, op.Rev, b, func([]byte, func() (Rec, error)) (bool, error) {
						n++
						return true, nil
					})
					if err == nil && n != len(want) {
						o.Failf("ScanIndexForEach without Get in %s: %d rows and no error, want %d", what, n, len(want))
					}
					return err
				},
				func() error {
					it := tb.Iter(op.Index, op.Sel, b)
					n := 0
					step, ok := it.Next, false
					if op.Rev {
						step, ok = it.Prev, it.Last()
					} else {
						ok = it.First()
					}
					for ; ok; ok = step() {
						n++
					}
					err := it.Error()
					if cerr := it.Close(); err == nil {
						err = cerr
					}
					if err == nil && n != len(want) {
						o.Failf("iterator in %s: %d keys and no error, want %d", what, n, len(want))
					}
					return err
				},
			}
			run = paths[i%len(paths)]
		case "get":
			if !validSel(c.T.S, 0, op.Sel) {
				continue
			}
			what += " " + mustJSON(op.Sel)
			nonEmpty = len(m.sel(nil, op.Sel)) > 0
			run = func() error {
				rs, miss, err := tb.Get(bg, op.Sel, b)
				if errors.Is(err, bond.ErrNotFound) {
					if op.Sel.Kind != "point" || m.has(op.Sel.Recs[0]) {
						o.Failf("%s: %v", what, err)
					}
					return nil
				}
				if err != nil {
					return err
				}
				if op.Sel.Kind == "points" {
					for i, p := range op.Sel.Recs {
						w, has := m.rows[m.s.pk(p)]
						if i >= len(rs) || has && rs[i].canon() != w.canon() || !has && !miss[i] {
							o.Failf("%s: no error, %s (missing %v), but entry %d is %s (present %v)", what, canons(rs), miss, i, w.canon(), has)
						}
					}
					return nil
				}
				want := m.sel(nil, op.Sel)
				if op.Sel.Kind == "point" {
					want = nil
					if w, has := m.rows[m.s.pk(op.Sel.Recs[0])]; has {
						want = []Rec{w}
					}
				}
				expectRecs(o, what, rs, nil, want)
				return nil
			}
		case "point":
			p := op.Sel.Recs[0]
			want, has := m.rows[m.s.pk(p)]
			nonEmpty = has
			run = func() error {
				r, err := tb.GetPoint(bg, p, b)
				if errors.Is(err, bond.ErrNotFound) {
					if has {
						o.Failf("%s: GetPoint(%s): %v", what, p.canon(), err)
					}
					return nil
				}
				if err == nil && r.canon() != want.canon() {
					o.Failf("%s: GetPoint(%s) = %s, want %s", what, p.canon(), r.canon(), want.canon())
				}
				return err
			}
		case "query":
			if !validQ(c.T.S, *op.Q) {
				continue
			}
			what += " " + mustJSON(op.Q)
			base := m.evalBase(*op.Q)
			nonEmpty = len(base) > 0
			run = func() error {
				got, err := tb.Query(*op.Q).Run(bg, b)
				if err == nil {
					m.checkQuery(o, what, *op.Q, base, got, nil)
				}
				return err
			}
		case "write":
			w := *op.W
			if b != nil || (w.K == "uinsert" || w.K == "uupdate") && !unsafeOK(m, w) {
				continue
			}
			what += " " + w.K + " of " + canons(w.Rs)
			m2 := m.copy()
			ok := m2.apply(w)
			before := st.rawDump()
			nonEmpty = len(m.rows) > 0
			done := false
			run = func() error {
				if done {
					return nil
				}
				err := doWrite(tb, m, w, nil)
				fired := ff.fired.Load() > 0
				rest()
				if errors.Is(err, errMutated) {
					o.Failf("%s: %v", what, err)
				}
				if err != nil {
					if after := st.rawDump(); after != before {
						o.Failf("%s failed with %q but changed the database\nbefore:\n%safter:\n%s", what, err, before, after)
					}
					if ok && !fired {
						o.Failf("%s: refused with %q", what, err)
					}
					if !fired {
						return nil // refused, as it must be
					}
					return err
				}
				if !ok {
					o.Failf("%s: accepted, but must be refused", what)
				}
				done = true
				m, main = m2, m2.copy()
				return nil
			}
		case "reindex":
			ids := op.Ids
			bad := b != nil || len(ids) == 0
			for _, id := range ids {
				bad = bad || c.T.S.index(id) == nil
			}
			if bad {
				continue
			}
			nonEmpty = len(m.rows) > 0
			run = func() error {
				err := tb.ReIndex(ids)
				if err == nil {
					armed := ff.armed.Load()
					rest()
					checkIndexes(o, st, tb, m, false)
					ff.armed.Store(armed)
				}
				return err
			}
		case "dump":
			nonEmpty = len(main.rows) > 0
			n := 0
			run = func() error {
				n++
				dir := filepath.Join(o.TempDir(), fmt.Sprintf("dump%d", n))
				err := st.db.Dump(bg, dir, []bond.TableID{bond.TableID(c.T.S.TableID)}, op.Rev)
				if err != nil {
					return err
				}
				if ff.fired.Load() == 0 && n > 1 {
					return nil
				}
				rest()
				dst := openStoreFS(o, DBOpt{}, vfs.Default, filepath.Join(o.TempDir(), "dst"))
				o.NoErr(dst.db.Restore(bg, dir, []bond.TableID{bond.TableID(c.T.S.TableID)}, op.Rev), "%s: restore", what)
				got, want := dst.storedPart(c.T.S.TableID, true), st.storedPart(c.T.S.TableID, op.Rev)
				if got != want {
					o.Failf("%s: no error (%d reads failed), but the restored dump is\n%swant\n%s", what, ff.fired.Load(), got, want)
				}
				dst.close()
				return nil
			}
		case "filter":
			nonEmpty = len(main.rows) > 0
			run = func() error {
				bf := BloomCfg{N: 1000, FP: 0.001, Buckets: 2}.filter()
				if err := bond.FilterInitialize(bg, bf, st.db, []bond.TableScanner[any]{tb.AnyScan()}); err != nil {
					return err
				}
				for _, r := range main.all() {
					if !bf.MayContain(bg, tb.DataKey(r)) {
						o.Failf("%s: no error, but the filter hides the row %s", what, r.canon())
					}
				}
				return nil
			}
		default:
			continue
		}

		// without a fault, to count the reads (writes are not repeatable)
		reads := 60
		if op.K != "write" {
			ff.arm(1<<40, c.Once)
			err := run()
			rest()
			if err != nil {
				o.Failf("%s without a fault: %v", what, err)
			}
			reads = int(ff.reads.Load())
			o.Label(fmt.Sprintf("%s: reads<=%d", op.K, bucket(reads)))
		}
		step := 1 + reads/60
		failed := 0
		for n := 0; n < reads; n += step {
			ff.arm(n, c.Once)
			err := run()
			rest()
			o.Evals(1)
			if err != nil {
				failed++
				if ff.fired.Load() == 0 {
					o.Failf("%s: error %q although no read failed", what, err)
				}
				continue
			}
			if ff.fired.Load() > 0 {
				o.Label("right in spite of a failed read: " + op.K)
				if op.K == "write" {
					break
				}
				continue
			}
			break
		}
		if op.K == "write" || op.K == "reindex" {
			if err := run(); err != nil {
				o.Failf("%s after the faults: %v", what, err)
			}
			checkTable(o, st, tb, m, nil, false)
			checkIndexes(o, st, tb, m, false)
			settle()
		}
		if failed > 0 {
			o.Label("failed: " + op.K)
		}
		if failed >= 2 && nonEmpty {
			o.NonTrivial()
		}
	}
	if b != nil {
		o.NoErr(b.Close(), "close of the batch")
	}
	checkTable(o, st, tb, main, nil, true)
	checkIndexes(o, st, tb, main, true)
	st.close()
}
