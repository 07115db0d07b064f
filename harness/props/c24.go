package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"time"

	"github.com/cockroachdb/pebble"
	"github.com/go-bond/bond"
	"pgregory.net/rapid"
	"verifbond/fw"
)

// LeakOp is an operation and the way it ends.
type LeakOp struct {
	// K: write, scan, scanidx, each, anyeach, query, get, point, exist, iter
	// (opened here and finished Hold operations later), reindex, addindex, dump,
	// restore, open (another database), flush.
	K     string
	W     Op    `json:",omitempty"`
	At    SelAt `json:",omitempty"`
	Q     Q     `json:",omitempty"`
	Rev   bool  `json:",omitempty"`
	Batch bool  `json:",omitempty"` // through a read-write batch
	// Looks is after how many looks the context is cancelled, Ser and Des which
	// serialization and decoding fails, Stop at which row the callback ends the
	// scan (End: "stop", "err", or "panic", at which call, also of filter, order
	// and upsert functions); -1 is never.
	Looks, Ser, Des, Stop int
	End                   string `json:",omitempty"`
	Hold                  int    `json:",omitempty"`
	Steps                 int    `json:",omitempty"`
}

type LeakCase struct {
	T   TableCase
	Ops []LeakOp
}

// holder keeps values that were returned together with what they looked like.
type holder struct {
	check []func() string
}

func (h *holder) verify(o *fw.Obs) {
	for _, f := range h.check {
		if msg := f(); msg != "" {
			o.Failf("a record returned earlier changed: %s", msg)
		}
	}
}

func init() {
	fw.Register(fw.Prop{
		ID: "C24", Level: "fault_enumeration",
		Title: "Operations release what they take",
		Rule: "a case is a table whose rows are on disk and up to 14 operations, each ended normally, by its callback, by a callback that panics, by a cancelled context, by a refused record, or by a failing serializer at a random point, with iterators held open across other operations; " +
			"after each operation no iterator and no snapshot is open, all results returned so far are unchanged, and at the end the database works, closes without an error and leaves no goroutine; it is non-trivial when at least two operations ended early",
		Quick: 2400, Thorough: 36000,
	}, func(t *rapid.T) LeakCase {
		tc, m, d := genTableCase(t, 3)
		tc.UseBatch, tc.Pend = false, nil
		m = newModel(tc.S)
		for _, op := range tc.Load {
			if op.K != "flush" && op.K != "compact" && ((op.K != "uinsert" && op.K != "uupdate") || unsafeOK(m, op)) {
				m.apply(op)
			}
		}
		tc.DB.Default = rapid.IntRange(0, 5).Draw(t, "defaultoptions") == 0
		c := LeakCase{T: tc}
		n := rapid.IntRange(1, 14).Draw(t, "ops")
		for i := 0; i < n; i++ {
			op := LeakOp{Looks: -1, Ser: -1, Des: -1, Stop: -1}
			op.K = rapid.SampledFrom([]string{"write", "write", "write", "write", "scan", "scanidx", "scanidx", "each", "each", "each", "anyeach", "anyeach", "query", "query", "query", "query", "get", "get", "point", "exist", "iter", "iter", "reindex", "reindex", "addindex", "dump", "dump", "restore", "open", "flush"}).Draw(t, "k")
			switch op.K {
			case "write":
				op.W = genWrite(t, m, d, 6)
				if len(op.W.Rs) == 0 {
					continue
				}
				op.W.Drop = false
			case "query":
				if rapid.Bool().Draw(t, "inter") {
					op.Q = genIntersect(t, tc.S, m, d)
				} else {
					op.Q = genQ(t, tc.S, m, d)
				}
			case "scanidx", "each", "anyeach", "iter":
				ix := genIdx(t, tc.S)
				op.At = SelAt{ix, genSel(t, tc.S, ix, m, d)}
				if rapid.Bool().Draw(t, "allparts") {
					if s := tc.S.index(ix); s != nil {
						op.At.Sel = Sel{Kind: "points"}
						op.At.Sel.Recs, _ = m.partitions(s)
					} else if op.K != "scanidx" && op.K != "iter" {
						op.At.Sel = Sel{Kind: "all"}
					}
				}
			case "get", "point", "exist":
				op.At.Sel = genSel(t, tc.S, 0, m, d)
			}
			op.Rev = rapid.Bool().Draw(t, "rev")
			op.Batch = op.K != "write" && rapid.IntRange(0, 3).Draw(t, "batch") == 0
			op.Hold, op.Steps = rapid.IntRange(0, 4).Draw(t, "hold"), rapid.IntRange(0, 5).Draw(t, "steps")
			switch k := rapid.IntRange(0, 5).Draw(t, "end"); {
			case k == 5 && (op.K == "each" || op.K == "anyeach" || op.K == "query" || op.K == "write" && op.W.K == "upsert"):
				op.Stop, op.End = rapid.IntRange(0, 8).Draw(t, "panicat"), "panic"
			case k == 0:
				op.Looks = rapid.IntRange(0, 20).Draw(t, "looks")
			case k == 1 && op.K == "write":
				op.Ser = rapid.IntRange(0, 6).Draw(t, "serfault")
			case k == 2 || k == 1:
				op.Des = rapid.IntRange(0, 12).Draw(t, "desfault")
			case k == 3 && op.K != "write":
				op.Stop = rapid.IntRange(0, 6).Draw(t, "stop")
				op.End = rapid.SampledFrom([]string{"stop", "err"}).Draw(t, "stopend")
			}
			if op.K == "write" && op.Looks < 0 && op.Ser < 0 && op.Des < 0 && op.End == "" {
				m.apply(op.W)
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}, runLeaks)
}

// leakWait is how long what is still open may take to go away.
var leakWait = 20 * time.Second

type heldIter struct {
	it    bond.Iterator
	b     bond.Batch
	rev   bool
	want  [][]byte // data keys
	at    int
	until int
	what  string
}

func runLeaks(c LeakCase, o *fw.Obs) {
	goroutines := runtime.NumGoroutine()
	st := openStore(o, c.T.DB)
	fs := &faultSer{in: recSerializer(c.T.S.Serializer)}
	fs.arm(-1, -1)
	h := &holder{}
	tb := openTable(st.db, c.T.S, func(o *tblOpts) { o.serializer, o.hold = fs.wrapped(), h })
	m := newModel(c.T.S)
	c.T.runLoad(o, st, tb, m)
	st.flush()
	dir := o.TempDir()
	var held []*heldIter
	early := 0
	finish := func(x *heldIter) {
		ok := x.it.Valid()
		for ; ok && x.at < len(x.want)+1; x.at++ {
			if x.at >= len(x.want) {
				o.Failf("%s: more than %d keys", x.what, len(x.want))
			}
			if dk := bond.KeyBytes(x.it.Key()).ToDataKeyBytes(); !bytes.Equal(dk, x.want[x.at]) {
				o.Failf("%s: key %d is %x, of row %x, want row %x", x.what, x.at, x.it.Key(), dk, x.want[x.at])
			}
			if x.rev {
				ok = x.it.Prev()
			} else {
				ok = x.it.Next()
			}
		}
		if x.at < len(x.want) {
			o.Failf("%s: ended after %d of %d keys, error %v", x.what, x.at, len(x.want), x.it.Error())
		}
		o.NoErr(x.it.Error(), "%s", x.what)
		o.NoErr(x.it.Close(), "close of %s", x.what)
		if x.b != nil {
			o.NoErr(x.b.Close(), "close of the batch of %s", x.what)
		}
		o.Evals(1)
	}
	for i, op := range c.Ops {
		what := fmt.Sprintf("operation %d %s", i, mustJSON(op))
		for j := 0; j < len(held); {
			if held[j].until <= i {
				finish(held[j])
				held = append(held[:j], held[j+1:]...)
				continue
			}
			j++
		}
		var ctx context.Context = bg
		if op.Looks >= 0 {
			ctx = newCountCtx(op.Looks)
		}
		var b bond.Batch
		if op.Batch {
			b = st.db.Batch(bond.BatchTypeReadWrite)
		}
		closeBatch := func() {
			if b != nil {
				o.NoErr(b.Close(), "batch close, %s", what)
				b = nil
			}
		}
		okSel := op.At.Sel.Kind == "all" || validSel(c.T.S, op.At.Index, op.At.Sel) && (op.At.Index == 0 || c.T.S.index(op.At.Index) != nil)
		fs.arm(op.Ser, op.Des)
		var err error
		stopped, panicked := false, false
		call := func() {
			op.Stop--
			if op.Stop == -1 {
				panicked = true
				panic(errCallback)
			}
		}
		// calling runs an operation whose callback may panic
		calling := func(f func() error) error {
			if op.End == "panic" {
				defer func() {
					tb.OnCall(nil)
					if panicked {
						if x := recover(); x != errCallback {
							o.Failf("%s: panicked with %v, the callback with %v", what, x, errCallback)
						}
					}
				}()
				tb.OnCall(func(string) { call() })
			}
			return f()
		}
		each := func(_ []byte, get func() (Rec, error)) (bool, error) {
			if op.End == "panic" {
				call()
			} else if op.Stop--; op.Stop == -1 {
				stopped = true
				if op.End == "err" {
					return true, errCallback
				}
				return false, nil
			}
			_, err := get()
			return true, err
		}
		switch op.K {
		case "write":
			if (op.W.K == "uinsert" || op.W.K == "uupdate") && !unsafeOK(m, op.W) || len(op.W.Rs) == 0 {
				break
			}
			if op.W.K == "delete" && op.Des >= 0 {
				break
			}
			m2 := m.copy()
			ok := m2.apply(op.W)
			wb := batchOf(st.db, op.W.B)
			if f := conflictFn(m.s, op.W.C); op.W.K == "upsert" && op.End == "panic" && f != nil {
				err = calling(func() error {
					return tb.Upsert(ctx, op.W.Rs, func(a, b Rec) Rec { call(); return f(a, b) }, wb)
				})
			} else {
				err = doWriteCtx(ctx, tb, m, op.W, wb)
			}
			if err == nil && !panicked && wb != nil {
				fs.arm(-1, -1)
				err = wb.Commit(bond.Sync)
			}
			if err == nil && !panicked {
				if !ok {
					o.Failf("%s: accepted, but must be refused", what)
				}
				m = m2
			}
			if wb != nil {
				o.NoErr(wb.Close(), "write batch close")
			}
		case "scan":
			_, err = tb.Scan(ctx, op.Rev, b)
		case "scanidx":
			if okSel {
				_, err = tb.ScanIdx(ctx, op.At.Index, op.At.Sel, op.Rev, b)
			}
		case "each":
			if okSel {
				err = calling(func() error { return tb.ScanEach(ctx, op.At.Index, op.At.Sel, op.Rev, b, each) })
			}
		case "anyeach":
			if okSel {
				err = calling(func() error { return tb.AnyEach(ctx, op.At.Index, op.At.Sel, op.Rev, b, each) })
			}
		case "query":
			if validQ(c.T.S, op.Q) {
				err = calling(func() error { _, err := tb.Query(op.Q).Run(ctx, b); return err })
			}
		case "get":
			if okSel {
				_, _, err = tb.Get(ctx, op.At.Sel, b)
			}
		case "point", "exist":
			for _, r := range op.At.Sel.Recs {
				if op.K == "exist" {
					_ = tb.Exist(r, b)
				} else if _, err2 := tb.GetPoint(ctx, r, b); err2 != nil {
					err = err2
				}
			}
		case "iter":
			if !okSel {
				break
			}
			want := m.sel(c.T.S.index(op.At.Index), op.At.Sel)
			if op.Rev {
				want = reversed(want)
			}
			x := &heldIter{it: tb.Iter(op.At.Index, op.At.Sel, b), b: b, rev: op.Rev, until: i + 1 + op.Hold, what: "iterator of " + what}
			b = nil
			for _, r := range want {
				x.want = append(x.want, tb.DataKey(r))
			}
			ok := false
			if op.Rev {
				ok = x.it.Last()
			} else {
				ok = x.it.First()
			}
			for s := 0; s < op.Steps && ok; s++ {
				if x.at >= len(x.want) {
					o.Failf("%s: more than %d keys", x.what, len(x.want))
				}
				if dk := bond.KeyBytes(x.it.Key()).ToDataKeyBytes(); !bytes.Equal(dk, x.want[x.at]) {
					o.Failf("%s: key %d is %x, of row %x, want row %x", x.what, x.at, x.it.Key(), dk, x.want[x.at])
				}
				x.at++
				if op.Rev {
					ok = x.it.Prev()
				} else {
					ok = x.it.Next()
				}
			}
			held = append(held, x)
		case "reindex":
			var ids []uint8
			for _, ix := range c.T.S.Indexes {
				ids = append(ids, ix.ID)
			}
			if len(ids) > 0 {
				err = tb.ReIndex(ids)
				if err != nil {
					fs.arm(-1, -1)
					o.NoErr(tb.ReIndex(ids), "rebuilding the indexes after a failure")
				}
			}
		case "addindex":
			if len(c.T.S.Indexes) > 0 {
				err = tb.AddIndex(c.T.S.Indexes[:1], op.Rev)
				if err == nil {
					o.Failf("%s: an index was added twice", what)
				}
			}
		case "dump":
			id := bond.TableID(c.T.S.TableID)
			ids := []bond.TableID{id}
			switch op.Hold {
			case 0:
				ids = []bond.TableID{id, id} // fails at the second
			case 1:
				ids = []bond.TableID{id, id + 1, id}
			}
			p := filepath.Join(dir, fmt.Sprint("d", i))
			if op.Steps == 0 {
				o.NoErr(os.WriteFile(p, nil, 0o600), "file in the way")
			}
			err = st.db.Dump(ctx, p, ids, op.Rev)
			if err == nil && len(ids) > 1 {
				o.Failf("%s: dumped a table twice", what)
			}
		case "restore":
			err = st.db.Restore(ctx, filepath.Join(dir, "none"), []bond.TableID{bond.TableID(c.T.S.TableID)}, op.Rev)
			if err == nil {
				o.Failf("%s: restored from nothing", what)
			}
		case "open":
			p := filepath.Join(dir, fmt.Sprint("db", i))
			if op.Hold == 4 {
				if err = bond.MigratePebbleFormatVersion(p, uint64(pebble.FormatNewest)); err == nil {
					o.Failf("%s: migrated nothing", what)
				}
				break
			}
			db, err2 := bond.Open(p, nil)
			o.NoErr(err2, "open of a new database")
			if op.Hold == 3 {
				// it is in use
				if _, err = bond.Open(p, nil); err == nil {
					o.Failf("%s: a database was opened twice", what)
				}
				if err = bond.MigratePebbleFormatVersion(p, uint64(pebble.FormatNewest)); err == nil {
					o.Failf("%s: a database in use was migrated", what)
				}
			}
			key := bond.KeyEncode(bond.Key{TableID: bond.BOND_DB_DATA_TABLE_ID, PrimaryKey: []byte("__bond_db_data_version__")})
			if op.Hold == 2 {
				o.NoErr(db.Backend().Set(key, []byte("77"), pebble.Sync), "set of another data version")
			}
			o.NoErr(db.Close(), "close of a new database")
			switch op.Hold {
			case 0:
				o.NoErr(bond.MigratePebbleFormatVersion(p, uint64(pebble.FormatNewest)), "migration")
			case 1, 2:
				opts := bond.DefaultOptions()
				if op.Hold == 1 {
					opts.PebbleOptions.FormatMajorVersion = pebble.FormatNewest
				}
				if _, err = bond.Open(p, opts); err == nil {
					o.Failf("%s: opened with another version", what)
				}
			}
		case "flush":
			st.flush()
		}
		fired := fs.fired
		fs.arm(-1, -1)
		closeBatch()
		if err != nil || stopped || panicked {
			early++
			how := "refused or failed"
			switch {
			case panicked:
				how = "callback panicked"
			case stopped:
				how = "callback " + op.End
			case errors.Is(err, context.Canceled):
				how = "cancelled"
			case fired:
				how = "serializer failed"
			case errors.Is(err, bond.ErrNotFound):
				how = "not found"
			}
			o.Label(op.K + ": " + how)
		}
		if len(held) == 0 {
			// Pebble's own background work opens iterators for a moment
			mt := st.db.Backend().Metrics()
			for end := time.Now().Add(leakWait); (mt.TableIters != 0 || mt.Snapshots.Count != 0) && time.Now().Before(end); {
				time.Sleep(500 * time.Microsecond)
				mt = st.db.Backend().Metrics()
			}
			if mt.TableIters != 0 || mt.Snapshots.Count != 0 {
				leakWait = 2 * time.Second // shrinking meets this again and again
				o.Failf("%s (error %v): afterwards %d iterators and %d snapshots are open", what, err, mt.TableIters, mt.Snapshots.Count)
			}
		}
		o.Evals(1)
		h.verify(o)
	}
	for _, x := range held {
		finish(x)
	}
	// the table still works
	checkTable(o, st, tb, m, nil, true)
	checkIndexes(o, st, tb, m, false)
	h.verify(o)
	st.close()
	deadline := time.Now().Add(leakWait)
	for runtime.NumGoroutine() > goroutines {
		if time.Now().After(deadline) {
			leakWait = 2 * time.Second
			buf := make([]byte, 1<<16)
			o.Failf("%d goroutines are left, %d before the database was opened\n%s", runtime.NumGoroutine(), goroutines, buf[:runtime.Stack(buf, true)])
		}
		time.Sleep(200 * time.Microsecond)
	}
	if early >= 2 {
		o.NonTrivial()
	}
	if c.T.DB.Default {
		o.Label("default options")
	}
	o.Label(fmt.Sprintf("early ends<=%d", bucket(early)))
	o.Label(fmt.Sprintf("kept results<=%d", bucket(len(h.check))))
}
