package props

import (
	"errors"
	"fmt"
	"os"
	"sync/atomic"

	"github.com/cockroachdb/pebble"
	"github.com/cockroachdb/pebble/vfs"
	"github.com/go-bond/bond"
	"pgregory.net/rapid"
	"verifbond/fw"
)

// crashFS counts file system operations and, from the n-th one on after arming,
// lets nothing become durable.
type crashFS struct {
	vfs.FS
	mem     *vfs.MemFS
	armed   atomic.Bool
	left    atomic.Int64
	crashed atomic.Bool
	seen    atomic.Int64
}

func (c *crashFS) tick() {
	if !c.armed.Load() {
		return
	}
	c.seen.Add(1)
	if c.left.Add(-1) == 0 {
		c.crash()
	}
}

func (c *crashFS) crash() {
	c.mem.SetIgnoreSyncs(true)
	c.crashed.Store(true)
}

func (c *crashFS) wrap(f vfs.File, err error) (vfs.File, error) {
	if err != nil {
		return nil, err
	}
	return &crashFile{f, c}, nil
}

func (c *crashFS) Create(n string) (vfs.File, error) { c.tick(); return c.wrap(c.FS.Create(n)) }
func (c *crashFS) Open(n string, o ...vfs.OpenOption) (vfs.File, error) {
	return c.wrap(c.FS.Open(n, o...))
}
func (c *crashFS) OpenReadWrite(n string, o ...vfs.OpenOption) (vfs.File, error) {
	c.tick()
	return c.wrap(c.FS.OpenReadWrite(n, o...))
}
func (c *crashFS) OpenDir(n string) (vfs.File, error) { return c.wrap(c.FS.OpenDir(n)) }
func (c *crashFS) ReuseForWrite(a, b string) (vfs.File, error) {
	c.tick()
	return c.wrap(c.FS.ReuseForWrite(a, b))
}
func (c *crashFS) Link(a, b string) error                 { c.tick(); return c.FS.Link(a, b) }
func (c *crashFS) Remove(n string) error                  { c.tick(); return c.FS.Remove(n) }
func (c *crashFS) RemoveAll(n string) error               { c.tick(); return c.FS.RemoveAll(n) }
func (c *crashFS) Rename(a, b string) error               { c.tick(); return c.FS.Rename(a, b) }
func (c *crashFS) MkdirAll(n string, m os.FileMode) error { c.tick(); return c.FS.MkdirAll(n, m) }

type crashFile struct {
	vfs.File
	c *crashFS
}

func (f *crashFile) Write(p []byte) (int, error) { f.c.tick(); return f.File.Write(p) }
func (f *crashFile) WriteAt(p []byte, o int64) (int, error) {
	f.c.tick()
	return f.File.WriteAt(p, o)
}
func (f *crashFile) Sync() error                  { f.c.tick(); return f.File.Sync() }
func (f *crashFile) SyncData() error              { f.c.tick(); return f.File.SyncData() }
func (f *crashFile) SyncTo(l int64) (bool, error) { f.c.tick(); return f.File.SyncTo(l) }

// newCrashFS is a file system in memory and a durable directory in it.
func newCrashFS(o *fw.Obs) (*crashFS, string) {
	mem := vfs.NewStrictMem()
	fs := &crashFS{FS: mem, mem: mem}
	dir := o.TempDir()
	o.Infra(mem.MkdirAll(dir, 0o755))
	for d := dir; d != "/" && d != "."; d = mem.PathDir(d) {
		f, err := mem.OpenDir(mem.PathDir(d))
		o.Infra(err)
		o.Infra(f.Sync())
		o.Infra(f.Close())
	}
	return fs, dir
}

// crashNow gives up the open database and what it has not synced.
func (s *Store) crashNow() {
	fs := s.fs.(*crashFS)
	fs.crash()
	db := s.db
	s.db = nil
	_ = db.Close()
	fs.mem.ResetToSyncedState()
	fs.mem.SetIgnoreSyncs(false)
	fs.armed.Store(false)
	fs.crashed.Store(false)
}

// CrashOp is one step over several tables: writes grouped into one call or batch.
type CrashOp struct {
	K    string // write, batch, kv, index, flush, compact
	T    int    `json:",omitempty"` // write: the table
	W    Op     `json:",omitempty"`
	Ws   []TOp  `json:",omitempty"` // batch
	Type string `json:",omitempty"` // rw, wo
	Sync bool   `json:",omitempty"`
	Via  string `json:",omitempty"` // commit, apply (db.Apply)
	Nest bool   `json:",omitempty"` // the writes go to a batch that is applied to another
	// KV are writes to user keys: one of its own (kv), or in the batch
	KV []KVOp `json:",omitempty"`
}

// KVOp sets, deletes or range deletes user keys.
type KVOp struct {
	K    string // set, del, range
	A, B uint8
	V    string `json:",omitempty"`
}

func genKV(t *rapid.T) KVOp {
	return KVOp{K: rapid.SampledFrom([]string{"set", "set", "set", "del", "range"}).Draw(t, "kvk"), A: rapid.Uint8Range(0, 5).Draw(t, "a"),
		B: rapid.Uint8Range(0, 6).Draw(t, "b"), V: rapid.StringOfN(rapid.RuneFrom([]rune("ab")), 0, 3, -1).Draw(t, "v")}
}

func (k KVOp) do(db bond.DB, opt bond.WriteOptions, bs ...bond.Batch) error {
	switch k.K {
	case "set":
		return db.Set(cbKey(k.A), []byte(k.V), opt, bs...)
	case "del":
		return db.Delete(cbKey(k.A), opt, bs...)
	}
	a, b := k.ends()
	return db.DeleteRange(cbKey(a), cbKey(b), opt, bs...)
}

func (k KVOp) ends() (uint8, uint8) {
	if k.A > k.B {
		return k.B, k.A
	}
	return k.A, k.B
}

func (k KVOp) apply(kv map[uint8]string) {
	switch k.K {
	case "set":
		kv[k.A] = k.V
	case "del":
		delete(kv, k.A)
	default:
		for a, b := k.ends(); a < b; a++ {
			delete(kv, a)
		}
	}
}

// TOp is a write on table T.
type TOp struct {
	T int
	W Op
}

type CrashCase struct {
	S []Schema
	// Late are indexes that the index steps add to the tables
	Late  []IndexSpec `json:",omitempty"`
	DB    DBOpt
	Setup []CrashOp
	Ops   []CrashOp
	At    []int // crash points, in file system operations after the setup
}

type models []*Model

func (ms models) copy() models {
	var out models
	for _, m := range ms {
		out = append(out, m.copy())
	}
	return out
}

// world is the content of a database: tables and user keys.
type world struct {
	t  []*Model
	kv map[uint8]string
	// ix says which tables have their late index
	ix [2]bool
}

func (ms world) copy() world {
	out := world{kv: map[uint8]string{}, ix: ms.ix}
	for _, m := range ms.t {
		out.t = append(out.t, m.copy())
	}
	for k, v := range ms.kv {
		out.kv[k] = v
	}
	return out
}

func (ms world) applyAll(ops []TOp) bool {
	for _, op := range ops {
		if (op.W.K == "uinsert" || op.W.K == "uupdate") && !unsafeOK(ms.t[op.T], op.W) {
			return false
		}
		if !ms.t[op.T].apply(op.W) {
			return false
		}
	}
	return true
}

func genCrashOp(t *rapid.T, ms world, ds []Dom, rwOnly bool) (CrashOp, bool) {
	k := rapid.IntRange(0, 14).Draw(t, "k")
	switch {
	case k == 0:
		return CrashOp{K: "flush"}, true
	case k == 1:
		return CrashOp{K: "compact"}, true
	case k >= 13:
		kv := genKV(t)
		kv.apply(ms.kv)
		return CrashOp{K: "kv", KV: []KVOp{kv}, Sync: rapid.IntRange(0, 2).Draw(t, "sync") > 0}, true
	case k == 12:
		return CrashOp{K: "index", T: rapid.IntRange(0, len(ms.t)-1).Draw(t, "t")}, true
	case k <= 6:
		ti := rapid.IntRange(0, len(ms.t)-1).Draw(t, "t")
		op := genWrite(t, ms.t[ti], ds[ti], 5)
		op.B, op.Drop = "", false
		if len(op.Rs) == 0 {
			return CrashOp{}, false
		}
		op.Pad = genPad(t)
		ms.t[ti].apply(op)
		return CrashOp{K: "write", T: ti, W: op}, true
	}
	c := CrashOp{K: "batch", Type: rapid.SampledFrom([]string{"rw", "rw", "wo"}).Draw(t, "type"),
		Sync: rapid.Bool().Draw(t, "sync"), Via: rapid.SampledFrom([]string{"commit", "commit", "apply"}).Draw(t, "via"),
		Nest: rapid.IntRange(0, 4).Draw(t, "nest") == 0}
	n := rapid.IntRange(1, 3).Draw(t, "n")
	if c.Type == "wo" {
		n = 1 // the second write could not see the first
	}
	w := ms.copy()
	for i := 0; i < n; i++ {
		ti := rapid.IntRange(0, len(ms.t)-1).Draw(t, "t")
		op := genWrite(t, w.t[ti], ds[ti], 4)
		op.B, op.Drop = "", false
		if len(op.Rs) == 0 || !w.copy().applyAll([]TOp{{ti, op}}) {
			continue
		}
		op.Pad = genPad(t)
		w.t[ti].apply(op)
		c.Ws = append(c.Ws, TOp{ti, op})
	}
	for i := rapid.IntRange(-2, 3).Draw(t, "kvs"); i > 0; i-- {
		kv := genKV(t)
		kv.apply(ms.kv)
		c.KV = append(c.KV, kv)
	}
	if len(c.Ws)+len(c.KV) == 0 {
		return CrashOp{}, false
	}
	ms.applyAll(c.Ws)
	return c, true
}

func init() {
	fw.Register(fw.Prop{
		ID: "C08", Level: "fault_enumeration",
		Title: "Acknowledged writes survive a crash and writes are never half applied",
		Rule: "a case is one or two tables with a setup and a history of calls, batches, flushes and compactions, and up to 6 crash points counted in file system operations; for each crash point the history runs on a file system that keeps only synced data from that operation on, and the recovered tables and indexes are compared with the states the history went through; " +
			"it is non-trivial when some crash happened during the history with acknowledged writes before it and lost or kept unacknowledged ones after it",
		Assumptions: []string{"a crash keeps exactly the data synced so far (Pebble's strict in-memory file system); torn and reordered sector writes are not modelled"},
		Quick:       700, Thorough: 12000,
	}, func(t *rapid.T) CrashCase {
		c := CrashCase{DB: DBOpt{SmallMem: rapid.Bool().Draw(t, "smallmem"), Bloom: rapid.Bool().Draw(t, "bloom")}}
		nt := rapid.IntRange(1, 2).Draw(t, "tables")
		ms := world{kv: map[uint8]string{}}
		var ds []Dom
		for i := 0; i < nt; i++ {
			s := genSchema(t, 2)
			if i == 1 && s.TableID == c.S[0].TableID {
				s.TableID = 4
			}
			c.S = append(c.S, s)
			late := genIndexSpec(t, 0)
			for late.ID = 1; s.index(late.ID) != nil; late.ID++ {
			}
			c.Late = append(c.Late, late)
			ms.t = append(ms.t, newModel(s))
			ds = append(ds, genDom(t))
		}
		for i := rapid.IntRange(0, 4).Draw(t, "setup"); i > 0; i-- {
			if op, ok := genCrashOp(t, ms, ds, false); ok {
				c.Setup = append(c.Setup, op)
			}
		}
		for i := rapid.IntRange(1, 8).Draw(t, "ops"); i > 0; i-- {
			if op, ok := genCrashOp(t, ms, ds, false); ok {
				c.Ops = append(c.Ops, op)
			}
		}
		c.At = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 14), rapid.IntRange(1, 60)), 1, 6).Draw(t, "at")
		return c
	}, func(c CrashCase, o *fw.Obs) {
		if len(c.S) == 0 {
			return
		}
		for _, at := range c.At {
			c.crashAt(o, at)
		}
	})
}

func (c CrashCase) run1(o *fw.Obs, st *Store, tbs []Tbl, ms world, op CrashOp, what string) (next world, sync, write bool) {
	next = ms
	op.W = op.W.padded()
	op.Ws = append([]TOp{}, op.Ws...)
	for i := range op.Ws {
		op.Ws[i].W = op.Ws[i].W.padded()
	}
	switch op.K {
	case "flush":
		st.flush()
	case "compact":
		st.compact()
	case "kv":
		if len(op.KV) != 1 {
			return
		}
		opt := bond.NoSync
		if op.Sync {
			opt = bond.Sync
		}
		next = ms.copy()
		op.KV[0].apply(next.kv)
		o.NoErr(op.KV[0].do(st.db, opt), "%s: %s of user keys", what, op.KV[0].K)
		o.Label("user key write")
		return next, op.Sync, true
	case "index":
		if op.T >= len(ms.t) || op.T >= len(c.Late) || ms.ix[op.T] || c.S[op.T].index(c.Late[op.T].ID) != nil {
			return
		}
		next = ms.copy()
		next.ix[op.T] = true
		o.NoErr(tbs[op.T].AddIndex([]IndexSpec{c.Late[op.T]}, true), "%s: AddIndex", what)
		o.Label("index built")
		return next, true, true
	case "write":
		if op.T >= len(ms.t) || (op.W.K == "uinsert" || op.W.K == "uupdate") && !unsafeOK(ms.t[op.T], op.W) {
			return
		}
		next = ms.copy()
		ok := next.t[op.T].apply(op.W)
		err := doWrite(tbs[op.T], ms.t[op.T], op.W, nil)
		if ok && err != nil || !ok && err == nil {
			o.Failf("%s: %s of %s: error %v, model accepts %v", what, op.W.K, canons(op.W.Rs), err, ok)
		}
		return next, ok, ok // a refused call makes nothing durable
	case "batch":
		for _, w := range op.Ws {
			if w.T >= len(ms.t) {
				return
			}
		}
		n := ms.copy()
		if !n.applyAll(op.Ws) {
			return
		}
		b := batchOf(st.db, op.Type)
		cur := ms.copy()
		for _, w := range op.Ws {
			err := doWrite(tbs[w.T], cur.t[w.T], w.W, b)
			if err != nil {
				o.Failf("%s: %s of %s through a batch: %v", what, w.W.K, canons(w.W.Rs), err)
			}
			cur.t[w.T].apply(w.W)
		}
		for _, kv := range op.KV {
			o.NoErr(kv.do(st.db, bond.NoSync, b), "%s: %s of user keys through a batch", what, kv.K)
			kv.apply(n.kv)
		}
		opt := bond.NoSync
		if op.Sync {
			opt = bond.Sync
		}
		if op.Nest {
			outer := batchOf(st.db, "rw")
			o.NoErr(outer.Apply(b, bond.Sync), "%s apply", what)
			o.NoErr(b.Close(), "%s close", what)
			b = outer
		}
		if op.Via == "apply" {
			o.NoErr(st.db.Apply(b, opt), "%s db apply", what)
		} else {
			o.NoErr(b.Commit(opt), "%s commit", what)
		}
		o.NoErr(b.Close(), "%s close", what)
		return n, op.Sync, true
	}
	return
}

func (c CrashCase) crashAt(o *fw.Obs, at int) {
	fs, dir := newCrashFS(o)
	st := openStoreFS(o, c.DB, fs, dir)
	var tbs []Tbl
	ms := world{kv: map[uint8]string{}}
	for _, s := range c.S {
		tbs = append(tbs, openTable(st.db, s))
		ms.t = append(ms.t, newModel(s))
	}
	for i, op := range c.Setup {
		ms, _, _ = c.run1(o, st, tbs, ms, op, fmt.Sprintf("setup %d", i))
	}
	// the setup is acknowledged
	var states []world
	states = append(states, ms)
	acked := 0
	if !c.allSync(c.Setup) {
		// unsynced writes of the setup become durable with the next synced one
		st.flush()
	}
	fs.left.Store(int64(at))
	fs.armed.Store(true)
	lost := 0
	for i, op := range c.Ops {
		before := fs.crashed.Load()
		next, sync, write := c.run1(o, st, tbs, ms, op, fmt.Sprintf("op %d", i))
		if !write {
			continue
		}
		ms = next
		states = append(states, ms)
		if fs.crashed.Load() {
			lost++
			if before {
				o.Label("write after the crash point")
			} else {
				o.Label("write at the crash point")
			}
		} else if sync {
			acked = len(states) - 1
		}
	}
	inside := fs.crashed.Load()
	st.crashNow()
	st.open()
	tbs = nil
	for i, s := range c.S {
		if states[acked].ix[i] {
			// an index that was built is there, whatever state the rows are in
			s.Indexes = append(append([]IndexSpec{}, s.Indexes...), c.Late[i])
			for _, ms := range states {
				ms.t[i].s = s
			}
			o.Label("built index recovered")
		}
		tbs = append(tbs, openTable(st.db, s))
		if states[len(states)-1].ix[i] && !states[acked].ix[i] {
			// a build that the crash interrupted is repeated
			o.NoErr(tbs[i].AddIndex([]IndexSpec{c.Late[i]}, true), "AddIndex after the crash")
			s.Indexes = append(append([]IndexSpec{}, s.Indexes...), c.Late[i])
			for _, ms := range states {
				ms.t[i].s = s
			}
			o.Label("interrupted build repeated")
		}
	}
	kv := map[uint8]string{}
	for k := uint8(0); k <= 6; k++ {
		v, closer, err := st.db.Get(cbKey(k))
		if errors.Is(err, pebble.ErrNotFound) || errors.Is(err, bond.ErrNotFound) {
			continue
		}
		o.NoErr(err, "Get of user key %d after the crash", k)
		kv[k] = string(v)
		_ = closer.Close()
	}
	var got [][]Rec
	for i, tb := range tbs {
		rs, err := tb.Scan(bg, false, nil)
		if err != nil {
			o.Failf("after the crash at operation %d: scan of table %d: %v", at, c.S[i].TableID, err)
		}
		got = append(got, rs)
	}
	match := -1
	for j := len(states) - 1; j >= acked && match < 0; j-- {
		ok := fmt.Sprint(kv) == fmt.Sprint(states[j].kv)
		for i := range tbs {
			ok = ok && sameRecs(got[i], states[j].t[i].all())
		}
		if ok {
			match = j
		}
	}
	o.Evals(1)
	if match < 0 {
		msg := fmt.Sprintf("\n  user keys %v, last acknowledged %v, last of the history %v", kv, states[acked].kv, states[len(states)-1].kv)
		for i := range tbs {
			msg += fmt.Sprintf("\n  table %d recovered %s\n    last acknowledged %s\n    last of the history %s", c.S[i].TableID, canons(got[i]), canons(states[acked].t[i].all()), canons(states[len(states)-1].t[i].all()))
		}
		o.Failf("after the crash at operation %d the database is in none of the states %d..%d of the history%s", at, acked, len(states)-1, msg)
	}
	for i, tb := range tbs {
		checkTable(o, st, tb, states[match].t[i], nil, true)
		checkIndexes(o, st, tb, states[match].t[i], true)
	}
	// the recovered database takes writes
	for i, tb := range tbs {
		m := states[match].t[i].copy()
		probe := []Rec{{ID: 77, N: 77, S: "probe", B: []byte{7, 7}, A: 77, D: 77, W: 77, H: 77, Y: 77}}
		op := Op{K: "upsert", Rs: probe}
		m.apply(op)
		o.NoErr(doWrite(tb, m, op, nil), "write after recovery")
		checkTable(o, st, tb, m, nil, true)
		checkIndexes(o, st, tb, m, false)
	}
	st.close()
	if inside && acked > 0 && lost > 0 {
		o.NonTrivial()
	}
	switch {
	case !inside:
		o.Label("crash at the end")
	case match == len(states)-1:
		o.Label("everything kept")
	default:
		o.Label("unacknowledged writes lost")
	}
	o.Label(fmt.Sprintf("acked writes<=%d", bucket(acked)))
}

func (c CrashCase) allSync(ops []CrashOp) bool {
	for _, op := range ops {
		if (op.K == "batch" || op.K == "kv") && !op.Sync {
			return false
		}
	}
	return true
}
