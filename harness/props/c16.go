package props

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-bond/bond"
	bondbloom "github.com/go-bond/bond/bloom"
	"github.com/go-bond/bond/filters"
	"pgregory.net/rapid"
	"verifbond/fw"
)

// BloomCfg is the configuration of a filter.
type BloomCfg struct {
	N       int
	FP      float64
	Buckets int
	Prefix  int // 0: default key prefix
}

// BlOp is one step of a filter session.
type BlOp struct {
	K    string // write, add, conc, save, failsave, reload, check, flush
	W    Op     `json:",omitempty"`
	Keys []int  `json:",omitempty"`
	G    int    `json:",omitempty"`
	At   int    `json:",omitempty"` // failsave: the call of the store that fails
	// Second: the write goes to the second table
	Second bool `json:",omitempty"`
}

// BlSession uses one database handle and one filter object.
type BlSession struct {
	Cfg BloomCfg
	// Late: the filter is initialized only after this many steps
	Late int
	Raw  bool // FilterInitialize on the filter itself
	// Fail: this call of the store fails when the filter is initialized first
	Fail int `json:",omitempty"`
	// Cancel: the context ends when the filter is initialized first, at this Add
	// or, if negative, at this call of the store
	Cancel int `json:",omitempty"`
	// Crash: the session ends with a crash after the filter was saved
	Crash bool `json:",omitempty"`
	// Damage: before the session starts, the stored value of this number (counted
	// from 1) is cut to Cut bytes, as a crash amid a write of a file does
	Damage int `json:",omitempty"`
	Cut    int `json:",omitempty"`
	Ops    []BlOp
}

type BloomCase struct {
	S     Schema
	DB    DBOpt
	Store string // db, fs, map
	// Two: a second table uses the filter too
	Two      bool `json:",omitempty"`
	Sessions []BlSession
}

func (c BloomCfg) filter() *bondbloom.BloomFilter {
	f, _ := c.filters()
	return f
}

// filters returns the filter, and a small one beside it.
func (c BloomCfg) filters() (own, other *bondbloom.BloomFilter) {
	if c.Prefix == 0 {
		return bondbloom.NewBloomFilter(uint(c.N), c.FP, c.Buckets), nil
	}
	p1, p2 := c.prefixes()
	return bondbloom.NewBloomFilter(uint(c.N), c.FP, c.Buckets, p1), bondbloom.NewBloomFilter(10, 0.01, 2, p2)
}

func (c BloomCfg) prefix() []byte {
	pre, _ := c.prefixes()
	return pre
}

// prefixes returns the prefix of the filter and, cut from the same array, that of
// another one.
func (c BloomCfg) prefixes() (own, other []byte) {
	pre := []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 'b', 'f', byte('0' + c.Prefix), '_'}
	if c.Prefix == 2 {
		pre[len(pre)-1] = 0xFE
	}
	n := len(pre)
	pre = append(pre, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 'b', 'f', 'x', '_')
	return pre[:n], pre[n:]
}

// mapStore is the simplest filter store.
type mapStore struct {
	mu sync.Mutex
	m  map[string][]byte
}

func (s *mapStore) Get(key []byte, _ ...bond.Batch) ([]byte, io.Closer, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	v, ok := s.m[string(key)]
	if !ok {
		return nil, nil, bond.ErrNotFound
	}
	return append([]byte(nil), v...), io.NopCloser(nil), nil
}

func (s *mapStore) Set(key, value []byte, _ bond.WriteOptions, _ ...bond.Batch) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.m[string(key)] = append([]byte(nil), value...)
	return nil
}

func (s *mapStore) DeleteRange(start, end []byte, _ bond.WriteOptions, _ ...bond.Batch) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	for k := range s.m {
		if k >= string(start) && k < string(end) {
			delete(s.m, k)
		}
	}
	return nil
}

var errStore = errors.New("verif: the filter store fails")

// failStore is a store of which one call fails.
type failStore struct {
	bond.FilterStorer
	mu sync.Mutex
	in int // the call that fails, counted from 1; 0: none
	// at the call of that number counted from 1 cancel is called; 0: never
	cancelIn int
	cancel   func()
	seen     func() // called at every call of the store
}

func (s *failStore) arm(n int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.in = n
}

// disarm reports whether the call failed.
func (s *failStore) disarm(n int) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	hit := n > 0 && s.in == 0
	s.in = 0
	return hit
}

func (s *failStore) fails() bool {
	if s.seen != nil {
		s.seen()
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.cancelIn > 0 {
		if s.cancelIn--; s.cancelIn == 0 {
			s.cancel()
		}
	}
	if s.in == 0 {
		return false
	}
	s.in--
	return s.in == 0
}

func (s *failStore) Get(key []byte, b ...bond.Batch) ([]byte, io.Closer, error) {
	if s.fails() {
		return nil, nil, errStore
	}
	return s.FilterStorer.Get(key, b...)
}

func (s *failStore) Set(key, value []byte, opt bond.WriteOptions, b ...bond.Batch) error {
	if s.fails() {
		return errStore
	}
	return s.FilterStorer.Set(key, value, opt, b...)
}

func (s *failStore) DeleteRange(start, end []byte, opt bond.WriteOptions, b ...bond.Batch) error {
	if s.fails() {
		return errStore
	}
	return s.FilterStorer.DeleteRange(start, end, opt, b...)
}

// cancelFilter calls cancel in the Add of the given number, counted from 1.
type cancelFilter struct {
	bond.Filter
	mu     sync.Mutex
	in     int
	cancel func()
	seen   func() // called in every Add
}

func (f *cancelFilter) Add(ctx context.Context, key []byte) {
	f.Filter.Add(ctx, key)
	if f.seen != nil {
		f.seen()
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.in > 0 {
		if f.in--; f.in == 0 {
			f.cancel()
		}
	}
}

func extraKey(i int) []byte {
	b := binary.BigEndian.AppendUint32([]byte{250, 0, 0, 0, 0, 0, 0, 0, 0, 0}, uint32(i))
	return b[:10+1+i%4]
}

func init() {
	fw.Register(fw.Prop{
		ID: "C16", Title: "A bloom filter never hides an existing key",
		Rule: "a case is a table, or two, with a bloom filter over up to five database sessions, each with its own filter configuration, initialized from the store (database, files or a map), with writes of all kinds, further keys added one by one and from several goroutines at once, and saves at any time and always at the end of a session that added keys; " +
			"everything is compared with a table without filter (the model); it is non-trivial when keys added in one session were looked up in a later one",
		Quick: 1500, Thorough: 25000, Flaky: true,
	}, func(t *rapid.T) BloomCase {
		c := BloomCase{S: genSchema(t, 2), DB: DBOpt{SmallMem: rapid.Bool().Draw(t, "smallmem"), Bloom: rapid.Bool().Draw(t, "bloom")},
			Store: rapid.SampledFrom([]string{"db", "db", "fs", "map"}).Draw(t, "store")}
		d := genDom(t)
		d.ID = len(palID)
		c.Two = rapid.IntRange(0, 2).Draw(t, "two") == 0
		m := newModel(c.S)
		m2 := newModel(c.second())
		cfgs := []BloomCfg{}
		for i := 0; i < 2; i++ {
			cfgs = append(cfgs, BloomCfg{N: rapid.SampledFrom([]int{1, 2, 10, 100, 5000, 400000}).Draw(t, "n"), FP: rapid.SampledFrom([]float64{0.5, 0.1, 0.01, 0.0001}).Draw(t, "fp"),
				Buckets: rapid.SampledFrom([]int{1, 2, 3, 7, 12}).Draw(t, "buckets"), Prefix: rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "prefix")})
			if cfgs[i].N > 5000 {
				cfgs[i].Buckets = 1 // one bucket larger than the save buffer
			}
		}
		// what another filter saved long ago under another prefix is not loaded:
		// its owner was not told about the rows added since
		cfgs[1].Prefix = cfgs[0].Prefix
		for n := rapid.IntRange(1, 5).Draw(t, "sessions"); n > 0; n-- {
			s := BlSession{Cfg: cfgs[0], Raw: rapid.IntRange(0, 3).Draw(t, "raw") == 0}
			if rapid.IntRange(0, 3).Draw(t, "othercfg") == 0 {
				s.Cfg = cfgs[1]
			}
			s.Crash = rapid.IntRange(0, 2).Draw(t, "crash") == 0
			if rapid.IntRange(0, 3).Draw(t, "initfails") == 0 {
				s.Fail = rapid.IntRange(1, s.Cfg.Buckets+2).Draw(t, "initfail")
			}
			if c.Store != "db" && rapid.IntRange(0, 3).Draw(t, "damaged") == 0 {
				s.Damage = rapid.IntRange(1, 13).Draw(t, "damage")
				s.Cut = rapid.SampledFrom([]int{0, 0, 1, 4, 7, 8, 9, 20, 30, 100, 10000}).Draw(t, "cut")
			}
			if rapid.IntRange(0, 3).Draw(t, "initends") == 0 {
				s.Cancel = rapid.SampledFrom([]int{1, 1, 2, 3, 5, -1, -2, -3}).Draw(t, "cancelat")
			}
			if !s.Raw && rapid.IntRange(0, 3).Draw(t, "late") == 0 {
				s.Late = rapid.IntRange(1, 4).Draw(t, "lateby")
			}
			for k := rapid.IntRange(0, 8).Draw(t, "ops"); k > 0; k-- {
				op := BlOp{K: rapid.SampledFrom([]string{"write", "write", "write", "write", "add", "conc", "save", "save", "failsave", "reload", "check", "flush"}).Draw(t, "k")}
				switch op.K {
				case "failsave":
					op.At = rapid.IntRange(1, s.Cfg.Buckets+1).Draw(t, "at")
				case "write":
					mx := m
					if op.Second = c.Two && rapid.Bool().Draw(t, "second"); op.Second {
						mx = m2
					}
					op.W = genWrite(t, mx, d, 6)
					if len(op.W.Rs) == 0 {
						continue
					}
					if !op.W.Drop {
						mx.apply(op.W)
					}
				case "add", "conc":
					op.Keys = rapid.SliceOfN(rapid.IntRange(0, 3000), 1, 12).Draw(t, "keys")
					op.G = rapid.IntRange(2, 6).Draw(t, "goroutines")
				}
				s.Ops = append(s.Ops, op)
			}
			c.Sessions = append(c.Sessions, s)
		}
		return c
	}, runBloom)
}

// second is the schema of the second table.
func (c BloomCase) second() Schema {
	s := c.S
	s.TableID = 7
	if c.S.TableID == 7 {
		s.TableID = 9
	}
	return s
}

func runBloom(c BloomCase, o *fw.Obs) {
	for _, s := range c.Sessions {
		if s.Cfg.Buckets < 1 || s.Cfg.N < 1 || s.Cfg.FP <= 0 || s.Cfg.FP >= 1 || s.Cfg.Prefix < 0 || s.Cfg.Prefix > 9 {
			return
		}
	}
	mayCrash := false
	for _, s := range c.Sessions {
		mayCrash = mayCrash || s.Crash
	}
	var st *Store
	if mayCrash {
		fs, dir := newCrashFS(o)
		st = openStoreFS(o, c.DB, fs, dir)
	} else {
		st = openStore(o, c.DB)
	}
	m, m2 := newModel(c.S), newModel(c.second())
	fsDir := filepath.Join(o.TempDir(), "filter")
	o.Infra(os.Mkdir(fsDir, 0o755))
	ms := &mapStore{m: map[string][]byte{}}
	// keys that were ever added to the filter saved under a configuration; a
	// rebuild only keeps the rows of the table
	extra := map[int]bool{}
	var saved *BloomCfg
	var probes, probes2 []Rec
	for _, s := range c.Sessions {
		for _, op := range s.Ops {
			if op.Second {
				probes2 = append(probes2, op.W.Rs...)
			} else {
				probes = append(probes, op.W.Rs...)
			}
		}
	}
	if len(probes) > 40 {
		probes = probes[:40]
	}
	if len(probes2) > 40 {
		probes2 = probes2[:40]
	}
	otherSaved := false
	neighbours := func() (out []string) {
		// what else lives in the database's own key space
		for _, k := range st.rawKeys(0, 0) {
			if !bytes.Contains(k, []byte("bf")) {
				out = append(out, fmt.Sprintf("%x", k))
			}
		}
		return
	}
	own := fmt.Sprint(neighbours())
	// stored lists what is in the filter store, which is no database
	stored := func() (names []string) {
		if c.Store == "map" {
			for k := range ms.m {
				names = append(names, k)
			}
		} else {
			es, err := os.ReadDir(fsDir)
			o.Infra(err)
			for _, e := range es {
				names = append(names, e.Name())
			}
		}
		sort.Strings(names)
		return
	}
	ofOther := map[string]bool{}
	for si, s := range c.Sessions {
		damaged := false
		if s.Damage > 0 && c.Store != "db" {
			var names []string
			for _, n := range stored() {
				if !ofOther[n] {
					names = append(names, n)
				}
			}
			if len(names) > 0 {
				// the last ones are cut as often as the first
				name := names[len(names)-1-s.Damage%len(names)]
				if c.Store == "map" {
					if v := ms.m[name]; len(v) > s.Cut {
						ms.m[name], damaged = v[:s.Cut:s.Cut], true
					}
				} else if fi, err := os.Stat(filepath.Join(fsDir, name)); err == nil && fi.Size() > int64(s.Cut) {
					o.Infra(os.Truncate(filepath.Join(fsDir, name), int64(s.Cut)))
					damaged = true
				}
			}
		}
		if si > 0 {
			if c.Sessions[si-1].Crash {
				st.crashNow()
				st.open()
				o.Label("crash after the save")
			} else {
				st.reopen()
			}
		}
		var fstore bond.FilterStorer = st.db
		switch c.Store {
		case "fs":
			fstore = filters.NewFSFilterStorer(fsDir)
		case "map":
			fstore = ms
		}
		faulty := &failStore{FilterStorer: fstore}
		fstore = faulty
		bf, other := s.Cfg.filters()
		if other != nil && !otherSaved {
			other.Add(bg, []byte("key"))
			o.NoErr(other.Save(bg, fstore), "save of another filter")
			otherSaved = true
			if c.Store != "db" {
				for _, n := range stored() {
					ofOther[n] = true
				}
			}
		}
		cf := &cancelFilter{Filter: bf}
		var f bond.Filter = cf
		fi := &bond.FilterInitializable{Filter: cf}
		if !s.Raw {
			f = fi
		}
		tb := openTable(st.db, c.S, withFilter(f))
		scanners := []bond.TableScanner[any]{tb.AnyScan()}
		var tb2 Tbl
		if c.Two {
			tb2 = openTable(st.db, c.second(), withFilter(f), func(o *tblOpts) { o.name = "second" })
			scanners = append(scanners, tb2.AnyScan())
		}
		// rowKeys are the keys of all rows
		rowKeys := func() (keys [][]byte) {
			for _, r := range m.all() {
				keys = append(keys, tb.DataKey(r))
			}
			if c.Two {
				for _, r := range m2.all() {
					keys = append(keys, tb2.DataKey(r))
				}
			}
			return
		}
		inited, dirty := false, damaged
		initialize := func() {
			if saved == nil || *saved != s.Cfg {
				extra = map[int]bool{} // not in the table: a rebuild does not find them
				if saved != nil {
					o.Label("configuration changed")
				}
			} else {
				o.Label("loaded from %s", c.Store)
			}
			if damaged {
				// what is still readable is loaded, the rest built from the rows
				extra, dirty = map[int]bool{}, true
				o.Label("a value of the store was cut")
			}
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			run := func() error {
				if s.Raw {
					return bond.FilterInitialize(ctx, cf, fstore, scanners)
				}
				return fi.Initialize(ctx, fstore, scanners)
			}
			hides := func(when string) {
				if !s.Raw {
					for _, k := range rowKeys() {
						if !fi.MayContain(bg, k) {
							o.Failf("session %d: the filter hides the row with the key %x after %s", si, k, when)
						}
					}
				}
			}
			faulty.arm(s.Fail)
			cf.cancel, faulty.cancel = cancel, cancel
			if s.Cancel > 0 {
				cf.in = s.Cancel
			} else {
				faulty.cancelIn = -s.Cancel
			}
			// lookups while the filter is being initialized
			looks, hidden := 0, atomic.Value{}
			look := func() {
				if looks++; s.Raw || looks > 6 {
					return
				}
				keys := rowKeys()
				done := make(chan struct{})
				go func() {
					defer close(done)
					for _, k := range keys {
						if !fi.MayContain(bg, k) {
							hidden.Store(fmt.Sprintf("%x", k))
						}
					}
				}()
				select {
				case <-done:
				case <-time.After(50 * time.Millisecond): // it waits for a lock
				}
			}
			cf.seen, faulty.seen = look, look
			err := run()
			cf.in, faulty.cancelIn, cf.seen, faulty.seen = 0, 0, nil, nil
			if h := hidden.Load(); h != nil {
				o.Failf("session %d: the filter hides the row with the key %v while it is being initialized", si, h)
			}
			ended := ctx.Err() != nil
			ctx = bg
			if ended {
				// a load that was given up may end in a new filter
				extra, dirty = map[int]bool{}, true
				o.Label("the context ends in the initialization")
				if err == nil {
					o.Label("the initialization succeeds all the same")
				}
			}
			if faulty.disarm(s.Fail) {
				// what could not be loaded is built again from the rows
				o.Label("the store fails in the initialization")
				extra, dirty = map[int]bool{}, true
				if err != nil {
					if !errors.Is(err, errStore) && !(ended && errors.Is(err, context.Canceled)) {
						o.Failf("session %d: initialization with a failing store: %v", si, err)
					}
					hides("its initialization failed")
					err = run()
				}
			} else if ended && err != nil {
				if !errors.Is(err, context.Canceled) {
					o.Failf("session %d: initialization with a context that ends: %v", si, err)
				}
				hides("its initialization was cancelled")
				err = run()
			}
			o.NoErr(err, "session %d: filter initialization", si)
			inited = true
			if saved == nil || *saved != s.Cfg {
				// a rebuild removed what was stored; without a save it is rebuilt again
				dirty = true
			}
			if saved != nil && len(m.rows)+len(extra) > 0 {
				o.NonTrivial()
			}
		}
		added := func(i int) { extra[i] = true }
		checkFilter := func(what string, f bond.Filter) {
			for i := range extra {
				o.Evals(1)
				if !f.MayContain(bg, extraKey(i)) {
					o.Failf("%s: the filter %+v hides the added key %x", what, s.Cfg, extraKey(i))
				}
			}
			for _, k := range rowKeys() {
				if !f.MayContain(bg, k) {
					o.Failf("%s: the filter %+v hides the row with the key %x", what, s.Cfg, k)
				}
			}
		}
		save := func(what string) {
			var err error
			if s.Raw {
				err = bf.Save(bg, fstore)
			} else {
				err = fi.Save(bg, fstore)
			}
			o.NoErr(err, "%s: Save", what)
			cfg := s.Cfg
			saved, dirty = &cfg, false
		}
		if s.Late == 0 {
			initialize()
		}
		for i, op := range s.Ops {
			what := fmt.Sprintf("session %d op %d (%s)", si, i, op.K)
			if !inited && i >= s.Late {
				initialize()
			}
			switch op.K {
			case "flush":
				st.flush()
			case "write":
				w, tb, mp := op.W, tb, &m
				if op.Second {
					if tb2 == nil {
						continue
					}
					tb, mp = tb2, &m2
				}
				m := *mp
				if (w.K == "uinsert" || w.K == "uupdate") && !unsafeOK(m, w) {
					continue
				}
				before := m.copy()
				ok := m.apply(w)
				b := batchOf(st.db, w.B)
				err := doWrite(tb, before, w, b)
				if errors.Is(err, errMutated) || ok != (err == nil) {
					o.Failf("%s: %s of %s: error %v, but the model says accepted=%v", what, w.K, canons(w.Rs), err, ok)
				}
				if b != nil {
					if ok && b.Type() == bond.BatchTypeReadWrite {
						// pending rows are found through the batch
						for _, r := range w.Rs {
							if _, has := m.rows[m.s.pk(r)]; tb.Exist(r, b) != has {
								o.Failf("%s: Exist(%s) through the batch is %v", what, r.canon(), !has)
							}
						}
					}
					if ok && !w.Drop {
						o.NoErr(b.Commit(bond.Sync), "%s: commit", what)
					} else {
						*mp = before
					}
					o.NoErr(b.Close(), "%s: batch close", what)
				}
				dirty = true
			case "add":
				for _, k := range op.Keys {
					f.Add(bg, extraKey(k))
					added(k)
				}
				dirty = true
			case "conc":
				var wg sync.WaitGroup
				start := make(chan struct{})
				bad := make([]int, op.G)
				for g := 0; g < op.G; g++ {
					g := g
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-start
						for r := 0; r < 20; r++ {
							for _, k := range op.Keys {
								f.Add(context.Background(), extraKey(k*97+g*31+r))
								if !f.MayContain(context.Background(), extraKey(k*97+g*31+r)) {
									bad[g]++
								}
							}
							if g == 0 && inited && r%7 == 0 {
								if err := bf.Save(context.Background(), fstore); err != nil {
									bad[g] += 1000
								}
							}
						}
					}()
				}
				close(start)
				wg.Wait()
				for g := range bad {
					if bad[g] > 0 {
						o.Failf("%s: %d keys were hidden right after they were added", what, bad[g])
					}
					for r := 0; r < 20; r++ {
						for _, k := range op.Keys {
							added(k*97 + g*31 + r)
						}
					}
				}
				if inited {
					cfg := s.Cfg
					saved = &cfg
				}
				dirty = true
				o.Label("concurrent adds")
			case "save":
				if !inited {
					if !s.Raw {
						if err := fi.Save(bg, fstore); err == nil {
							o.Failf("%s: a filter that was not initialized was saved", what)
						}
					}
					continue
				}
				save(what)
			case "failsave":
				if !inited {
					continue
				}
				faulty.arm(op.At)
				var err error
				if s.Raw {
					err = bf.Save(bg, fstore)
				} else {
					err = fi.Save(bg, fstore)
				}
				hit := faulty.disarm(op.At)
				if hit != (err != nil) {
					o.Failf("%s: the store failed=%v at call %d, Save: %v", what, hit, op.At, err)
				}
				if hit {
					o.Label("a save failed")
					dirty = true
				} else {
					cfg := s.Cfg
					saved, dirty = &cfg, false
				}
			case "reload":
				if saved == nil || dirty || *saved != s.Cfg {
					continue
				}
				f2 := s.Cfg.filter()
				o.NoErr(f2.Load(bg, fstore), "%s: Load of the saved filter", what)
				checkFilter(what+" into a new filter", f2)
				o.Label("reloaded")
			}
			checkFilter(what, f)
			checkTable(o, st, tb, m, probes, op.K == "check" || i == len(s.Ops)-1)
			if c.Two {
				checkTable(o, st, tb2, m2, probes2, op.K == "check" || i == len(s.Ops)-1)
			}
		}
		if !inited {
			initialize()
			checkFilter(fmt.Sprintf("session %d", si), f)
			checkTable(o, st, tb, m, probes, true)
			if c.Two {
				checkTable(o, st, tb2, m2, probes2, true)
			}
		}
		if c.Two && len(m2.rows) > 0 {
			o.Label("two tables")
		}
		if other != nil {
			// the other filter is not affected
			if err := other.Load(bg, fstore); err != nil || !other.MayContain(bg, []byte("key")) {
				o.Failf("session %d: the filter beside %+v, saved before, loads with error %v and contains its key %v", si, s.Cfg, err, err == nil)
			}
			o.Label("another filter in the store")
		}
		if dirty {
			save(fmt.Sprintf("end of session %d", si))
		}
		if now := fmt.Sprint(neighbours()); now != own {
			o.Failf("session %d: the filter changed other keys: %s, before %s", si, now, own)
		}
		if si == len(c.Sessions)-1 {
			checkIndexes(o, st, tb, m, true)
		}
	}
	if c.Store == "fs" {
		es, err := os.ReadDir(fsDir)
		o.Infra(err)
		var names []string
		for _, e := range es {
			names = append(names, e.Name())
		}
		sort.Strings(names)
		if max := 3 * (12 + 1); len(names) > max {
			o.Failf("%d files in the filter store: %v", len(names), names)
		}
	}
	st.close()
}
