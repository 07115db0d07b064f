package props

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"

	"github.com/cockroachdb/pebble/vfs"
	"github.com/go-bond/bond"
	"pgregory.net/rapid"
	"verifbond/fw"
)

// RestoreOp restores some of the dumped tables.
type RestoreOp struct {
	T     []int // tables, by position in DumpCase.Dump
	Index bool
	// Absent: the call also names a table that was not dumped
	Absent bool `json:",omitempty"`
}

type DumpCase struct {
	S       []Schema
	DB, DB2 DBOpt
	Setup   []TOp
	Flush   []int // flush after these setup steps (negative: compact)
	// Batches are committed one after the other while a dump runs, Rounds
	// times over
	Batches [][]TOp `json:",omitempty"`
	Rounds  int     `json:",omitempty"`
	Dump    []int   // tables
	Index   bool
	Path    string
	Restore []RestoreOp
	After   []TOp // writes to the restored tables
	// Link: the dump is then reached through a symbolic link (1), parts of it are
	// moved away and linked (2), or both (3)
	Link int `json:",omitempty"`
	// Bulk rows of about 32 KiB each are added to the first table
	Bulk int `json:",omitempty"`
}

var dumpTableIDs = []uint8{1, 2, 10, 11, 12, 100, 101, 192, 254, 255}
var dumpIndexIDs = []uint8{1, 2, 10, 11, 12, 254, 255}

// storedPart is the stored content of one table, rows only or with its indexes.
func (s *Store) storedPart(id uint8, withIndex bool) string {
	var sb strings.Builder
	it, err := s.db.Backend().NewIter(nil)
	if err != nil {
		s.o.Failf("raw iterator: %v", err)
	}
	for ok := it.First(); ok; ok = it.Next() {
		k := it.Key()
		if k[0] != id || k[1] != 0 && !withIndex {
			continue
		}
		fmt.Fprintf(&sb, "%x=%x\n", k, it.Value())
	}
	if err := it.Close(); err != nil {
		s.o.Failf("raw iterator: %v", err)
	}
	return sb.String()
}

func genTOps(t *rapid.T, ms models, ds []Dom, n, recs int) (out []TOp) {
	for i := 0; i < n; i++ {
		ti := rapid.IntRange(0, len(ms)-1).Draw(t, "t")
		op := genWrite(t, ms[ti], ds[ti], recs)
		op.B, op.Drop = "", false
		if len(op.Rs) == 0 {
			continue
		}
		ms[ti].apply(op)
		out = append(out, TOp{ti, op})
	}
	return
}

func bulkRows(n int) []Rec {
	r := rand.New(rand.NewSource(int64(n)))
	var rs []Rec
	for i := 0; i < n; i++ {
		b := make([]byte, 24<<10)
		r.Read(b)
		rs = append(rs, Rec{ID: uint64(1000 + i), N: int64(i), S: fmt.Sprint(i), A: uint32(i % 7), B: []byte{1, byte(i), byte(i >> 8)}, D: int32(i), H: int16(i), W: uint16(i), P: fmt.Sprintf("%x", b[:4]) + string(toText(b))})
	}
	return rs
}

// toText maps bytes to printable text that compresses badly.
func toText(b []byte) []byte {
	const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+-"
	for i := range b {
		b[i] = al[b[i]&63]
	}
	return b
}

func init() {
	fw.Register(fw.Prop{
		ID: "C17", Title: "A restored backup equals the dumped tables",
		Rule: "a case is one to four tables (IDs that are decimal prefixes of each other, or extreme) with up to three indexes, filled by all kinds of writes, a dump of some of them with or without indexes into a directory of any name (restored through symbolic links in some cases), in some cases while a goroutine commits batches over all tables, and one or more restore calls into an empty database on disk, followed by reads, index rebuilds, writes and a reopening; " +
			"it is non-trivial when rows and index entries were restored, or rows whose indexes were then rebuilt, and another table or dumped part was to be left out",
		Assumptions: []string{"a dump is restored once: Pebble's ingestion moves its files into the database"},
		Quick:       500, Thorough: 9000, Flaky: true,
	}, func(t *rapid.T) DumpCase {
		c := DumpCase{DB: DBOpt{SmallMem: rapid.Bool().Draw(t, "smallmem"), Bloom: rapid.Bool().Draw(t, "bloom")},
			DB2: DBOpt{SmallMem: rapid.Bool().Draw(t, "smallmem2"), Bloom: rapid.Bool().Draw(t, "bloom2")}}
		nt := rapid.IntRange(1, 4).Draw(t, "tables")
		ids := rapid.Permutation(dumpTableIDs).Draw(t, "ids")
		if rapid.Bool().Draw(t, "prefixids") {
			ids = rapid.Permutation([]uint8{1, 10, 11, 12, 100}).Draw(t, "pids")
		}
		var ms models
		var ds []Dom
		for i := 0; i < nt; i++ {
			s := genSchema(t, 3)
			s.TableID = ids[i]
			xs := rapid.Permutation(dumpIndexIDs).Draw(t, "ixids")
			for j := range s.Indexes {
				s.Indexes[j].ID = xs[j]
			}
			c.S = append(c.S, s)
			ms = append(ms, newModel(s))
			ds = append(ds, genDom(t))
		}
		c.Setup = genTOps(t, ms, ds, rapid.IntRange(0, 10).Draw(t, "setup"), 8)
		c.Flush = rapid.SliceOfN(rapid.IntRange(-10, 10), 0, 2).Draw(t, "flush")
		if rapid.IntRange(0, 2).Draw(t, "conc") == 0 {
			c.Rounds = rapid.IntRange(1, 40).Draw(t, "rounds")
			for n := rapid.IntRange(2, 6).Draw(t, "batches"); n > 0; n-- {
				if b := genTOps(t, ms, ds, rapid.IntRange(1, 5).Draw(t, "n"), 5); len(b) > 0 {
					c.Batches = append(c.Batches, b)
				}
			}
			if rapid.Bool().Draw(t, "wipe") {
				// everything disappears and comes back
				var del, ins []TOp
				for i, m := range ms {
					if all := m.all(); len(all) > 0 {
						del = append(del, TOp{i, Op{K: "delete", Rs: all}})
						ins = append(ins, TOp{i, Op{K: "insert", Rs: all}})
					}
				}
				if len(del) > 0 {
					c.Batches = append(c.Batches, del, ins)
				}
			}
		}
		seen := map[int]bool{}
		for _, i := range rapid.SliceOfNDistinct(rapid.IntRange(0, nt-1), 0, nt, func(i int) int { return i }).Draw(t, "dump") {
			c.Dump = append(c.Dump, i)
			seen[i] = true
		}
		c.Index = rapid.IntRange(0, 3).Draw(t, "index") > 0
		c.Path = rapid.SampledFrom([]string{"dump", "table_1", "index", "my index.sst", "table_1_index_1", "table_10", "VERSION", "x_index_1.d"}).Draw(t, "path")
		if rapid.IntRange(0, 2).Draw(t, "links") == 0 {
			c.Link = rapid.IntRange(1, 3).Draw(t, "link")
		}
		order := rapid.Permutation(seq(len(c.Dump))).Draw(t, "order")
		for len(order) > 0 {
			n := rapid.IntRange(1, len(order)).Draw(t, "n")
			c.Restore = append(c.Restore, RestoreOp{T: order[:n], Index: rapid.IntRange(0, 2).Draw(t, "rix") > 0, Absent: rapid.IntRange(0, 4).Draw(t, "absent") == 0})
			order = order[n:]
			if rapid.IntRange(0, 2).Draw(t, "stop") == 0 {
				break
			}
		}
		c.After = genTOps(t, ms, ds, rapid.IntRange(0, 3).Draw(t, "after"), 4)
		return c
	}, runDump).Fixed(
		DumpCase{S: []Schema{
			{TableID: 1, PK: []Field{"ID"}, Serializer: "cbor", Indexes: []IndexSpec{{ID: 1, Key: []Field{"A"}, Order: []OrderField{{F: "N", Desc: true}}}, {ID: 12, Key: []Field{"S"}}}},
			{TableID: 10, PK: []Field{"ID"}, Serializer: "cbor"}},
			Setup: []TOp{{1, Op{K: "insert", Rs: []Rec{{ID: 1}, {ID: 2}}}}},
			Dump:  []int{0, 1}, Index: true, Path: "big", Bulk: 1600,
			Restore: []RestoreOp{{T: []int{0}, Index: true}}},
	)
}

func runDump(c DumpCase, o *fw.Obs) {
	if len(c.S) == 0 || len(c.S) > 9 || c.Path == "" || strings.Contains(c.Path, "/") {
		return
	}
	ids := map[uint8]bool{}
	for _, s := range c.S {
		if s.TableID == 0 || ids[s.TableID] {
			return
		}
		ids[s.TableID] = true
	}
	st := openStore(o, c.DB)
	var tbs []Tbl
	var ms models
	for i, s := range c.S {
		tbs = append(tbs, openTable(st.db, s, func(o *tblOpts) { o.name = fmt.Sprintf("src%d", i) }))
		ms = append(ms, newModel(s))
	}
	write := func(tbs []Tbl, ms models, op TOp, what string) bool {
		if op.T < 0 || op.T >= len(tbs) {
			return true
		}
		w := op.W
		w.B, w.Drop = "", false
		if (w.K == "uinsert" || w.K == "uupdate") && !unsafeOK(ms[op.T], w) {
			return true
		}
		before := ms[op.T].copy()
		ok := ms[op.T].apply(w)
		err := doWrite(tbs[op.T], before, w, nil)
		if ok != (err == nil) || errors.Is(err, errMutated) {
			o.Failf("%s: %s of %s: error %v, but the model says accepted=%v", what, w.K, canons(w.Rs), err, ok)
		}
		return ok
	}
	for i, op := range c.Setup {
		write(tbs, ms, op, fmt.Sprintf("setup %d", i))
		for _, f := range c.Flush {
			if f == i {
				st.flush()
			} else if f == -i {
				st.compact()
			}
		}
	}
	if c.Bulk > 0 {
		rows := bulkRows(c.Bulk)
		for _, r := range rows {
			ms[0].put(r)
		}
		o.NoErr(tbs[0].Insert(bg, rows, nil), "bulk insert")
	}

	// the dump, in some cases while batches are committed
	dir := filepath.Join(o.TempDir(), "dumps", c.Path)
	o.Infra(os.MkdirAll(filepath.Dir(dir), 0o755))
	var tabs []bond.TableID
	for _, d := range c.Dump {
		if d < 0 || d >= len(c.S) {
			return
		}
		tabs = append(tabs, bond.TableID(c.S[d].TableID))
	}
	before := ""
	if len(c.Batches) == 0 {
		before = st.rawDump()
	}
	states := []models{ms.copy()}
	var committed, begun atomic.Int64
	var stop atomic.Bool
	writer := make(chan string, 1)
	if len(c.Batches) > 0 {
		type prepared struct {
			ops []TOp
			pre []models
		}
		var work []prepared
		cur := ms.copy()
		for r := 0; r < c.Rounds; r++ {
			for _, b := range c.Batches {
				next := cur.copy()
				var pre []models
				bad := false
				for _, op := range b {
					w := op.W
					if op.T < 0 || op.T >= len(tbs) || (w.K == "uinsert" || w.K == "uupdate") && !unsafeOK(next[op.T], w) {
						bad = true
						break
					}
					pre = append(pre, next.copy())
					if !next[op.T].apply(w) {
						bad = true
						break
					}
				}
				if bad {
					continue
				}
				work = append(work, prepared{b, pre})
				states = append(states, next)
				cur = next
			}
		}
		started := make(chan struct{})
		go func() {
			defer func() {
				if r := recover(); r != nil {
					writer <- fmt.Sprint("panic: ", r)
				}
			}()
			close(started)
			for i, p := range work {
				if stop.Load() {
					break
				}
				b := st.db.Batch(bond.BatchTypeReadWrite)
				for j, op := range p.ops {
					if err := doWrite(tbs[op.T], p.pre[j][op.T], op.W, b); err != nil {
						writer <- fmt.Sprintf("%s of %s: %v", op.W.K, canons(op.W.Rs), err)
						return
					}
				}
				begun.Store(int64(i + 1))
				if err := b.Commit(bond.NoSync); err != nil {
					writer <- err.Error()
					return
				}
				committed.Store(int64(i + 1))
				_ = b.Close()
			}
			writer <- ""
		}()
		<-started
		o.Label("writer during the dump")
	}
	lo := int(committed.Load())
	err := st.db.Dump(bg, dir, tabs, c.Index)
	hi := int(begun.Load())
	stop.Store(true)
	o.NoErr(err, "Dump of %v", tabs)
	if len(c.Batches) > 0 {
		if msg := <-writer; msg != "" {
			o.Failf("writer: %s", msg)
		}
		if hi > lo {
			o.Label("commits during the dump")
		}
		ms = states[committed.Load()]
	} else {
		if now := st.rawDump(); now != before {
			o.Failf("Dump changed the source:\n%s\nbefore:\n%s", now, before)
		}
	}
	for i, tb := range tbs {
		checkTable(o, st, tb, ms[i], nil, false)
		if c.Bulk == 0 {
			checkIndexes(o, st, tb, ms[i], false)
		}
	}
	if err := st.db.Dump(bg, dir, tabs, c.Index); err == nil {
		o.Failf("a second Dump into the same directory succeeded")
	}
	st.close()

	if c.Link&2 != 0 {
		es, err := os.ReadDir(dir)
		o.Infra(err)
		away := filepath.Join(o.TempDir(), "away")
		o.Infra(os.Mkdir(away, 0o755))
		for i, e := range es {
			if e.IsDir() {
				to := filepath.Join(away, fmt.Sprint("part", i))
				o.Infra(os.Rename(filepath.Join(dir, e.Name()), to))
				o.Infra(os.Symlink(to, filepath.Join(dir, e.Name())))
			}
		}
		o.Label("linked parts")
	}
	if c.Link&1 != 0 {
		lnk := filepath.Join(o.TempDir(), "latest")
		o.Infra(os.Symlink(dir, lnk))
		dir = lnk
		o.Label("linked dump")
	}

	// restore into an empty database on disk
	dst := openStoreFS(o, c.DB2, vfs.Default, filepath.Join(o.TempDir(), "dst"))
	open := func() (tbs []Tbl) {
		for i, s := range c.S {
			tbs = append(tbs, openTable(dst.db, s, func(o *tblOpts) { o.name = fmt.Sprintf("dst%d", i) }))
		}
		return
	}
	tbs = open()
	empty := dst.rawDump()
	var cands []int // the states that may have been dumped
	for i := lo; i <= hi; i++ {
		cands = append(cands, i)
	}
	got := make(models, len(c.S))
	for i, s := range c.S {
		got[i] = newModel(s)
	}
	withIx, plain := map[int]bool{}, map[int]bool{}
	for ri, r := range c.Restore {
		what := fmt.Sprintf("restore %d", ri)
		var ids []bond.TableID
		var which []int
		for _, d := range r.T {
			if d < 0 || d >= len(c.Dump) {
				return
			}
			which = append(which, c.Dump[d])
			ids = append(ids, tabs[d])
		}
		if r.Absent {
			for _, id := range []uint8{1, 10, 11, 12, 100, 77} {
				dumped := false
				for _, d := range tabs {
					dumped = dumped || uint8(d) == id
				}
				if !dumped {
					pre := dst.rawDump()
					if err := dst.db.Restore(bg, dir, append(append([]bond.TableID{}, ids...), bond.TableID(id)), r.Index); err == nil {
						o.Failf("%s: Restore of %v with table %d, which was not dumped, succeeded", what, ids, id)
					}
					if now := dst.rawDump(); now != pre {
						o.Failf("%s: a refused Restore changed the database:\n%s\nbefore:\n%s", what, now, pre)
					}
					break
				}
			}
		}
		o.NoErr(dst.db.Restore(bg, dir, ids, r.Index), "%s of %v, indexes %v", what, ids, r.Index)
		// the moments at which all restored tables were like this
		for _, t := range which {
			rows, err := tbs[t].Scan(bg, false, nil)
			o.NoErr(err, "%s: scan of the restored table", what)
			var left []int
			for _, i := range cands {
				if sameRecs(rows, states[i][t].all()) {
					left = append(left, i)
				}
			}
			if len(left) == 0 {
				var was []string
				for _, i := range cands {
					was = append(was, canons(states[i][t].all()))
				}
				o.Failf("%s: table %d has the rows\n  %s\nwhich it had at no moment of the dump that the tables restored before agree with:\n  %s", what, c.S[t].TableID, canons(rows), strings.Join(was, "\n  "))
			}
			cands = left
		}
		at := cands[0]
		for _, t := range which {
			got[t] = states[at][t].copy()
			if r.Index && c.Index {
				withIx[t] = true
			} else {
				plain[t] = true
			}
		}
		full := c.Bulk == 0
		for t, tb := range tbs {
			checkTable(o, dst, tb, got[t], nil, full)
			if plain[t] {
				if n, all := len(dst.rawKeys(c.S[t].TableID)), len(got[t].rows); n != all {
					o.Failf("%s: %d stored keys of table %d restored without indexes, want %d", what, n, c.S[t].TableID, all)
				}
			} else {
				checkIndexes(o, dst, tb, got[t], full)
			}
		}
		if full && hi == lo && before != "" {
			for t := range withIx {
				want := partOf(before, c.S[t].TableID)
				if now := dst.storedPart(c.S[t].TableID, true); now != want {
					o.Failf("%s: table %d is stored as\n%s\nin the source it was\n%s", what, c.S[t].TableID, now, want)
				}
			}
		}
	}
	if len(c.Restore) == 0 {
		if now := dst.rawDump(); now != empty {
			o.Failf("the database changed without a restore")
		}
	}
	// rebuild the indexes that were not restored
	rows, ents := 0, 0
	for t := range c.S {
		rows += len(got[t].rows)
		for i := range c.S[t].Indexes {
			ents += len(got[t].entries(&c.S[t].Indexes[i]))
		}
		if plain[t] && len(c.S[t].Indexes) > 0 {
			var ids []uint8
			for _, ix := range c.S[t].Indexes {
				ids = append(ids, ix.ID)
			}
			o.NoErr(tbs[t].ReIndex(ids), "ReIndex of the restored table")
		}
		checkIndexes(o, dst, tbs[t], got[t], c.Bulk == 0)
	}
	if rows > 0 && ents > 0 && (len(withIx)+len(plain) < len(c.S) || len(plain) > 0 || c.Bulk > 0) {
		o.NonTrivial()
	}
	for i, op := range c.After {
		write(tbs, got, op, fmt.Sprintf("write %d after the restore", i))
	}
	dst.reopen()
	tbs = open()
	for t, tb := range tbs {
		checkTable(o, dst, tb, got[t], nil, c.Bulk == 0)
		checkIndexes(o, dst, tb, got[t], c.Bulk == 0)
	}
	dst.close()
}

// partOf extracts the lines of one table from a dump of the stored content.
func partOf(dump string, id uint8) string {
	var sb strings.Builder
	pre := fmt.Sprintf("%02x", id)
	for _, l := range strings.SplitAfter(dump, "\n") {
		if strings.HasPrefix(l, pre) {
			sb.WriteString(l)
		}
	}
	return sb.String()
}
