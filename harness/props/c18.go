package props

import (
	"errors"
	"fmt"
	"sync"
	"sync/atomic"

	"github.com/go-bond/bond"
	"pgregory.net/rapid"
	"verifbond/fw"
)

// ConcOp is one step of a client.
type ConcOp struct {
	K    string // write, batch, read, each, flush, compact, save, addindex, dump
	W    Op     `json:",omitempty"`
	Ws   []Op   `json:",omitempty"`
	Type string `json:",omitempty"` // batch: rw, wo
	Drop bool   `json:",omitempty"`
	Q    Q      `json:",omitempty"`
	Rev  bool   `json:",omitempty"`
}

type ConcCase struct {
	S       Schema
	DB      DBOpt
	Clients [][]ConcOp
	Tokens  int // rows moved together by one more client
	Moves   int
	Bloom   bool
	Watch   int `json:",omitempty"` // clients which only read the moved rows, while they are moved
	Shared  Q   // one query value that all clients execute
}

const (
	tokenIx  = 77 // on A
	tokenIx2 = 78 // on D
	tokenID  = uint64(1) << 40
)

func clientIDs(c int) []uint64 {
	var ids []uint64
	for i := 0; i < 8; i++ {
		ids = append(ids, uint64(c)<<16|uint64(i*i*7))
	}
	return ids
}

func ownerOf(r Rec) int {
	if r.ID >= tokenID {
		return -1
	}
	return int(r.ID >> 16)
}

func tokens(s Schema, n, g int) (rs []Rec) {
	for i := 0; i < n; i++ {
		rs = append(rs, Rec{ID: tokenID + uint64(i), N: int64(i) - 1, Y: uint8(i), A: uint32(g % 3), D: int32(g / 3 % 3), F: true, P: fmt.Sprintf("gen%d", g)})
	}
	return
}

func init() {
	fw.Register(fw.Prop{
		ID: "C18", Title: "Concurrent use gives each client its own consistent results",
		Rule: "a case is a table with indexes on which two to five goroutines run generated histories on rows of their own (direct writes, batches, gets, scans, queries, intersections, callback scans, a shared query value, adding indexes, saving the filter, flushing), while one more goroutine moves a group of rows between index values in single batches, all under the race detector; " +
			"every read is compared with the reader's own model, must be a correct answer for the rows it returns, and must show the group of rows in one state; it is non-trivial when clients wrote during each other's reads",
		Assumptions: []string{"interleavings are those the Go scheduler produces; they are sampled, not enumerated", "indexes are rebuilt only while nobody writes the table"},
		Quick:       260, Thorough: 5000, Race: true, Flaky: true,
	}, func(t *rapid.T) ConcCase {
		c := ConcCase{S: genSchema(t, 2), DB: DBOpt{SmallMem: rapid.Bool().Draw(t, "smallmem"), Bloom: rapid.Bool().Draw(t, "sstbloom")},
			Tokens: rapid.IntRange(2, 9).Draw(t, "tokens"), Moves: rapid.IntRange(10, 60).Draw(t, "moves"), Bloom: rapid.IntRange(0, 2).Draw(t, "bloom") == 0,
			Watch: rapid.IntRange(0, 2).Draw(t, "watch")}
		c.S.PK = rapid.SampledFrom([][]Field{{"ID"}, {"^ID"}, {"Y", "ID"}, {"N", "ID"}}).Draw(t, "pkc")
		d := genDom(t)
		d.ids = append(clientIDs(0), clientIDs(1)...)
		c.Shared = genQ(t, c.S, newModel(c.S), d)
		c.Shared.Offset, c.Shared.Limit, c.Shared.After = 0, 0, nil
		for n := rapid.IntRange(2, 5).Draw(t, "clients"); n > 0; n-- {
			m := newModel(c.S)
			d := d
			d.ids = clientIDs(len(c.Clients))
			var ops []ConcOp
			for k := rapid.IntRange(4, 20).Draw(t, "ops"); k > 0; k-- {
				op := ConcOp{K: rapid.SampledFrom([]string{"write", "write", "write", "write", "batch", "batch", "read", "read", "read", "read", "inter", "each", "shared", "flush", "compact", "save", "addindex"}).Draw(t, "k")}
				switch op.K {
				case "write":
					op.W = genWrite(t, m, d, 5)
					op.W.B = ""
					if len(op.W.Rs) == 0 {
						continue
					}
					m.apply(op.W)
				case "batch":
					op.Type = rapid.SampledFrom([]string{"rw", "rw", "wo"}).Draw(t, "type")
					op.Drop = rapid.IntRange(0, 4).Draw(t, "drop") == 0
					w := m.copy()
					for j := rapid.IntRange(1, 3).Draw(t, "n"); j > 0; j-- {
						x := genWrite(t, w, d, 4)
						x.B = ""
						p := w.copy()
						if len(x.Rs) == 0 || !p.apply(x) {
							continue
						}
						w = p
						op.Ws = append(op.Ws, x)
						if op.Type == "wo" {
							break
						}
					}
					if op.Type == "rw" {
						op.Q = genQ(t, c.S, w, d)
						op.Q.Offset, op.Q.Limit, op.Q.After = 0, 0, nil
					}
					if !op.Drop {
						m = w
					}
				case "read", "each":
					op.Q = genQ(t, c.S, m, d)
					op.Q.Offset, op.Q.Limit, op.Q.After = 0, 0, nil
					op.Rev = rapid.Bool().Draw(t, "rev")
				case "inter":
					op.Q = genIntersect(t, c.S, m, d)
					op.Q.Offset, op.Q.Limit, op.Q.After = 0, 0, nil
				}
				ops = append(ops, op)
			}
			c.Clients = append(c.Clients, ops)
		}
		return c
	}, runConc)
}

func runConc(c ConcCase, o *fw.Obs) {
	s := c.S
	for _, f := range s.PK {
		if f != "ID" && f != "^ID" && f != "Y" && f != "N" {
			return
		}
	}
	if !inPK(s, "ID") && !inPK(s, "^ID") {
		return
	}
	for _, ix := range s.Indexes {
		if ix.ID == tokenIx || ix.ID == tokenIx2 || ix.ID >= 100 && ix.ID < 200 && ix.ID != 127 && ix.ID != 128 {
			return
		}
	}
	s.Indexes = append(append([]IndexSpec{}, s.Indexes...), IndexSpec{ID: tokenIx, Key: []Field{"A"}}, IndexSpec{ID: tokenIx2, Key: []Field{"D"}})
	st := openStore(o, c.DB)
	var opts []func(*tblOpts)
	bf := BloomCfg{N: 20, FP: 0.3, Buckets: 3}.filter()
	if c.Bloom {
		opts = append(opts, withFilter(bf))
	}
	tb := openTable(st.db, s, opts...)
	k := c.Tokens
	if k < 1 || k > 50 {
		return
	}
	tk := tokens(s, k, 0)
	o.NoErr(tb.Insert(bg, tk, nil), "insert of the tokens")
	lowest := tk[0]
	for _, r := range tk {
		if s.cmpPK(r, lowest) < 0 {
			lowest = r
		}
	}
	var allA, allD []Rec
	for v := 0; v < 3; v++ {
		p := lowest
		p.A, p.D = uint32(v), int32(v)
		allA, allD = append(allA, p), append(allD, p)
	}

	// check compares the result of a query with the reader's own rows and with
	// the query's meaning on the returned rows
	check := func(o *fw.Obs, what string, q Q, own *Model, owner int, got []Rec, err error) {
		o.NoErr(err, "%s: %s", what, mustJSON(q))
		o.Evals(1)
		m, mine := newModel(s), newModel(s)
		var tks []Rec
		for _, r := range got {
			if m.has(r) {
				o.Failf("%s: %s returned %s twice: %s", what, mustJSON(q), r.canon(), canons(got))
			}
			m.put(r)
			if ownerOf(r) == owner {
				mine.put(r)
			}
			if ownerOf(r) < 0 {
				tks = append(tks, r)
			}
		}
		sub := newModel(s)
		for _, r := range own.evalBase(q) {
			sub.put(r)
		}
		if !sameRecs(mine.all(), sub.all()) {
			o.Failf("%s: %s returned of the client's own rows\n  %s\nwant\n  %s", what, mustJSON(q), canons(mine.all()), canons(sub.all()))
		}
		m.checkQuery(o, what+" of the returned rows", q, m.evalBase(q), got, nil)
		for _, r := range tks {
			if r.P != tks[0].P || r.A != tks[0].A || r.D != tks[0].D {
				o.Failf("%s: %s returned rows of two moments, %s and %s", what, mustJSON(q), tks[0].canon(), r.canon())
			}
		}
	}
	// group checks that the moved rows are seen in one state and completely
	group := func(o *fw.Obs, what string, got []Rec, err error) {
		o.NoErr(err, "%s of the moved rows", what)
		o.Evals(1)
		seen := map[uint64]bool{}
		first := ""
		for _, r := range got {
			if r.ID < tokenID {
				continue
			}
			if first == "" {
				first = r.P
			}
			if r.P != first || seen[r.ID] {
				o.Failf("%s shows the moved rows in two states: %s", what, canons(got))
			}
			seen[r.ID] = true
		}
		if len(seen) != k {
			o.Failf("%s shows %d of %d rows that are only moved together: %s", what, len(seen), k, canons(got))
		}
	}
	readGroup := func(o *fw.Obs, i int) {
		selA, selD := Sel{Kind: "points", Recs: allA}, Sel{Kind: "points", Recs: allD}
		switch i % 6 {
		case 0:
			got, err := tb.Scan(bg, i%4 < 2, nil)
			group(o, "Scan", got, err)
		case 1:
			got, err := tb.ScanIdx(bg, tokenIx, selA, i%4 < 2, nil)
			group(o, "ScanIndex", got, err)
		case 2:
			got, err := tb.Query(Q{Index: tokenIx2, Sel: selD, Reverse: i%4 < 2}).Run(bg, nil)
			group(o, "Query", got, err)
		case 3:
			got, err := tb.Query(Q{Index: tokenIx, Sel: selA, Intersect: []Q{{Index: tokenIx2, Sel: selD}}}).Run(bg, nil)
			group(o, "intersect Query", got, err)
		case 4:
			got, _, err := tb.Get(bg, Sel{Kind: "points", Recs: tk}, nil)
			group(o, "Get", got, err)
		case 5:
			var got []Rec
			err := tb.ScanEach(bg, tokenIx, selA, i%4 < 2, nil, func(_ []byte, get func() (Rec, error)) (bool, error) {
				r, err := get()
				got = append(got, r)
				return err == nil, err
			})
			group(o, "ScanIndexForEach", got, err)
		}
	}

	// Pebble's flush drops what a newer version of a key hides, also if the commit
	// of that version isn't visible yet, and then a read sees neither: nothing of
	// Bond's. So the memtable is flushed only while no commit is under way.
	var gate sync.RWMutex
	commit := func(f func() error) error {
		gate.RLock()
		defer gate.RUnlock()
		return f()
	}
	idle := func(f func() error) error {
		gate.Lock()
		defer gate.Unlock()
		return f()
	}

	finals := make([]*Model, len(c.Clients))
	var writes, overlaps atomic.Int64
	var nextIx atomic.Int64
	nextIx.Store(130)
	var added atomic.Int64
	shared := tb.Query(c.Shared)
	client := func(ci int) func(o *fw.Obs) {
		return func(o *fw.Obs) {
			m := newModel(s)
			finals[ci] = m
			mineOnly := func(ops ...Op) bool {
				for _, w := range ops {
					for _, r := range w.Rs {
						if ownerOf(r) != ci {
							return false
						}
					}
					if w.K == "upsert" && w.C != "" && w.C != "old" && w.C != "merge" {
						return false
					}
				}
				return true
			}
			for i, op := range c.Clients[ci] {
				what := fmt.Sprintf("client %d op %d (%s)", ci, i, op.K)
				w0 := writes.Load()
				switch op.K {
				case "write":
					if !mineOnly(op.W) || (op.W.K == "uinsert" || op.W.K == "uupdate") && !unsafeOK(m, op.W) {
						continue
					}
					before := m.copy()
					ok := m.apply(op.W)
					err := commit(func() error { return doWrite(tb, before, op.W, nil) })
					if ok != (err == nil) || errors.Is(err, errMutated) {
						o.Failf("%s: %s of %s: error %v, but the model says accepted=%v", what, op.W.K, canons(op.W.Rs), err, ok)
					}
					writes.Add(1)
				case "batch":
					if !mineOnly(op.Ws...) {
						continue
					}
					b := batchOf(st.db, op.Type)
					if b == nil {
						continue
					}
					p := m.copy()
					good := true
					for j, w := range op.Ws {
						if (w.K == "uinsert" || w.K == "uupdate") && !unsafeOK(p, w) || op.Type == "wo" && j > 0 {
							good = false
							break
						}
						before := p.copy()
						if !p.copy().apply(w) {
							good = false
							break
						}
						p.apply(w)
						o.NoErr(doWrite(tb, before, w, b), "%s: %s of %s", what, w.K, canons(w.Rs))
					}
					if good && op.Type == "rw" && validQ(s, op.Q) {
						got, err := tb.Query(op.Q).Run(bg, b)
						check(o, what+" through the batch", op.Q, p, ci, got, err)
					}
					if good && !op.Drop {
						o.NoErr(commit(func() error { return b.Commit(bond.Sync) }), "%s: commit", what)
						m.rows = p.rows
						writes.Add(1)
					}
					o.NoErr(b.Close(), "%s: close", what)
				case "read", "inter":
					if !validQ(s, op.Q) {
						continue
					}
					got, err := tb.Query(op.Q).Run(bg, nil)
					check(o, what, op.Q, m, ci, got, err)
				case "each":
					if op.Q.NoWith || !validQ(s, op.Q) || len(op.Q.Intersect) > 0 {
						continue
					}
					var got []Rec
					err := tb.ScanEach(bg, op.Q.Index, op.Q.Sel, op.Rev, nil, func(_ []byte, get func() (Rec, error)) (bool, error) {
						r, err := get()
						got = append(got, r)
						return err == nil, err
					})
					check(o, what, Q{Index: op.Q.Index, Sel: op.Q.Sel, Reverse: op.Rev}, m, ci, got, err)
				case "shared":
					if !validQ(s, c.Shared) {
						continue
					}
					got, err := shared.Run(bg, nil)
					check(o, what, c.Shared, m, ci, got, err)
				case "flush":
					o.NoErr(idle(st.db.Backend().Flush), "%s", what)
				case "compact":
					o.NoErr(idle(func() error {
						return st.db.Backend().Compact([]byte{0}, []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, false)
					}), "%s", what)
				case "save":
					if c.Bloom {
						o.NoErr(commit(func() error { return bf.Save(bg, st.db) }), "%s", what)
					}
				case "addindex":
					// an index of its own, rebuilt at the end
					id := nextIx.Add(1)
					if id > 199 {
						continue
					}
					o.NoErr(tb.AddIndex([]IndexSpec{{ID: uint8(id), Key: []Field{"W"}}}, false), "%s", what)
					added.Add(1)
				}
				// point reads of the client's own keys
				for _, id := range clientIDs(ci)[:3] {
					p := Rec{ID: id}
					for _, r := range m.all() {
						if r.ID == id {
							p = withPK(s, Rec{}, r)
						}
					}
					want, has := m.rows[s.pk(p)]
					if e := tb.Exist(p, nil); e != has {
						o.Failf("%s: Exist(%s) = %v, want %v", what, p.canon(), e, has)
					}
					g, err := tb.GetPoint(bg, p, nil)
					if has != (err == nil) || has && g.canon() != want.canon() || !has && !errors.Is(err, bond.ErrNotFound) {
						o.Failf("%s: GetPoint(%s) = %s, %v; want %v %s", what, p.canon(), g.canon(), err, has, want.canon())
					}
					o.Evals(2)
				}
				readGroup(o, ci+i)
				if writes.Load() > w0+1 {
					overlaps.Add(1)
				}
			}
		}
	}
	gen := 0
	var moved atomic.Bool
	mover := func(o *fw.Obs) {
		defer moved.Store(true)
		for g := 1; g <= c.Moves && g < 1000; g++ {
			rs := tokens(s, k, g)
			var b bond.Batch
			if g%3 == 0 {
				b = st.db.Batch(bond.BatchTypeReadWrite)
			}
			o.NoErr(commit(func() error {
				switch {
				case g%7 == 5:
					return tb.Upsert(bg, rs, nil, b)
				case g%7 == 6 && b != nil:
					if err := tb.Delete(bg, rs, b); err != nil {
						return err
					}
					return tb.Insert(bg, rs, b)
				}
				return tb.Update(bg, rs, b)
			}), "move %d", g)
			if b != nil {
				o.NoErr(commit(func() error { return b.Commit(bond.NoSync) }), "commit of move %d", g)
				o.NoErr(b.Close(), "close")
			}
			gen = g
			writes.Add(1)
		}
	}
	fs := []func(o *fw.Obs){mover}
	for i := range c.Clients {
		fs = append(fs, client(i))
	}
	for i := 0; i < c.Watch && i < 9; i++ {
		i := i
		fs = append(fs, func(o *fw.Obs) {
			for n := i; !moved.Load(); n++ {
				readGroup(o, n)
			}
		})
	}
	o.Go(fs...)
	if overlaps.Load() > 1 {
		o.NonTrivial()
	}
	all := newModel(s)
	for _, m := range finals {
		for _, r := range m.all() {
			all.put(r)
		}
	}
	for _, r := range tokens(s, k, gen) {
		all.put(r)
	}
	checkTable(o, st, tb, all, nil, true)
	var ids []uint8
	for id := 131; id <= int(nextIx.Load()) && id <= 199; id++ {
		ids = append(ids, uint8(id))
		all.s.Indexes = append(all.s.Indexes, IndexSpec{ID: uint8(id), Key: []Field{"W"}})
	}
	if len(ids) > 0 {
		o.NoErr(tb.ReIndex(ids), "ReIndex of the added indexes")
	}
	checkIndexes(o, st, tb, all, true)
	if c.Bloom {
		for _, r := range all.all() {
			if !bf.MayContain(bg, tb.DataKey(r)) {
				o.Failf("the filter hides %s", r.canon())
			}
		}
	}
	st.close()
}
