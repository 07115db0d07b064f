package props

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"

	"github.com/cockroachdb/pebble"
	"github.com/go-bond/bond"
	"pgregory.net/rapid"
	"verifbond/fw"
)

// BOp is one step of a history over tables and batches. Slot -1 is no batch.
type BOp struct {
	K    string // write, commit, apply, close, reset, flush, compact, read, refuse
	S    int    `json:",omitempty"`
	T    int    `json:",omitempty"`
	W    Op     `json:",omitempty"`
	To   int    `json:",omitempty"`
	Sync bool   `json:",omitempty"`
	Via  bool   `json:",omitempty"` // commit through DB.Apply; a user key: through the batch itself
	// user keys: uset, udel and urange (deletes from A to B)
	A int    `json:",omitempty"`
	B int    `json:",omitempty"`
	V string `json:",omitempty"`
}

type BatchCase struct {
	S     []Schema
	DB    DBOpt
	Types []string // per slot: rw, wo
	Seed  [][]Rec  // rows per table before the history
	Ops   []BOp
}

const nSlots = 3

// slotState is the reference of a batch: its pending rows per table.
type slotState struct {
	typ  string
	pend []map[string]*Rec
	user map[int]*string
	// from: slots whose writes it took over; they rest until it is done
	from []int
	rest bool
}

type batchSim struct {
	s     []Schema
	base  models
	user  map[int]string
	slots []*slotState
}

// nUser user keys belong to each slot and to the direct writes.
const nUser = 8

// userKey is user key k of the slot.
func userKey(slot, k int) []byte {
	return bond.NewUserKey(fmt.Sprintf("%c%d", 'b'+slot, k))
}

func newBatchSim(s []Schema, types []string) *batchSim {
	b := &batchSim{s: s, user: map[int]string{}}
	for _, x := range s {
		b.base = append(b.base, newModel(x))
	}
	for i := 0; i < nSlots; i++ {
		b.slots = append(b.slots, &slotState{typ: types[i]})
		b.clear(i)
	}
	return b
}

func (b *batchSim) clear(i int) {
	sl := b.slots[i]
	sl.pend, sl.user = nil, map[int]*string{}
	for range b.s {
		sl.pend = append(sl.pend, map[string]*Rec{})
	}
	for _, f := range sl.from {
		b.slots[f].rest = false
	}
	sl.from = nil
}

// view is what reads through the slot see.
func (b *batchSim) view(i int) models {
	v := b.base.copy()
	if i < 0 {
		return v
	}
	for t, p := range b.slots[i].pend {
		for k, r := range p {
			if r == nil {
				delete(v[t].rows, k)
			} else {
				v[t].rows[k] = *r
			}
		}
	}
	return v
}

// userView is the user keys reads through the slot see: key k of slot o is
// (o+1)*nUser+k.
func (b *batchSim) userView(i int) map[int]string {
	v := map[int]string{}
	for k, x := range b.user {
		v[k] = x
	}
	if i >= 0 {
		for k, x := range b.slots[i].user {
			if x == nil {
				delete(v, k)
			} else {
				v[k] = *x
			}
		}
	}
	return v
}

func (b *batchSim) userWrite(op BOp) {
	set := func(k int, v *string) {
		k += (op.S + 1) * nUser
		switch {
		case op.S >= 0:
			b.slots[op.S].user[k] = v
		case v == nil:
			delete(b.user, k)
		default:
			b.user[k] = *v
		}
	}
	switch op.K {
	case "uset":
		v := op.V
		set(op.A, &v)
	case "udel":
		set(op.A, nil)
	case "urange":
		for k := op.A; k < op.B; k++ {
			set(k, nil)
		}
	}
}

func (b *batchSim) userAllowed(op BOp) bool {
	return op.A >= 0 && op.A < nUser && op.B >= 0 && op.B <= nUser && (op.S < 0 || !b.slots[op.S].rest) && (op.K != "urange" || op.A < op.B)
}

func (b *batchSim) empty(i int) bool {
	if len(b.slots[i].user) > 0 {
		return false
	}
	for _, p := range b.slots[i].pend {
		if len(p) > 0 {
			return false
		}
	}
	return true
}

// owner splits the rows between direct writes (-1) and the slots.
func (b *batchSim) owner(t int, r Rec) int {
	h := fnv.New32a()
	_, _ = h.Write([]byte(b.s[t].pk(r)))
	return int(h.Sum32()%(nSlots+1)) - 1
}

// allowed says whether a write is in the domain of the slot.
func (b *batchSim) allowed(i, t int, op Op) bool {
	if len(op.Rs) == 0 || i >= 0 && b.slots[i].rest {
		return false
	}
	for _, r := range op.Rs {
		if b.owner(t, r) != i {
			return false
		}
		if i >= 0 && b.slots[i].typ == "wo" {
			// the write cannot see what the batch holds for this row
			if _, ok := b.slots[i].pend[t][b.s[t].pk(r)]; ok {
				return false
			}
		}
	}
	return (op.K != "uinsert" && op.K != "uupdate") || unsafeOK(b.view(i)[t], op)
}

// write applies an accepted write.
func (b *batchSim) write(i, t int, op Op) {
	v := b.view(i)
	if !v[t].apply(op) {
		return
	}
	if i < 0 {
		b.base = v
		return
	}
	for _, r := range op.Rs {
		k := b.s[t].pk(r)
		if x, ok := v[t].rows[k]; ok {
			c := x
			b.slots[i].pend[t][k] = &c
		} else {
			b.slots[i].pend[t][k] = nil
		}
	}
}

func (b *batchSim) commit(i int) {
	b.base, b.user = b.view(i), b.userView(i)
	b.clear(i)
}

func (b *batchSim) apply(i, to int) {
	for t, p := range b.slots[i].pend {
		for k, r := range p {
			b.slots[to].pend[t][k] = r
		}
	}
	for k, v := range b.slots[i].user {
		b.slots[to].user[k] = v
	}
	b.slots[to].from = append(append(b.slots[to].from, i), b.slots[i].from...)
	b.slots[i].from = nil
	b.clear(i)
	b.slots[i].rest = true
}

func (b *batchSim) canApply(i, to int) bool {
	if i == to || i < 0 || to < 0 || b.slots[i].rest || b.slots[to].rest {
		return false
	}
	// a write-only target must not have to see the rows again
	return !b.empty(i)
}

func init() {
	fw.Register(fw.Prop{
		ID:    "C09",
		Title: "A batch is isolated until commit and atomic at commit",
		Rule: "a case is two tables with indexes and a history of direct writes and of writes, commits, resets, closes and applications of three batches, which own disjoint sets of rows; after each step everything is read outside and through each read-write batch; " +
			"it is non-trivial when a batch with pending changes of existing rows was read and later committed, after direct writes in between or through another batch",
		Quick: 1300, Thorough: 22000,
	}, func(t *rapid.T) BatchCase {
		c := BatchCase{DB: DBOpt{SmallMem: rapid.Bool().Draw(t, "smallmem"), Bloom: rapid.Bool().Draw(t, "bloom")}}
		var ds []Dom
		for i := 0; i < 2; i++ {
			s := genSchema(t, 2)
			if i == 1 && s.TableID == c.S[0].TableID {
				s.TableID = 4
			}
			c.S = append(c.S, s)
			ds = append(ds, genDom(t))
		}
		for i := 0; i < nSlots; i++ {
			c.Types = append(c.Types, rapid.SampledFrom([]string{"rw", "rw", "rw", "wo"}).Draw(t, "type"))
		}
		sim := newBatchSim(c.S, c.Types)
		for i := range c.S {
			var rs []Rec
			for j := rapid.IntRange(0, 14).Draw(t, "seed"); j > 0; j-- {
				if r := genRec(t, ds[i]); !sim.base[i].has(r) {
					sim.base[i].put(r)
					rs = append(rs, r)
				}
			}
			c.Seed = append(c.Seed, rs)
		}
		n := rapid.IntRange(4, 32).Draw(t, "ops")
		for i := 0; i < n; i++ {
			op := BOp{K: rapid.SampledFrom([]string{"write", "write", "write", "write", "write", "write", "commit", "commit", "commit", "apply", "close", "reset", "flush", "compact", "refuse", "refuse", "uset", "uset", "udel", "urange"}).Draw(t, "k")}
			op.S = rapid.IntRange(-1, nSlots-1).Draw(t, "slot")
			switch op.K {
			case "write", "refuse":
				op.T = rapid.IntRange(0, 1).Draw(t, "table")
				v := sim.view(op.S)[op.T]
				for k, r := range v.rows {
					if sim.owner(op.T, r) != op.S {
						delete(v.rows, k)
					}
				}
				w := genWrite(t, v, ds[op.T], 12)
				w.B, w.Drop = "", false
				var rs []Rec
				for _, r := range w.Rs {
					if sim.owner(op.T, r) == op.S {
						rs = append(rs, r)
					}
				}
				w.Rs = rs
				op.W = w
				if !sim.allowed(op.S, op.T, w) {
					continue
				}
				ok := sim.view(op.S)[op.T].apply(w)
				if ok == (op.K == "refuse") {
					continue
				}
				if ok {
					sim.write(op.S, op.T, w)
				} else if op.S >= 0 {
					sim.clear(op.S)
				}
			case "uset", "udel", "urange":
				op.A, op.Via = rapid.IntRange(0, nUser-1).Draw(t, "ukey"), rapid.Bool().Draw(t, "via")
				op.V = rapid.StringN(0, 3, -1).Draw(t, "uval")
				if op.K != "uset" {
					op.V = ""
				}
				if op.K == "urange" {
					op.B = rapid.IntRange(op.A+1, nUser).Draw(t, "uend")
				}
				if !sim.userAllowed(op) {
					continue
				}
				sim.userWrite(op)
			case "commit":
				op.Sync, op.Via = rapid.Bool().Draw(t, "sync"), rapid.Bool().Draw(t, "via")
				if op.S < 0 || sim.slots[op.S].rest {
					continue
				}
				sim.commit(op.S)
			case "apply":
				op.To = rapid.IntRange(0, nSlots-1).Draw(t, "to")
				if !sim.canApply(op.S, op.To) {
					continue
				}
				sim.apply(op.S, op.To)
			case "close", "reset":
				if op.S < 0 || sim.slots[op.S].rest {
					continue
				}
				sim.clear(op.S)
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}, runBatches)
}

func runBatches(c BatchCase, o *fw.Obs) {
	if len(c.S) == 0 || len(c.Types) != nSlots {
		return
	}
	st := openStore(o, c.DB)
	var tbs []Tbl
	for _, s := range c.S {
		tbs = append(tbs, openTable(st.db, s))
	}
	sim := newBatchSim(c.S, c.Types)
	for i, rs := range c.Seed {
		if op := (Op{K: "insert", Rs: rs}); i < len(tbs) && len(rs) > 0 && sim.base[i].copy().apply(op) {
			o.NoErr(doWrite(tbs[i], sim.base[i], op, nil), "seed")
			sim.base[i].apply(op)
		}
	}
	batches := make([]bond.Batch, nSlots)
	for i := range batches {
		batches[i] = batchOf(st.db, c.Types[i])
		i := i
		o.Cleanup(func() {
			if batches[i] != nil {
				_ = batches[i].Close()
			}
		})
	}
	renew := func(i int) {
		o.NoErr(batches[i].Close(), "batch close")
		batches[i] = batchOf(st.db, c.Types[i])
	}
	readPending, changedUnder := map[int]bool{}, map[int]bool{}
	for n, op := range c.Ops {
		what := fmt.Sprintf("op %d", n)
		if op.S >= nSlots || op.T >= len(c.S) || op.To >= nSlots {
			continue
		}
		var b bond.Batch
		if op.S >= 0 {
			b = batches[op.S]
		}
		switch op.K {
		case "flush":
			st.flush()
		case "compact":
			st.compact()
		case "write", "refuse":
			if !sim.allowed(op.S, op.T, op.W) {
				continue
			}
			v := sim.view(op.S)[op.T]
			ok := v.copy().apply(op.W)
			err := doWrite(tbs[op.T], v, op.W, b)
			if errors.Is(err, errMutated) {
				o.Failf("%s %s: %v", what, op.W.K, err)
			}
			if ok && err != nil {
				o.Failf("%s: %s of %s through slot %d: refused with %q, but the rows seen through it accept it: %s", what, op.W.K, canons(op.W.Rs), op.S, err, canons(v.all()))
			}
			if !ok && err == nil {
				o.Failf("%s: %s of %s through slot %d: accepted, but must be refused; rows seen through it: %s", what, op.W.K, canons(op.W.Rs), op.S, canons(v.all()))
			}
			if ok {
				sim.write(op.S, op.T, op.W)
				for i := range c.Types {
					if i != op.S && readPending[i] {
						changedUnder[i] = true
					}
				}
			} else {
				o.Label("refused through a batch: " + op.W.K)
				if op.S >= 0 {
					// what a refused write leaves in the caller's batch is not defined
					b.Reset()
					sim.clear(op.S)
				}
			}
		case "uset", "udel", "urange":
			if !sim.userAllowed(op) {
				continue
			}
			var w interface {
				Set(key []byte, value []byte, opt bond.WriteOptions, batch ...bond.Batch) error
				Delete(key []byte, opts bond.WriteOptions, batch ...bond.Batch) error
				DeleteRange(start []byte, end []byte, opt bond.WriteOptions, batch ...bond.Batch) error
			} = st.db
			var bs []bond.Batch
			if b != nil {
				if op.Via {
					w = b
				} else {
					bs = append(bs, b)
				}
			}
			k := userKey(op.S, op.A)
			var err error
			switch op.K {
			case "uset":
				err = w.Set(k, []byte(op.V), bond.NoSync, bs...)
			case "udel":
				err = w.Delete(k, bond.NoSync, bs...)
			case "urange":
				err = w.DeleteRange(k, userKey(op.S, op.B), bond.NoSync, bs...)
			}
			o.NoErr(err, "%s: %s", what, op.K)
			sim.userWrite(op)
			o.Label("user keys: " + op.K)
		case "commit":
			if op.S < 0 || sim.slots[op.S].rest {
				continue
			}
			opt := bond.NoSync
			if op.Sync {
				opt = bond.Sync
			}
			if sim.empty(op.S) != b.Empty() && c.Types[op.S] != "" {
				if b.Empty() {
					o.Failf("%s: Empty() of a batch with pending writes", what)
				}
			}
			var err error
			if op.Via {
				err = st.db.Apply(b, opt)
			} else {
				err = b.Commit(opt)
			}
			o.NoErr(err, "%s: commit", what)
			if readPending[op.S] && (changedUnder[op.S] || len(sim.slots[op.S].from) > 0) {
				o.NonTrivial()
			}
			if !sim.empty(op.S) {
				o.Label("commit of pending writes")
			}
			readPending[op.S], changedUnder[op.S] = false, false
			sim.commit(op.S)
			renew(op.S)
		case "apply":
			if !sim.canApply(op.S, op.To) {
				continue
			}
			o.NoErr(batches[op.To].Apply(b, bond.Sync), "%s: apply", what)
			sim.apply(op.S, op.To)
			renew(op.S)
			o.Label("apply to another batch")
		case "close":
			if op.S < 0 || sim.slots[op.S].rest {
				continue
			}
			if !sim.empty(op.S) {
				o.Label("close with pending writes")
			}
			sim.clear(op.S)
			renew(op.S)
		case "reset":
			if op.S < 0 || sim.slots[op.S].rest {
				continue
			}
			if !sim.empty(op.S) {
				o.Label("reset with pending writes")
			}
			id := b.ID()
			b.Reset()
			if !b.Empty() || b.Len() == 0 && false {
				o.Failf("%s: a batch is not empty after Reset", what)
			}
			if b.ID() == id {
				o.Failf("%s: a batch keeps its ID after Reset", what)
			}
			sim.clear(op.S)
		}
		full := n == len(c.Ops)-1 || n%5 == 4
		for i := -1; i < nSlots; i++ {
			if i >= 0 && (c.Types[i] != "rw" || sim.slots[i].rest) {
				continue
			}
			if i >= 0 && !full && i != op.S && i != op.To {
				continue
			}
			var rb bond.Batch
			if i >= 0 {
				rb = batches[i]
				for t, p := range sim.slots[i].pend {
					for k := range p {
						if _, ok := sim.base[t].rows[k]; ok {
							readPending[i] = true
						}
					}
				}
			}
			readUser(o, fmt.Sprintf("%s (%s), user keys read through slot %d", what, op.K, i), st, sim, i, rb)
			v := sim.view(i)
			for t, tb := range tbs {
				readAll(o, fmt.Sprintf("%s (%s), table %d read through slot %d", what, op.K, c.S[t].TableID, i), tb, v[t], sim, rb, full)
			}
		}
	}
	for i := range batches {
		o.NoErr(batches[i].Close(), "batch close")
		batches[i] = nil
	}
	for t, tb := range tbs {
		checkTable(o, st, tb, sim.base[t], nil, true)
		checkIndexes(o, st, tb, sim.base[t], true)
	}
	readUser(o, "at the end", st, sim, -1, nil)
	st.close()
}

// readUser compares the user keys seen through a batch with the reference.
func readUser(o *fw.Obs, what string, st *Store, sim *batchSim, i int, b bond.Batch) {
	want := sim.userView(i)
	var bs []bond.Batch
	if b != nil {
		bs = append(bs, b)
	}
	it := st.db.Iter(&bond.IterOptions{IterOptions: pebble.IterOptions{LowerBound: userKey(-1, 0), UpperBound: userKey(nSlots, 0)}}, bs...)
	ok := it.First()
	for s := -1; s < nSlots; s++ {
		for k := 0; k < nUser; k++ {
			v, has := want[(s+1)*nUser+k]
			key := userKey(s, k)
			o.Evals(1)
			got, closer, err := st.db.Get(key, bs...)
			if has && (err != nil || string(got) != v) || !has && !errors.Is(err, bond.ErrNotFound) && !errors.Is(err, pebble.ErrNotFound) {
				o.Failf("%s: Get(%q) = %q, %v, want %q (%v)", what, key, got, err, v, has)
			}
			if err == nil {
				o.NoErr(closer.Close(), "closer")
			}
			if has {
				if !ok || !bytes.Equal(it.Key(), key) || string(it.Value()) != v {
					o.Failf("%s: the iterator does not deliver %q", what, key)
				}
				ok = it.Next()
			}
		}
	}
	if ok {
		o.Failf("%s: the iterator delivers %q", what, it.Key())
	}
	o.NoErr(it.Error(), "iterator")
	o.NoErr(it.Close(), "iterator close")
}

// readAll compares every read path through a batch with the model.
func readAll(o *fw.Obs, what string, tb Tbl, m *Model, sim *batchSim, b bond.Batch, full bool) {
	all := m.all()
	got, err := tb.Scan(bg, false, b)
	expectRecs(o, what+": Scan", got, err, all)
	for i := range m.s.Indexes {
		ix := &m.s.Indexes[i]
		firsts, _ := m.partitions(ix)
		if len(firsts) == 0 {
			continue
		}
		got, err = tb.ScanIdx(bg, ix.ID, Sel{Kind: "points", Recs: firsts}, false, b)
		expectRecs(o, fmt.Sprintf("%s: scan of index %d", what, ix.ID), got, err, m.entries(ix))
	}
	// rows known anywhere
	var pts []Rec
	seen := map[string]bool{}
	add := func(r Rec) {
		if k := m.s.pk(r); !seen[k] && len(pts) < 60 {
			seen[k] = true
			pts = append(pts, withPK(m.s, Rec{}, r))
		}
	}
	for t := range sim.s {
		if sim.s[t].TableID != m.s.TableID {
			continue
		}
		for _, r := range sim.base[t].all() {
			add(r)
		}
		for _, sl := range sim.slots {
			for _, r := range sl.pend[t] {
				if r != nil {
					add(*r)
				}
			}
		}
	}
	for _, p := range pts {
		want, has := m.rows[m.s.pk(p)]
		o.Evals(2)
		if e := tb.Exist(p, b); e != has {
			o.Failf("%s: Exist(%s) = %v, want %v", what, p.canon(), e, has)
		}
		g, err := tb.GetPoint(bg, p, b)
		if has && (err != nil || g.canon() != want.canon()) || !has && !errors.Is(err, bond.ErrNotFound) && !errors.Is(err, pebble.ErrNotFound) {
			o.Failf("%s: GetPoint(%s) = %s, %v, want %s (%v)", what, p.canon(), g.canon(), err, want.canon(), has)
		}
	}
	if !full {
		return
	}
	if len(pts) > 0 {
		rs, miss, err := tb.Get(bg, Sel{Kind: "points", Recs: pts}, b)
		if err != nil || len(rs) != len(pts) {
			o.Failf("%s: Get(points): %d of %d results, error %v", what, len(rs), len(pts), err)
		}
		for i, p := range pts {
			want, has := m.rows[m.s.pk(p)]
			if has && rs[i].canon() != want.canon() || !has && !miss[i] {
				o.Failf("%s: Get(points)[%d] = %s, want %s (%v)", what, i, rs[i].canon(), want.canon(), has)
			}
		}
	}
	if n := len(all); n > 0 {
		rs, _, err := tb.Get(bg, Sel{Kind: "range", Recs: []Rec{all[0], all[n-1]}}, b)
		expectRecs(o, what+": Get(range)", rs, err, all)
		sel := Sel{Kind: "ranges", Recs: []Rec{all[0], all[n/2], all[n-1], all[n-1]}}
		if n/2 < n-1 {
			rs, _, err = tb.Get(bg, sel, b)
			expectRecs(o, what+": Get(ranges)", rs, err, append(append([]Rec{}, all[:n/2+1]...), all[n-1]))
		}
	}
	got, err = tb.Scan(bg, true, b)
	expectRecs(o, what+": reverse Scan", got, err, reversed(all))
	got, err = tb.Query(Q{NoWith: true, Order: "tot"}).Run(bg, b)
	w := m.evalBase(Q{NoWith: true, Order: "tot"})
	expectRecs(o, what+": Query", got, err, w)
	got, err = tb.Query(Q{NoWith: true, Intersect: []Q{{NoWith: true}}}).Run(bg, b)
	expectRecs(o, what+": intersect Query", got, err, all)
	got, err = tb.AnyScanAll(bg, false, b)
	expectRecs(o, what+": TableAnyScanner Scan", got, err, all)
	got, err = tb.AnyScanEach(bg, true, b)
	expectRecs(o, what+": TableAnyScanner ScanForEach", got, err, reversed(all))
}
