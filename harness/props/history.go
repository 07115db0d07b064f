package props

import (
	"context"
	"errors"
	"fmt"
	"sort"

	"github.com/go-bond/bond"
	"pgregory.net/rapid"
	"verifbond/fw"
)

// Op is one step of a table history.
type Op struct {
	K    string // insert update upsert delete uinsert uupdate flush compact reopen check
	Rs   []Rec  `json:",omitempty"`
	C    string `json:",omitempty"` // upsert conflict: "" (replace), old, merge
	B    string `json:",omitempty"` // "": own batch; rw, wo: through a user batch
	Drop bool   `json:",omitempty"` // with B: close the batch without commit
	Pad  int    `json:",omitempty"` // every record gets this much more payload (see padded)
}

// padded returns the operation with the payload that Pad stands for.
func (op Op) padded() Op {
	if op.Pad <= 0 || op.Pad > 1<<20 {
		return op
	}
	rs := make([]Rec, len(op.Rs))
	for i, r := range op.Rs {
		r = r.clone()
		b := make([]byte, op.Pad)
		x := uint32(i + 1)
		for j := range b {
			x = x*1664525 + 1013904223
			b[j] = byte(x >> 24)
		}
		r.P += string(toText(b))
		rs[i] = r
	}
	op.Rs, op.Pad = rs, 0
	return op
}

// genPad is mostly 0.
func genPad(t *rapid.T) int {
	if rapid.IntRange(0, 3).Draw(t, "padded") != 0 {
		return 0
	}
	return rapid.SampledFrom([]int{100, 1000, 2000, 5000, 20000, 70000, 140000, 300000}).Draw(t, "pad")
}

// HistCase is a table configuration and a history.
type HistCase struct {
	S   Schema
	DB  DBOpt
	Ops []Op
}

var bg = context.Background()

func inPK(s Schema, f string) bool {
	for _, k := range s.PK {
		if k == f || (f == "N" && k == "bN") || (f == "ID" && k == "^ID") {
			return true
		}
	}
	return false
}

// withPK returns r with the primary key fields of p.
func withPK(s Schema, r, p Rec) Rec {
	for _, f := range s.PK {
		switch f {
		case "ID", "^ID":
			r.ID = p.ID
		case "N", "bN":
			r.N = p.N
		case "S":
			r.S = p.S
		case "B":
			r.B = append([]byte(nil), p.B...)
		case "A":
			r.A = p.A
		case "D":
			r.D = p.D
		case "W":
			r.W = p.W
		case "H":
			r.H = p.H
		case "Y":
			r.Y = p.Y
		default:
			panic("withPK " + f)
		}
	}
	return r
}

// conflictFn is the upsert conflict function by name; it keeps the primary key.
func conflictFn(s Schema, name string) func(old, new Rec) Rec {
	switch name {
	case "old":
		return func(old, new Rec) Rec { return old }
	case "merge":
		return func(old, new Rec) Rec {
			c := new.clone()
			c.P = old.P + "+" + new.P
			if len(c.P) > 80 {
				c.P = c.P[:80]
			}
			c.F = old.F != new.F
			c.M = nil
			if old.M != nil || new.M != nil {
				c.M = map[string]int{}
				for k, v := range old.M {
					c.M[k] += v
				}
				for k, v := range new.M {
					c.M[k] += v
				}
			}
			if !inPK(s, "A") {
				c.A = old.A + new.A
			}
			if !inPK(s, "N") {
				c.N = old.N
			}
			return c
		}
	}
	return nil
}

func foldConflict(f func(old, new Rec) Rec, old, new Rec) Rec {
	if f == nil {
		return new
	}
	return f(old.clone(), new.clone())
}

// apply runs a write on the model. ok is false if the operation must be refused,
// in which case the model is unchanged.
func (m *Model) apply(op Op) (ok bool) {
	switch op.K {
	case "insert":
		seen := map[string]bool{}
		for _, r := range op.Rs {
			k := m.s.pk(r)
			if m.has(r) || seen[k] {
				return false
			}
			seen[k] = true
		}
		for _, r := range op.Rs {
			m.put(r)
		}
	case "update":
		for _, r := range op.Rs {
			if !m.has(r) {
				return false
			}
		}
		for _, r := range op.Rs {
			m.put(r)
		}
	case "upsert":
		f := conflictFn(m.s, op.C)
		for _, r := range op.Rs {
			if m.has(r) {
				m.put(foldConflict(f, m.rows[m.s.pk(r)], r))
			} else {
				m.put(r)
			}
		}
	case "delete":
		for _, r := range op.Rs {
			m.del(r)
		}
	case "uinsert", "uupdate":
		for _, r := range op.Rs {
			m.put(r)
		}
	}
	return true
}

func (m *Model) keys() []string {
	var ks []string
	for k := range m.rows {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// genWrite generates one write operation, steering it with the model so that
// most writes do something.
func genWrite(t *rapid.T, m *Model, d Dom, maxRecs int) Op {
	n, rare := rapid.IntRange(1, maxRecs).Draw(t, "n"), 9
	if rapid.IntRange(0, 29).Draw(t, "many") == 0 {
		n, rare = rapid.IntRange(13, 40).Draw(t, "nmany"), 50
	}
	ks := m.keys()
	existing := func() Rec {
		return m.rows[ks[rapid.IntRange(0, len(ks)-1).Draw(t, "which")]]
	}
	kinds := []string{"insert", "insert", "upsert", "upsert", "delete", "uinsert"}
	if len(ks) > 0 {
		kinds = append(kinds, "update", "update", "update", "uupdate", "upsert", "delete")
	}
	op := Op{K: rapid.SampledFrom(kinds).Draw(t, "kind")}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		r := genRec(t, d)
		switch op.K {
		case "insert":
			// mostly fresh keys
			if rapid.IntRange(0, rare).Draw(t, "dup") != 0 && (m.has(r) || seen[m.s.pk(r)]) {
				continue
			}
		case "uinsert":
			if m.has(r) || seen[m.s.pk(r)] {
				continue
			}
		case "update":
			if rapid.IntRange(0, rare+3).Draw(t, "absent") != 0 {
				r = withPK(m.s, r, existing())
			}
		case "uupdate":
			r = withPK(m.s, r, existing())
			if seen[m.s.pk(r)] {
				continue
			}
		case "upsert":
			if len(ks) > 0 && rapid.Bool().Draw(t, "existing") {
				r = withPK(m.s, r, existing())
			} else if len(op.Rs) > 0 && rapid.IntRange(0, 2).Draw(t, "again") == 0 {
				r = withPK(m.s, r, op.Rs[rapid.IntRange(0, len(op.Rs)-1).Draw(t, "prev")])
			}
		case "delete":
			if len(ks) > 0 && rapid.IntRange(0, 4).Draw(t, "gone") != 0 {
				e := existing()
				switch rapid.IntRange(0, 2).Draw(t, "stale") {
				case 0: // only the primary key is filled in, as the README does
					r = withPK(m.s, Rec{}, e)
				case 1:
					r = withPK(m.s, r, e)
				default:
					r = e.clone()
				}
			}
		}
		seen[m.s.pk(r)] = true
		op.Rs = append(op.Rs, r)
	}
	if op.K == "upsert" {
		op.C = rapid.SampledFrom([]string{"", "old", "merge", "merge"}).Draw(t, "conflict")
	}
	switch rapid.IntRange(0, 5).Draw(t, "batch") {
	case 0:
		op.B = "rw"
	case 1:
		op.B = "wo"
	}
	if op.B != "" && rapid.IntRange(0, 4).Draw(t, "drop") == 0 {
		op.Drop = true
	}
	return op
}

func genHist(maxIdx, maxOps, maxRecs int) func(t *rapid.T) HistCase {
	return func(t *rapid.T) HistCase {
		s := genSchema(t, maxIdx)
		d := genDom(t)
		c := HistCase{S: s, DB: DBOpt{SmallMem: rapid.Bool().Draw(t, "smallmem"), Bloom: rapid.Bool().Draw(t, "bloom")}}
		m := newModel(s)
		n := rapid.IntRange(1, maxOps).Draw(t, "ops")
		for i := 0; i < n; i++ {
			switch k := rapid.IntRange(0, 19).Draw(t, "op"); {
			case k == 0:
				c.Ops = append(c.Ops, Op{K: "flush"})
			case k == 1:
				c.Ops = append(c.Ops, Op{K: "compact"})
			case k == 2:
				c.Ops = append(c.Ops, Op{K: "reopen"})
			case k == 3:
				c.Ops = append(c.Ops, Op{K: "check"})
			default:
				op := genWrite(t, m, d, maxRecs)
				if len(op.Rs) == 0 {
					continue
				}
				if !op.Drop {
					m.apply(op)
				}
				c.Ops = append(c.Ops, op)
			}
		}
		return c
	}
}

// doWrite runs a write on the table through batch b.
func doWrite(tb Tbl, m *Model, op Op, b bond.Batch) error { return doWriteCtx(bg, tb, m, op, b) }

func doWriteCtx(ctx context.Context, tb Tbl, m *Model, op Op, b bond.Batch) error {
	switch op.K {
	case "insert":
		return tb.Insert(ctx, op.Rs, b)
	case "update":
		return tb.Update(ctx, op.Rs, b)
	case "upsert":
		return tb.Upsert(ctx, op.Rs, conflictFn(m.s, op.C), b)
	case "delete":
		return tb.Delete(ctx, op.Rs, b)
	case "uinsert":
		return tb.UnsafeInsert(ctx, op.Rs, b)
	case "uupdate":
		var old []Rec
		for _, r := range op.Rs {
			old = append(old, m.rows[m.s.pk(r)])
		}
		return tb.UnsafeUpdate(ctx, op.Rs, old, b)
	}
	return fmt.Errorf("unknown op %s", op.K)
}

// unsafeOK says whether an unsafe operation respects its precondition (a shrunk
// case may not).
func unsafeOK(m *Model, op Op) bool {
	seen := map[string]bool{}
	for _, r := range op.Rs {
		k := m.s.pk(r)
		if seen[k] {
			return false
		}
		seen[k] = true
		if op.K == "uinsert" && m.has(r) || op.K == "uupdate" && !m.has(r) {
			return false
		}
	}
	return true
}

func batchOf(db bond.DB, kind string) bond.Batch {
	switch kind {
	case "rw":
		return db.Batch(bond.BatchTypeReadWrite)
	case "wo":
		return db.Batch(bond.BatchTypeWriteOnly)
	}
	return nil
}

// runHist runs a history; check compares the real table with the model.
func runHist(o *fw.Obs, c HistCase, check func(st *Store, tb Tbl, m *Model, full bool)) {
	st := openStore(o, c.DB)
	tb := openTable(st.db, c.S)
	m := newModel(c.S)
	mutations, restarts := 0, 0
	for i, op := range c.Ops {
		switch op.K {
		case "flush":
			st.flush()
			restarts++
		case "compact":
			st.compact()
			restarts++
		case "reopen":
			st.reopen()
			tb = openTable(st.db, c.S)
			restarts++
		case "check":
			check(st, tb, m, true)
			continue
		default:
			if (op.K == "uinsert" || op.K == "uupdate") && !unsafeOK(m, op) {
				continue
			}
			before := m.copy()
			ok := m.apply(op)
			b := batchOf(st.db, op.B)
			err := doWrite(tb, before, op, b)
			if errors.Is(err, errMutated) {
				o.Failf("op %d %s: %v", i, op.K, err)
			}
			if ok && err != nil {
				o.Failf("op %d %s of %s: refused with %q, but the model accepts it", i, op.K, canons(op.Rs), err)
			}
			if !ok && err == nil {
				o.Failf("op %d %s of %s: accepted, but must be refused", i, op.K, canons(op.Rs))
			}
			if b != nil {
				if ok && !op.Drop {
					o.NoErr(b.Commit(bond.Sync), "op %d commit", i)
				} else {
					m = before
				}
				o.NoErr(b.Close(), "op %d batch close", i)
			}
			o.Label("op:" + op.K)
			if !ok {
				o.Label("op refused: " + op.K)
			}
			if ok && !op.Drop && len(before.rows) > 0 && op.K != "insert" && op.K != "uinsert" {
				for _, r := range op.Rs {
					if before.has(r) {
						mutations++
						break
					}
				}
			}
		}
		check(st, tb, m, false)
	}
	check(st, tb, m, true)
	st.reopen()
	tb = openTable(st.db, c.S)
	check(st, tb, m, true)
	st.close()
	if mutations > 0 && restarts > 0 {
		o.NonTrivial()
	}
	o.Label(fmt.Sprintf("rows<=%d", bucket(len(m.rows))))
	if len(c.S.Indexes) > 0 {
		o.Label("with secondary indexes")
	}
	for _, f := range c.S.PK {
		if f == "S" || f == "B" {
			o.Label("variable-length primary key")
		}
	}
}

func bucket(n int) int {
	for _, b := range []int{0, 1, 3, 10, 30, 100} {
		if n <= b {
			return b
		}
	}
	return 1000
}

func expectRecs(o *fw.Obs, what string, got []Rec, err error, want []Rec) {
	o.Evals(1)
	if err != nil {
		o.Failf("%s: unexpected error %v", what, err)
	}
	if !sameRecs(got, want) {
		if len(got)+len(want) > 200 {
			i := 0
			for i < len(got) && i < len(want) && got[i].canon() == want[i].canon() {
				i++
			}
			at := func(rs []Rec) string {
				if i < len(rs) {
					return rs[i].canon()
				}
				return "nothing"
			}
			o.Failf("%s: %d rows, want %d; row %d is\n  got  %s\n  want %s", what, len(got), len(want), i, at(got), at(want))
		}
		o.Failf("%s:\n  got  %s\n  want %s", what, canons(got), canons(want))
	}
}

// checkTable compares every way of reading the table with the model.
func checkTable(o *fw.Obs, st *Store, tb Tbl, m *Model, probe []Rec, full bool) {
	all := m.all()
	got, err := tb.Scan(bg, false, nil)
	expectRecs(o, "Scan", got, err, all)
	if !full {
		return
	}
	got, err = tb.Scan(bg, true, nil)
	expectRecs(o, "Scan reverse", got, err, reversed(all))
	got, err = tb.Query(Q{NoWith: true}).Run(bg, nil)
	expectRecs(o, "Query().Execute", got, err, all)
	// point reads of present and absent keys
	seen := map[string]bool{}
	var pts []Rec
	for _, r := range append(append([]Rec{}, all...), probe...) {
		if k := m.s.pk(r); !seen[k] {
			seen[k] = true
			pts = append(pts, withPK(m.s, Rec{}, r))
		}
	}
	for _, p := range pts {
		want, has := m.rows[m.s.pk(p)]
		if e := tb.Exist(p, nil); e != has {
			o.Failf("Exist(%s) = %v, want %v", p.canon(), e, has)
		}
		g, err := tb.GetPoint(bg, p, nil)
		o.Evals(2)
		switch {
		case has && err != nil:
			o.Failf("GetPoint(%s): %v, want %s", p.canon(), err, want.canon())
		case has && g.canon() != want.canon():
			o.Failf("GetPoint(%s) = %s, want %s", p.canon(), g.canon(), want.canon())
		case !has && !errors.Is(err, bond.ErrNotFound):
			o.Failf("GetPoint(%s) of an absent key: %v, %v", p.canon(), g.canon(), err)
		}
	}
	if len(pts) > 0 {
		rs, miss, err := tb.Get(bg, Sel{Kind: "points", Recs: pts}, nil)
		o.Evals(1)
		if err != nil || len(rs) != len(pts) {
			o.Failf("Get(points %s): %d results, error %v", canons(pts), len(rs), err)
		}
		for i, p := range pts {
			want, has := m.rows[m.s.pk(p)]
			if has && rs[i].canon() != want.canon() {
				o.Failf("Get(points)[%d] = %s, want %s", i, rs[i].canon(), want.canon())
			}
			if !has && !miss[i] {
				o.Failf("Get(points)[%d] = %s for the absent key %s", i, rs[i].canon(), p.canon())
			}
		}
	}
}

func probesOf(ops []Op) []Rec {
	var rs []Rec
	for _, op := range ops {
		rs = append(rs, op.Rs...)
	}
	if len(rs) > 40 {
		rs = rs[:40]
	}
	return rs
}
