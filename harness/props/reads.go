package props

import (
	"fmt"
	"math"
	"sort"

	"github.com/go-bond/bond"
	"pgregory.net/rapid"
	"verifbond/fw"
)

// TableCase is a table with content: a schema, the writes that fill it, and
// writes left pending in a read-write batch.
type TableCase struct {
	S    Schema
	DB   DBOpt
	Load []Op
	Pend []Op `json:",omitempty"`
	// UseBatch runs the reads through a read-write batch (empty when Pend is).
	UseBatch bool `json:",omitempty"`
}

// genTableCase generates a table; it returns the model of what the reads must
// see, and the domain the records come from.
func genTableCase(t *rapid.T, maxIdx int) (TableCase, *Model, Dom) {
	s := genSchema(t, maxIdx)
	d := genDom(t)
	c := TableCase{S: s, DB: DBOpt{SmallMem: rapid.Bool().Draw(t, "smallmem"), Bloom: rapid.Bool().Draw(t, "bloom")}}
	m := newModel(s)
	n := rapid.IntRange(0, 30).Draw(t, "rows")
	ins := Op{K: "insert"}
	for i := 0; i < n; i++ {
		r := genRec(t, d)
		if !m.has(r) {
			m.put(r)
			ins.Rs = append(ins.Rs, r)
		}
	}
	if len(ins.Rs) > 0 {
		c.Load = append(c.Load, ins)
	}
	more := rapid.IntRange(0, 3).Draw(t, "more")
	for i := 0; i < more; i++ {
		if rapid.IntRange(0, 3).Draw(t, "fl") == 0 {
			c.Load = append(c.Load, Op{K: rapid.SampledFrom([]string{"flush", "compact"}).Draw(t, "flk")})
			continue
		}
		op := genWrite(t, m, d, 6)
		op.B, op.Drop = "", false
		if len(op.Rs) == 0 {
			continue
		}
		m.apply(op)
		c.Load = append(c.Load, op)
	}
	if rapid.IntRange(0, 3).Draw(t, "usebatch") == 0 {
		c.UseBatch = true
		k := rapid.IntRange(0, 3).Draw(t, "pend")
		for i := 0; i < k; i++ {
			op := genWrite(t, m, d, 5)
			op.B, op.Drop = "", false
			if len(op.Rs) == 0 {
				continue
			}
			m2 := m.copy()
			if !m2.apply(op) {
				continue // a refused write leaves a batch partly written
			}
			m.apply(op)
			c.Pend = append(c.Pend, op)
		}
	}
	return c, m, d
}

// load opens the database of the case, runs its writes and returns the model of
// what reads with the returned batch (nil if none) must see.
func (c TableCase) load(o *fw.Obs) (st *Store, tb Tbl, m *Model, b bond.Batch) {
	st = openStore(o, c.DB)
	tb = openTable(st.db, c.S)
	m = newModel(c.S)
	c.runLoad(o, st, tb, m)
	b = c.pend(o, st, tb, m)
	return
}

func (c TableCase) runLoad(o *fw.Obs, st *Store, tb Tbl, m *Model) {
	for i, op := range c.Load {
		switch op.K {
		case "flush":
			st.flush()
		case "compact":
			st.compact()
		default:
			loadWrite(o, tb, m, op, nil, i)
		}
	}
}

func (c TableCase) pend(o *fw.Obs, st *Store, tb Tbl, m *Model) (b bond.Batch) {
	if c.UseBatch {
		b = st.db.Batch(bond.BatchTypeReadWrite)
		bb := b
		o.Cleanup(func() { _ = bb.Close() })
		for i, op := range c.Pend {
			if !m.copy().apply(op) {
				continue
			}
			loadWrite(o, tb, m, op, b, i)
		}
	}
	return b
}

func loadWrite(o *fw.Obs, tb Tbl, m *Model, op Op, b bond.Batch, i int) {
	if (op.K == "uinsert" || op.K == "uupdate") && !unsafeOK(m, op) {
		return
	}
	before := m.copy()
	ok := m.apply(op)
	err := doWrite(tb, before, op, b)
	if ok && err != nil {
		o.Failf("loading, op %d %s of %s: refused with %q", i, op.K, canons(op.Rs), err)
	}
	if !ok && err == nil {
		o.Failf("loading, op %d %s of %s: accepted, but must be refused", i, op.K, canons(op.Rs))
	}
}

func (s Schema) index(id uint8) *IndexSpec {
	for i := range s.Indexes {
		if s.Indexes[i].ID == id {
			return &s.Indexes[i]
		}
	}
	return nil
}

// withKey returns r with the index fields of p.
func withKey(ix *IndexSpec, r, p Rec) Rec {
	for _, f := range ix.Key {
		if f == "F" {
			r.F = p.F
			continue
		}
		r = withPK(Schema{PK: []Field{f}}, r, p)
	}
	return r
}

func genIdx(t *rapid.T, s Schema) uint8 {
	k := rapid.IntRange(0, len(s.Indexes)).Draw(t, "qidx")
	if k == 0 {
		return 0
	}
	return s.Indexes[k-1].ID
}

// genPos generates a record that describes a position of an index.
func genPos(t *rapid.T, s Schema, ix *IndexSpec, m *Model, d Dom) Rec {
	ks := m.keys()
	r := genRec(t, d)
	if len(ks) == 0 {
		return r
	}
	e := m.rows[ks[rapid.IntRange(0, len(ks)-1).Draw(t, "posrow")]]
	switch rapid.IntRange(0, 4).Draw(t, "poskind") {
	case 0:
		return r
	case 1: // only the index value is filled in
		if ix == nil {
			return withPK(s, Rec{}, e)
		}
		return withKey(ix, Rec{}, e)
	case 2:
		if ix == nil {
			return withPK(s, Rec{}, e)
		}
		return withKey(ix, r, e)
	default:
		return e.clone()
	}
}

// genSel generates a selector whose parts do not overlap.
func genSel(t *rapid.T, s Schema, ixID uint8, m *Model, d Dom) Sel {
	ix := s.index(ixID)
	kind := rapid.SampledFrom([]string{"point", "point", "points", "range", "range", "ranges"}).Draw(t, "selkind")
	switch kind {
	case "point":
		return Sel{Kind: kind, Recs: []Rec{genPos(t, s, ix, m, d)}}
	case "points":
		n := rapid.IntRange(0, 4).Draw(t, "npoints")
		sel := Sel{Kind: kind}
	next:
		for i := 0; i < n; i++ {
			p := genPos(t, s, ix, m, d)
			for _, q := range sel.Recs {
				if ix == nil && s.cmpPK(p, q) == 0 || ix != nil && ix.cmpIdx(p, q) == 0 {
					continue next
				}
			}
			sel.Recs = append(sel.Recs, p)
		}
		return sel
	default:
		n := 1
		if kind == "ranges" {
			n = rapid.IntRange(0, 3).Draw(t, "nranges")
		}
		var ps []Rec
		if ix != nil && ix.hasVar() {
			// the order of index values of different length is not part of the contract:
			// each range stays within one index value
			for i := 0; i < n; i++ {
				lo := genPos(t, s, ix, m, d)
				hi := withKey(ix, genPos(t, s, ix, m, d), lo)
				if s.cmpEntry(ix, lo, hi) > 0 {
					lo, hi = hi, lo
				}
				dup := false
				for _, q := range ps {
					dup = dup || ix.cmpIdx(q, lo) == 0
				}
				if !dup {
					ps = append(ps, lo, hi)
				}
			}
		} else {
			for i := 0; i < 2*n; i++ {
				ps = append(ps, genPos(t, s, ix, m, d))
			}
			sort.SliceStable(ps, func(i, j int) bool { return s.cmpEntry(ix, ps[i], ps[j]) < 0 })
			// touching ranges would select a row twice
			var out []Rec
			for i := 0; i+1 < len(ps); i += 2 {
				if len(out) > 0 && s.cmpEntry(ix, out[len(out)-1], ps[i]) == 0 {
					continue
				}
				out = append(out, ps[i], ps[i+1])
			}
			ps = out
		}
		sel := Sel{Kind: kind}
		if kind == "range" {
			sel.Recs = ps[:2]
			return sel
		}
		if len(ps) == 0 {
			return sel
		}
		for _, i := range rapid.Permutation(seq(len(ps)/2)).Draw(t, "rangeorder") {
			sel.Recs = append(sel.Recs, ps[2*i], ps[2*i+1])
		}
		return sel
	}
}

// validSel says whether a selector is in the domain (a shrunk case may not be).
func validSel(s Schema, ixID uint8, sel Sel) bool {
	ix := s.index(ixID)
	switch sel.Kind {
	case "point":
		return len(sel.Recs) == 1
	case "points":
		for i := range sel.Recs {
			for j := 0; j < i; j++ {
				if ix == nil && s.cmpPK(sel.Recs[i], sel.Recs[j]) == 0 || ix != nil && ix.cmpIdx(sel.Recs[i], sel.Recs[j]) == 0 {
					return false
				}
			}
		}
	case "range":
		return len(sel.Recs) == 2 && s.cmpEntry(ix, sel.Recs[0], sel.Recs[1]) <= 0
	}
	return true
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

var querySteps = []string{"with", "filter", "order", "offset", "limit", "reverse", "after", "intersect"}

var genCount = rapid.Custom(func(t *rapid.T) uint64 {
	if rapid.IntRange(0, 5).Draw(t, "huge") == 0 {
		return rapid.SampledFrom([]uint64{math.MaxUint64, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64 - 1, 1 << 32, 1 << 31}).Draw(t, "hugen")
	}
	return uint64(rapid.IntRange(1, 12).Draw(t, "smalln"))
})

func genQ(t *rapid.T, s Schema, m *Model, d Dom) Q {
	q := Q{Index: genIdx(t, s)}
	if rapid.IntRange(0, 9).Draw(t, "nowith") == 0 {
		q.NoWith, q.Index = true, 0
	} else {
		q.Sel = genSel(t, s, q.Index, m, d)
	}
	genClauses(t, &q)
	return q
}

func genClauses(t *rapid.T, q *Q) {
	if rapid.IntRange(0, 2).Draw(t, "filter?") == 0 {
		q.Filter = rapid.SampledFrom([]string{"F", "evenID", "Nneg", "Sa", "never"}).Draw(t, "filter")
	}
	if rapid.IntRange(0, 3).Draw(t, "order?") == 0 {
		q.Order = rapid.SampledFrom([]string{"N", "-A", "tot"}).Draw(t, "order")
	}
	if rapid.IntRange(0, 2).Draw(t, "offset?") == 0 {
		q.Offset = genCount.Draw(t, "offset")
	}
	if rapid.IntRange(0, 2).Draw(t, "limit?") == 0 {
		q.Limit = genCount.Draw(t, "limit")
	}
	// an order function decides the order alone
	if q.Order == "" && rapid.Bool().Draw(t, "reverse") {
		q.Reverse = true
	}
	if rapid.Bool().Draw(t, "shuffle") {
		q.Steps = rapid.Permutation(querySteps).Draw(t, "steps")
	}
	if rapid.IntRange(0, 5).Draw(t, "again?") == 0 {
		q.Again = rapid.SliceOfN(rapid.SampledFrom(querySteps), 1, 3).Draw(t, "again")
	}
}

// evalBase is the reference result of a query before offset and limit. Rows that
// tie under an order function may come in any order.
func (m *Model) evalBase(q Q) []Rec {
	var rows []Rec
	if q.NoWith {
		rows = m.all()
	} else {
		rows = m.sel(m.s.index(q.Index), q.Sel)
	}
	if len(q.Intersect) > 0 {
		in := map[string]int{}
		for _, r := range rows {
			in[m.s.pk(r)] = 1
		}
		for i, iq := range q.Intersect {
			var part []Rec
			if iq.NoWith {
				part = m.all()
			} else {
				part = m.sel(m.s.index(iq.Index), iq.Sel)
			}
			for _, r := range part {
				if in[m.s.pk(r)] == i+1 {
					in[m.s.pk(r)] = i + 2
				}
			}
		}
		rows = nil
		for _, r := range m.all() {
			if in[m.s.pk(r)] == len(q.Intersect)+1 {
				rows = append(rows, r)
			}
		}
	}
	if q.Reverse {
		rows = reversed(rows)
	}
	var out []Rec
	for _, r := range rows {
		if filterRec(q.Filter, r) {
			out = append(out, r)
		}
	}
	if q.Order != "" {
		sort.SliceStable(out, func(i, j int) bool { return m.lessRec(q.Order, out[i], out[j]) })
	}
	return out
}

func (m *Model) lessRec(name string, a, b Rec) bool { return m.s.lessRec(name, a, b) }

func (s Schema) lessRec(name string, a, b Rec) bool {
	switch name {
	case "N":
		return a.N < b.N
	case "-A":
		return a.A > b.A
	case "tot": // a total order
		if a.F != b.F {
			return b.F
		}
		return s.cmpPK(a, b) > 0
	}
	panic("unknown order " + name)
}

func page(rows []Rec, offset, limit uint64) []Rec {
	if offset >= uint64(len(rows)) {
		return nil
	}
	rows = rows[offset:]
	if limit > 0 && limit < uint64(len(rows)) {
		rows = rows[:limit]
	}
	return rows
}

// checkQuery compares the result of a query with the reference.
func (m *Model) checkQuery(o *fw.Obs, what string, q Q, base []Rec, got []Rec, err error) {
	want := page(base, q.Offset, q.Limit)
	if q.Order == "" || q.Order == "tot" {
		expectRecs(o, what, got, err, want)
		return
	}
	o.Evals(1)
	bad := ""
	switch {
	case err != nil:
		bad = fmt.Sprintf("unexpected error %v", err)
	case len(got) != len(want):
		bad = fmt.Sprintf("%d rows, want %d", len(got), len(want))
	}
	in := map[string]int{}
	for _, r := range base {
		in[r.canon()]++
	}
	for i := range got {
		if bad != "" {
			break
		}
		if in[got[i].canon()] == 0 {
			bad = fmt.Sprintf("row %d %s is repeated or not selected", i, got[i].canon())
			break
		}
		in[got[i].canon()]--
		if m.lessRec(q.Order, got[i], want[i]) || m.lessRec(q.Order, want[i], got[i]) {
			bad = fmt.Sprintf("row %d is out of order", i)
		}
	}
	if bad != "" {
		o.Failf("%s: %s\n  got  %s\n  want %s (ties in any order)", what, bad, canons(got), canons(want))
	}
}
