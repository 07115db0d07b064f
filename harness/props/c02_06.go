package props

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/go-bond/bond"
	"pgregory.net/rapid"
	"verifbond/fw"
)

// partitions returns one representative (the first entry) per index value.
func (m *Model) partitions(ix *IndexSpec) (firsts []Rec, parts [][]Rec) {
	for _, r := range m.entries(ix) {
		if len(firsts) == 0 || ix.cmpIdx(firsts[len(firsts)-1], r) != 0 {
			firsts = append(firsts, r)
			parts = append(parts, nil)
		}
		parts[len(parts)-1] = append(parts[len(parts)-1], r)
	}
	return
}

// checkIndexes compares every index with the model: the stored keys are counted
// and each partition is scanned.
func checkIndexes(o *fw.Obs, st *Store, tb Tbl, m *Model, full bool) {
	total := len(m.rows)
	if n := len(st.rawKeys(m.s.TableID, 0)); n != total {
		o.Failf("%d stored row keys, want %d", n, total)
	}
	for i := range m.s.Indexes {
		ix := &m.s.Indexes[i]
		total += len(m.entries(ix))
		checkIndex(o, st, tb, m, ix, full)
	}
	if n := len(st.rawKeys(m.s.TableID)); n != total {
		o.Failf("%d stored keys of the table, want %d", n, total)
	}
}

// checkIndex compares one index with the model.
func checkIndex(o *fw.Obs, st *Store, tb Tbl, m *Model, ix *IndexSpec, full bool) {
	want := m.entries(ix)
	o.Evals(1)
	if keys := st.rawKeys(m.s.TableID, ix.ID); len(keys) != len(want) {
		o.Failf("index %d %v: %d stored entries %x, want the entries of %s", ix.ID, *ix, len(keys), keys, canons(want))
	}
	firsts, parts := m.partitions(ix)
	if len(firsts) == 0 {
		return
	}
	sel := Sel{Kind: "points", Recs: firsts}
	got, err := tb.ScanIdx(bg, ix.ID, sel, false, nil)
	expectRecs(o, fmt.Sprintf("scan of all of index %d", ix.ID), got, err, want)
	if !full {
		return
	}
	got, err = tb.ScanIdx(bg, ix.ID, sel, true, nil)
	expectRecs(o, fmt.Sprintf("reverse scan of all of index %d", ix.ID), got, err, reversed(want))
	for j, f := range firsts {
		p := Sel{Kind: "point", Recs: []Rec{f}}
		got, err = tb.ScanIdx(bg, ix.ID, p, false, nil)
		expectRecs(o, fmt.Sprintf("scan of index %d from %s", ix.ID, f.canon()), got, err, parts[j])
		got, err = tb.Query(Q{Index: ix.ID, Sel: p, Reverse: true}).Run(bg, nil)
		expectRecs(o, fmt.Sprintf("reverse query of index %d from %s", ix.ID, f.canon()), got, err, reversed(parts[j]))
	}
}

// ReadsCase is a table and selectors or queries to run on it.
type SelAt struct {
	Index uint8
	Sel   Sel
}

type SelCase struct {
	T    TableCase
	Sels []SelAt
}

type QueryCase struct {
	T  TableCase
	Qs []Q
}

func init() {
	fw.Register(fw.Prop{
		ID:    "C02",
		Title: "Every secondary index lists exactly the matching rows, in order",
		Rule: "a case is a table with up to four indexes and a history of writes as in C01, with deletes that pass only the primary key; after each step the stored entries are counted and all partitions scanned; " +
			"it is non-trivial when it changes or removes an existing row of a table with an index and has a flush, compaction or reopen",
		Quick: 2200, Thorough: 35000,
	}, func(t *rapid.T) HistCase {
		c := genHist(3, 18, 5)(t)
		if len(c.S.Indexes) == 0 {
			c.S.Indexes = []IndexSpec{genIndexSpec(t, 1)}
		}
		return c
	}, func(c HistCase, o *fw.Obs) {
		runHist(o, c, func(st *Store, tb Tbl, m *Model, full bool) { checkIndexes(o, st, tb, m, full) })
		for _, ix := range c.S.Indexes {
			if ix.Filter != "" {
				o.Label("filtered index")
			}
			for _, of := range ix.Order {
				o.Label(fmt.Sprintf("ordered index desc=%v", of.Desc))
			}
		}
	})

	fw.Register(fw.Prop{
		ID:    "C03",
		Title: "A query returns what its clauses say",
		Rule: "a case is a table filled by writes, possibly with writes pending in a read-write batch, and up to 8 queries with random clauses; " +
			"it is non-trivial when some query has at least two clauses and selects some but not all rows",
		Quick: 2600, Thorough: 40000,
	}, func(t *rapid.T) QueryCase {
		tc, m, d := genTableCase(t, 3)
		c := QueryCase{T: tc}
		n := rapid.IntRange(1, 8).Draw(t, "queries")
		for i := 0; i < n; i++ {
			c.Qs = append(c.Qs, genQ(t, tc.S, m, d))
		}
		return c
	}, func(c QueryCase, o *fw.Obs) {
		st, tb, m, b := c.T.load(o)
		for _, q := range c.Qs {
			if !q.NoWith && !validSel(c.T.S, q.Index, q.Sel) {
				continue
			}
			base := m.evalBase(q)
			what := fmt.Sprintf("query %s (batch %v)", mustJSON(q), b != nil)
			run := tb.Query(q)
			got, err := run.Run(bg, b)
			m.checkQuery(o, what, q, base, got, err)
			// a built query can be run again
			got, err = run.Run(bg, b)
			m.checkQuery(o, what+" again", q, base, got, err)
			clauses := 0
			for _, on := range []bool{q.Filter != "", q.Order != "", q.Offset > 0, q.Limit > 0, q.Reverse, q.Index != 0} {
				if on {
					clauses++
				}
			}
			if n := len(page(base, q.Offset, q.Limit)); clauses >= 2 && n > 0 && n < len(m.rows) {
				o.NonTrivial()
			}
			o.Label("selector " + q.Sel.Kind)
			o.Label(fmt.Sprintf("result<=%d", bucket(len(got))))
			o.Label(fmt.Sprintf("clauses=%d", clauses))
		}
		if b != nil {
			o.Label("through a batch")
			o.NoErr(b.Close(), "batch close")
		}
		st.close()
	})

	fw.Register(fw.Prop{
		ID:    "C06",
		Title: "Selectors mean the same everywhere",
		Rule: "a case is a table filled by writes, possibly with writes pending in a read-write batch, and up to 6 selectors, each run through all read paths in both directions; " +
			"it is non-trivial when some selector picks some but not all entries of its index",
		Quick: 2600, Thorough: 40000,
	}, func(t *rapid.T) SelCase {
		tc, m, d := genTableCase(t, 3)
		c := SelCase{T: tc}
		n := rapid.IntRange(1, 6).Draw(t, "sels")
		for i := 0; i < n; i++ {
			ix := genIdx(t, tc.S)
			c.Sels = append(c.Sels, SelAt{ix, genSel(t, tc.S, ix, m, d)})
		}
		return c
	}, func(c SelCase, o *fw.Obs) {
		st, tb, m, b := c.T.load(o)
		for _, sa := range c.Sels {
			if !validSel(c.T.S, sa.Index, sa.Sel) {
				continue
			}
			if checkSel(o, st, tb, m, b, sa) {
				o.NonTrivial()
			}
		}
		if b != nil {
			o.Label("through a batch")
			o.NoErr(b.Close(), "batch close")
		}
		st.close()
	})
}

func checkSel(o *fw.Obs, st *Store, tb Tbl, m *Model, b bond.Batch, sa SelAt) (some bool) {
	ix := m.s.index(sa.Index)
	want := m.sel(ix, sa.Sel)
	what := fmt.Sprintf("index %d selector %s (batch %v)", sa.Index, mustJSON(sa.Sel), b != nil)
	for _, rev := range []bool{false, true} {
		w := want
		if rev {
			w = reversed(want)
		}
		got, err := tb.ScanIdx(bg, sa.Index, sa.Sel, rev, b)
		expectRecs(o, fmt.Sprintf("ScanIndex reverse=%v of %s", rev, what), got, err, w)
		got, err = tb.Query(Q{Index: sa.Index, Sel: sa.Sel, Reverse: rev}).Run(bg, b)
		expectRecs(o, fmt.Sprintf("Query reverse=%v of %s", rev, what), got, err, w)
		got = nil
		err = tb.ScanEach(bg, sa.Index, sa.Sel, rev, b, func(key []byte, get func() (Rec, error)) (bool, error) {
			r, err := get()
			got = append(got, r)
			return true, err
		})
		expectRecs(o, fmt.Sprintf("ScanIndexForEach reverse=%v of %s", rev, what), got, err, w)
		// raw iterator: the keys refer to the rows
		it := tb.Iter(sa.Index, sa.Sel, b)
		var keys [][]byte
		step := it.Next
		ok := false
		if rev {
			step = it.Prev
			ok = it.Last()
		} else {
			ok = it.First()
		}
		for ; ok; ok = step() {
			keys = append(keys, append([]byte(nil), it.Key()...))
			if it.Valid() != ok {
				o.Failf("iterator of %s: Valid() disagrees with the step", what)
			}
		}
		if it.Valid() {
			o.Failf("iterator of %s: Valid() after its end", what)
		}
		o.NoErr(it.Error(), "iterator of %s", what)
		o.NoErr(it.Close(), "iterator close of %s", what)
		o.Evals(1)
		if len(keys) != len(w) {
			o.Failf("iterator reverse=%v of %s: %d keys %x, want %s", rev, what, len(keys), keys, canons(w))
		}
		for i, k := range keys {
			if k[0] != m.s.TableID || k[1] != sa.Index {
				o.Failf("iterator of %s: key %x is of another table or index", what, k)
			}
			dk := bond.KeyBytes(k).ToDataKeyBytes()
			if !bytes.Equal(dk, tb.DataKey(w[i])) {
				o.Failf("iterator reverse=%v of %s: key %d %x refers to row %x, want that of %s", rev, what, i, k, dk, w[i].canon())
			}
		}
	}
	if ix == nil {
		rs, miss, err := tb.Get(bg, sa.Sel, b)
		o.Evals(1)
		switch sa.Sel.Kind {
		case "point":
			w, has := m.rows[m.s.pk(sa.Sel.Recs[0])]
			if !has {
				if !errors.Is(err, bond.ErrNotFound) {
					o.Failf("Get of %s: %s, %v, want not found", what, canons(rs), err)
				}
			} else {
				expectRecs(o, "Get of "+what, rs, err, []Rec{w})
			}
		case "points":
			if err != nil || len(rs) != len(sa.Sel.Recs) {
				o.Failf("Get of %s: %d records, error %v", what, len(rs), err)
			}
			for i, p := range sa.Sel.Recs {
				w, has := m.rows[m.s.pk(p)]
				if has && rs[i].canon() != w.canon() || !has && !miss[i] {
					o.Failf("Get of %s: entry %d is %s (missing %v), want %s (%v)", what, i, rs[i].canon(), miss[i], w.canon(), has)
				}
			}
		default:
			expectRecs(o, "Get of "+what, rs, err, want)
		}
	}
	o.Label("selector " + sa.Sel.Kind)
	o.Label(fmt.Sprintf("selected<=%d", bucket(len(want))))
	if len(sa.Sel.Recs) == 0 {
		o.Label("empty selector")
	}
	return len(want) > 0 && len(want) < len(m.entries(ix))
}
