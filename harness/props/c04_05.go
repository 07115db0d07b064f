package props

import (
	"fmt"

	"github.com/go-bond/bond"
	"pgregory.net/rapid"
	"verifbond/fw"
)

// PageRun is a query run page by page.
type PageRun struct {
	Q    Q
	Size uint64
	// Offs[i] is the offset of page i (0 past the end).
	Offs []uint64 `json:",omitempty"`
	// Del[i] deletes the cursor row before page i+1; Muts[i] are writes before it.
	Del  []bool `json:",omitempty"`
	Muts [][]Op `json:",omitempty"`
}

type PageCase struct {
	T    TableCase
	Runs []PageRun
}

// filteredSel is the unpaged result with the position of the cursor: the rows
// strictly after it. The cursor may be a row that is not stored any more.
func (m *Model) after(q Q, cur Rec) []Rec {
	ix := m.s.index(q.Index)
	if len(q.Intersect) > 0 {
		ix = nil // primary key order
	}
	if q.Order != "" || len(q.Intersect) > 0 {
		base := m.evalBase(q)
		for i, r := range base {
			if m.s.pk(r) == m.s.pk(cur) {
				return base[i+1:]
			}
		}
		return base
	}
	const mark = "\x00cursor"
	m2 := m.copy()
	placed := false
	for _, r := range m2.entries(ix) {
		if m2.s.cmpEntry(ix, r, cur) == 0 {
			placed = true
		}
	}
	if !placed {
		c := cur.clone()
		c.P = mark
		m2.rows[mark] = c
	}
	var rows []Rec
	if q.NoWith {
		rows = m2.all()
	} else {
		rows = m2.sel(ix, q.Sel)
	}
	if q.Reverse {
		rows = reversed(rows)
	}
	var out []Rec
	seen := false
	for _, r := range rows {
		if m2.s.cmpEntry(ix, r, cur) == 0 {
			seen = true
			out = nil
			continue
		}
		if filterRec(q.Filter, r) {
			out = append(out, r)
		}
	}
	if !seen {
		panic("cursor row is not selected")
	}
	return out
}

func runPages(o *fw.Obs, tb Tbl, m *Model, b bond.Batch, p PageRun) {
	what := fmt.Sprintf("query %s (batch %v) page size %d", mustJSON(p.Q), b != nil, p.Size)
	full := m.evalBase(p.Q)
	q := p.Q
	q.Limit = p.Size
	modified := false
	offsets := false
	var all []Rec
	var cur *Rec
	pages := 0
	for {
		q.Offset = 0
		if pages < len(p.Offs) {
			q.Offset = p.Offs[pages]
		}
		want := full
		if cur != nil {
			q.After = cur
			want = m.after(q, *cur)
		}
		want = page(want, q.Offset, q.Limit)
		got, err := tb.Query(q).Run(bg, b)
		expectRecs(o, fmt.Sprintf("%s: page %d offset %d after %s", what, pages, q.Offset, mustJSON(cur)), got, err, want)
		if q.Offset > 0 {
			offsets = true
			o.Label("page with offset")
		}
		all = append(all, got...)
		if len(got) == 0 {
			break
		}
		c := got[len(got)-1].clone()
		cur = &c
		if q.Order == "" && len(q.Intersect) == 0 {
			if pages < len(p.Del) && p.Del[pages] {
				op := Op{K: "delete", Rs: []Rec{withPK(m.s, Rec{}, c)}}
				loadWrite(o, tb, m, op, b, pages)
				modified = true
				o.Label("cursor row deleted")
			}
			if pages < len(p.Muts) {
				for _, op := range p.Muts[pages] {
					if !m.copy().apply(op) {
						continue
					}
					loadWrite(o, tb, m, op, b, pages)
					modified = true
					o.Label("writes between pages")
				}
			}
		}
		pages++
		if pages > 400 {
			o.Failf("%s: paging does not end", what)
		}
	}
	if !modified && !offsets {
		expectRecs(o, what+": all pages", all, nil, full)
	}
	// the same selectors again, from the start
	got, err := tb.Query(p.Q).Run(bg, b)
	expectRecs(o, what+": the whole query after paging", got, err, m.evalBase(p.Q))
	if pages > 1 {
		o.NonTrivial()
	}
	o.Label(fmt.Sprintf("pages<=%d", bucket(pages)))
	o.Label("selector " + q.Sel.Kind)
	if q.Reverse {
		o.Label("reverse")
	}
	if q.Order != "" {
		o.Label("order function")
	}
	if len(q.Intersect) > 0 {
		o.Label("intersect")
	}
}

func genIntersect(t *rapid.T, s Schema, m *Model, d Dom) Q {
	part := func() Q {
		q := Q{Index: genIdx(t, s)}
		if rapid.IntRange(0, 5).Draw(t, "nowith") == 0 {
			q.NoWith, q.Index = true, 0
		} else {
			q.Sel = genSel(t, s, q.Index, m, d)
		}
		return q
	}
	q := part()
	n := rapid.IntRange(1, 3).Draw(t, "parts")
	for i := 0; i < n; i++ {
		q.Intersect = append(q.Intersect, part())
	}
	return q
}

func validQ(s Schema, q Q) bool {
	if !q.NoWith && !validSel(s, q.Index, q.Sel) {
		return false
	}
	for _, iq := range q.Intersect {
		if !validQ(s, iq) {
			return false
		}
	}
	return true
}

// InterRun is an intersect query, queries derived from it, and bad ones.
type InterRun struct {
	Q       Q
	Derived []Q    `json:",omitempty"` // each is intersected with Q in turn, from the same base
	Bad     string `json:",omitempty"` // clause added to a part that must be refused
	After   bool   `json:",omitempty"` // page once: start after the AfterAt-th row
	AfterAt int    `json:",omitempty"`
}

type InterCase struct {
	T    TableCase
	Runs []InterRun
}

func init() {
	fw.Register(fw.Prop{
		ID:    "C04",
		Title: "Paging with After visits every row exactly once",
		Rule: "a case is a table filled by writes, possibly with writes pending in a read-write batch, and up to 4 queries each paged to its end with a random page size, with cursor rows deleted, rows written and offsets between the pages; " +
			"it is non-trivial when some query has at least two non-empty pages",
		Quick: 2200, Thorough: 35000,
	}, func(t *rapid.T) PageCase {
		tc, m, d := genTableCase(t, 3)
		c := PageCase{T: tc}
		m = m.copy()
		n := rapid.IntRange(1, 4).Draw(t, "runs")
		for i := 0; i < n; i++ {
			var q Q
			if rapid.IntRange(0, 5).Draw(t, "inter") == 0 {
				q = genIntersect(t, tc.S, m, d)
				genClauses(t, &q)
			} else {
				q = genQ(t, tc.S, m, d)
			}
			q.Offset, q.Limit = 0, 0
			if q.Order != "" {
				q.Order = "tot"
			}
			p := PageRun{Q: q, Size: uint64(rapid.IntRange(1, 7).Draw(t, "size"))}
			if rapid.IntRange(0, 5).Draw(t, "offs?") == 0 {
				p.Offs = rapid.SliceOfN(rapid.Uint64Range(0, 2), 1, 4).Draw(t, "offs")
			}
			if rapid.Bool().Draw(t, "modify") {
				p.Del = rapid.SliceOfN(rapid.Bool(), 0, 6).Draw(t, "del")
				k := rapid.IntRange(0, 5).Draw(t, "muts")
				for j := 0; j < k; j++ {
					var ops []Op
					if rapid.Bool().Draw(t, "mut") {
						op := genWrite(t, m, d, 4)
						op.B, op.Drop = "", false
						if len(op.Rs) > 0 && op.K != "uupdate" && op.K != "uinsert" {
							m.apply(op)
							ops = append(ops, op)
						}
					}
					p.Muts = append(p.Muts, ops)
				}
			}
			c.Runs = append(c.Runs, p)
		}
		return c
	}, func(c PageCase, o *fw.Obs) {
		st, tb, m, b := c.T.load(o)
		for _, p := range c.Runs {
			if p.Size == 0 || !validQ(c.T.S, p.Q) {
				continue
			}
			runPages(o, tb, m, b, p)
		}
		if b != nil {
			o.Label("through a batch")
			o.NoErr(b.Close(), "batch close")
		}
		st.close()
	})

	fw.Register(fw.Prop{
		ID:    "C05",
		Title: "An intersect query returns the common rows of its parts",
		Rule: "a case is a table filled by writes, possibly with writes pending in a read-write batch, and up to 5 intersect queries of 2 to 4 parts with random clauses, queries derived from each in turn, and parts with forbidden clauses; " +
			"it is non-trivial when some query returns rows and fewer than one of its parts",
		Quick: 2600, Thorough: 40000,
	}, func(t *rapid.T) InterCase {
		tc, m, d := genTableCase(t, 3)
		c := InterCase{T: tc}
		n := rapid.IntRange(1, 5).Draw(t, "runs")
		for i := 0; i < n; i++ {
			r := InterRun{Q: genIntersect(t, tc.S, m, d)}
			genClauses(t, &r.Q)
			r.After = rapid.IntRange(0, 2).Draw(t, "after") == 0
			if r.After {
				if r.Q.Order != "" {
					r.Q.Order = "tot"
				}
				r.AfterAt = rapid.IntRange(0, 6).Draw(t, "afterat")
			}
			k := rapid.IntRange(0, 3).Draw(t, "derived")
			for j := 0; j < k; j++ {
				dq := genIntersect(t, tc.S, m, d)
				dq.Intersect = nil
				r.Derived = append(r.Derived, dq)
			}
			r.Bad = rapid.SampledFrom([]string{"", "", "filter", "order", "after", "offset", "limit"}).Draw(t, "bad")
			c.Runs = append(c.Runs, r)
		}
		return c
	}, func(c InterCase, o *fw.Obs) {
		st, tb, m, b := c.T.load(o)
		for _, r := range c.Runs {
			ok := validQ(c.T.S, r.Q) && len(r.Q.Intersect) > 0
			for _, dq := range r.Derived {
				ok = ok && validQ(c.T.S, dq)
			}
			if ok {
				runInter(o, tb, m, b, r)
			}
		}
		if b != nil {
			o.Label("through a batch")
			o.NoErr(b.Close(), "batch close")
		}
		st.close()
	})
}

func runInter(o *fw.Obs, tb Tbl, m *Model, b bond.Batch, r InterRun) {
	q := r.Q
	base := m.evalBase(q)
	if r.After && len(base) > 0 && (q.Order == "" || q.Order == "tot") {
		a := base[r.AfterAt%len(base)]
		q.After = &a
		base = m.after(q, a)
		o.Label("after")
	}
	what := fmt.Sprintf("intersect %s (batch %v)", mustJSON(q), b != nil)
	root, derived := tb.Derive(q, r.Derived)
	got, err := root.Run(bg, b)
	m.checkQuery(o, what, q, base, got, err)
	if len(got) > 0 {
		for _, p := range append([]Q{q}, q.Intersect...) {
			p.Intersect = nil
			if len(m.evalBase(Q{Index: p.Index, Sel: p.Sel, NoWith: p.NoWith})) > len(got) {
				o.NonTrivial()
			}
		}
	}
	for i, dq := range r.Derived {
		q2 := q
		q2.Intersect = append(append([]Q{}, q.Intersect...), dq)
		var base2 []Rec
		if q2.After != nil {
			base2 = m.after(q2, *q2.After)
			found := false
			for _, r := range m.evalBase(Q{Index: q2.Index, Sel: q2.Sel, NoWith: q2.NoWith, Filter: q2.Filter, Intersect: q2.Intersect}) {
				found = found || m.s.pk(r) == m.s.pk(*q2.After)
			}
			if !found {
				continue // the cursor is not a row of this query
			}
		} else {
			base2 = m.evalBase(q2)
		}
		got, err := derived[i].Run(bg, b)
		m.checkQuery(o, fmt.Sprintf("%s derived %d %s", what, i, mustJSON(dq)), q2, base2, got, err)
		o.Label("derived query")
	}
	// the base is as before
	got, err = root.Run(bg, b)
	m.checkQuery(o, what+" again", q, base, got, err)
	if r.Bad != "" {
		bad := q
		bad.Intersect = append([]Q{}, q.Intersect...)
		last := &bad.Intersect[len(bad.Intersect)-1]
		switch r.Bad {
		case "filter":
			last.Filter = "F"
		case "order":
			last.Order = "N"
		case "after":
			last.After = &Rec{}
		case "offset":
			last.Offset = 1
		case "limit":
			last.Limit = 1
		}
		o.Evals(1)
		if got, err := tb.Query(bad).Run(bg, b); err == nil {
			o.Failf("%s with a part that has its own %s: accepted, returned %s", what, r.Bad, canons(got))
		}
		o.Label("refused: " + r.Bad)
	}
	o.Label(fmt.Sprintf("parts=%d", 1+len(q.Intersect)))
	o.Label(fmt.Sprintf("result<=%d", bucket(len(got))))
}
