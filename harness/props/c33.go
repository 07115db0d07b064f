package props

import (
	"fmt"

	"github.com/go-bond/bond"
	"pgregory.net/rapid"
	"verifbond/fw"
)

// InOp is something done by code that Bond calls in the middle of an operation.
type InOp struct {
	K   string // write, sel, query, flush, compact, reset
	Tab int    `json:",omitempty"` // 0: the table of the operation, 1: another one
	W   Op     `json:",omitempty"`
	At  SelAt  `json:",omitempty"`
	Q   Q      `json:",omitempty"`
}

// OutOp is an operation that calls back.
type OutOp struct {
	K    string // each, anyeach, query, upsert
	At   SelAt  `json:",omitempty"`
	Rev  bool   `json:",omitempty"`
	Q    Q      `json:",omitempty"`
	W    Op     `json:",omitempty"`
	Late bool   `json:",omitempty"` // rows are read after the work
	Stop int    `json:",omitempty"` // the scan is stopped at this call, counted from 1
	// Call number Calls[i] (from 0) does In[i].
	Calls []int
	In    []InOp
	// Nest: the inner reads are scans that call back, too
	Nest []OutOp `json:",omitempty"`
}

type ReCase struct {
	T   TableCase
	Ops []OutOp
}

func otherSchema(s Schema) Schema {
	s2 := s
	s2.TableID = s.TableID - 1
	if s.TableID < 2 {
		s2.TableID = s.TableID + 1
	}
	return s2
}

func genIn(t *rapid.T, s Schema, m, m2 *Model, d Dom) InOp {
	in := InOp{K: rapid.SampledFrom([]string{"write", "write", "write", "write", "write", "sel", "sel", "query", "flush", "compact"}).Draw(t, "in")}
	mm := m
	if rapid.IntRange(0, 3).Draw(t, "other") == 0 {
		in.Tab, mm = 1, m2
	}
	switch in.K {
	case "write":
		in.W = genWrite(t, mm, d, 5)
		in.W.B, in.W.Drop = "", false
		c := mm.copy()
		if c.apply(in.W) {
			*mm = *c
		}
	case "sel":
		ix := genIdx(t, s)
		in.At = SelAt{ix, genSel(t, s, ix, mm, d)}
	case "query":
		in.Q = genQ(t, s, mm, d)
	}
	return in
}

func genOut(t *rapid.T, s Schema, m, m2 *Model, d Dom, depth int) OutOp {
	op := OutOp{K: rapid.SampledFrom([]string{"each", "each", "anyeach", "query", "query", "query", "upsert"}).Draw(t, "out")}
	if depth > 0 && op.K == "upsert" {
		op.K = "each"
	}
	switch op.K {
	case "each", "anyeach":
		op.At.Index = genIdx(t, s)
		op.At.Sel = genSel(t, s, op.At.Index, m, d)
		op.Rev, op.Late = rapid.Bool().Draw(t, "rev"), rapid.Bool().Draw(t, "late")
		if rapid.IntRange(0, 4).Draw(t, "stops") == 0 {
			op.Stop = rapid.IntRange(1, 5).Draw(t, "stop")
		}
	case "query":
		if rapid.IntRange(0, 3).Draw(t, "inter") == 0 {
			op.Q = genIntersect(t, s, m, d)
		} else {
			op.Q = genQ(t, s, m, d)
		}
		if op.Q.Filter == "" && op.Q.Order == "" {
			op.Q.Filter = rapid.SampledFrom([]string{"F", "evenID", "Nneg", "Sa"}).Draw(t, "hookfilter")
		}
	case "upsert":
		op.W = genWrite(t, m, d, 6)
		op.W.K, op.W.B, op.W.Drop, op.W.Pad = "upsert", "", false, 0
		op.W.C = rapid.SampledFrom([]string{"old", "merge"}).Draw(t, "conflict")
	}
	for n := rapid.IntRange(1, 3).Draw(t, "ins"); n > 0; n-- {
		op.Calls = append(op.Calls, rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3, 5, 9}).Draw(t, "call"))
		op.In = append(op.In, genIn(t, s, m, m2, d))
	}
	if depth < 2 && op.K != "upsert" && rapid.IntRange(0, 3).Draw(t, "nest") == 0 {
		op.Nest = append(op.Nest, genOut(t, s, m, m2, d, depth+1))
	}
	return op
}

func init() {
	fw.Register(fw.Prop{
		ID: "C33", Title: "Code called in the middle of an operation may use the database",
		Rule:  "a case is a table with rows, maybe written through a batch, and scans, queries and upserts whose callbacks, filters, order and conflict functions read and write the same table and another one, flush, compact and scan again, nested up to three deep; it is non-trivial when work in the middle of an operation changed what that operation would select, with rows still to come",
		Quick: 2400, Thorough: 36000,
	}, func(t *rapid.T) ReCase {
		tc, m, d := genTableCase(t, 3)
		c := ReCase{T: tc}
		m2 := newModel(otherSchema(tc.S))
		mm := m.copy()
		for n := rapid.IntRange(1, 5).Draw(t, "outs"); n > 0; n-- {
			op := genOut(t, tc.S, mm, m2, d, 0)
			if op.K == "upsert" {
				mm.apply(op.W)
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}, runRe)
}

// reRun is the state of a run.
type reRun struct {
	o     *fw.Obs
	st    *Store
	b     bond.Batch
	tb    [2]Tbl
	m     [2]*Model
	calls int // of filter, order and conflict functions
}

func runRe(c ReCase, o *fw.Obs) {
	st, tb, m, b := c.T.load(o)
	s2 := otherSchema(c.T.S)
	r := &reRun{o: o, st: st, b: b, tb: [2]Tbl{tb, openTable(st.db, s2)}, m: [2]*Model{m, newModel(s2)}}
	for i, op := range c.Ops {
		r.out(fmt.Sprintf("op %d", i), op, nil)
	}
	if b != nil {
		o.Label("everything through one batch")
		o.NoErr(b.Commit(bond.Sync), "commit")
		o.NoErr(b.Close(), "batch close")
	}
	for i := range r.tb {
		checkTable(o, st, r.tb[i], r.m[i], nil, true)
		checkIndexes(o, st, r.tb[i], r.m[i], true)
	}
	st.close()
}

// in does what a callback does. Rows in keep are left alone.
func (r *reRun) in(what string, op InOp, keep map[string]bool) {
	o, tb, m := r.o, r.tb[op.Tab&1], r.m[op.Tab&1]
	switch op.K {
	case "write":
		w := op.W
		if len(w.Rs) == 0 || (w.K == "uinsert" || w.K == "uupdate") && !unsafeOK(m, w) {
			return
		}
		for _, x := range w.Rs {
			if op.Tab&1 == 0 && keep[m.s.pk(x)] {
				return
			}
		}
		before := m.copy()
		ok := m.copy().apply(w)
		if !ok && r.b != nil {
			return // a refused write leaves a batch partly written
		}
		m.apply(w)
		err := doWrite(tb, before, w, r.b)
		if ok && err != nil {
			o.Failf("%s: %s of %s: refused with %q", what, w.K, canons(w.Rs), err)
		}
		if !ok && err == nil {
			o.Failf("%s: %s of %s: accepted, but must be refused", what, w.K, canons(w.Rs))
		}
		o.Label("inside: write")
	case "sel":
		if validSel(m.s, op.At.Index, op.At.Sel) {
			checkSel(o, r.st, tb, m, r.b, op.At)
			o.Label("inside: scans")
		}
	case "query":
		if validQ(m.s, op.Q) {
			got, err := tb.Query(op.Q).Run(bg, r.b)
			m.checkQuery(o, what+": query "+mustJSON(op.Q), op.Q, m.evalBase(op.Q), got, err)
			o.Label("inside: query")
		}
	case "flush":
		r.st.flush()
	case "compact":
		r.st.compact()
	}
}

// out runs an operation that calls back. Rows in keep are being written by an
// operation around it.
func (r *reRun) out(what string, op OutOp, keep map[string]bool) {
	o, tb, m := r.o, r.tb[0], r.m[0]
	before := m.copy()
	calls, changed := 0, false
	var want []Rec
	still := func() []Rec { return nil }
	// hook is called by every call back
	hook := func() {
		n := calls
		calls++
		tb.OnCall(nil)
		for i, at := range op.Calls {
			if at == n && i < len(op.In) {
				r.in(fmt.Sprintf("%s (%s), in call %d", what, op.K, n), op.In[i], keep)
			}
		}
		if n == 0 {
			for _, x := range op.Nest {
				r.out(what+"."+op.K, x, keep)
				o.Label("nested")
			}
		}
		if !sameRecs(still(), want) {
			changed = true
		}
	}
	o.Label("outside: %s", op.K)
	switch op.K {
	case "each", "anyeach":
		if !validSel(m.s, op.At.Index, op.At.Sel) {
			return
		}
		ix := m.s.index(op.At.Index)
		rows := func() []Rec {
			w := m.sel(ix, op.At.Sel)
			if op.Rev {
				w = reversed(w)
			}
			return w
		}
		want = rows()
		still = rows
		if op.Stop > 0 && op.Stop < len(want) {
			want = want[:op.Stop]
			still = func() []Rec {
				w := rows()
				return w[:min(op.Stop, len(w))]
			}
		}
		var got []Rec
		each := tb.ScanEach
		if op.K == "anyeach" {
			each = tb.AnyEach
		}
		err := each(bg, op.At.Index, op.At.Sel, op.Rev, r.b, func(key []byte, get func() (Rec, error)) (bool, error) {
			if changed {
				o.NonTrivial()
			}
			k := string(key)
			if n := len(got); n < len(want) && string(bond.KeyBytes(key).ToDataKeyBytes()) != string(tb.DataKey(want[n])) {
				o.Failf("%s (%s): the key %x of row %d is not that of %s", what, op.K, k, n, want[n].canon())
			}
			read := func() error {
				x, err := get()
				got = append(got, x)
				return err
			}
			if !op.Late {
				if err := read(); err != nil {
					return false, err
				}
			}
			hook()
			if string(key) != k {
				o.Failf("%s (%s): the key of row %d changed from %x to %x", what, op.K, calls-1, k, key)
			}
			if op.Late {
				if changed {
					o.NonTrivial()
				}
				if err := read(); err != nil {
					return false, err
				}
			}
			return op.Stop == 0 || calls < op.Stop, nil
		})
		expectRecs(o, fmt.Sprintf("%s: %s reverse=%v of index %d %s, stop %d", what, op.K, op.Rev, op.At.Index, mustJSON(op.At.Sel), op.Stop), got, err, want)
	case "query":
		if !validQ(m.s, op.Q) {
			return
		}
		base := before.evalBase(op.Q)
		want = base
		still = func() []Rec { return m.evalBase(op.Q) }
		q := tb.Query(op.Q)
		var on func(string)
		on = func(kind string) {
			if changed {
				o.NonTrivial()
			}
			o.Label("called: %s", kind)
			hook()
			tb.OnCall(on)
		}
		tb.OnCall(on)
		got, err := q.Run(bg, r.b)
		tb.OnCall(nil)
		before.checkQuery(o, fmt.Sprintf("%s: query %s", what, mustJSON(op.Q)), op.Q, base, got, err)
	case "upsert":
		if len(op.W.Rs) == 0 {
			return
		}
		mine := map[string]bool{}
		for k := range keep {
			mine[k] = true
		}
		for _, x := range op.W.Rs {
			mine[m.s.pk(x)] = true
		}
		keep = mine
		f := conflictFn(m.s, op.W.C)
		if f == nil {
			return
		}
		started := len(m.rows)
		// through a batch, reads in the middle see the part that is done
		in := op.In
		if r.b != nil {
			in = nil
			for _, x := range op.In {
				if x.Tab&1 == 1 || x.K != "sel" && x.K != "query" {
					in = append(in, x)
				} else {
					in = append(in, InOp{K: "flush"})
				}
			}
		}
		op.In = in
		err := tb.Upsert(bg, op.W.Rs, func(old, new Rec) Rec {
			x := f(old, new)
			hook()
			if len(m.rows) != started {
				changed = true
			}
			if changed {
				o.NonTrivial()
			}
			return x
		}, r.b)
		o.NoErr(err, "%s: upsert of %s", what, canons(op.W.Rs))
		m.apply(op.W)
	}
}
