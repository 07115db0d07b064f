package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/go-bond/bond"
	"pgregory.net/rapid"
	"verifbond/fw"
)

// ScanRun is one callback scan. Acts[i%len] says what the callback does at row
// i: g calls the lazy getter, n runs a nested scan, p a point get of the row, q
// a nested query, d deletes the row, D deletes the last selected row, u changes
// the row's Note and index fields, i inserts a new row.
type ScanRun struct {
	Index uint8
	Sel   Sel
	Rev   bool `json:",omitempty"`
	Any   bool `json:",omitempty"`
	Acts  []string
	// End is how the callback ends the scan at row At: "", "stop", "err",
	// "stoperr" or "cancel".
	End string `json:",omitempty"`
	At  int    `json:",omitempty"`
}

type ScanCase struct {
	T    TableCase
	Runs []ScanRun
}

var errCallback = errors.New("error of the callback")

func init() {
	fw.Register(fw.Prop{
		ID:    "C26",
		Title: "Callback scans deliver each row once, however the callback behaves",
		Rule: "a case is a table filled by writes, possibly with writes pending in a batch, and up to 5 callback scans, each with a pattern of getter calls, nested reads and writes per row and possibly an early end; " +
			"it is non-trivial when some scan selects at least three rows and its callbacks do different things at different rows",
		Quick: 3000, Thorough: 45000,
	}, func(t *rapid.T) ScanCase {
		tc, m, d := genTableCase(t, 3)
		if rapid.IntRange(0, 2).Draw(t, "smallpf") > 0 {
			tc.S.Prefetch = rapid.IntRange(1, 4).Draw(t, "pf")
		}
		if rapid.IntRange(0, 9).Draw(t, "long?") == 0 && len(tc.S.Indexes) > 0 {
			// prefetched keys of several MB
			tc.S.Prefetch = rapid.SampledFrom([]int{0, 0, 20, 30}).Draw(t, "longpf")
			i := rapid.IntRange(0, len(tc.S.Indexes)-1).Draw(t, "longidx")
			tc.S.Indexes[i].Pad = rapid.SampledFrom([]int{65000, 100000, 200000, 400000}).Draw(t, "longpad")
		}
		c := ScanCase{T: tc}
		n := rapid.IntRange(1, 5).Draw(t, "runs")
		for i := 0; i < n; i++ {
			r := ScanRun{Index: genIdx(t, tc.S), Rev: rapid.Bool().Draw(t, "rev"), Any: rapid.IntRange(0, 3).Draw(t, "any") == 0}
			if r.Index == 0 && rapid.Bool().Draw(t, "all") {
				r.Sel = Sel{Kind: "all"}
			} else if ix := tc.S.index(r.Index); ix != nil && rapid.Bool().Draw(t, "allparts") {
				r.Sel = Sel{Kind: "points"}
				r.Sel.Recs, _ = m.partitions(ix)
			} else {
				r.Sel = genSel(t, tc.S, r.Index, m, d)
			}
			k := rapid.IntRange(1, 5).Draw(t, "nacts")
			for j := 0; j < k; j++ {
				r.Acts = append(r.Acts, rapid.SampledFrom([]string{"", "", "g", "g", "gg", "ggg", "ngg", "gn", "gng", "pg", "q", "gqg", "d", "dg", "gd", "gdg", "Dg", "gD", "D", "ug", "u", "gug", "ig", "gig"}).Draw(t, "act"))
			}
			if rapid.IntRange(0, 3).Draw(t, "early") == 0 {
				r.End = rapid.SampledFrom([]string{"stop", "err", "stoperr", "cancel"}).Draw(t, "end")
				r.At = rapid.IntRange(0, 8).Draw(t, "at")
			}
			c.Runs = append(c.Runs, r)
		}
		return c
	}, runScans)
}

func runScans(c ScanCase, o *fw.Obs) {
	st, tb, m, b := c.T.load(o)
	for i, r := range c.Runs {
		if r.Sel.Kind != "all" && !validSel(c.T.S, r.Index, r.Sel) || len(r.Acts) == 0 {
			continue
		}
		runScan(o, tb, m, b, r, i)
	}
	got, err := tb.Scan(bg, false, b)
	expectRecs(o, "scan at the end", got, err, m.all())
	if b != nil {
		o.Label("through a batch")
		o.NoErr(b.Close(), "batch close")
	}
	st.close()
}

func (m *Model) selAll(ix *IndexSpec, s Sel) []Rec {
	if s.Kind == "all" {
		return m.all()
	}
	return m.sel(ix, s)
}

func runScan(o *fw.Obs, tb Tbl, m *Model, b bond.Batch, r ScanRun, run int) {
	want := m.selAll(m.s.index(r.Index), r.Sel)
	if r.Rev {
		want = reversed(want)
	}
	what := fmt.Sprintf("scan %d %s (batch %v, prefetch %d)", run, mustJSON(r), b != nil, m.s.Prefetch)
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	i, done := 0, false
	each := tb.ScanEach
	if r.Any {
		each = tb.AnyEach
	}
	nested := func() {
		w := m.selAll(m.s.index(r.Index), r.Sel)
		var got []Rec
		err := each(bg, r.Index, r.Sel, false, b, func(_ []byte, get func() (Rec, error)) (bool, error) {
			x, err := get()
			got = append(got, x)
			return true, err
		})
		expectRecs(o, "nested scan within "+what, got, err, w)
	}
	write := func(kind string, rs ...Rec) {
		op := Op{K: kind, Rs: rs}
		before := m.copy()
		if m.apply(op) {
			o.NoErr(doWrite(tb, before, op, b), "%s of %s within %s", kind, canons(rs), what)
		}
	}
	err := each(ctx, r.Index, r.Sel, r.Rev, b, func(key []byte, get func() (Rec, error)) (bool, error) {
		if done {
			o.Failf("%s: called back after the callback ended the scan", what)
		}
		if i >= len(want) {
			o.Failf("%s: called back more than %d times", what, len(want))
		}
		w := want[i]
		kept := append([]byte(nil), key...)
		checkKey := func(when string) {
			if !bytes.Equal(key, kept) {
				o.Failf("%s: at row %d the key changed from %x to %x %s", what, i, kept, key, when)
			}
		}
		if len(key) < 2 || key[0] != m.s.TableID || key[1] != r.Index || !bytes.Equal(bond.KeyBytes(key).ToDataKeyBytes(), tb.DataKey(w)) {
			o.Failf("%s: key %x at row %d is not that of %s", what, key, i, w.canon())
		}
		for _, a := range r.Acts[i%len(r.Acts)] {
			switch a {
			case 'g':
				x, err := get()
				if err != nil || x.canon() != w.canon() {
					o.Failf("%s: getter at row %d gave %s, %v, want %s", what, i, x.canon(), err, w.canon())
				}
			case 'n':
				nested()
			case 'q':
				q := Q{Index: r.Index, Sel: r.Sel, Reverse: !r.Rev, Limit: 3}
				if r.Sel.Kind == "all" {
					q.NoWith = true
				}
				got, err := tb.Query(q).Run(bg, b)
				m.checkQuery(o, "nested query within "+what, q, m.evalBase(q), got, err)
			case 'p':
				x, err := tb.GetPoint(bg, w, b)
				now, has := m.rows[m.s.pk(w)]
				if has && (err != nil || x.canon() != now.canon()) || !has && !errors.Is(err, bond.ErrNotFound) {
					o.Failf("%s: point get at row %d gave %s, %v, want %s (%v)", what, i, x.canon(), err, now.canon(), has)
				}
			case 'd':
				write("delete", w)
			case 'D':
				write("delete", want[len(want)-1])
			case 'u':
				x := w.clone()
				x.P, x.F, x.A, x.D, x.N = "changed", !x.F, x.A+1, x.D^1, x.N^1
				write("update", withPK(m.s, x, w))
			case 'i':
				x := w.clone()
				x.ID, x.N, x.S, x.P = x.ID^1, x.N^1, x.S+"n", "new"
				write("insert", x)
			}
			checkKey(fmt.Sprintf("after action %q", a))
			o.Evals(1)
		}
		if r.End != "" && i == r.At {
			switch r.End {
			case "stop":
				done = true
				return false, nil
			case "err":
				done = true
				return true, errCallback
			case "stoperr":
				done = true
				return false, errCallback
			case "cancel":
				cancel()
			}
		}
		i++
		return true, nil
	})
	o.Evals(1)
	reached := r.End != "" && r.At < len(want)
	switch {
	case reached && r.End == "stop":
		if err != nil || !done {
			o.Failf("%s: stopped by its callback: error %v", what, err)
		}
	case reached && r.End != "cancel":
		if !errors.Is(err, errCallback) || !done {
			o.Failf("%s: the callback's error became %v", what, err)
		}
	case reached:
		// the rest of a prefetched window may still be delivered
		if err == nil && i != len(want) || err != nil && !errors.Is(err, context.Canceled) {
			o.Failf("%s: cancelled at row %d, ended after %d of %d rows with %v", what, r.At, i, len(want), err)
		}
	default:
		if err != nil || i != len(want) {
			o.Failf("%s: delivered %d rows, error %v, want %d: %s", what, i, err, len(want), canons(want))
		}
	}
	kinds := map[string]bool{}
	for j := 0; j < i && j < len(r.Acts); j++ {
		kinds[r.Acts[j]] = true
	}
	if i >= 3 && len(kinds) > 1 {
		o.NonTrivial()
	}
	all := strings.Join(r.Acts, "")
	for _, l := range []struct{ chars, text string }{{"nq", "nested reads"}, {"dDui", "writes within the scan"}} {
		if i > 0 && strings.ContainsAny(all, l.chars) {
			o.Label(l.text)
		}
	}
	if ix := m.s.index(r.Index); ix != nil && ix.Pad*i > 2<<20 {
		o.Label("more than 2 MB of keys")
	}
	o.Label("end " + r.End)
	o.Label(fmt.Sprintf("rows<=%d", bucket(i)))
	if r.Any {
		o.Label("untyped scanner")
	}
}
