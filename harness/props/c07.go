package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/go-bond/bond"
	"pgregory.net/rapid"
	"verifbond/fw"
)

// countCtx is a context that is cancelled at its n-th look (n < 0: never).
type countCtx struct {
	mu     sync.Mutex
	n      int
	looks  int
	closed chan struct{}
	open   chan struct{}
	done   bool
}

func newCountCtx(n int) *countCtx {
	c := &countCtx{n: n, closed: make(chan struct{}), open: make(chan struct{})}
	close(c.closed)
	if n == 0 {
		c.done = true
	}
	return c
}

func (c *countCtx) look() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.looks++
	if c.n >= 0 && c.looks > c.n {
		c.done = true
	}
	return c.done
}

func (c *countCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (c *countCtx) Value(any) any               { return nil }
func (c *countCtx) Done() <-chan struct{} {
	if c.look() {
		return c.closed
	}
	return c.open
}
func (c *countCtx) Err() error {
	if c.look() {
		return context.Canceled
	}
	return nil
}

var errInjected = errors.New("injected serializer failure")

// faultSer fails its n-th Serialize (or Deserialize) call after arm.
type faultSer struct {
	in       bond.Serializer[any]
	ser, des int // calls left before the failure, -1: never
	fired    bool
}

func (f *faultSer) arm(ser, des int) { f.ser, f.des, f.fired = ser, des, false }

func (f *faultSer) hit(n *int) bool {
	if *n < 0 {
		return false
	}
	*n--
	if *n < 0 {
		f.fired = true
		return true
	}
	return false
}

func (f *faultSer) Serialize(v any) ([]byte, error) {
	if f.hit(&f.ser) {
		return nil, errInjected
	}
	return f.in.Serialize(v)
}

func (f *faultSer) Deserialize(b []byte, v any) error {
	if f.hit(&f.des) {
		return errInjected
	}
	return f.in.Deserialize(b, v)
}

type faultSerBuf struct{ *faultSer }

func (f faultSerBuf) SerializeFuncWithBuffer(buff *bytes.Buffer) func(any) ([]byte, error) {
	g := f.in.(bond.SerializerWithBuffer[any]).SerializeFuncWithBuffer(buff)
	return func(v any) ([]byte, error) {
		if f.hit(&f.ser) {
			return nil, errInjected
		}
		return g(v)
	}
}

func (f *faultSer) wrapped() bond.Serializer[any] {
	if _, ok := f.in.(bond.SerializerWithBuffer[any]); ok {
		return faultSerBuf{f}
	}
	return f
}

// rawDump is the whole content of the database.
func (s *Store) rawDump() string {
	it, err := s.db.Backend().NewIter(nil)
	if err != nil {
		s.o.Failf("raw iterator: %v", err)
	}
	var sb bytes.Buffer
	for ok := it.First(); ok; ok = it.Next() {
		fmt.Fprintf(&sb, "%x=%x\n", it.Key(), it.Value())
	}
	if err := it.Close(); err != nil {
		s.o.Failf("raw iterator: %v", err)
	}
	return sb.String()
}

// FaultCase is a filled table, a write on it and reads.
type FaultCase struct {
	T     TableCase
	W     Op
	Sels  []SelAt
	Qs    []Q
	Inter []Q
	// RO are writes on the same data in a database that refuses every commit
	RO []Op `json:",omitempty"`
}

func init() {
	fw.Register(fw.Prop{
		ID: "C07", Level: "fault_enumeration",
		Title: "A write call that fails leaves no trace",
		Rule: "a case is a filled table, one write call and some reads; the write is run with its context cancelled at each look in turn, with each of its serializations and decodings failing in turn, and with an absent or duplicate key where it has one, comparing all stored keys and values before and after each failure; the reads are run with the context cancelled at each look in turn; " +
			"it is non-trivial when the write failed at two fault points or more and succeeded without a fault",
		Quick: 1500, Thorough: 24000,
	}, func(t *rapid.T) FaultCase {
		tc, m, d := genTableCase(t, 3)
		tc.UseBatch, tc.Pend = false, nil
		// the model includes pending writes when a batch was drawn: rebuild it
		m = newModel(tc.S)
		for _, op := range tc.Load {
			if op.K != "flush" && op.K != "compact" && ((op.K != "uinsert" && op.K != "uupdate") || unsafeOK(m, op)) {
				m.apply(op)
			}
		}
		c := FaultCase{T: tc}
		c.W = genWrite(t, m, d, 7)
		c.W.B, c.W.Drop = "", false
		for i := rapid.IntRange(0, 2).Draw(t, "sels"); i > 0; i-- {
			ix := genIdx(t, tc.S)
			c.Sels = append(c.Sels, SelAt{ix, genSel(t, tc.S, ix, m, d)})
		}
		for i := rapid.IntRange(0, 2).Draw(t, "qs"); i > 0; i-- {
			c.Qs = append(c.Qs, genQ(t, tc.S, m, d))
		}
		if rapid.Bool().Draw(t, "inter") {
			c.Inter = append(c.Inter, genIntersect(t, tc.S, m, d))
		}
		for i := rapid.IntRange(0, 3).Draw(t, "ro"); i > 0; i-- {
			w := genWrite(t, m, d, 4)
			w.B, w.Drop = "", false
			c.RO = append(c.RO, w)
		}
		return c
	}, runFaults)
}

func runFaults(c FaultCase, o *fw.Obs) {
	st := openStore(o, c.T.DB)
	fs := &faultSer{in: recSerializer(c.T.S.Serializer)}
	fs.arm(-1, -1)
	tb := openTable(st.db, c.T.S, func(o *tblOpts) { o.serializer = fs.wrapped() })
	m := newModel(c.T.S)
	c.T.runLoad(o, st, tb, m)

	if len(c.W.Rs) > 0 && ((c.W.K != "uinsert" && c.W.K != "uupdate") || unsafeOK(m, c.W)) {
		before := st.rawDump()
		failures := 0
		write := func(ctx context.Context, what string, fired func() bool) (failed bool) {
			err := doWriteCtx(ctx, tb, m, c.W, nil)
			o.Evals(1)
			if errors.Is(err, errMutated) {
				o.Failf("%s with %s: %v", c.W.K, what, err)
			}
			if err == nil {
				if fired() {
					o.Failf("%s of %s with %s: no error", c.W.K, canons(c.W.Rs), what)
				}
				return false
			}
			failures++
			if after := st.rawDump(); after != before {
				o.Failf("%s of %s with %s failed with %q but changed the database\nbefore:\n%safter:\n%s", c.W.K, canons(c.W.Rs), what, err, before, after)
			}
			o.Label("write failed: " + c.W.K)
			return true
		}
		m2 := m.copy()
		ok := m2.apply(c.W)
		if !ok {
			// refused whatever happens
			if !write(bg, "a refused record", func() bool { return false }) {
				o.Failf("%s of %s: accepted, but must be refused", c.W.K, canons(c.W.Rs))
			}
			for n := 0; n < len(c.W.Rs)+2; n++ {
				ctx := newCountCtx(n)
				write(ctx, fmt.Sprintf("a refused record and a context cancelled at look %d", n), func() bool { return true })
			}
		} else {
			// every fault point the call has when it runs without one
			looks, sers, dess := c.dry(o)
			done := false
			for n := 0; n < looks; n++ {
				ctx := newCountCtx(n)
				if !write(ctx, fmt.Sprintf("a context cancelled at look %d", n), func() bool { return false }) {
					// it made no difference: the call went through as a whole
					m = m2
					checkTable(o, st, tb, m, c.W.Rs, true)
					checkIndexes(o, st, tb, m, true)
					done = true
					break
				}
			}
			for n := 0; n < sers && !done; n++ {
				fs.arm(n, -1)
				write(bg, fmt.Sprintf("serialization %d failing", n), func() bool { return fs.fired })
				fs.arm(-1, -1)
			}
			if c.W.K != "delete" {
				for n := 0; n < dess && !done; n++ {
					fs.arm(-1, n)
					write(bg, fmt.Sprintf("decoding %d failing", n), func() bool { return fs.fired })
					fs.arm(-1, -1)
				}
			}
			fs.arm(-1, -1)
			if done {
				// applied already
			} else if err := doWriteCtx(bg, tb, m, c.W, nil); err != nil {
				o.Failf("%s of %s without a fault, after %d failures: %v", c.W.K, canons(c.W.Rs), failures, err)
			}
			m = m2
			if failures >= 2 {
				o.NonTrivial()
			}
		}
		o.Label(fmt.Sprintf("fault points<=%d", bucket(failures)))
		checkTable(o, st, tb, m, c.W.Rs, true)
		checkIndexes(o, st, tb, m, true)
	}

	reads := func(what string, f func(ctx context.Context) error) {
		for n := 0; n < 200; n++ {
			ctx := newCountCtx(n)
			err := f(ctx)
			o.Evals(1)
			if err == nil && ctx.looks <= n {
				break // never saw the cancellation
			}
			if err != nil {
				o.Label("read cancelled")
			}
		}
	}
	same := func(what string, got, want []Rec) {
		if !sameRecs(got, want) {
			o.Failf("%s with a cancelled context: no error but\n  got  %s\n  want %s", what, canons(got), canons(want))
		}
	}
	for _, rev := range []bool{false, true} {
		rev := rev
		reads("Scan", func(ctx context.Context) error {
			got, err := tb.Scan(ctx, rev, nil)
			if err == nil {
				w := m.all()
				if rev {
					w = reversed(w)
				}
				same("Scan", got, w)
			}
			return err
		})
	}
	for _, sa := range c.Sels {
		if !validSel(c.T.S, sa.Index, sa.Sel) {
			continue
		}
		want := m.sel(c.T.S.index(sa.Index), sa.Sel)
		what := fmt.Sprintf("scan of index %d selector %s", sa.Index, mustJSON(sa.Sel))
		reads(what, func(ctx context.Context) error {
			got, err := tb.ScanIdx(ctx, sa.Index, sa.Sel, false, nil)
			if err == nil {
				same(what, got, want)
			}
			return err
		})
		reads("callback "+what, func(ctx context.Context) error {
			n := 0
			err := tb.ScanEach(ctx, sa.Index, sa.Sel, true, nil, func([]byte, func() (Rec, error)) (bool, error) {
				n++
				return true, nil
			})
			if err == nil && n != len(want) {
				o.Failf("callback %s: no error but %d rows, want %d", what, n, len(want))
			}
			return err
		})
		if sa.Index == 0 {
			reads("Get "+what, func(ctx context.Context) error {
				rs, _, err := tb.Get(ctx, sa.Sel, nil)
				if err == nil && (sa.Sel.Kind == "range" || sa.Sel.Kind == "ranges") {
					same("Get of "+what, rs, want)
				}
				if errors.Is(err, bond.ErrNotFound) {
					return nil
				}
				return err
			})
		}
	}
	for _, q := range append(append([]Q{}, c.Qs...), c.Inter...) {
		if !validQ(c.T.S, q) || (q.Order != "" && q.Order != "tot") {
			continue
		}
		want := page(m.evalBase(q), q.Offset, q.Limit)
		what := "query " + mustJSON(q)
		reads(what, func(ctx context.Context) error {
			got, err := tb.Query(q).Run(ctx, nil)
			if err == nil {
				same(what, got, want)
			}
			return err
		})
	}
	checkTable(o, st, tb, m, nil, true)
	c.readOnly(o, st, m)
	st.close()
}

// readOnly runs writes on a database that can be read but refuses commits.
func (c FaultCase) readOnly(o *fw.Obs, st *Store, m *Model) {
	if len(c.RO) == 0 {
		return
	}
	st.flush()
	st.close()
	st.opt.ReadOnly = true
	st.open()
	tb := openTable(st.db, c.T.S)
	before := st.rawDump()
	for i, w := range c.RO {
		if len(w.Rs) == 0 || (w.K == "uinsert" || w.K == "uupdate") && !unsafeOK(m, w) {
			continue
		}
		m2 := m.copy()
		m2.apply(w)
		err := doWrite(tb, m, w, nil)
		o.Evals(1)
		if err == nil && len(m2.rows)+len(m.rows) > 0 && canons(m2.all()) != canons(m.all()) {
			o.Failf("write %d: %s of %s: no error in a database that refuses commits", i, w.K, canons(w.Rs))
		}
		if errors.Is(err, errMutated) {
			o.Failf("write %d: %s: %v", i, w.K, err)
		}
		o.Label("commit refused: " + w.K)
	}
	if len(c.T.S.Indexes) > 0 && len(m.rows) > 0 {
		if err := tb.ReIndex([]uint8{c.T.S.Indexes[0].ID}); err == nil {
			o.Failf("ReIndex: no error in a database that refuses commits")
		}
	}
	if after := st.rawDump(); after != before {
		o.Failf("writes in a database that refuses commits changed it\nbefore:\n%safter:\n%s", before, after)
	}
	checkTable(o, st, tb, m, nil, true)
	checkIndexes(o, st, tb, m, true)
}

// dry runs the write of the case on a database of its own and reports how often
// it looks at the context, serializes and decodes.
func (c FaultCase) dry(o *fw.Obs) (looks, ser, des int) {
	st := openStore(o, c.T.DB)
	fs := &faultSer{in: recSerializer(c.T.S.Serializer)}
	fs.arm(-1, -1)
	tb := openTable(st.db, c.T.S, func(o *tblOpts) { o.serializer = fs.wrapped() })
	m := newModel(c.T.S)
	c.T.runLoad(o, st, tb, m)
	const big = 1 << 30
	fs.arm(big, big)
	ctx := newCountCtx(-1)
	if err := doWriteCtx(ctx, tb, m, c.W, nil); err != nil {
		o.Failf("%s of %s: refused with %q, but the model accepts it", c.W.K, canons(c.W.Rs), err)
	}
	looks, ser, des = ctx.looks, big-fs.ser, big-fs.des
	fs.arm(-1, -1)
	st.close()
	return
}
