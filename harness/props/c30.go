package props

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sync"
	"time"

	"github.com/go-bond/bond"
	"pgregory.net/rapid"
	"verifbond/fw"
)

// CtxOp derives a context from an earlier one.
type CtxOp struct {
	From int    // the context it is derived from, 0 is the background
	K    string // batch, sync, nil batch, nil sync, value, cancel
	B    int    // the batch
}

// SyncOp is one exclusive section of a client.
type SyncOp struct {
	K  string // insert, upsert, delete, read, fail, panic
	Rs []Rec  `json:",omitempty"`
}

type SyncCase struct {
	S       Schema
	DB      DBOpt
	Ctx     []CtxOp
	Clients [][]SyncOp
	// Drop: the shared batch is closed, not committed
	Drop bool
}

var errSection = errors.New("verif: section")

func init() {
	fw.Register(fw.Prop{
		ID: "C30", Title: "A shared batch is used by one goroutine at a time and travels in contexts",
		Rule: "a case is a tree of contexts of which some carry batches and shared batches, and two to six goroutines that take a shared batch from a context and write, read, fail or panic in exclusive sections; who is inside is counted, every lookup in every context is compared with the nearest ancestor that carries such a batch, and the table after the commit (or drop) with the combined writes; " +
			"it is non-trivial when at least two clients wrote through the same shared batch",
		Quick: 900, Thorough: 20000, Flaky: true,
	}, func(t *rapid.T) SyncCase {
		c := SyncCase{S: genSchema(t, 2), DB: DBOpt{SmallMem: rapid.Bool().Draw(t, "smallmem")}, Drop: rapid.IntRange(0, 4).Draw(t, "drop") == 0}
		for i := rapid.IntRange(1, 10).Draw(t, "contexts"); i > 0; i-- {
			c.Ctx = append(c.Ctx, CtxOp{From: rapid.IntRange(0, len(c.Ctx)).Draw(t, "from"),
				K: rapid.SampledFrom([]string{"batch", "batch", "sync", "sync", "nil batch", "nil sync", "value", "cancel"}).Draw(t, "k"), B: rapid.IntRange(0, 2).Draw(t, "b")})
		}
		d := genDom(t)
		for g := rapid.IntRange(2, 6).Draw(t, "clients"); g > 0; g-- {
			var ops []SyncOp
			for i := rapid.IntRange(1, 6).Draw(t, "sections"); i > 0; i-- {
				op := SyncOp{K: rapid.SampledFrom([]string{"insert", "upsert", "upsert", "delete", "read", "fail", "panic"}).Draw(t, "k")}
				for n := rapid.IntRange(1, 3).Draw(t, "n"); n > 0; n-- {
					op.Rs = append(op.Rs, genRec(t, d))
				}
				ops = append(ops, op)
			}
			c.Clients = append(c.Clients, ops)
		}
		return c
	}, runSync)
}

type otherKey string

func runSync(c SyncCase, o *fw.Obs) {
	st := openStore(o, c.DB)
	tb := openTable(st.db, c.S)
	var batches [3]bond.Batch
	var shared [3]*bond.SyncBatch
	for i := range batches {
		batches[i] = st.db.Batch(bond.BatchTypeReadWrite)
		shared[i] = bond.NewSyncBatch(st.db.Batch(bond.BatchTypeReadWrite))
	}
	type node struct {
		ctx    context.Context
		b      bond.Batch
		s      *bond.SyncBatch
		cancel context.CancelFunc
	}
	nodes := []node{{ctx: context.Background()}}
	check := func(what string) {
		for i, n := range nodes {
			o.Evals(1)
			if got := bond.ContextRetrieveBatch(n.ctx); got != n.b {
				o.Failf("%s: context %d carries batch %v, want %v", what, i, got, n.b)
			}
			if got := bond.ContextRetrieveSyncBatch(n.ctx); got != n.s {
				o.Failf("%s: context %d carries shared batch %p, want %p", what, i, got, n.s)
			}
		}
	}
	for i, op := range c.Ctx {
		if op.From < 0 || op.From >= len(nodes) || op.B < 0 || op.B > 2 {
			return
		}
		n := nodes[op.From]
		switch op.K {
		case "batch":
			n.ctx, n.b = bond.ContextWithBatch(n.ctx, batches[op.B]), batches[op.B]
		case "sync":
			n.ctx, n.s = bond.ContextWithSyncBatch(n.ctx, shared[op.B]), shared[op.B]
		case "nil batch":
			n.ctx, n.b = bond.ContextWithBatch(n.ctx, nil), nil
		case "nil sync":
			n.ctx, n.s = bond.ContextWithSyncBatch(n.ctx, nil), nil
		case "value":
			n.ctx = context.WithValue(n.ctx, otherKey("go-bond-batch"), op.B)
		case "cancel":
			n.ctx, n.cancel = context.WithCancel(n.ctx)
			n.cancel()
		}
		nodes = append(nodes, n)
		check(fmt.Sprintf("after context %d", i))
	}

	// everybody works through the shared batch of one context
	ctx := bond.ContextWithSyncBatch(context.Background(), shared[0])
	m := newModel(c.S)
	inside, sections, writers := 0, 0, map[int]bool{}
	var problem string
	var mu sync.Mutex // of problem
	fail := func(f string, a ...any) {
		mu.Lock()
		defer mu.Unlock()
		if problem == "" {
			problem = fmt.Sprintf(f, a...)
		}
	}
	section := func(g, i int, op SyncOp, b bond.Batch) error {
		inside++
		if inside != 1 {
			fail("client %d section %d: %d clients are inside at once", g, i, inside)
		}
		defer func() { inside-- }()
		sections++
		for k := 0; k < 1+(g+i)%4; k++ {
			runtime.Gosched()
			if inside != 1 {
				fail("client %d section %d: %d clients are inside at once", g, i, inside)
				return nil
			}
		}
		if (g+i)%5 == 0 {
			time.Sleep(20 * time.Microsecond)
		}
		switch op.K {
		case "fail":
			return errSection
		case "panic":
			panic(errSection)
		case "read":
			for _, r := range op.Rs {
				want, has := m.rows[m.s.pk(r)]
				got, err := tb.GetPoint(context.Background(), r, b)
				if has != (err == nil) || has && got.canon() != want.canon() {
					fail("client %d section %d: GetPoint through the shared batch returns %s, %v; want %s, %v", g, i, got.canon(), err, want.canon(), has)
				}
			}
		default:
			w := Op{K: op.K, Rs: op.Rs}
			before := m.copy()
			ok := m.apply(w)
			if !ok {
				// a refused call may leave part of its writes pending, so it is
				// not made
				m = before
				return nil
			}
			if err := doWrite(tb, before, w, b); err != nil {
				fail("client %d section %d: %s of %s: %v", g, i, op.K, canons(op.Rs), err)
				return nil
			}
			writers[g] = true
		}
		return nil
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g, ops := range c.Clients {
		g, ops := g, ops
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i, op := range ops {
				sb := bond.ContextRetrieveSyncBatch(context.WithValue(ctx, otherKey("client"), g))
				if sb != shared[0] {
					fail("client %d: the context carries another shared batch", g)
					return
				}
				var err error
				panicked := func() (p bool) {
					defer func() {
						if r := recover(); r != nil {
							if r != any(errSection) {
								fail("client %d section %d: panic %v", g, i, r)
							}
							p = true
						}
					}()
					err = sb.WithSync(func(b bond.Batch) error { return section(g, i, op, b) })
					return
				}()
				want := error(nil)
				if op.K == "fail" {
					want = errSection
				}
				if panicked != (op.K == "panic") || !panicked && err != want {
					fail("client %d section %d (%s): WithSync returned %v, panicked=%v", g, i, op.K, err, panicked)
				}
			}
		}()
	}
	close(start)
	ended := make(chan struct{})
	go func() { wg.Wait(); close(ended) }()
	select {
	case <-ended:
	case <-time.After(20 * time.Second):
		mu.Lock()
		defer mu.Unlock()
		o.Failf("the clients of the shared batch do not end; first problem: %q", problem)
	}
	o.Evals(sections)
	total := 0
	for _, ops := range c.Clients {
		total += len(ops)
	}
	if problem != "" {
		o.Failf("%s", problem)
	}
	if sections != total {
		o.Failf("%d of %d sections ran", sections, total)
	}
	if len(writers) > 1 {
		o.NonTrivial()
	}
	checkTable(o, st, tb, newModel(c.S), nil, false)
	err := shared[0].WithSync(func(b bond.Batch) error {
		rows, err := tb.Scan(bg, false, b)
		expectRecs(o, "Scan through the shared batch", rows, err, m.all())
		if !c.Drop {
			return b.Commit(bond.Sync)
		}
		return nil
	})
	o.NoErr(err, "commit of the shared batch")
	if c.Drop {
		m = newModel(c.S)
	}
	for i := range batches {
		o.NoErr(batches[i].Close(), "batch close")
		o.NoErr(shared[i].WithSync(func(b bond.Batch) error { return b.Close() }), "shared batch close")
	}
	checkTable(o, st, tb, m, nil, true)
	checkIndexes(o, st, tb, m, true)
	st.close()
}
