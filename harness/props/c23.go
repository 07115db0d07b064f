package props

import (
	"fmt"
	"reflect"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-bond/bond"
	"github.com/google/uuid"
	"pgregory.net/rapid"
	"verifbond/fw"
)

type IDCase struct {
	Seqs    int   // number sequences shared by all goroutines
	Workers int   //
	Calls   int   // per worker and sequence
	Batches int   // batches per worker
	Kinds   []int // what each worker does per round: 0 next, 1 batch, 2 uuid, 3 reset
	Split   bool  // each call checked against the largest number returned before it
	// Edge: the calls go on from just before to just after the change of a second
	Edge bool `json:",omitempty"`
	// Back: before the calls the wall clock stepped back by that many seconds,
	// when the sequences had given out numbers up to counter From
	Back int    `json:",omitempty"`
	From uint64 `json:",omitempty"`
}

// setLast puts a sequence in the state that it is in after it gave out the number n,
// or reports that it can't.
func setLast(seq *bond.NumberSequence, n uint64) bool {
	f := reflect.ValueOf(seq).Elem().FieldByName("lastId")
	if !f.IsValid() || f.Type() != reflect.TypeOf(n) {
		return false
	}
	*(*uint64)(f.Addr().UnsafePointer()) = n
	return true
}

func init() {
	fw.Register(fw.Prop{
		ID: "C23", Title: "Generated identifiers are unique and increasing",
		Rule:        "a case is up to three number sequences called in bursts by up to eight goroutines at once, which also open and reset batches and make UUIDs; every number is compared with those returned before its call began; some bursts go on while the second changes, and some follow numbers given out before the clock stepped back (set in the sequence); it is non-trivial when two goroutines or more got interleaved numbers from one sequence",
		Assumptions: []string{"a sequence gives out fewer than 2^24 numbers per second"},
		Quick:       1200, Thorough: 20000, Race: true, Workers: 4,
	}, func(t *rapid.T) IDCase {
		c := IDCase{
			Seqs: rapid.IntRange(1, 3).Draw(t, "seqs"), Workers: rapid.IntRange(1, 8).Draw(t, "workers"),
			Calls: rapid.SampledFrom([]int{1, 10, 100, 400}).Draw(t, "calls"), Batches: rapid.SampledFrom([]int{0, 1, 5, 20}).Draw(t, "batches"),
			Kinds: rapid.SliceOfN(rapid.IntRange(0, 3), 1, 8).Draw(t, "kinds"), Split: rapid.Bool().Draw(t, "split"),
		}
		if rapid.IntRange(0, 39).Draw(t, "edge") == 0 {
			c.Edge, c.Seqs, c.Workers = true, 1, rapid.IntRange(4, 32).Draw(t, "edgeworkers")
		} else if rapid.IntRange(0, 3).Draw(t, "stepback") == 0 {
			c.Back = rapid.SampledFrom([]int{1, 2, 60, 3600, 1 << 20}).Draw(t, "back")
			c.From = rapid.SampledFrom([]uint64{0, 1, 7, 255, 65535, 1<<24 - 100000}).Draw(t, "from")
		}
		return c
	}, runIDs)
}

func runIDs(c IDCase, o *fw.Obs) {
	if c.Seqs < 1 || c.Seqs > 10 || c.Workers < 1 || c.Workers > 64 || c.Calls < 1 || c.Calls > 100000 {
		return
	}
	seqs := make([]bond.NumberSequence, c.Seqs)
	maxs := make([]atomic.Uint64, c.Seqs)
	type got struct {
		w int
		n uint64
	}
	var mu sync.Mutex
	all := make([][]got, c.Seqs)
	ids := map[uint64]int{}
	uuids := map[uuid.UUID]bool{}
	var msg atomic.Value
	fail := func(f string, a ...any) { msg.CompareAndSwap(nil, fmt.Sprintf(f, a...)) }
	var st *Store
	if c.Batches > 0 {
		st = openStore(o, DBOpt{})
	}
	var until time.Time
	if c.Edge {
		until = time.Now().Add(5 * time.Millisecond).Truncate(time.Second).Add(time.Second)
		time.Sleep(time.Until(until) - 3*time.Millisecond)
		until = until.Add(3 * time.Millisecond)
		o.Label("calls while the second changes")
	}
	t0 := uint64(time.Now().Unix())
	back := uint64(0)
	if c.Back > 0 && c.Back <= 1<<20 && !c.Edge && c.From+uint64(c.Workers*c.Calls) < 1<<24-1 {
		// the numbers made before the clock stepped back
		last := (t0+uint64(c.Back))<<24 | c.From
		for s := range seqs {
			if setLast(&seqs[s], last) {
				back = uint64(c.Back)
				maxs[s].Store(last)
				all[s] = append(all[s], got{-1, last})
				o.Label("calls after the clock stepped back")
			}
		}
	}
	var maxBatch atomic.Uint64
	var work []func(*fw.Obs)
	for w := 0; w < c.Workers; w++ {
		w := w
		work = append(work, func(*fw.Obs) {
			mine := make([][]got, c.Seqs)
			for i := 0; i < c.Calls || c.Edge && i < 100000 && time.Now().Before(until); i++ {
				for s := range seqs {
					before := maxs[s].Load()
					n, err := seqs[s].Next()
					if err != nil {
						fail("Next: %v", err)
						return
					}
					if c.Split {
						if n <= before {
							fail("Next returned %d after %d had been returned", n, before)
							return
						}
						for {
							m := maxs[s].Load()
							if n <= m || maxs[s].CompareAndSwap(m, n) {
								break
							}
						}
					} else if k := len(mine[s]); k > 0 && n <= mine[s][k-1].n {
						fail("Next returned %d after %d", n, mine[s][k-1].n)
						return
					} else if n <= before && back > 0 {
						fail("Next returned %d after %d had been returned before the clock stepped back", n, before)
						return
					}
					mine[s] = append(mine[s], got{w, n})
				}
			}
			mu.Lock()
			for s := range seqs {
				all[s] = append(all[s], mine[s]...)
			}
			mu.Unlock()
			for i := 0; i < c.Batches; i++ {
				k := 1
				if len(c.Kinds) > 0 {
					k = c.Kinds[(w+i)%len(c.Kinds)]
				}
				switch k {
				case 2:
					u, err := (&bond.UUIDGenerator{}).Next()
					mu.Lock()
					if err != nil || uuids[u] || u == (uuid.UUID{}) {
						fail("UUID %v, error %v, repeated %v", u, err, uuids[u])
					}
					uuids[u] = true
					mu.Unlock()
				default:
					before := maxBatch.Load()
					b := st.db.Batch([]bond.BatchType{bond.BatchTypeReadWrite, bond.BatchTypeWriteOnly}[i%2])
					var got []uint64
					got = append(got, b.ID())
					if k == 3 {
						b.Reset()
						got = append(got, b.ID())
					}
					for _, id := range got {
						if id <= before {
							fail("batch ID %d after %d had been given out", id, before)
						}
						for {
							m := maxBatch.Load()
							if id <= m || maxBatch.CompareAndSwap(m, id) {
								break
							}
						}
						mu.Lock()
						ids[id]++
						if ids[id] > 1 {
							fail("two batches have the ID %d", id)
						}
						mu.Unlock()
					}
					if err := b.Close(); err != nil {
						fail("close: %v", err)
					}
				}
			}
		})
	}
	o.Go(work...)
	t1 := uint64(time.Now().Unix())
	if m := msg.Load(); m != nil {
		o.Failf("%s", m)
	}
	for s := range all {
		rs := all[s]
		sort.Slice(rs, func(i, j int) bool { return rs[i].n < rs[j].n })
		switches := 0
		for i, r := range rs {
			o.Evals(1)
			if i > 0 && r.n == rs[i-1].n {
				o.Failf("the number %d was returned twice", r.n)
			}
			if i > 0 && r.w != rs[i-1].w {
				switches++
			}
			ts, sn := seqs[s].Timestamp(r.n), seqs[s].SequenceNumber(r.n)
			if ts<<24|sn != r.n || sn >= 1<<24 {
				o.Failf("%d decomposes into timestamp %d and sequence number %d", r.n, ts, sn)
			}
			if ts < t0 || ts > t1+back {
				o.Failf("the timestamp of %d is %d, made between %d and %d", r.n, ts, t0, t1)
			}
		}
		if switches > c.Workers {
			o.NonTrivial()
			o.Label("interleaved numbers")
		}
	}
	if len(ids) > 0 {
		o.Label("batch IDs")
	}
	if len(uuids) > 0 {
		o.Label("UUIDs")
	}
	if st != nil {
		st.close()
	}
}
