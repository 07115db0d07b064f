package props

import (
	"errors"
	"fmt"
	"math/rand"

	"github.com/go-bond/bond"
	"pgregory.net/rapid"
	"verifbond/fw"
)

// BulkOp is a write of many records, described by numbers.
type BulkOp struct {
	K     string // as in Op, or flush, compact, reopen, reindex
	From  int
	N     int
	Order string   `json:",omitempty"` // "" ascending, desc, shuf
	Dups  [][2]int `json:",omitempty"` // record [0] gets the primary key of record [1]
	Ver   int
	C     string `json:",omitempty"`
	B     string `json:",omitempty"` // "", rw, wo
	Drop  bool   `json:",omitempty"`
	// Fault points tried before the write itself (own batch only): a cancelled look
	// at the context, a failing serialization, a failing decoding; -1: none.
	Cancel []int `json:",omitempty"`
	Ser    []int `json:",omitempty"`
	Des    []int `json:",omitempty"`
}

type BulkCase struct {
	S    Schema
	DB   DBOpt
	New  *IndexSpec `json:",omitempty"` // added at the end over the existing rows
	Ops  []BulkOp
	Qs   []Q
	Gone int // how many absent keys are asked for
}

// numRec is the record number x; any primary key of bulkPKs is different for
// different x.
func numRec(x int) Rec {
	return Rec{ID: uint64(x), N: int64(x) - 6000, S: fmt.Sprint(x), B: []byte{byte(x % 3), byte(x >> 16), byte(x >> 8), byte(x)},
		A: uint32(x % 7), D: int32(x) * -3, W: uint16(x % 11), H: int16(x % 200), Y: uint8(x % 5), F: x%3 == 0, P: fmt.Sprintf("p%d", x)}
}

var bulkPKs = [][]Field{{"ID"}, {"N"}, {"S"}, {"^ID"}, {"bN"}, {"B"}, {"Y", "ID"}, {"D"}, {"A", "S"}, {"A", "B"}}
var bulkKeys = [][]Field{{"A"}, {"Y"}, {"A", "Y"}, {"F"}, {"W"}, {"F", "Y"}}
var bulkSizes = []int{4999, 5000, 5001, 5002, 9999, 10000, 10001, 10002, 12345, 15001, 7000}

func (op BulkOp) recs(s Schema) []Rec {
	rs := make([]Rec, op.N)
	for i := range rs {
		x := op.From + i
		rs[i] = withPK(s, numRec(x+op.Ver*1000003), numRec(x))
	}
	switch op.Order {
	case "desc":
		rs = reversed(rs)
	case "shuf":
		rand.New(rand.NewSource(int64(op.N+op.Ver))).Shuffle(len(rs), func(i, j int) { rs[i], rs[j] = rs[j], rs[i] })
	}
	for _, d := range op.Dups {
		if d[0] < len(rs) && d[1] < len(rs) && d[0] >= 0 && d[1] >= 0 {
			rs[d[0]] = withPK(s, rs[d[0]], rs[d[1]])
		}
	}
	return rs
}

// small is the operation on records; unsafe ones are cut down to their precondition.
func (op BulkOp) small(m *Model) Op {
	out := Op{K: op.K, C: op.C, Rs: op.recs(m.s)}
	switch op.K {
	case "uinsert", "uupdate":
		var rs []Rec
		seen := map[string]bool{}
		for _, r := range out.Rs {
			k := m.s.pk(r)
			if !seen[k] && m.has(r) == (op.K == "uupdate") {
				rs = append(rs, r)
			}
			seen[k] = true
		}
		out.Rs = rs
	case "update":
		if op.Ver%4 == 0 {
			break // some keys may be absent
		}
		var rs []Rec
		for _, r := range out.Rs {
			if m.has(r) {
				rs = append(rs, r)
			}
		}
		out.Rs = rs
	case "delete":
		for i, r := range out.Rs {
			if i%2 == 0 {
				out.Rs[i] = withPK(m.s, Rec{}, r)
			}
		}
	}
	return out
}

func genBulkOp(t *rapid.T, first bool) BulkOp {
	k := "insert"
	if !first {
		k = rapid.SampledFrom([]string{"insert", "insert", "update", "update", "upsert", "upsert", "upsert", "delete", "delete", "uinsert", "uupdate", "flush", "compact", "reopen", "reindex"}).Draw(t, "k")
	} else if rapid.IntRange(0, 2).Draw(t, "how") == 0 {
		k = rapid.SampledFrom([]string{"upsert", "uinsert"}).Draw(t, "k")
	}
	op := BulkOp{K: k, Ver: rapid.IntRange(0, 50).Draw(t, "ver")}
	switch k {
	case "flush", "compact", "reopen", "reindex":
		return op
	}
	op.N = rapid.SampledFrom(bulkSizes).Draw(t, "n")
	if !first && rapid.IntRange(0, 3).Draw(t, "few") == 0 {
		op.N = rapid.IntRange(1, 200).Draw(t, "nfew")
	}
	op.Order = rapid.SampledFrom([]string{"", "desc", "shuf"}).Draw(t, "order")
	if !first {
		op.From = rapid.SampledFrom([]int{0, 0, 0, 1, 100, 5000, 10000, 15000, 20000}).Draw(t, "from")
	}
	for i := rapid.SampledFrom([]int{0, 0, 1, 3, 20}).Draw(t, "dups"); i > 0; i-- {
		a := rapid.OneOf(rapid.IntRange(0, op.N-1), rapid.SampledFrom([]int{0, 4999, 5000, 5001, 9999, 10000})).Draw(t, "a")
		b := rapid.OneOf(rapid.IntRange(0, op.N-1), rapid.SampledFrom([]int{0, 4999, 5000, 5001, 9999, 10000})).Draw(t, "b")
		op.Dups = append(op.Dups, [2]int{a, b})
	}
	if k == "upsert" {
		op.C = rapid.SampledFrom([]string{"", "old", "merge", "merge"}).Draw(t, "conflict")
	}
	if k == "insert" && first {
		op.Dups = nil
	}
	switch rapid.IntRange(0, 7).Draw(t, "batch") {
	case 0:
		op.B = "rw"
		op.Drop = rapid.IntRange(0, 4).Draw(t, "drop") == 0
	case 1:
		op.B = "wo"
	}
	if op.B == "" && !first {
		at := func(l string) []int {
			if (l != "cancel" || k != "delete") && rapid.IntRange(0, 2).Draw(t, l) != 0 {
				return nil
			}
			return []int{rapid.OneOf(rapid.IntRange(0, op.N), rapid.SampledFrom([]int{4999, 5000, 5001, 10001})).Draw(t, l+"at")}
		}
		op.Cancel, op.Ser, op.Des = at("cancel"), at("ser"), at("des")
	}
	return op
}

func init() {
	fw.Register(fw.Prop{
		ID: "C27", Title: "Bulk operations behave like small ones",
		Rule: "a case is a table with up to two indexes and a history of write calls of 5,000 to 15,001 records (and some small ones) with duplicate keys at chosen distances, in key order, against it or shuffled, through the call's own batch or one given to it, some repeated after a cancellation or codec failure deep in the call, then index rebuilds, a Get of every key, scans and queries; " +
			"it is non-trivial when a call of more than 5,000 records was applied to a table with rows or held duplicates",
		Assumptions: []string{"a write through a write-only batch sees neither what the batch holds nor its own earlier parts, so those calls have no duplicates"},
		Quick:       200, Thorough: 4000, HangSec: 120,
	}, func(t *rapid.T) BulkCase {
		c := BulkCase{DB: DBOpt{SmallMem: rapid.IntRange(0, 3).Draw(t, "smallmem") == 0, Bloom: rapid.Bool().Draw(t, "bloom")}}
		c.S = genSchema(t, 0)
		c.S.PK = rapid.SampledFrom(bulkPKs).Draw(t, "bulkpk")
		n := rapid.IntRange(0, 2).Draw(t, "nidx")
		ids := rapid.Permutation(idxIDs).Draw(t, "ids")
		idx := func(id uint8) IndexSpec {
			ix := genIndexSpec(t, id)
			ix.Key = rapid.SampledFrom(bulkKeys).Draw(t, "bulkkey")
			if ix.Pad > 300 {
				ix.Pad = 300
			}
			return ix
		}
		for i := 0; i < n; i++ {
			c.S.Indexes = append(c.S.Indexes, idx(ids[i]))
		}
		if rapid.Bool().Draw(t, "new") {
			ix := idx(ids[3])
			c.New = &ix
		}
		c.Ops = append(c.Ops, genBulkOp(t, true))
		for i := rapid.IntRange(1, 3).Draw(t, "ops"); i > 0; i-- {
			c.Ops = append(c.Ops, genBulkOp(t, false))
		}
		for i := rapid.IntRange(0, 3).Draw(t, "qs"); i > 0; i-- {
			q := Q{NoWith: true}
			if len(c.S.Indexes) > 0 && rapid.Bool().Draw(t, "qidx") {
				ix := c.S.Indexes[0]
				q = Q{Index: ix.ID, Sel: Sel{Kind: "point", Recs: []Rec{withKey(&ix, Rec{}, numRec(rapid.IntRange(0, 100).Draw(t, "at")))}}}
			}
			genClauses(t, &q)
			if q.Offset > 0 {
				q.Offset = uint64(rapid.SampledFrom([]int{1, 99, 100, 101, 4999, 5000, 9999, 10000, 14990}).Draw(t, "off"))
			}
			if q.Limit > 0 {
				q.Limit = uint64(rapid.SampledFrom([]int{1, 99, 100, 101, 5000, 10001}).Draw(t, "lim"))
			}
			c.Qs = append(c.Qs, q)
		}
		c.Gone = rapid.SampledFrom([]int{0, 1, 5001}).Draw(t, "gone")
		return c
	}, runBulk)
}

func runBulk(c BulkCase, o *fw.Obs) {
	st := openStore(o, c.DB)
	fs := &faultSer{in: recSerializer(c.S.Serializer)}
	fs.arm(-1, -1)
	open := func() Tbl { return openTable(st.db, c.S, func(o *tblOpts) { o.serializer = fs.wrapped() }) }
	tb := open()
	m := newModel(c.S)
	for i, op := range c.Ops {
		switch op.K {
		case "flush":
			st.flush()
			continue
		case "compact":
			st.compact()
			continue
		case "reopen":
			st.reopen()
			tb = open()
			continue
		case "reindex":
			var ids []uint8
			for _, ix := range c.S.Indexes {
				ids = append(ids, ix.ID)
			}
			o.NoErr(tb.ReIndex(ids), "op %d ReIndex", i)
			checkIndexes(o, st, tb, m, false)
			continue
		}
		if op.B == "wo" {
			op.Dups = nil
		}
		w := op.small(m)
		if len(w.Rs) == 0 {
			continue
		}
		next := m.copy()
		ok := next.apply(w)
		what := fmt.Sprintf("op %d: %s of %d records (from %d, order %q, duplicates %v)", i, op.K, len(w.Rs), op.From, op.Order, op.Dups)
		applied := false
		if op.B == "" && len(op.Cancel)+len(op.Ser)+len(op.Des) > 0 || !ok {
			before := st.rawDump()
			try := func(fault string, cancel, ser, des int) {
				if applied {
					return
				}
				fs.arm(ser, des)
				ctx := newCountCtx(cancel)
				var b bond.Batch
				if !ok && op.B != "" {
					b = batchOf(st.db, op.B)
				}
				err := doWriteCtx(ctx, tb, m, w, b)
				if b != nil {
					o.NoErr(b.Close(), "%s: close", what)
				}
				hit := fs.fired
				fs.arm(-1, -1)
				o.Evals(1)
				if err == nil {
					if hit || !ok {
						o.Failf("%s with %s: no error", what, fault)
					}
					applied = true
					return
				}
				if after := st.rawDump(); after != before {
					o.Failf("%s with %s failed with %q but changed the database (%d bytes of content before, %d after)", what, fault, err, len(before), len(after))
				}
				o.Label("failed call of " + op.K)
			}
			if !ok {
				try("a refused record", -1, -1, -1)
			}
			if op.B == "" {
				for _, n := range op.Cancel {
					try(fmt.Sprintf("a context cancelled at look %d", n), n, -1, -1)
				}
				for _, n := range op.Ser {
					try(fmt.Sprintf("serialization %d failing", n), -1, n, -1)
				}
				if op.K != "delete" {
					for _, n := range op.Des {
						try(fmt.Sprintf("decoding %d failing", n), -1, -1, n)
					}
				}
			}
		}
		if !ok {
			o.Label("refused call of " + op.K)
			if len(w.Rs) > 5000 {
				o.NonTrivial()
			}
			continue
		}
		if !applied {
			b := batchOf(st.db, op.B)
			if err := doWrite(tb, m, w, b); err != nil {
				o.Failf("%s: refused with %q, but the model accepts it", what, err)
			}
			if b != nil {
				if op.Drop {
					next = m
				} else {
					o.NoErr(b.Commit(bond.Sync), "%s: commit", what)
				}
				o.NoErr(b.Close(), "%s: close", what)
			}
		}
		if len(w.Rs) > 5000 && (len(m.rows) > 0 || len(op.Dups) > 0) {
			o.NonTrivial()
		}
		o.Label(fmt.Sprintf("%s of more than %d", op.K, len(w.Rs)/5000*5000))
		m = next
		checkTable(o, st, tb, m, nil, false)
		checkIndexes(o, st, tb, m, false)
	}
	all := m.all()
	got, err := tb.Scan(bg, true, nil)
	expectRecs(o, "Scan reverse", got, err, reversed(all))
	if c.New != nil {
		clash := false
		for _, ix := range c.S.Indexes {
			clash = clash || ix.ID == c.New.ID
		}
		if !clash {
			o.NoErr(tb.AddIndex([]IndexSpec{*c.New}, true), "AddIndex over %d rows", len(all))
			c.S.Indexes = append(append([]IndexSpec{}, c.S.Indexes...), *c.New)
			m.s = c.S
			checkIndexes(o, st, tb, m, false)
			if len(all) >= 10000 {
				o.Label("index built over 10000 rows or more")
			}
		}
	}
	// every key and some absent ones, in an order that is not the key order
	var pts []Rec
	for _, r := range all {
		pts = append(pts, withPK(c.S, Rec{}, r))
	}
	for i := 0; i < c.Gone; i++ {
		if r := withPK(c.S, Rec{}, numRec(60000+i)); !m.has(r) {
			pts = append(pts, r)
		}
	}
	rand.New(rand.NewSource(1)).Shuffle(len(pts), func(i, j int) { pts[i], pts[j] = pts[j], pts[i] })
	if len(pts) > 0 {
		rs, miss, err := tb.Get(bg, Sel{Kind: "points", Recs: pts}, nil)
		o.Evals(len(pts))
		if err != nil || len(rs) != len(pts) {
			o.Failf("Get of %d points: %d results, error %v", len(pts), len(rs), err)
		}
		for i, p := range pts {
			want, has := m.rows[c.S.pk(p)]
			if has && !rs[i].eq(&want) {
				o.Failf("Get of %d points: result %d is %s, want %s", len(pts), i, rs[i].canon(), want.canon())
			}
			if !has && !miss[i] {
				o.Failf("Get of %d points: result %d is %s for the absent key %s", len(pts), i, rs[i].canon(), p.canon())
			}
		}
	}
	for _, q := range c.Qs {
		if !validQ(c.S, q) || q.After != nil {
			continue
		}
		got, err := tb.Query(q).Run(bg, nil)
		m.checkQuery(o, "query "+mustJSON(q), q, m.evalBase(q), got, err)
	}
	// callback scans, stopped near the end of a prefetch window of the whole
	n := 0
	stop := errors.New("stop")
	err = tb.ScanEach(bg, 0, Sel{Kind: "all"}, false, nil, func(_ []byte, get func() (Rec, error)) (bool, error) {
		r, err := get()
		if err != nil {
			return false, err
		}
		if n >= len(all) || !r.eq(&all[n]) {
			return false, fmt.Errorf("row %d is %s", n, r.canon())
		}
		n++
		if n == 5001 {
			return false, stop
		}
		return true, nil
	})
	if len(all) >= 5001 && !errors.Is(err, stop) || len(all) < 5001 && (err != nil || n != len(all)) {
		o.Failf("callback scan over %d rows: %d rows, error %v", len(all), n, err)
	}
	st.close()
	o.Label(fmt.Sprintf("rows<=%d000", (len(all)+999)/1000))
}
