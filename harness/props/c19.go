package props

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/cockroachdb/pebble"
	"github.com/go-bond/bond"
	"github.com/go-bond/bond/bloom"
	"pgregory.net/rapid"
	"verifbond/fw"
)

// IsoOp is one step of a database with several tables and user keys.
type IsoOp struct {
	// K: "" (the table write Op on table T), "reindex" (indexes IDs of table T),
	// "set", "del", "delrange" (user keys A and B), "bsave", "bclear" (a
	// persistent filter), "flush", "compact", "reopen", "sel" (a read of table T).
	K    string `json:",omitempty"`
	T    int    `json:",omitempty"`
	Op   Op     `json:",omitempty"`
	IDs  []int  `json:",omitempty"`
	A, B []byte `json:",omitempty"`
	// F is the filter of bsave and bclear.
	F int `json:",omitempty"`
	// Batch is the batch that user key operations go through.
	Batch string `json:",omitempty"`
	Sel   SelAt  `json:",omitempty"`
}

type IsoCase struct {
	DB  DBOpt
	Ss  []Schema
	Ops []IsoOp
}

var isoTables = [][]uint8{{1, 2}, {254, 255}, {127, 128}, {1, 255}, {1, 2, 3}, {2, 254, 255}, {1, 2, 254, 255}, {255}, {1}}

var userKeys = [][]byte{{}, {0}, []byte("a"), []byte("a\x00"), []byte("ab"), []byte("b"), []byte("bf_0"), []byte("bf_"), []byte("__bond_db_data_version__"), {0xff}, {0xff, 0xff}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {1, 0, 0, 0, 0, 0, 0, 0, 0}}

func init() {
	fw.Register(fw.Prop{
		ID:    "C19",
		Title: "Tables, indexes and user keys never affect each other",
		Rule: "a case is a database with one to four tables of neighbouring or extreme IDs and up to 25 steps: table writes, index rebuilds, user key writes and range deletions, saving and clearing four persistent filters, flush, compaction, reopening; " +
			"after each step the complete stored content outside the step's own part must be what it was; it is non-trivial when at least two different parts are changed after another part has content",
		Quick: 2400, Thorough: 36000,
	}, func(t *rapid.T) IsoCase {
		c := IsoCase{DB: DBOpt{SmallMem: rapid.Bool().Draw(t, "smallmem"), Bloom: rapid.Bool().Draw(t, "bloom")}}
		var ms models
		var ds []Dom
		for _, id := range rapid.SampledFrom(isoTables).Draw(t, "tables") {
			s := genSchema(t, 3)
			s.TableID = id
			c.Ss = append(c.Ss, s)
			ms = append(ms, newModel(s))
			ds = append(ds, genDom(t))
		}
		ukey := func() []byte { return rapid.SampledFrom(userKeys).Draw(t, "ukey") }
		n := rapid.IntRange(2, 25).Draw(t, "ops")
		for i := 0; i < n; i++ {
			ti := rapid.IntRange(0, len(ms)-1).Draw(t, "t")
			op := IsoOp{T: ti}
			switch k := rapid.IntRange(0, 24).Draw(t, "kind"); {
			case k < 10:
				op.Op = genWrite(t, ms[ti], ds[ti], 6)
				if len(op.Op.Rs) == 0 {
					continue
				}
				if !op.Op.Drop {
					ms[ti].apply(op.Op)
				}
			case k < 12:
				op.K = "reindex"
				for j := range c.Ss[ti].Indexes {
					if rapid.Bool().Draw(t, "ri") {
						op.IDs = append(op.IDs, j)
					}
				}
				if len(op.IDs) == 0 {
					continue
				}
			case k < 15:
				op.K, op.A, op.B = "set", ukey(), rapid.SliceOfN(rapid.Byte(), 0, 3).Draw(t, "uval")
			case k < 16:
				op.K, op.A = "del", ukey()
			case k < 17:
				op.K, op.A, op.B = "delrange", ukey(), ukey()
				if bytes.Compare(op.A, op.B) > 0 {
					op.A, op.B = op.B, op.A
				}
			case k < 19:
				op.K = rapid.SampledFrom([]string{"bsave", "bsave", "bclear"}).Draw(t, "bloomop")
				op.F = rapid.IntRange(0, len(filterPrefixes)-1).Draw(t, "filter")
			case k < 22:
				ix := genIdx(t, c.Ss[ti])
				op.K, op.Sel = "sel", SelAt{ix, genSel(t, c.Ss[ti], ix, ms[ti], ds[ti])}
			default:
				op.K = rapid.SampledFrom([]string{"flush", "compact", "reopen"}).Draw(t, "maint")
			}
			if op.K == "set" || op.K == "del" || op.K == "delrange" {
				op.Batch = rapid.SampledFrom([]string{"", "", "rw", "wo"}).Draw(t, "ubatch")
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}, runIso)
}

// parts is the stored content by part: "table/index", with the persistent
// filter and the rest of the database's own keys told apart.
func (s *Store) parts() map[string]string {
	sb := map[string]*strings.Builder{}
	it, err := s.db.Backend().NewIter(nil)
	if err != nil {
		s.o.Failf("raw iterator: %v", err)
	}
	for ok := it.First(); ok; ok = it.Next() {
		k := it.Key()
		name := fmt.Sprintf("%x", k)
		if len(k) >= 2 {
			name = fmt.Sprintf("%d/%d", k[0], k[1])
		}
		for i, p := range filterPrefixes {
			if bytes.HasPrefix(k, p) {
				name = fmt.Sprint("filter ", i)
			}
		}
		if sb[name] == nil {
			sb[name] = &strings.Builder{}
		}
		fmt.Fprintf(sb[name], "%x=%x\n", k, it.Value())
	}
	if err := it.Close(); err != nil {
		s.o.Failf("raw iterator: %v", err)
	}
	out := map[string]string{}
	for n, b := range sb {
		out[n] = b.String()
	}
	return out
}

// filterPrefixes are the key prefixes of the saved filters; the first is the
// default one, another starts where its range ends.
var filterPrefixes = [][]byte{filterKey("bf_"), filterKey("bf`"), filterKey("aa"), filterKey("zz_")}

func filterKey(s string) []byte {
	return bond.KeyEncode(bond.Key{Index: []byte{}, IndexOrder: []byte{}, PrimaryKey: []byte(s)})
}

func isoFilter(i int) *bloom.BloomFilter {
	if i == 0 {
		return bloom.NewBloomFilter(20, 0.1, 2)
	}
	return bloom.NewBloomFilter(20, 0.1, 2, filterPrefixes[i])
}

const userPart = "0/255"

func runIso(c IsoCase, o *fw.Obs) {
	st := openStore(o, c.DB)
	var tbs []Tbl
	var ms models
	open := func() {
		tbs = nil
		for _, s := range c.Ss {
			tbs = append(tbs, openTable(st.db, s))
		}
	}
	open()
	for _, s := range c.Ss {
		ms = append(ms, newModel(s))
	}
	user := map[string]string{}
	var filters []*bloom.BloomFilter
	for j := range filterPrefixes {
		filters = append(filters, isoFilter(j))
	}
	checkUser := func() {
		var ks []string
		for k := range user {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		it := st.db.Iter(&bond.IterOptions{IterOptions: pebble.IterOptions{LowerBound: []byte{0, 0xff}, UpperBound: []byte{1}}})
		i := 0
		for ok := it.First(); ok; ok = it.Next() {
			if i >= len(ks) || !bytes.Equal(it.Key(), bond.NewUserKey(ks[i])) || string(it.Value()) != user[ks[i]] {
				o.Failf("user key %d is %x = %x, want the keys %q", i, it.Key(), it.Value(), ks)
			}
			i++
		}
		o.NoErr(it.Close(), "user key iterator")
		if i != len(ks) {
			o.Failf("%d user keys, want %q", i, ks)
		}
		for _, k := range userKeys {
			v, closer, err := st.db.Get(bond.NewUserKey(string(k)))
			want, has := user[string(k)]
			if has && (err != nil || string(v) != want) || !has && !errors.Is(err, bond.ErrNotFound) && !errors.Is(err, pebble.ErrNotFound) {
				o.Failf("user key %q: %x, %v, want %x (%v)", k, v, err, want, has)
			}
			if err == nil {
				o.NoErr(closer.Close(), "user key closer")
			}
		}
	}
	before := st.parts()
	changed := map[string]bool{}
	for i, op := range c.Ops {
		if op.T >= len(tbs) {
			continue
		}
		what := fmt.Sprintf("step %d %s on table %d", i, op.K, c.Ss[op.T].TableID)
		allowed := map[string]bool{}
		tb, m := tbs[op.T], ms[op.T]
		part := func(ix uint8) string { return fmt.Sprintf("%d/%d", m.s.TableID, ix) }
		switch op.K {
		case "":
			if (op.Op.K == "uinsert" || op.Op.K == "uupdate") && !unsafeOK(m, op.Op) || len(op.Op.Rs) == 0 {
				continue
			}
			old := m.copy()
			ok := m.apply(op.Op)
			b := batchOf(st.db, op.Op.B)
			err := doWrite(tb, old, op.Op, b)
			if ok != (err == nil) {
				o.Failf("%s %s of %s: error %v, accepted by the model: %v", what, op.Op.K, canons(op.Op.Rs), err, ok)
			}
			if b != nil {
				if ok && !op.Op.Drop {
					o.NoErr(b.Commit(bond.Sync), "commit")
				} else {
					ms[op.T] = old
				}
				o.NoErr(b.Close(), "batch close")
			}
			if ok && !op.Op.Drop {
				allowed[part(0)] = true
				for _, ix := range m.s.Indexes {
					allowed[part(ix.ID)] = true
				}
			}
			what += " " + op.Op.K
		case "reindex":
			var ids []uint8
			for _, j := range op.IDs {
				if j < len(m.s.Indexes) {
					ids = append(ids, m.s.Indexes[j].ID)
				}
			}
			// a rebuild of exact indexes changes nothing at all
			o.NoErr(tb.ReIndex(ids), "%s of %v", what, ids)
		case "set", "del", "delrange":
			var w interface {
				Set(key []byte, value []byte, opt bond.WriteOptions, optBatch ...bond.Batch) error
				Delete(key []byte, opt bond.WriteOptions, optBatch ...bond.Batch) error
				DeleteRange(start []byte, end []byte, opt bond.WriteOptions, optBatch ...bond.Batch) error
			} = st.db
			b := batchOf(st.db, op.Batch)
			var bs []bond.Batch
			if b != nil {
				bs = append(bs, b)
			}
			k := bond.NewUserKey(string(op.A))
			var err error
			switch op.K {
			case "set":
				err = w.Set(k, op.B, bond.Sync, bs...)
				user[string(op.A)] = string(op.B)
			case "del":
				err = w.Delete(k, bond.Sync, bs...)
				delete(user, string(op.A))
			case "delrange":
				if bytes.Compare(op.A, op.B) >= 0 {
					if b != nil {
						_ = b.Close()
					}
					continue
				}
				err = w.DeleteRange(k, bond.NewUserKey(string(op.B)), bond.Sync, bs...)
				for x := range user {
					if x >= string(op.A) && x < string(op.B) {
						delete(user, x)
					}
				}
			}
			o.NoErr(err, "%s", what)
			if b != nil {
				o.NoErr(b.Commit(bond.Sync), "commit")
				o.NoErr(b.Close(), "batch close")
			}
			allowed[userPart] = true
		case "bsave":
			if op.F >= len(filters) {
				continue
			}
			filters[op.F].Add(bg, []byte(fmt.Sprint("key", i)))
			o.NoErr(filters[op.F].Save(bg, st.db), "filter save")
			allowed[fmt.Sprint("filter ", op.F)] = true
		case "bclear":
			if op.F >= len(filters) {
				continue
			}
			o.NoErr(filters[op.F].Clear(bg, st.db), "filter clear")
			filters[op.F] = isoFilter(op.F)
			allowed[fmt.Sprint("filter ", op.F)] = true
		case "flush":
			st.flush()
		case "compact":
			st.compact()
		case "reopen":
			st.reopen()
			open()
		case "sel":
			if validSel(m.s, op.Sel.Index, op.Sel.Sel) && (op.Sel.Index == 0 || m.s.index(op.Sel.Index) != nil) {
				checkSel(o, st, tb, m, nil, op.Sel)
			}
		}
		after := st.parts()
		others := 0
		names := map[string]bool{}
		for n := range before {
			names[n] = true
		}
		for n := range after {
			names[n] = true
		}
		hit := false
		for n := range names {
			switch {
			case before[n] == after[n]:
				if n != "0/0" {
					others++
				}
			case !allowed[n]:
				o.Failf("%s changed part %s:\nbefore\n%safter\n%s", what, n, before[n], after[n])
			default:
				hit = true
			}
		}
		if hit && others > 0 {
			changed[fmt.Sprint(op.K, m.s.TableID)] = true
		}
		before = after
		o.Evals(1)
		checkUser()
		if op.K == "" {
			o.Label("write")
		} else {
			o.Label(op.K)
		}
	}
	for i, tb := range tbs {
		checkTable(o, st, tb, ms[i], nil, true)
		checkIndexes(o, st, tb, ms[i], true)
	}
	st.reopen()
	open()
	for i, tb := range tbs {
		checkTable(o, st, tb, ms[i], nil, false)
	}
	checkUser()
	st.close()
	o.Label(fmt.Sprintf("%d tables", len(tbs)))
	if len(changed) >= 2 {
		o.NonTrivial()
	}
}
