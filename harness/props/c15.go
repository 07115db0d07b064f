package props

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/go-bond/bond"
	"pgregory.net/rapid"
	"verifbond/fw"
)

// IxOp is one step of a history of a table whose indexes come and go.
type IxOp struct {
	K     string      // write, add, dup, reindex, session, flush, compact
	W     Op          `json:",omitempty"`
	Specs []IndexSpec `json:",omitempty"`
	Re    bool        `json:",omitempty"` // add: reindex at once
	IDs   []uint8     `json:",omitempty"` // reindex
}

type IndexCase struct {
	S     Schema // without indexes
	Other Schema
	DB    DBOpt
	Rows  []Rec // of the other table
	Ops   []IxOp
}

var c15IDs = []uint8{1, 2, 254, 255}

func init() {
	fw.Register(fw.Prop{
		ID: "C15", Title: "Adding or rebuilding an index never loses or invents entries",
		Rule: "a case is a table whose indexes are added (with or without rebuild), redefined over sessions, refused as duplicates and rebuilt, between writes, flushes and compactions, beside another table with indexes; " +
			"it is non-trivial when an index was built over existing rows while its key range held entries of earlier use",
		Quick: 2500, Thorough: 40000,
	}, func(t *rapid.T) IndexCase {
		c := IndexCase{S: genSchema(t, 0), DB: DBOpt{SmallMem: rapid.Bool().Draw(t, "smallmem"), Bloom: rapid.Bool().Draw(t, "bloom")}}
		c.Other = genSchema(t, 2)
		c.Other.TableID = c.S.TableID + 1
		if c.Other.TableID == 0 || rapid.Bool().Draw(t, "before") && c.S.TableID > 1 {
			c.Other.TableID = c.S.TableID - 1
		}
		d := genDom(t)
		om := newModel(c.Other)
		for i := rapid.IntRange(0, 6).Draw(t, "others"); i > 0; i-- {
			if r := genRec(t, d); !om.has(r) {
				om.put(r)
				c.Rows = append(c.Rows, r)
			}
		}
		m := newModel(c.S)
		active := map[uint8]bool{}
		// a few index definitions, so that an index comes back as it was
		var defs []IndexSpec
		for i := 0; i < 5; i++ {
			defs = append(defs, genIndexSpec(t, rapid.SampledFrom(c15IDs).Draw(t, "id")))
		}
		for i := rapid.IntRange(4, 22).Draw(t, "ops"); i > 0; i-- {
			op := IxOp{K: rapid.SampledFrom([]string{"write", "write", "write", "write", "add", "add", "add", "dup", "reindex", "reindex", "session", "flush", "compact"}).Draw(t, "k")}
			switch op.K {
			case "write":
				op.W = genWrite(t, m, d, 6)
				if len(op.W.Rs) == 0 {
					continue
				}
				if !op.W.Drop {
					m.apply(op.W)
				}
			case "add", "dup":
				op.Re = rapid.IntRange(0, 2).Draw(t, "re") > 0
				used := map[uint8]bool{}
				dup := false
				for n := rapid.IntRange(1, 3).Draw(t, "n"); n > 0; n-- {
					ix := defs[rapid.IntRange(0, len(defs)-1).Draw(t, "def")]
					if op.K == "dup" && rapid.IntRange(0, 4).Draw(t, "zero") == 0 {
						ix.ID = 0 // the primary index has it
					}
					bad := active[ix.ID] || used[ix.ID] || ix.ID == 0
					if bad && op.K == "add" {
						continue
					}
					dup = dup || bad
					used[ix.ID] = true
					op.Specs = append(op.Specs, ix)
				}
				if len(op.Specs) == 0 || dup != (op.K == "dup") {
					continue
				}
				if op.K == "add" {
					for id := range used {
						active[id] = true
					}
				}
			case "reindex":
				for _, id := range c15IDs {
					if active[id] && rapid.Bool().Draw(t, "which") {
						op.IDs = append(op.IDs, id)
					}
				}
				if rapid.IntRange(0, 9).Draw(t, "zero") == 0 {
					op.IDs = append(op.IDs, 0) // the rows are no index to rebuild
				}
				if len(op.IDs) == 0 {
					continue
				}
			case "session":
				active = map[uint8]bool{}
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}, runIndexes)
}

// dumpExcept is the stored content outside the given indexes of a table.
func (s *Store) dumpExcept(table uint8, ids map[uint8]bool) string {
	var sb strings.Builder
	it, err := s.db.Backend().NewIter(nil)
	if err != nil {
		s.o.Failf("raw iterator: %v", err)
	}
	for ok := it.First(); ok; ok = it.Next() {
		k := it.Key()
		if k[0] == table && k[1] != 0 && ids[k[1]] {
			continue
		}
		fmt.Fprintf(&sb, "%x=%x\n", k, it.Value())
	}
	if err := it.Close(); err != nil {
		s.o.Failf("raw iterator: %v", err)
	}
	return sb.String()
}

func runIndexes(c IndexCase, o *fw.Obs) {
	st := openStore(o, c.DB)
	tb, other := openTable(st.db, c.S), openTable(st.db, c.Other)
	m, om := newModel(c.S), newModel(c.Other)
	if len(c.Rows) > 0 {
		if !om.apply(Op{K: "insert", Rs: c.Rows}) {
			return
		}
		o.NoErr(other.Insert(bg, c.Rows, nil), "insert into the other table")
	}
	active := map[uint8]IndexSpec{}
	clean := map[uint8]string{} // the definition whose entries are stored under the ID
	stored := func(id uint8) int { return len(st.rawKeys(c.S.TableID, id)) }
	write := func(i int, w Op) {
		before := m.copy()
		ok := m.apply(w)
		b := batchOf(st.db, w.B)
		err := doWrite(tb, before, w, b)
		if errors.Is(err, errMutated) {
			o.Failf("op %d %s: %v", i, w.K, err)
		}
		if ok != (err == nil) {
			o.Failf("op %d %s of %s: error %v, but the model says accepted=%v", i, w.K, canons(w.Rs), err, ok)
		}
		if b != nil {
			if ok && !w.Drop {
				o.NoErr(b.Commit(bond.Sync), "op %d commit", i)
			} else {
				m = before
			}
			o.NoErr(b.Close(), "op %d batch close", i)
		}
		for id, def := range clean {
			if a, on := active[id]; !on || mustJSON(a) != def {
				delete(clean, id)
			}
		}
	}
	built := func(id uint8, held int) {
		clean[id] = mustJSON(active[id])
		if held > 0 && len(m.rows) > 0 {
			o.NonTrivial()
		}
		if len(m.rows) > 0 {
			o.Label("index built over existing rows")
		}
	}
	for i, op := range c.Ops {
		switch op.K {
		case "flush":
			st.flush()
		case "compact":
			st.compact()
		case "session":
			st.reopen()
			tb, other = openTable(st.db, c.S), openTable(st.db, c.Other)
			active = map[uint8]IndexSpec{}
		case "write":
			if (op.W.K == "uinsert" || op.W.K == "uupdate") && !unsafeOK(m, op.W) {
				continue
			}
			write(i, op.W)
		case "add", "dup":
			seen := map[uint8]bool{}
			dup := false
			for _, s := range op.Specs {
				_, on := active[s.ID]
				dup = dup || on || seen[s.ID] || s.ID == 0
				seen[s.ID] = true
			}
			held := map[uint8]int{}
			for id := range seen {
				held[id] = stored(id)
			}
			ids := seen
			if dup || !op.Re {
				ids = nil // nothing stored may change
			}
			before := st.dumpExcept(c.S.TableID, ids)
			err := tb.AddIndex(op.Specs, op.Re)
			if dup != (err != nil) {
				o.Failf("op %d: AddIndex of %s with the indexes %v present: error %v", i, mustJSON(op.Specs), active, err)
			}
			if after := st.dumpExcept(c.S.TableID, ids); after != before {
				o.Failf("op %d: AddIndex of %s (reindex %v, error %v) changed other content\nbefore:\n%safter:\n%s", i, mustJSON(op.Specs), op.Re, err, before, after)
			}
			if dup {
				o.Label("refused duplicate")
				break
			}
			for _, s := range op.Specs {
				active[s.ID] = s
				if op.Re {
					built(s.ID, held[s.ID])
				} else if held[s.ID] == 0 && len(m.entries(&s)) == 0 {
					clean[s.ID] = mustJSON(s)
				} else if clean[s.ID] != mustJSON(s) {
					delete(clean, s.ID)
				}
			}
		case "reindex":
			if len(op.IDs) == 0 {
				continue
			}
			ids := map[uint8]bool{}
			held := map[uint8]int{}
			for _, id := range op.IDs {
				if _, ok := active[id]; ok {
					ids[id] = true
					held[id] = stored(id)
				}
			}
			if primary := op.IDs[len(op.IDs)-1] == 0; primary && len(ids) == len(op.IDs)-1 {
				before := st.rawDump()
				err := tb.ReIndex(op.IDs)
				if now := st.rawDump(); err == nil || now != before {
					o.Failf("op %d: ReIndex of %v, with the primary index: error %v, stored is\n%sbefore:\n%s", i, op.IDs, err, now, before)
				}
				o.Label("refused to rebuild the primary index")
				break
			}
			if len(ids) != len(op.IDs) {
				continue
			}
			before := st.dumpExcept(c.S.TableID, ids)
			o.NoErr(tb.ReIndex(op.IDs), "op %d: ReIndex of %v", i, op.IDs)
			for id := range ids {
				built(id, held[id])
			}
			if after := st.dumpExcept(c.S.TableID, ids); after != before {
				o.Failf("op %d: ReIndex of %v changed other content\nbefore:\n%safter:\n%s", i, op.IDs, before, after)
			}
			one := st.rawDump()
			if i%3 == 0 {
				o.NoErr(tb.ReIndex(op.IDs), "op %d: second ReIndex of %v", i, op.IDs)
				if two := st.rawDump(); one != two {
					o.Failf("op %d: a second ReIndex of %v changed the database\nbefore:\n%safter:\n%s", i, op.IDs, one, two)
				}
			}
		default:
			continue
		}
		var want, got []int
		for id := range active {
			want = append(want, int(id))
		}
		for _, x := range tb.Info().Indexes() {
			if x.ID() != 0 {
				got = append(got, int(x.ID()))
			}
		}
		sort.Ints(want)
		sort.Ints(got)
		if fmt.Sprint(want) != fmt.Sprint(got) {
			o.Failf("op %d %s: the table lists the indexes %v, want %v", i, op.K, got, want)
		}
		if sec := tb.Secondary(); fmt.Sprint(sec) != fmt.Sprint(want) {
			o.Failf("op %d %s: the table has the secondary indexes %v, want %v", i, op.K, sec, want)
		}
		full := i == len(c.Ops)-1
		checkTable(o, st, tb, m, nil, full)
		for id, s := range active {
			s := s
			if clean[id] == mustJSON(s) {
				checkIndex(o, st, tb, m, &s, full || op.K == "reindex" || op.K == "add")
			} else {
				o.Label("index not built yet")
			}
		}
	}
	// in the end every index can be rebuilt
	var ids []uint8
	for id := range active {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	if len(ids) > 0 {
		o.NoErr(tb.ReIndex(ids), "final ReIndex of %v", ids)
		for _, id := range ids {
			s := active[id]
			checkIndex(o, st, tb, m, &s, true)
		}
	}
	checkTable(o, st, tb, m, nil, true)
	checkTable(o, st, other, om, nil, true)
	checkIndexes(o, st, other, om, true)
	if ks := st.rawKeys(); len(ks) > 0 && !bytes.Contains(bytes.Join(ks, nil), []byte("__bond_db_data_version__")) {
		o.Failf("the data version record is gone")
	}
	st.close()
}
