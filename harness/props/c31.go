package props

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"

	"github.com/bits-and-blooms/bloom/v3"
	"github.com/cockroachdb/pebble"
	"github.com/cockroachdb/pebble/objstorage/objstorageprovider"
	"github.com/cockroachdb/pebble/sstable"
	"github.com/cockroachdb/pebble/vfs"
	"github.com/fxamacker/cbor/v2"
	"github.com/go-bond/bond"
	"github.com/klauspost/compress/zstd"
	"github.com/lithammer/go-jump-consistent-hash"
	"github.com/tinylib/msgp/msgp"
	"github.com/vmihailenco/msgpack/v5"
	"pgregory.net/rapid"
	"verifbond/fw"
)

// The layout of data version 1, written down once more: what databases and
// dumps of earlier builds hold.

func refUint(v uint64, size int) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	return b[8-size:]
}

// refInt: sign byte 0, 1, 2 and the value; of a negative number all bits of
// its absolute value are inverted.
func refInt(v *big.Int, size int) []byte {
	out := []byte{byte(v.Sign() + 1)}
	b := new(big.Int).Abs(v).FillBytes(make([]byte, size))
	if v.Sign() < 0 {
		for i := range b {
			b[i] = ^b[i]
		}
	}
	return append(out, b...)
}

func refField(f Field, r Rec, desc bool) []byte {
	u := func(v uint64, size int) []byte {
		if desc {
			v = ^v
		}
		return refUint(v, size)
	}
	n := func(v int64, size int) []byte {
		b := big.NewInt(v)
		if desc {
			b.Neg(b)
		}
		return refInt(b, size)
	}
	switch f {
	case "ID":
		return u(r.ID, 8)
	case "^ID":
		return u(^r.ID, 8)
	case "A":
		return u(uint64(r.A), 4)
	case "W":
		return u(uint64(r.W), 2)
	case "Y":
		return u(uint64(r.Y), 1)
	case "F":
		return u(boolU(r.F), 1)
	case "N":
		return n(r.N, 8)
	case "D":
		return n(int64(r.D), 4)
	case "H":
		return n(int64(r.H), 2)
	case "bN":
		return n(r.N, 16)
	case "S":
		return []byte(r.S)
	case "B":
		return r.B
	}
	panic("unknown field " + f)
}

// refFields: every field follows its number, counted from 1.
func refFields(fs ...[]byte) (out []byte) {
	for i, f := range fs {
		out = append(append(out, byte(i+1)), f...)
	}
	return
}

func refPK(s Schema, r Rec) []byte {
	var fs [][]byte
	for _, f := range s.PK {
		fs = append(fs, refField(f, r, false))
	}
	return refFields(fs...)
}

// refKey: table, index, length and index value, length and order, primary key.
func refKey(table, index uint8, value, order, pk []byte) []byte {
	out := []byte{table, index}
	out = append(out, refUint(uint64(len(value)), 4)...)
	out = append(out, value...)
	out = append(out, refUint(uint64(len(order)), 4)...)
	out = append(out, order...)
	return append(out, pk...)
}

func refIndexKey(s Schema, ix *IndexSpec, r Rec) []byte {
	var vs, os [][]byte
	if ix.Pad > 0 {
		vs = append(vs, make([]byte, ix.Pad))
	}
	for _, f := range ix.Key {
		vs = append(vs, refField(f, r, false))
	}
	for _, of := range ix.Order {
		os = append(os, refField(of.F, r, of.Desc))
	}
	return refKey(s.TableID, ix.ID, refFields(vs...), refFields(os...), refPK(s, r))
}

// refUserKey: a key without content is that of a prefix.
func refUserKey(k string) []byte {
	if k == "" {
		return []byte{0, 255, 0, 0, 0, 0}
	}
	return refKey(0, 255, nil, nil, []byte(k))
}

var refVersionKey = refKey(0, 0, nil, nil, []byte("__bond_db_data_version__"))

// refEncode and refDecode use the serialization libraries themselves.
func refEncode(name string, r Rec) ([]byte, error) {
	switch name {
	case "json":
		return json.Marshal(r)
	case "msgpack", "msgpackplain":
		return msgpack.Marshal(r)
	case "msgpgen":
		var b bytes.Buffer
		err := msgp.Encode(&b, &r)
		return b.Bytes(), err
	case "vt":
		return r.MarshalVT()
	}
	return cbor.Marshal(r)
}

func refDecode(name string, b []byte) (r Rec, err error) {
	switch name {
	case "json":
		err = json.Unmarshal(b, &r)
	case "msgpack", "msgpackplain":
		err = msgpack.Unmarshal(b, &r)
	case "msgpgen":
		err = msgp.Decode(bytes.NewReader(b), &r)
	case "vt":
		err = r.UnmarshalVT(b)
	default:
		err = cbor.Unmarshal(b, &r)
	}
	return
}

type refKV struct{ k, v []byte }

// refPart is what is stored for the table: rows (index 0) or an index.
func refPart(m *Model, ix *IndexSpec) (out []refKV, err error) {
	for _, r := range m.rows {
		if ix != nil {
			if ix.accepts(r) {
				out = append(out, refKV{refIndexKey(m.s, ix, r), []byte{}})
			}
			continue
		}
		v, err := refEncode(m.s.Serializer, r)
		if err != nil {
			return nil, err
		}
		out = append(out, refKV{refKey(m.s.TableID, 0, nil, nil, refPK(m.s, r)), v})
	}
	sort.Slice(out, func(i, j int) bool { return bytes.Compare(out[i].k, out[j].k) < 0 })
	return out, nil
}

func refComparer() *pebble.Comparer {
	c := *pebble.DefaultComparer
	c.Split = func(k []byte) int { return 6 + int(binary.BigEndian.Uint32(k[2:6])) }
	return &c
}

// LayoutCase is a table whose content is written in one way and read in the
// other: by the database and with the layout.
type LayoutCase struct {
	S    Schema
	DB   DBOpt
	Load []Op
	User []string // user keys
	Cut  int      // reference: flush after so many keys, 0: never
	Comp bool     // reference: compact before the database is closed
	// After: writes to the database made from the layout
	After []Op
	Dump  bool // also by way of a dump
	Index bool // with its indexes
	Files int  // number of files the reference dump has per part
	// Filter: a Bloom filter of the rows is stored, too
	Filter *BloomCfg `json:",omitempty"`
}

// refFilter is what is stored of a filter: the number of buckets and every
// bucket, found by the consistent hash of the CRC of the key.
type refFilter []*bloom.BloomFilter

func refFilterPrefix(c BloomCfg) []byte {
	if c.Prefix == 0 {
		return refKey(0, 0, nil, nil, []byte("bf_"))
	}
	return c.prefix()
}

func (f refFilter) bucket(key []byte) *bloom.BloomFilter {
	return f[jump.Hash(uint64(crc32.ChecksumIEEE(key)), int32(len(f)))]
}

func (f refFilter) store(o *fw.Obs, c BloomCfg, set func(k, v []byte)) {
	pre := string(refFilterPrefix(c))
	set([]byte(pre+"bn"), refUint(uint64(len(f)), 8))
	for i, b := range f {
		var buf bytes.Buffer
		w, err := zstd.NewWriter(&buf)
		o.Infra(err)
		_, err = b.WriteTo(w)
		o.Infra(err)
		o.Infra(w.Close())
		set([]byte(pre+strconv.Itoa(i)), buf.Bytes())
	}
}

func loadRefFilter(o *fw.Obs, c BloomCfg, m map[string][]byte) (f refFilter) {
	pre := string(refFilterPrefix(c))
	if v := m[pre+"bn"]; !bytes.Equal(v, refUint(uint64(c.Buckets), 8)) {
		o.Failf("saved filter: the number of buckets is stored as %x, want %d", v, c.Buckets)
	}
	for i := 0; i < c.Buckets; i++ {
		r, err := zstd.NewReader(bytes.NewReader(m[pre+strconv.Itoa(i)]))
		o.Infra(err)
		b := bloom.New(1, 1)
		if _, err := b.ReadFrom(r); err != nil {
			o.Failf("saved filter: bucket %d: %v", i, err)
		}
		r.Close()
		f = append(f, b)
	}
	return
}

func init() {
	fw.Register(fw.Prop{
		ID: "C31", Title: "The stored layout is that of the data version",
		Rule: "a case is a table with up to three indexes and the rows that generated writes leave, and some user keys; the stored keys, values, version records and dump files are compared with an independent implementation of the layout, and a database and a dump which that implementation wrote are opened, restored, read in full and written to; " +
			"it is non-trivial when the table has rows and index entries",
		Assumptions: []string{"the layout is that of data version 1 at the pinned commit, the order fields of the smallest signed integers excepted (they were repaired)"},
		Quick:       900, Thorough: 16000,
	}, func(t *rapid.T) LayoutCase {
		s := genSchema(t, 3)
		d := genDom(t)
		c := LayoutCase{S: s, DB: DBOpt{SmallMem: rapid.Bool().Draw(t, "smallmem"), Bloom: rapid.Bool().Draw(t, "bloom")}}
		m := newModel(s)
		writes := func(n, recs int) (out []Op) {
			for ; n > 0; n-- {
				op := genWrite(t, m, d, recs)
				op.B, op.Drop = "", false
				if len(op.Rs) > 0 {
					m.apply(op)
					out = append(out, op)
				}
			}
			return
		}
		c.Load = writes(rapid.IntRange(1, 6).Draw(t, "writes"), 10)
		c.User = rapid.SliceOfNDistinct(rapid.StringN(0, 12, -1), 0, 4, rapid.ID[string]).Draw(t, "user")
		c.Cut = rapid.IntRange(0, 10).Draw(t, "cut")
		c.Comp = rapid.Bool().Draw(t, "comp")
		c.Dump = rapid.IntRange(0, 4).Draw(t, "dump") == 0
		c.Index, c.Files = rapid.IntRange(0, 3).Draw(t, "index") > 0, rapid.IntRange(1, 3).Draw(t, "files")
		if rapid.IntRange(0, 2).Draw(t, "filter") == 0 {
			c.Filter = &BloomCfg{N: rapid.SampledFrom([]int{1, 20, 1000}).Draw(t, "n"), FP: rapid.SampledFrom([]float64{0.3, 0.01, 0.0001}).Draw(t, "fp"),
				Buckets: rapid.SampledFrom([]int{1, 2, 3, 10, 13}).Draw(t, "buckets"), Prefix: rapid.IntRange(0, 2).Draw(t, "prefix")}
		}
		c.After = writes(rapid.IntRange(0, 3).Draw(t, "after"), 5)
		return c
	}, runLayout)
}

func runLayout(c LayoutCase, o *fw.Obs) {
	if c.Files < 1 || c.Files > 10 || c.S.TableID == 0 || c.Filter != nil && (c.Filter.Buckets < 1 || c.Filter.N < 1 || c.Filter.FP <= 0 || c.Filter.FP >= 1) {
		return
	}
	apply := func(st *Store, tb Tbl, m *Model, ops []Op) {
		for i, op := range ops {
			loadWrite(o, tb, m, op, nil, i)
		}
	}
	rowKey := func(r Rec) []byte { return refKey(c.S.TableID, 0, nil, nil, refPK(c.S, r)) }
	entries := 0
	// parts are the rows and the indexes
	parts := func(m *Model) (ids []uint8, out [][]refKV) {
		for i := -1; i < len(c.S.Indexes); i++ {
			var ix *IndexSpec
			id := uint8(0)
			if i >= 0 {
				ix = &c.S.Indexes[i]
				id = ix.ID
			}
			kvs, err := refPart(m, ix)
			o.Infra(err)
			ids, out = append(ids, id), append(out, kvs)
			if i >= 0 {
				entries += len(kvs)
			}
		}
		return
	}
	// same compares stored content with the layout of the rows
	same := func(what string, got, want []refKV) {
		o.Evals(len(want))
		for i := range want {
			if i >= len(got) || !bytes.Equal(got[i].k, want[i].k) {
				g := "nothing"
				if i < len(got) {
					g = fmt.Sprintf("%x", got[i].k)
				}
				o.Failf("%s: stored is %s where the layout has the key %x", what, g, want[i].k)
			}
			if len(want[i].v) == 0 {
				continue
			}
			r, err := refDecode(c.S.Serializer, got[i].v)
			w, werr := refDecode(c.S.Serializer, want[i].v)
			o.Infra(werr)
			if err != nil || !r.eq(&w) {
				o.Failf("%s: the value of key %x is %q, which %s decodes to %s, error %v; want %s", what, want[i].k, got[i].v, c.S.Serializer, r.canon(), err, w.canon())
			}
		}
		if len(got) > len(want) {
			o.Failf("%s: stored is %x, which the layout does not have", what, got[len(want)].k)
		}
	}
	stored := func(st *Store) (out []refKV) {
		it, err := st.db.Backend().NewIter(nil)
		o.Infra(err)
		for ok := it.First(); ok; ok = it.Next() {
			out = append(out, refKV{append([]byte(nil), it.Key()...), append([]byte(nil), it.Value()...)})
		}
		o.Infra(it.Close())
		return
	}
	userVal := func(i int) []byte { return []byte(fmt.Sprintf("u%d", i)) }
	// whole compares everything that is stored
	whole := func(what string, st *Store, m *Model) {
		_, ps := parts(m)
		var want []refKV
		for _, p := range ps {
			want = append(want, p...)
		}
		var got, rest []refKV
		for _, kv := range stored(st) {
			if kv.k[0] == c.S.TableID {
				got = append(got, kv)
			} else {
				rest = append(rest, kv)
			}
		}
		sort.Slice(want, func(i, j int) bool { return bytes.Compare(want[i].k, want[j].k) < 0 })
		same(what, got, want)
		own := map[string]string{string(refVersionKey): "1"}
		for i, k := range c.User {
			own[string(refUserKey(k))] = string(userVal(i))
		}
		for _, kv := range rest {
			if v, ok := own[string(kv.k)]; !ok || v != string(kv.v) {
				o.Failf("%s: stored is %x = %q, want one of %q", what, kv.k, kv.v, own)
			}
			delete(own, string(kv.k))
		}
		if len(own) > 0 {
			o.Failf("%s: missing are %q", what, own)
		}
		b, err := os.ReadFile(filepath.Join(st.dir, "bond", "PEBBLE_FORMAT_VERSION"))
		if v := strconv.Itoa(int(st.db.Backend().FormatMajorVersion())); err != nil || string(b) != v {
			o.Failf("%s: the format version file holds %q, error %v, want %s", what, b, err, v)
		}
	}
	reads := func(what string, st *Store, tb Tbl, m *Model) {
		checkTable(o, st, tb, m, nil, true)
		checkIndexes(o, st, tb, m, true)
		for i, k := range c.User {
			v, closer, err := st.db.Get(bond.NewUserKey(k))
			if err != nil || !bytes.Equal(v, userVal(i)) {
				o.Failf("%s: the user key %q has %q, %v, want %q", what, k, v, err, userVal(i))
			}
			_ = closer.Close()
		}
	}

	// 1. what the database writes
	st := openStore(o, c.DB)
	tb := openTable(st.db, c.S)
	m := newModel(c.S)
	apply(st, tb, m, c.Load)
	for i, k := range c.User {
		o.NoErr(st.db.Set(bond.NewUserKey(k), userVal(i), bond.Sync), "Set of a user key")
	}
	whole("written by the database", st, m)
	if c.Filter != nil {
		f := c.Filter.filter()
		o.Label("filter")
		for _, r := range m.rows {
			f.Add(bg, rowKey(r))
		}
		o.NoErr(f.Save(bg, st.db), "Save of the filter")
		got := map[string][]byte{}
		for _, kv := range stored(st) {
			got[string(kv.k)] = kv.v
		}
		rf := loadRefFilter(o, *c.Filter, got)
		for _, r := range m.rows {
			if !rf.bucket(rowKey(r)).Test(rowKey(r)) {
				o.Failf("the saved filter of %+v hides the row %s from the layout", *c.Filter, r.canon())
			}
		}
		o.NoErr(f.Clear(bg, st.db), "Clear of the filter")
		whole("after Clear of the filter", st, m)
	}
	if len(m.rows) > 0 && entries > 0 {
		o.NonTrivial()
	}
	table := []bond.TableID{bond.TableID(c.S.TableID)}
	if c.Dump {
		o.Label("dump")
		dir := filepath.Join(o.TempDir(), "dump")
		o.NoErr(st.db.Dump(bg, dir, table, c.Index), "Dump")
		b, err := os.ReadFile(filepath.Join(dir, "VERSION"))
		if err != nil || !bytes.Equal(b, []byte{0, 0, 0, 1}) {
			o.Failf("the VERSION file of the dump holds %x, error %v", b, err)
		}
		ids, ps := parts(m)
		for i, id := range ids {
			if id != 0 && !c.Index {
				continue
			}
			name := refDumpDir(c.S.TableID, id)
			fs, _ := filepath.Glob(filepath.Join(dir, name, "*.sst"))
			var got []refKV
			for n := 1; n <= len(fs); n++ {
				got = append(got, readSST(o, filepath.Join(dir, name, fmt.Sprintf("%d.sst", n)))...)
			}
			same("dumped to "+name, got, ps[i])
		}
	}
	st.close()

	// 2. what the database reads
	dir := filepath.Join(o.TempDir(), "ref")
	o.Infra(os.MkdirAll(filepath.Join(dir, "bond"), 0o755))
	fs := vfs.NewMem()
	po := pebbleOptions(c.DB, fs)
	po.Comparer = refComparer()
	o.Infra(os.WriteFile(filepath.Join(dir, "bond", "PEBBLE_FORMAT_VERSION"), []byte(strconv.Itoa(int(po.FormatMajorVersion))), 0o644))
	pdb, err := pebble.Open(dir, po)
	o.Infra(err)
	n := 0
	set := func(k, v []byte) {
		o.Infra(pdb.Set(k, v, pebble.NoSync))
		if n++; c.Cut > 0 && n%(c.Cut*5) == 0 {
			o.Infra(pdb.Flush())
		}
	}
	set(refVersionKey, []byte("1"))
	for i, k := range c.User {
		set(refUserKey(k), userVal(i))
	}
	_, ps := parts(m)
	for _, p := range ps {
		for _, kv := range p {
			set(kv.k, kv.v)
		}
	}
	var rf refFilter
	if c.Filter != nil {
		for i := 0; i < c.Filter.Buckets; i++ {
			rf = append(rf, bloom.NewWithEstimates(uint(c.Filter.N), c.Filter.FP))
		}
		for _, r := range m.rows {
			rf.bucket(rowKey(r)).Add(rowKey(r))
		}
		rf.store(o, *c.Filter, set)
	}
	if c.Cut > 0 {
		o.Infra(pdb.Flush())
	}
	if c.Comp {
		o.Infra(pdb.Compact([]byte{0, 0, 0, 0, 0, 0}, []byte{255, 255, 255, 255, 255, 255, 255}, false))
	}
	o.Infra(pdb.Close())
	st = openStoreFS(o, c.DB, fs, dir)
	tb = openTable(st.db, c.S)
	reads("database of the layout", st, tb, m)
	if c.Filter != nil {
		f := c.Filter.filter()
		o.NoErr(f.Load(bg, st.db), "Load of a filter of the layout")
		for _, r := range m.rows {
			if !f.MayContain(bg, rowKey(r)) {
				o.Failf("the filter of %+v loaded from the layout hides the row %s", *c.Filter, r.canon())
			}
		}
		o.NoErr(f.Clear(bg, st.db), "Clear of the filter")
	}
	after := m.copy()
	apply(st, tb, after, c.After)
	reads("database of the layout after writes", st, tb, after)
	whole("database of the layout after writes", st, after)
	st.close()

	// 3. what the database restores
	if !c.Dump {
		return
	}
	dump := filepath.Join(o.TempDir(), "refdump")
	o.Infra(os.MkdirAll(dump, 0o755))
	o.Infra(os.WriteFile(filepath.Join(dump, "VERSION"), []byte{0, 0, 0, 1}, 0o644))
	ids, ps := parts(m)
	for i, id := range ids {
		if id != 0 && (!c.Index || len(ps[i]) == 0) {
			continue
		}
		d := filepath.Join(dump, refDumpDir(c.S.TableID, id))
		o.Infra(os.MkdirAll(d, 0o755))
		for f := 0; f < c.Files; f++ {
			lo, hi := len(ps[i])*f/c.Files, len(ps[i])*(f+1)/c.Files
			if lo == hi && f > 0 {
				continue
			}
			writeSST(o, filepath.Join(d, fmt.Sprintf("%d.sst", f+1)), ps[i][lo:hi])
		}
	}
	st = openStoreFS(o, c.DB, vfs.Default, filepath.Join(o.TempDir(), "restored"))
	s := c.S
	tb = openTable(st.db, s)
	o.NoErr(st.db.Restore(bg, dump, table, c.Index), "Restore of a dump of the layout")
	if !c.Index && len(s.Indexes) > 0 {
		var ids []uint8
		for _, ix := range s.Indexes {
			ids = append(ids, ix.ID)
		}
		o.NoErr(tb.ReIndex(ids), "ReIndex of a dump of the layout")
	}
	checkTable(o, st, tb, m, nil, true)
	checkIndexes(o, st, tb, m, true)
	apply(st, tb, m, c.After)
	checkTable(o, st, tb, m, nil, true)
	checkIndexes(o, st, tb, m, true)
	st.close()
}

func refDumpDir(table, index uint8) string {
	if index == 0 {
		return fmt.Sprintf("table_%d", table)
	}
	return fmt.Sprintf("table_%d_index_%d", table, index)
}

func readSST(o *fw.Obs, path string) (out []refKV) {
	f, err := vfs.Default.Open(path)
	if err != nil {
		o.Failf("dumped file %s: %v", path, err)
	}
	rd, err := sstable.NewSimpleReadable(f)
	o.Infra(err)
	r, err := sstable.NewReader(rd, sstable.ReaderOptions{Comparer: refComparer()})
	if err != nil {
		o.Failf("dumped file %s: %v", path, err)
	}
	it, err := r.NewIter(sstable.NoTransforms, nil, nil)
	if err != nil {
		o.Failf("dumped file %s: %v", path, err)
	}
	for k, v := it.First(); k != nil; k, v = it.Next() {
		b, _, err := v.Value(nil)
		o.Infra(err)
		out = append(out, refKV{append([]byte(nil), k.UserKey...), append([]byte(nil), b...)})
	}
	o.Infra(it.Close())
	o.Infra(r.Close())
	return
}

func writeSST(o *fw.Obs, path string, kvs []refKV) {
	f, err := vfs.Default.Create(path)
	o.Infra(err)
	w := sstable.NewWriter(objstorageprovider.NewFileWritable(f), sstable.WriterOptions{TableFormat: sstable.TableFormatPebblev2, Comparer: refComparer()})
	for _, kv := range kvs {
		o.Infra(w.Set(kv.k, kv.v))
	}
	o.Infra(w.Close())
}
