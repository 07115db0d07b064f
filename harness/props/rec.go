package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"math/big"
	"sort"
	"strings"

	"github.com/go-bond/bond"
	"pgregory.net/rapid"
)

// Rec is the record used by most properties. Several fields are omitted from the
// encoding when empty, so decoding into a dirty object shows.
type Rec struct {
	ID uint64         `json:"id" cbor:"id" msgpack:"id"`
	N  int64          `json:"n,omitempty" cbor:"n,omitempty" msgpack:"n,omitempty"`
	S  string         `json:"s,omitempty" cbor:"s,omitempty" msgpack:"s,omitempty"`
	B  []byte         `json:"b,omitempty" cbor:"b,omitempty" msgpack:"b,omitempty"`
	A  uint32         `json:"a,omitempty" cbor:"a,omitempty" msgpack:"a,omitempty"`
	D  int32          `json:"d,omitempty" cbor:"d,omitempty" msgpack:"d,omitempty"`
	W  uint16         `json:"w,omitempty" cbor:"w,omitempty" msgpack:"w,omitempty"`
	H  int16          `json:"h,omitempty" cbor:"h,omitempty" msgpack:"h,omitempty"`
	Y  uint8          `json:"y,omitempty" cbor:"y,omitempty" msgpack:"y,omitempty"`
	F  bool           `json:"f,omitempty" cbor:"f,omitempty" msgpack:"f,omitempty"`
	M  map[string]int `json:"m,omitempty" cbor:"m,omitempty" msgpack:"m,omitempty"`
	P  string         `json:"p,omitempty" cbor:"p,omitempty" msgpack:"p,omitempty"`
}

func (r Rec) clone() Rec {
	c := r
	c.B = append([]byte(nil), r.B...)
	if r.M != nil {
		c.M = map[string]int{}
		for k, v := range r.M {
			c.M[k] = v
		}
	}
	return c
}

// canon is a canonical text of a record: nil and empty containers are the same.
func (r Rec) canon() string {
	var ks []string
	for k := range r.M {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var m strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&m, "%q:%d,", k, r.M[k])
	}
	p := r.P
	if len(p) > 256 {
		h := fnv.New128a()
		h.Write([]byte(p))
		p = fmt.Sprintf("%s... %d bytes, hash %x", p[:32], len(p), h.Sum(nil))
	}
	return fmt.Sprintf("{ID:%d N:%d S:%q B:%x A:%d D:%d W:%d H:%d Y:%d F:%v M:{%s} P:%q}",
		r.ID, r.N, r.S, r.B, r.A, r.D, r.W, r.H, r.Y, r.F, m.String(), p)
}

func canons(rs []Rec) string {
	var sb strings.Builder
	for i, r := range rs {
		if i > 0 {
			sb.WriteString("\n    ")
		}
		sb.WriteString(r.canon())
	}
	return "[" + sb.String() + "]"
}

func sameRecs(a, b []Rec) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].eq(&b[i]) {
			return false
		}
	}
	return true
}

// eq is canon equality.
func (r *Rec) eq(s *Rec) bool {
	if r.ID != s.ID || r.N != s.N || r.A != s.A || r.D != s.D || r.W != s.W || r.H != s.H || r.Y != s.Y || r.F != s.F ||
		r.S != s.S || r.P != s.P || !bytes.Equal(r.B, s.B) || len(r.M) != len(s.M) {
		return false
	}
	for k, v := range r.M {
		if w, ok := s.M[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// Field names usable in keys. "^ID" is the complement of ID, "bN" is N as a
// 128-bit big integer.
type Field = string

func cmpU(a, b uint64) int {
	if a < b {
		return -1
	} else if a > b {
		return 1
	}
	return 0
}

func cmpI(a, b int64) int {
	if a < b {
		return -1
	} else if a > b {
		return 1
	}
	return 0
}

func boolU(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func cmpField(f Field, a, b Rec) int {
	switch f {
	case "ID":
		return cmpU(a.ID, b.ID)
	case "^ID":
		return cmpU(b.ID, a.ID)
	case "N", "bN":
		return cmpI(a.N, b.N)
	case "S":
		return strings.Compare(a.S, b.S)
	case "B":
		return bytes.Compare(a.B, b.B)
	case "A":
		return cmpU(uint64(a.A), uint64(b.A))
	case "D":
		return cmpI(int64(a.D), int64(b.D))
	case "W":
		return cmpU(uint64(a.W), uint64(b.W))
	case "H":
		return cmpI(int64(a.H), int64(b.H))
	case "Y":
		return cmpU(uint64(a.Y), uint64(b.Y))
	case "F":
		return cmpU(boolU(a.F), boolU(b.F))
	}
	panic("unknown field " + f)
}

func varLen(f Field, r Rec) int {
	switch f {
	case "S":
		return len(r.S)
	case "B":
		return len(r.B)
	}
	return 0
}

func fieldText(f Field, r Rec) string {
	switch f {
	case "ID", "^ID":
		return fmt.Sprint(r.ID)
	case "N", "bN":
		return fmt.Sprint(r.N)
	case "S":
		return fmt.Sprintf("%q", r.S)
	case "B":
		return fmt.Sprintf("%x", r.B)
	case "A":
		return fmt.Sprint(r.A)
	case "D":
		return fmt.Sprint(r.D)
	case "W":
		return fmt.Sprint(r.W)
	case "H":
		return fmt.Sprint(r.H)
	case "Y":
		return fmt.Sprint(r.Y)
	case "F":
		return fmt.Sprint(r.F)
	}
	panic("unknown field " + f)
}

func addField(b bond.KeyBuilder, f Field, r Rec) bond.KeyBuilder {
	switch f {
	case "ID":
		return b.AddUint64Field(r.ID)
	case "^ID":
		return b.AddUint64Field(^r.ID)
	case "N":
		return b.AddInt64Field(r.N)
	case "bN":
		return b.AddBigIntField(big.NewInt(r.N), 128)
	case "S":
		return b.AddStringField(r.S)
	case "B":
		return b.AddBytesField(r.B)
	case "A":
		return b.AddUint32Field(r.A)
	case "D":
		return b.AddInt32Field(r.D)
	case "W":
		return b.AddUint16Field(r.W)
	case "H":
		return b.AddInt16Field(r.H)
	case "Y":
		return b.AddByteField(r.Y)
	case "F":
		return b.AddByteField(byte(boolU(r.F)))
	}
	panic("unknown field " + f)
}

// OrderField is one field of an index order.
type OrderField struct {
	F    Field
	Desc bool
}

func addOrder(o bond.IndexOrder, of OrderField, r Rec) bond.IndexOrder {
	t := bond.IndexOrderTypeASC
	if of.Desc {
		t = bond.IndexOrderTypeDESC
	}
	switch of.F {
	case "ID":
		return o.OrderUint64(r.ID, t)
	case "N":
		return o.OrderInt64(r.N, t)
	case "bN":
		return o.OrderBigInt(big.NewInt(r.N), 128, t)
	case "A":
		return o.OrderUint32(r.A, t)
	case "D":
		return o.OrderInt32(r.D, t)
	case "W":
		return o.OrderUint16(r.W, t)
	case "H":
		return o.OrderInt16(r.H, t)
	case "Y":
		return o.OrderByte(r.Y, t)
	}
	panic("unknown order field " + of.F)
}

// IndexSpec describes a secondary index.
type IndexSpec struct {
	ID     uint8
	Key    []Field
	Order  []OrderField `json:",omitempty"`
	Filter string       `json:",omitempty"` // "", "F", "evenA", "none"
	// Pad makes the index value longer by that many bytes, the same for all rows.
	Pad int `json:",omitempty"`
}

func (ix IndexSpec) accepts(r Rec) bool {
	switch ix.Filter {
	case "":
		return true
	case "F":
		return r.F
	case "evenA":
		return r.A%2 == 0
	case "none":
		return false
	}
	panic("unknown filter " + ix.Filter)
}

func (ix IndexSpec) hasVar() bool {
	for _, f := range ix.Key {
		if f == "S" || f == "B" {
			return true
		}
	}
	return false
}

// cmpIdx orders index partitions the way keys do: the encoded index value is
// length-prefixed, then compared field by field.
func (ix IndexSpec) cmpIdx(a, b Rec) int {
	la, lb := 0, 0
	for _, f := range ix.Key {
		la += varLen(f, a)
		lb += varLen(f, b)
	}
	if la != lb {
		return cmpI(int64(la), int64(lb))
	}
	for _, f := range ix.Key {
		if c := cmpField(f, a, b); c != 0 {
			return c
		}
	}
	return 0
}

func (ix IndexSpec) cmpOrd(a, b Rec) int {
	for _, of := range ix.Order {
		c := cmpField(of.F, a, b)
		if of.Desc {
			c = -c
		}
		if c != 0 {
			return c
		}
	}
	return 0
}

// Schema is a table configuration.
type Schema struct {
	TableID    uint8
	Ptr        bool // table of *Rec rather than Rec
	PK         []Field
	Indexes    []IndexSpec
	Serializer string // cbor, json, msgpack
	Prefetch   int    `json:",omitempty"`
	InPlace    bool   `json:",omitempty"` // conflict functions work on the old record and return it
}

func (s Schema) cmpPK(a, b Rec) int {
	for _, f := range s.PK {
		if c := cmpField(f, a, b); c != 0 {
			return c
		}
	}
	return 0
}

func (s Schema) pk(r Rec) string {
	var p []string
	for _, f := range s.PK {
		p = append(p, fieldText(f, r))
	}
	return strings.Join(p, "/")
}

// cmpEntry orders the entries of index ix (nil: the primary index).
func (s Schema) cmpEntry(ix *IndexSpec, a, b Rec) int {
	if ix != nil {
		if c := ix.cmpIdx(a, b); c != 0 {
			return c
		}
		if c := ix.cmpOrd(a, b); c != 0 {
			return c
		}
	}
	return s.cmpPK(a, b)
}

// Model is the reference state of one table.
type Model struct {
	s    Schema
	rows map[string]Rec
}

func newModel(s Schema) *Model { return &Model{s: s, rows: map[string]Rec{}} }

func (m *Model) copy() *Model {
	c := newModel(m.s)
	for k, v := range m.rows {
		c.rows[k] = v
	}
	return c
}

func (m *Model) has(r Rec) bool { _, ok := m.rows[m.s.pk(r)]; return ok }
func (m *Model) put(r Rec)      { m.rows[m.s.pk(r)] = r.clone() }
func (m *Model) del(r Rec)      { delete(m.rows, m.s.pk(r)) }

// all returns the rows in primary key order.
func (m *Model) all() []Rec { return m.entries(nil) }

// entries returns the rows of an index in index order.
func (m *Model) entries(ix *IndexSpec) []Rec {
	var rs []Rec
	for _, r := range m.rows {
		if ix == nil || ix.accepts(r) {
			rs = append(rs, r)
		}
	}
	sort.Slice(rs, func(i, j int) bool { return m.s.cmpEntry(ix, rs[i], rs[j]) < 0 })
	return rs
}

// Sel is a selector as data.
type Sel struct {
	Kind string // all, point, points, range, ranges
	Recs []Rec  `json:",omitempty"` // point(s); or low, high, low, high, ...
}

// sel evaluates a selector over an index: documented meaning of each kind.
func (m *Model) sel(ix *IndexSpec, s Sel) []Rec {
	es := m.entries(ix)
	pick := func(f func(r Rec) bool) []Rec {
		var out []Rec
		for _, r := range es {
			if f(r) {
				out = append(out, r)
			}
		}
		return out
	}
	point := func(p Rec) []Rec {
		return pick(func(r Rec) bool {
			return (ix == nil || ix.cmpIdx(r, p) == 0) && m.s.cmpEntry(ix, r, p) >= 0
		})
	}
	rng := func(lo, hi Rec) []Rec {
		return pick(func(r Rec) bool {
			return m.s.cmpEntry(ix, r, lo) >= 0 && m.s.cmpEntry(ix, r, hi) <= 0
		})
	}
	switch s.Kind {
	case "all":
		return es
	case "point":
		return point(s.Recs[0])
	case "points":
		var out []Rec
		for _, p := range s.Recs {
			if ix == nil {
				p := p
				out = append(out, pick(func(r Rec) bool { return m.s.cmpPK(r, p) == 0 })...)
			} else {
				out = append(out, point(p)...)
			}
		}
		return out
	case "range":
		return rng(s.Recs[0], s.Recs[1])
	case "ranges":
		var out []Rec
		for i := 0; i+1 < len(s.Recs); i += 2 {
			out = append(out, rng(s.Recs[i], s.Recs[i+1])...)
		}
		return out
	}
	panic("unknown selector " + s.Kind)
}

func reversed(rs []Rec) []Rec {
	out := make([]Rec, len(rs))
	for i, r := range rs {
		out[len(rs)-1-i] = r
	}
	return out
}

// ---- generators ----

var (
	palID = []uint64{0, 1, 2, 3, 255, 256, 257, 254, 511, 512, 65535, 65536, 1<<32 - 1, 1 << 32, math.MaxUint64 - 1, math.MaxUint64}
	palN  = []int64{0, 1, -1, 2, -2, 255, 256, -255, -256, -257, 511, 65535, -65536, math.MaxInt64, math.MinInt64, math.MinInt64 + 1, math.MaxInt64 - 1}
	palS  = []string{"", "a", "b", "aa", "ab", "a\x00", "a\x00b", "\x00", "\x01", "\x7f", "é", "\u07ff", "a\uffff", "long-string-value-0123456789", "Z"}
	palB  = [][]byte{nil, {0}, {1}, {255}, {255, 255}, {255, 255, 255}, {254}, {1, 255}, {1, 255, 0}, {2}, {2, 0}, {0, 0}, {1, 2, 3}}
	palA  = []uint32{0, 1, 2, 255, 256, 257, 3, 511, 65535, 65536, math.MaxUint32 - 1, math.MaxUint32}
	palD  = []int32{0, 1, -1, 255, 256, -255, -256, math.MaxInt32, math.MinInt32, math.MinInt32 + 1, 7}
	palW  = []uint16{0, 1, 2, 255, 256, 511, 512, math.MaxUint16}
	palH  = []int16{0, 1, -1, 255, 256, -255, -256, math.MaxInt16, math.MinInt16, math.MinInt16 + 1}
	palY  = []uint8{0, 1, 2, 127, 254, 255}
)

// Dom bounds how many palette values each field draws from, so that records
// collide often.
type Dom struct {
	ID, N, S, B, A, D, W, H, Y int
	wild                       bool
	ids                        []uint64 // if set, all IDs come from here
	big                        bool     // some values and keys are longer than bond's buffers
}

func genDom(t *rapid.T) Dom {
	n := func(max int, l string) int { return rapid.IntRange(1, max).Draw(t, "dom"+l) }
	return Dom{
		ID: rapid.IntRange(2, len(palID)).Draw(t, "domID"), N: rapid.IntRange(2, len(palN)).Draw(t, "domN"),
		S: n(len(palS), "S"), B: n(len(palB), "B"), A: n(len(palA), "A"), D: n(len(palD), "D"), W: n(len(palW), "W"), H: n(len(palH), "H"), Y: n(len(palY), "Y"),
		wild: rapid.Bool().Draw(t, "wild"), big: rapid.IntRange(0, 7).Draw(t, "big") == 0,
	}
}

// bigSizes are around the sizes of bond's buffers, one of them far above.
var bigSizes = []int{1900, 2040, 2048, 2049, 2100, 4100, 5000, 70000}

var genPayload = rapid.SampledFrom([]string{"", "x", "y", "zz", "payload-with-some-length-to-move-buffers-0123456789"})

func genRec(t *rapid.T, d Dom) Rec {
	pick := func(n int, l string) int { return rapid.IntRange(0, n-1).Draw(t, l) }
	r := Rec{
		ID: palID[pick(d.ID, "ID")],
		N:  palN[pick(d.N, "N")],
		S:  palS[pick(d.S, "S")],
		B:  append([]byte(nil), palB[pick(d.B, "B")]...),
		A:  palA[pick(d.A, "A")],
		D:  palD[pick(d.D, "D")],
		W:  palW[pick(d.W, "W")],
		H:  palH[pick(d.H, "H")],
		Y:  palY[pick(d.Y, "Y")],
		F:  rapid.Bool().Draw(t, "F"),
		P:  genPayload.Draw(t, "P"),
	}
	if d.wild && rapid.IntRange(0, 3).Draw(t, "w") == 0 {
		r.ID = rapid.Uint64().Draw(t, "wID")
		r.N = rapid.Int64().Draw(t, "wN")
		r.A = rapid.Uint32().Draw(t, "wA")
	}
	if d.big {
		switch rapid.IntRange(0, 9).Draw(t, "long") {
		case 0, 1, 2:
			r.P = strings.Repeat("P", rapid.SampledFrom(bigSizes).Draw(t, "longP")) + r.P
		case 3:
			r.S = strings.Repeat("a", rapid.SampledFrom(bigSizes[:7]).Draw(t, "longS")) + r.S
		case 4:
			r.B = append(bytes.Repeat([]byte{1}, rapid.SampledFrom(bigSizes[:7]).Draw(t, "longB")), r.B...)
		}
	}
	if d.ids != nil {
		r.ID = d.ids[pick(len(d.ids), "own")]
	}
	switch rapid.IntRange(0, 3).Draw(t, "M") {
	case 1:
		r.M = map[string]int{"a": 1}
	case 2:
		r.M = map[string]int{"b": 2, "c": 3}
	}
	return r
}

var pkChoices = [][]Field{
	{"ID"}, {"N"}, {"S"}, {"ID"}, {"A", "S"}, {"^ID"}, {"B"}, {"Y", "ID"}, {"D"}, {"H", "W"}, {"bN"}, {"A", "B"}, {"N", "ID"}, {"W", "Y", "ID"}, {"H", "D", "A", "S"},
}

var keyChoices = [][]Field{
	{"A"}, {"N"}, {"S"}, {"W"}, {"Y"}, {"D"}, {"A", "Y"}, {"S", "A"}, {"B"}, {"H"}, {"bN"}, {"F"}, {"A", "S"}, {"ID"}, {"F", "N"}, {"Y", "W", "A"}, {"F", "H", "Y", "D", "S"}, {}, // the last one: all rows have the same, empty value
}

var orderFields = []Field{"ID", "N", "A", "D", "W", "H", "Y", "bN"}

func genIndexSpec(t *rapid.T, id uint8) IndexSpec {
	ix := IndexSpec{ID: id, Key: rapid.SampledFrom(keyChoices).Draw(t, "ixkey")}
	n := rapid.SampledFrom([]int{0, 0, 1, 1, 2, 2, 3, 4}).Draw(t, "ixorders")
	for i := 0; i < n; i++ {
		ix.Order = append(ix.Order, OrderField{rapid.SampledFrom(orderFields).Draw(t, "of"), rapid.Bool().Draw(t, "desc")})
	}
	ix.Filter = rapid.SampledFrom([]string{"", "", "", "F", "evenA"}).Draw(t, "ixfilter")
	if rapid.IntRange(0, 29).Draw(t, "pad?") == 0 {
		ix.Pad = rapid.SampledFrom([]int{1, 240, 255, 256, 2000, 2048, 3000}).Draw(t, "pad")
	}
	return ix
}

var idxIDs = []uint8{1, 2, 3, 127, 128, 254, 255}

func genSchema(t *rapid.T, maxIdx int) Schema {
	s := Schema{
		TableID:    rapid.SampledFrom([]uint8{1, 2, 3, 127, 200, 254, 255}).Draw(t, "table"),
		Ptr:        rapid.Bool().Draw(t, "ptr"),
		PK:         rapid.SampledFrom(pkChoices).Draw(t, "pk"),
		Serializer: rapid.SampledFrom([]string{"cbor", "cbor", "cbor", "json", "msgpack", "msgpack", "msgpackplain", "msgpgen", "vt"}).Draw(t, "ser"),
	}
	if s.Ptr && s.Serializer == "vt" {
		s.Serializer = "json" // a protobuf table holds the message type itself
	}
	if rapid.Bool().Draw(t, "smallprefetch") {
		s.Prefetch = rapid.SampledFrom([]int{1, 1, 2, 2, 3, 4, 5, 99, 101, 1000}).Draw(t, "prefetch")
	}
	s.InPlace = rapid.IntRange(0, 2).Draw(t, "inplace") == 0
	n := rapid.IntRange(0, maxIdx).Draw(t, "indexes")
	ids := rapid.Permutation(idxIDs).Draw(t, "idxids")
	for i := 0; i < n; i++ {
		s.Indexes = append(s.Indexes, genIndexSpec(t, ids[i]))
	}
	return s
}

func mustJSON(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}
