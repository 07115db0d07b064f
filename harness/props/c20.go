package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/cond"
	"github.com/go-bond/bond/inspect"
	"github.com/urfave/cli/v2"
	"pgregory.net/rapid"
	"verifbond/fw"
)

type (
	inAddr  string
	inLevel uint8
	inInner struct {
		X int
		Y string
	}
	// InRow is the entry of the inspected tables.
	InRow struct {
		ID     uint64
		A      uint32
		N      int64
		H      int8
		F      float64
		G      float32
		On     bool
		S      string
		Who    inAddr
		Lv     inLevel
		Opt    *string
		Tags   []string
		Att    map[string]int
		Raw    []byte
		In     inInner
		Any    interface{}
		Other  string `structs:"other_name"`
		Hidden string `structs:"-"`
	}
)

// InVal is a value of a request: a Go type and its text.
type InVal struct{ T, V string }

func (v InVal) value() interface{} {
	i := func() int64 { x, _ := strconv.ParseInt(v.V, 10, 64); return x }
	u := func() uint64 { x, _ := strconv.ParseUint(v.V, 10, 64); return x }
	f := func() float64 { x, _ := strconv.ParseFloat(v.V, 64); return x }
	switch v.T {
	case "int":
		return int(i())
	case "i8":
		return int8(i())
	case "i64":
		return i()
	case "u8":
		return uint8(u())
	case "u16":
		return uint16(u())
	case "u32":
		return uint32(u())
	case "u64":
		return u()
	case "level":
		return inLevel(u())
	case "f64":
		return f()
	case "f32":
		return float32(f())
	case "bool":
		return v.V == "true"
	case "s":
		return v.V
	case "addr":
		return inAddr(v.V)
	case "strs":
		return strings.Split(v.V, ",")
	case "anys":
		var out []interface{}
		for _, s := range strings.Split(v.V, ",") {
			out = append(out, s)
		}
		return out
	case "map":
		return map[string]int{v.V: 1}
	case "anymap":
		return map[string]interface{}{v.V: 1.0}
	case "ptr":
		s := v.V
		return &s
	case "raw":
		return []byte(v.V)
	case "struct":
		return inInner{Y: v.V}
	case "chan":
		return make(chan int)
	case "func":
		return func() {}
	}
	return nil
}

// plain says that the value means the same for the field after a trip through JSON.
func (v InVal) plain(field string) bool {
	switch v.T {
	case "nil", "bool", "s", "addr", "level", "i8", "u8", "u16", "u32":
		return true
	case "f32":
		// JSON has the shortest text that names the float32, which is another
		// number for a field of another type
		x := v.value().(float32)
		text, _ := strconv.ParseFloat(strconv.FormatFloat(float64(x), 'g', -1, 32), 64)
		return field == "G" || text == float64(x)
	case "int", "i64", "u64", "f64":
		x, ok := v.number()
		if ok && x.Cmp(big.NewFloat(1<<53)) <= 0 && x.Cmp(big.NewFloat(-(1<<53))) >= 0 {
			return true
		}
		// JSON does not say of what type a number is: large ones are read as
		// what the field is
		float := field == "F" || field == "G"
		return ok && float == (v.T == "f64")
	}
	return false
}

func (v InVal) number() (*big.Float, bool) {
	switch x := reflect.ValueOf(v.value()); {
	case x.CanInt():
		return new(big.Float).SetPrec(200).SetInt64(x.Int()), true
	case x.CanUint():
		return new(big.Float).SetPrec(200).SetUint64(x.Uint()), true
	case x.CanFloat():
		return new(big.Float).SetPrec(200).SetFloat64(x.Float()), true
	}
	return nil, false
}

// set sets the named field to the value; it refuses what the field cannot hold.
func (r *InRow) set(name string, v InVal) bool {
	num := func(lo, hi float64, whole bool) (*big.Float, bool) {
		x, ok := v.number()
		if !ok || whole && !x.IsInt() {
			return nil, false
		}
		return x, x.Cmp(big.NewFloat(lo)) >= 0 && x.Cmp(big.NewFloat(hi)) < 0
	}
	inf := math.Inf(1)
	switch name {
	case "ID", "A", "Lv":
		bits := map[string]float64{"ID": 64, "A": 32, "Lv": 8}[name]
		x, ok := num(0, math.Ldexp(1, int(bits)), true)
		if !ok {
			return false
		}
		u, _ := x.Uint64()
		switch name {
		case "ID":
			r.ID = u
		case "A":
			r.A = uint32(u)
		case "Lv":
			r.Lv = inLevel(u)
		}
		return true
	case "N", "H":
		bits := map[string]float64{"N": 63, "H": 7}[name]
		x, ok := num(-math.Ldexp(1, int(bits)), math.Ldexp(1, int(bits)), true)
		if !ok {
			return false
		}
		i, _ := x.Int64()
		if name == "N" {
			r.N = i
		} else {
			r.H = int8(i)
		}
		return true
	case "F":
		x, ok := num(-inf, inf, false)
		if !ok {
			return false
		}
		f, acc := x.Float64()
		r.F = f
		return acc == big.Exact
	case "G":
		x, ok := num(-inf, inf, false)
		if !ok {
			return false
		}
		// like Go converts: integers and float64 round to the nearest float32
		g, _ := x.Float32()
		r.G = g
		return true
	case "On":
		b, ok := v.value().(bool)
		r.On = b
		return ok
	case "S", "Who", "other_name":
		if v.T != "s" && v.T != "addr" && v.T != "raw" {
			return false
		}
		switch name {
		case "S":
			r.S = v.V
		case "Who":
			r.Who = inAddr(v.V)
		default:
			r.Other = v.V
		}
		return true
	case "Opt":
		if v.T == "ptr" {
			s := v.V
			r.Opt = &s
		} else {
			r.Opt = nil
		}
		return v.T == "ptr" || v.T == "nil"
	case "Tags":
		if v.T == "strs" {
			r.Tags = strings.Split(v.V, ",")
		} else {
			r.Tags = nil
		}
		return v.T == "strs" || v.T == "nil"
	case "Att":
		if v.T == "map" {
			r.Att = map[string]int{v.V: 1}
		} else {
			r.Att = nil
		}
		return v.T == "map" || v.T == "nil"
	case "Raw":
		r.Raw = nil
		switch v.T {
		case "raw", "s", "addr":
			r.Raw = []byte(v.V)
		case "nil":
		default:
			return false
		}
		return true
	case "Any":
		r.Any = v.value()
		return true
	}
	return false
}

// fields is the row as inspect lists it.
func (r InRow) fields() map[string]interface{} {
	return map[string]interface{}{"ID": r.ID, "A": r.A, "N": r.N, "H": r.H, "F": r.F, "G": r.G, "On": r.On, "S": r.S, "Who": r.Who, "Lv": r.Lv,
		"Opt": r.Opt, "Tags": r.Tags, "Att": r.Att, "Raw": r.Raw, "In": map[string]interface{}{"X": r.In.X, "Y": r.In.Y}, "Any": r.Any, "other_name": r.Other}
}

type InReq struct {
	Table    string
	Index    string
	Selector map[string]InVal // nil and empty differ
	Filter   map[string]InVal
	Limit    uint64 `json:",omitempty"`
	After    map[string]InVal
	Cancel   bool `json:",omitempty"`
	CLI      int  `json:",omitempty"` // also through the command line: 1 locally, 2 over HTTP
}

// RawReq is a request as bytes.
type RawReq struct {
	Method, Path, Accept string
	Body                 []byte
}

type InCase struct {
	Rows []InRowSpec
	Reqs []InReq
	Raw  []RawReq
	CLI  bool `json:",omitempty"`
}

// InRowSpec is a row as small choices.
type InRowSpec struct {
	ID         uint64
	A, N, S, W int
	On, Full   bool
}

func (s InRowSpec) row() InRow {
	r := InRow{ID: s.ID, A: uint32(s.A % 3), N: []int64{0, 1, -1, math.MaxInt64, math.MinInt64, 1 << 53}[s.N%6], On: s.On, S: []string{"", "a", "b", "ab", "5"}[s.S%5],
		Who: []inAddr{"", "x", "y"}[s.W%3], Lv: inLevel([]int{0, 1, 255}[s.W%3]), H: []int8{0, -1, 127, -128}[s.N%4],
		F: []float64{0, 0.1, 1, -2.5, 1e300, 1 << 53}[s.S%6], G: []float32{0, 0.1, 1, -2.5}[s.S%4], Other: []string{"", "o"}[s.A%2], Hidden: "hidden"}
	if s.Full {
		x := "opt"
		r.Opt, r.Tags, r.Att, r.Raw, r.In = &x, []string{"t", "u"}, map[string]int{"k": 1}, []byte{0, 255}, inInner{s.S, "in"}
		r.Any = []interface{}{"any", true}[s.N%2]
	}
	return r
}

var inFields = []string{"ID", "A", "N", "H", "F", "G", "On", "S", "Who", "Lv", "Opt", "Tags", "Att", "Raw", "Any", "other_name"}

func genInVal(t *rapid.T) InVal {
	tn := rapid.SampledFrom([]string{"int", "i8", "i64", "u8", "u16", "u32", "u64", "level", "f64", "f64", "f64", "f32", "bool", "s", "s", "addr", "strs", "anys", "map", "anymap", "ptr", "raw", "nil", "struct", "chan", "func"}).Draw(t, "vt")
	switch tn {
	case "int", "i64":
		return InVal{tn, rapid.SampledFrom([]string{"0", "1", "2", "-1", "3", "255", "256", "-128", "9007199254740992", "9223372036854775807", "-9223372036854775808"}).Draw(t, "vi")}
	case "i8":
		return InVal{tn, rapid.SampledFrom([]string{"0", "1", "2", "-1", "127", "-128"}).Draw(t, "vi")}
	case "u8", "level":
		return InVal{tn, rapid.SampledFrom([]string{"0", "1", "2", "255"}).Draw(t, "vu")}
	case "u16", "u32":
		return InVal{tn, rapid.SampledFrom([]string{"0", "1", "2", "255", "256", "257"}).Draw(t, "vu")}
	case "u64":
		return InVal{tn, rapid.SampledFrom([]string{"0", "1", "2", "3", "4294967296", "4294967297", "18446744073709551615", "9223372036854775808"}).Draw(t, "vu")}
	case "f64", "f32":
		return InVal{tn, rapid.SampledFrom([]string{"0", "1", "2", "-1", "-2.5", "1.5", "0.1", "255", "256", "257", "4294967296", "4294967297", "9007199254740992", "9223372036854775808", "18446744073709551616", "1e20"}).Draw(t, "vf")}
	case "bool":
		return InVal{tn, rapid.SampledFrom([]string{"true", "false"}).Draw(t, "vb")}
	case "nil", "chan", "func":
		return InVal{T: tn}
	case "strs", "anys":
		return InVal{tn, rapid.SampledFrom([]string{"t,u", "t", "x"}).Draw(t, "vl")}
	}
	return InVal{tn, rapid.SampledFrom([]string{"", "a", "b", "ab", "5", "x", "y", "o", "k", "opt", "A"}).Draw(t, "vs")}
}

// valOf is a request value that means the field's value in r.
func valOf(t *rapid.T, r InRow, f string) InVal {
	num := func(text string, ts ...string) InVal {
		v := InVal{rapid.SampledFrom(ts).Draw(t, "numtype"), text}
		return v
	}
	switch f {
	case "ID":
		return num(fmt.Sprint(r.ID), "u64", "u64", "f64")
	case "A":
		return num(fmt.Sprint(r.A), "u32", "int", "u8", "f64", "level")
	case "N":
		return num(fmt.Sprint(r.N), "i64", "int", "f64")
	case "H":
		return num(fmt.Sprint(r.H), "i8", "int", "f64")
	case "F":
		return num(strconv.FormatFloat(r.F, 'g', -1, 64), "f64")
	case "G":
		return num(strconv.FormatFloat(float64(r.G), 'g', -1, 32), "f64", "f32")
	case "On":
		return InVal{"bool", fmt.Sprint(r.On)}
	case "S":
		return InVal{rapid.SampledFrom([]string{"s", "addr"}).Draw(t, "st"), r.S}
	case "Who":
		return InVal{rapid.SampledFrom([]string{"s", "addr"}).Draw(t, "st"), string(r.Who)}
	case "Lv":
		return num(fmt.Sprint(r.Lv), "level", "u8", "int", "f64")
	case "other_name":
		return InVal{"s", r.Other}
	case "Opt":
		if r.Opt != nil {
			return InVal{"ptr", *r.Opt}
		}
	case "Tags":
		if r.Tags != nil {
			return InVal{"strs", strings.Join(r.Tags, ",")}
		}
	case "Att":
		for k := range r.Att {
			return InVal{"map", k}
		}
	case "Raw":
		if r.Raw != nil {
			return InVal{"raw", string(r.Raw)}
		}
	}
	return InVal{T: "nil"}
}

func init() {
	fw.Register(fw.Prop{
		ID:    "C20",
		Title: "Inspect answers like the direct query, locally and over HTTP",
		Rule: "a case is a filled database with a table of structs and a table of pointers, up to 10 inspect requests (well-formed or not) compared with the direct query and with the same request over HTTP on the loopback interface, and up to 4 raw HTTP requests; " +
			"it is non-trivial when some request with a selector, filter or cursor returns some but not all rows",
		Quick: 2400, Thorough: 40000,
	}, func(t *rapid.T) InCase {
		var c InCase
		n := rapid.IntRange(0, 12).Draw(t, "rows")
		for i := 0; i < n; i++ {
			c.Rows = append(c.Rows, InRowSpec{ID: rapid.SampledFrom([]uint64{0, 1, 2, 3, 4, 255, 256, 1 << 32, 1<<32 + 1, 1 << 53, 1<<53 + 1, math.MaxUint64}).Draw(t, "id"),
				A: rapid.IntRange(0, 2).Draw(t, "a"), N: rapid.IntRange(0, 11).Draw(t, "n"), S: rapid.IntRange(0, 29).Draw(t, "s"), W: rapid.IntRange(0, 2).Draw(t, "w"),
				On: rapid.Bool().Draw(t, "on"), Full: rapid.Bool().Draw(t, "full")})
		}
		base := func() InRow {
			if len(c.Rows) > 0 {
				return rapid.SampledFrom(c.Rows).Draw(t, "base").row()
			}
			return InRow{}
		}
		fields := func(must []string, extra int) map[string]InVal {
			out := map[string]InVal{}
			r := base()
			for _, f := range must {
				out[f] = valOf(t, r, f)
			}
			for i := rapid.IntRange(0, extra).Draw(t, "nf"); i > 0; i-- {
				f := rapid.SampledFrom(inFields).Draw(t, "f")
				switch rapid.IntRange(0, 5).Draw(t, "fv") {
				case 0:
					out[f] = genInVal(t)
				case 1:
					out[rapid.SampledFrom([]string{"Hidden", "Other", "id", "", "Nope", f}).Draw(t, "badname")] = valOf(t, r, f)
				default:
					out[f] = valOf(t, r, f)
				}
			}
			return out
		}
		c.CLI = rapid.IntRange(0, 9).Draw(t, "cli") == 0
		k := rapid.IntRange(1, 10).Draw(t, "reqs")
		for i := 0; i < k; i++ {
			q := InReq{Table: rapid.SampledFrom([]string{"vals", "vals", "ptrs", "ptrs", "ptrs", "nope", "", "Vals"}).Draw(t, "table"),
				Index: rapid.SampledFrom([]string{"", "primary", "by_s", "by_a", "by_who", "on", "nope", "by_s", "by_a", "by_who", "Primary", "by_", "BY_S"}).Draw(t, "index")}
			must := map[string][]string{"by_s": {"S"}, "by_a": {"A"}, "by_who": {"Who", "Lv"}, "on": {"On"}}[q.Index]
			if rapid.IntRange(0, 3).Draw(t, "sel") > 0 {
				q.Selector = fields(must, 2)
			}
			if rapid.IntRange(0, 2).Draw(t, "filt") == 0 {
				q.Filter = fields(nil, 2)
			}
			if rapid.IntRange(0, 2).Draw(t, "lim") == 0 {
				q.Limit = rapid.SampledFrom([]uint64{1, 2, 3, 100, math.MaxUint64}).Draw(t, "limit")
			}
			if rapid.IntRange(0, 2).Draw(t, "aft") == 0 {
				if must = append([]string{"ID", "N"}, must...); rapid.IntRange(0, 3).Draw(t, "few") == 0 {
					must = nil // as little as nothing: the row of zero values
				}
				q.After = fields(must, 1)
			}
			q.Cancel = rapid.IntRange(0, 15).Draw(t, "cancel") == 0
			if !q.Cancel {
				q.CLI = rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2}).Draw(t, "cli")
			}
			c.Reqs = append(c.Reqs, q)
		}
		for i := rapid.IntRange(0, 4).Draw(t, "raws"); i > 0; i-- {
			r := RawReq{Method: rapid.SampledFrom([]string{"POST", "POST", "POST", "GET", "PUT"}).Draw(t, "m"),
				Path:   rapid.SampledFrom([]string{"/bond/tables", "/bond/indexes", "/bond/entryFields", "/bond/query", "/bond/query", "/bond/query", "/", "/bond/query/", "/bond"}).Draw(t, "p"),
				Accept: rapid.SampledFrom([]string{"", "", "", "application/json", "text/html", "*/*", "\x01"}).Draw(t, "acc")}
			r.Body = genBody(t)
			c.Raw = append(c.Raw, r)
		}
		return c
	}, runInspect)
}

// genBody generates a request body, from JSON of about the right shape to noise.
func genBody(t *rapid.T) []byte {
	val := func() string {
		return rapid.SampledFrom([]string{`null`, `1`, `-1`, `1.5`, `1e400`, `18446744073709551616`, `"a"`, `""`, `true`, `[]`, `{}`, `["a"]`, `{"ID":1}`, `{"ID":null}`, `{"S":1}`, `{"On":{}}`,
			`{"Tags":["t","u"]}`, `{"In":{"X":1}}`, `{"In":null}`, `{"Any":[1,{"a":null}]}`, `{"Opt":"opt"}`, `{"Raw":"AP8="}`, `{"Att":{"k":1}}`, `{"Hidden":"x"}`, `{"G":1e300}`, `{"H":200}`, `{"":""}`}).Draw(t, "jv")
	}
	var sb strings.Builder
	sb.WriteString("{")
	for i, k := range []string{"table", "index", "indexSelector", "filter", "limit", "after"} {
		if rapid.IntRange(0, 2).Draw(t, "has") == 0 && i > 0 {
			continue
		}
		if sb.Len() > 1 {
			sb.WriteString(",")
		}
		v := val()
		if rapid.IntRange(0, 3).Draw(t, "right") > 0 {
			switch k {
			case "table":
				v = rapid.SampledFrom([]string{`"vals"`, `"ptrs"`}).Draw(t, "jt")
			case "index":
				v = rapid.SampledFrom([]string{`""`, `"primary"`, `"by_s"`, `"by_a"`, `"on"`}).Draw(t, "ji")
			}
		}
		sb.WriteString(`"` + k + `":` + v)
	}
	sb.WriteString("}")
	b := []byte(sb.String())
	switch rapid.IntRange(0, 7).Draw(t, "noise") {
	case 0:
		return b[:rapid.IntRange(0, len(b)).Draw(t, "cut")]
	case 1:
		b[rapid.IntRange(0, len(b)-1).Draw(t, "at")] = rapid.Byte().Draw(t, "byte")
	case 2:
		return rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "bytes")
	}
	return b
}

// inTable is one inspected table with its direct queries.
type inTable struct {
	info   bond.TableInfo
	insert func(rows []InRow) error
	query  func(ctx context.Context, q InReq, sel, after *InRow, filter func(InRow) bool) ([]InRow, error)
}

func newInTable[T any](db bond.DB, name string, id uint8, wrap func(InRow) T, un func(T) InRow) inTable {
	tb := bond.NewTable[T](bond.TableOptions[T]{DB: db, TableID: bond.TableID(id), TableName: name,
		TablePrimaryKeyFunc: func(b bond.KeyBuilder, x T) []byte { return b.AddUint64Field(un(x).ID).Bytes() }})
	byS := bond.NewIndex(bond.IndexOptions[T]{IndexID: 1, IndexName: "by_s",
		IndexKeyFunc:   func(b bond.KeyBuilder, x T) []byte { return b.AddStringField(un(x).S).Bytes() },
		IndexOrderFunc: bond.IndexOrderDefault[T]})
	byA := bond.NewIndex(bond.IndexOptions[T]{IndexID: 2, IndexName: "by_a",
		IndexKeyFunc: func(b bond.KeyBuilder, x T) []byte { return b.AddUint32Field(un(x).A).Bytes() },
		IndexOrderFunc: func(o bond.IndexOrder, x T) bond.IndexOrder {
			return o.OrderInt64(un(x).N, bond.IndexOrderTypeDESC)
		}})
	byWho := bond.NewIndex(bond.IndexOptions[T]{IndexID: 3, IndexName: "by_who",
		IndexKeyFunc: func(b bond.KeyBuilder, x T) []byte {
			return b.AddStringField(string(un(x).Who)).AddByteField(byte(un(x).Lv)).Bytes()
		}})
	on := bond.NewIndex(bond.IndexOptions[T]{IndexID: 255, IndexName: "on",
		IndexKeyFunc: func(b bond.KeyBuilder, x T) []byte {
			if un(x).On {
				return b.AddByteField(1).Bytes()
			}
			return b.AddByteField(0).Bytes()
		},
		IndexFilterFunc: func(x T) bool { return un(x).On }})
	ixs := []*bond.Index[T]{byS, byA, byWho, on}
	if err := tb.AddIndex(ixs); err != nil {
		panic(err)
	}
	return inTable{info: tb,
		insert: func(rows []InRow) error {
			var xs []T
			for _, r := range rows {
				xs = append(xs, wrap(r))
			}
			return tb.Insert(bg, xs)
		},
		query: func(ctx context.Context, q InReq, sel, after *InRow, filter func(InRow) bool) ([]InRow, error) {
			b := tb.Query()
			ix := tb.PrimaryIndex()
			for _, i := range ixs {
				if i.IndexName == q.Index {
					ix = i
				}
			}
			if sel != nil {
				b = b.With(ix, bond.NewSelectorPoint(wrap(*sel)))
			}
			if filter != nil {
				b = b.Filter(cond.Func(func(x T) bool { return filter(un(x)) }))
			}
			if q.Limit > 0 {
				b = b.Limit(q.Limit)
			}
			if after != nil {
				b = b.After(wrap(*after))
			}
			var xs []T
			err := b.Execute(ctx, &xs)
			var out []InRow
			for _, x := range xs {
				out = append(out, un(x))
			}
			return out, err
		}}
}

func inArgs(m map[string]InVal) map[string]interface{} {
	if m == nil {
		return nil
	}
	out := map[string]interface{}{}
	for k, v := range m {
		out[k] = v.value()
	}
	return out
}

// inRow fills a row from request values; false if inspect must refuse them.
func inRow(m map[string]InVal) (*InRow, bool) {
	var r InRow
	for k, v := range m {
		if !r.set(k, v) {
			return nil, false
		}
	}
	return &r, true
}

func (r InRow) matches(m map[string]InVal) bool {
	have := r.fields()
	for k, v := range m {
		var x InRow
		if _, ok := have[k]; !ok || !x.set(k, v) {
			return false
		}
		if !reflect.DeepEqual(x.fields()[k], have[k]) {
			return false
		}
	}
	return true
}

// jsonNorm is the value as JSON: objects sorted, and numbers as they are, not as
// JSON rounds them.
func jsonNorm(o *fw.Obs, v interface{}) string {
	b, err := json.Marshal(normVal(reflect.ValueOf(v)))
	if err != nil {
		o.Infra(fmt.Errorf("marshal: %w", err))
	}
	return string(b)
}

func normVal(v reflect.Value) interface{} {
	switch v.Kind() {
	case reflect.Invalid:
		return nil
	case reflect.Ptr, reflect.Interface:
		return normVal(v.Elem())
	case reflect.Map:
		if v.IsNil() {
			return nil
		}
		m := map[string]interface{}{}
		for _, k := range v.MapKeys() {
			m[k.String()] = normVal(v.MapIndex(k))
		}
		return m
	case reflect.Slice:
		if v.IsNil() || v.Type().Elem().Kind() == reflect.Uint8 {
			return v.Interface()
		}
		l := []interface{}{}
		for i := 0; i < v.Len(); i++ {
			l = append(l, normVal(v.Index(i)))
		}
		return l
	case reflect.Float32, reflect.Float64:
		bits := 64
		if v.Kind() == reflect.Float32 {
			bits = 32
		}
		return normNum(strconv.FormatFloat(v.Float(), 'g', -1, bits), true)
	}
	return v.Interface()
}

// normNum writes floating point numbers that are whole with all their digits, so that
// they compare with integers.
func normNum(text string, float bool) interface{} {
	if x, ok := new(big.Float).SetPrec(2000).SetString(text); ok && float {
		if f, _ := x.Float64(); f == math.Trunc(f) && math.Abs(f) < 1<<64 {
			i, _ := big.NewFloat(f).Int(nil)
			return json.Number(i.String())
		}
	}
	return json.Number(text)
}

// sameJSON compares a printed answer with a normalized one.
func sameJSON(out, want string) bool {
	parse := func(s string) (x interface{}, ok bool) {
		d := json.NewDecoder(strings.NewReader(s))
		d.UseNumber()
		if d.Decode(&x) != nil {
			return nil, false
		}
		_, err := d.Token()
		return x, err == io.EOF
	}
	a, ok := parse(out)
	b, ok2 := parse(want)
	return ok && ok2 && sameVal(a, b)
}

// sameVal compares a printed value with the right one. A number is printed right if
// its text is right, or the shortest text of that floating point number.
func sameVal(got, want interface{}) bool {
	switch w := want.(type) {
	case json.Number:
		g, ok := got.(json.Number)
		if !ok {
			return false
		}
		if g == w {
			return true
		}
		x, err := g.Float64()
		return err == nil && !math.IsInf(x, 0) && normNum(g.String(), true) == interface{}(w)
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		if !ok || len(g) != len(w) {
			return false
		}
		for k := range w {
			if x, ok := g[k]; !ok || !sameVal(x, w[k]) {
				return false
			}
		}
		return true
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok || len(g) != len(w) {
			return false
		}
		for i := range w {
			if !sameVal(g[i], w[i]) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(got, want)
}

// stdoutMu guards os.Stdout, which the command line prints to.
var stdoutMu sync.Mutex

func runInspectCLI(o *fw.Obs, in inspect.Inspect, args []string) (string, error) {
	stdoutMu.Lock()
	defer stdoutMu.Unlock()
	f, err := os.CreateTemp(o.TempDir(), "stdout")
	if err != nil {
		o.Infra(err)
	}
	defer f.Close()
	keep := os.Stdout
	os.Stdout = f
	defer func() { os.Stdout = keep }()
	app := &cli.App{Name: "t", Writer: io.Discard, ErrWriter: io.Discard, ExitErrHandler: func(*cli.Context, error) {},
		Commands: []*cli.Command{inspect.NewInspectCLI(func(path string) (inspect.Inspect, error) {
			if path != "local" {
				return nil, fmt.Errorf("path %q", path)
			}
			return in, nil
		})}}
	err = app.Run(append([]string{"t", "inspect"}, args...))
	b, rerr := os.ReadFile(f.Name())
	if rerr != nil {
		o.Infra(rerr)
	}
	return string(b), err
}

func runInspect(c InCase, o *fw.Obs) {
	st := openStore(o, DBOpt{})
	tabs := map[string]inTable{
		"vals": newInTable(st.db, "vals", 1, func(r InRow) InRow { return r }, func(r InRow) InRow { return r }),
		"ptrs": newInTable(st.db, "ptrs", 2, func(r InRow) *InRow { return &r }, func(r *InRow) InRow {
			if r == nil {
				return InRow{}
			}
			return *r
		}),
	}
	seen := map[uint64]bool{}
	var rows []InRow
	for _, s := range c.Rows {
		if !seen[s.ID] {
			seen[s.ID] = true
			rows = append(rows, s.row())
		}
	}
	for _, tb := range tabs {
		if len(rows) > 0 {
			o.NoErr(tb.insert(rows), "insert")
		}
	}
	in, err := inspect.NewInspect([]bond.TableInfo{tabs["vals"].info, tabs["ptrs"].info})
	o.NoErr(err, "NewInspect")
	handler := inspect.NewInspectHandler(in)
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		// a panic of the handler becomes a recognizable answer
		defer func() {
			if p := recover(); p != nil {
				w.WriteHeader(599)
				fmt.Fprintf(w, `{"error":"handler panicked: %v"}`, strings.ReplaceAll(fmt.Sprint(p), `"`, `'`))
			}
		}()
		if r.Header.Get("X-Test") != "1==" {
			w.WriteHeader(598)
			return
		}
		handler(w, r)
	}))
	o.Cleanup(srv.Close)
	remote := inspect.NewInspectRemote(srv.URL+"/bond/", map[string]string{"X-Test": "1=="})

	if len(rows) > 0 {
		// pages of the rows that the client gives back
		for _, name := range []string{"vals", "ptrs"} {
			sorted := append([]InRow{}, rows...)
			sort.Slice(sorted, func(i, j int) bool { return sorted[i].ID < sorted[j].ID })
			var after map[string]interface{}
			for i := 0; i <= len(sorted); i++ {
				page, err := remote.Query(bg, name, "", nil, nil, 1, after)
				o.NoErr(err, "page %d of %s over HTTP, after %v", i, name, after)
				o.Evals(1)
				if i == len(sorted) {
					if len(page) != 0 {
						o.Failf("paging %s over HTTP: %v after the last row %v", name, page, after)
					}
					break
				}
				if want := jsonNorm(o, []interface{}{sorted[i].fields()}); jsonNorm(o, page) != want {
					o.Failf("page %d of %s over HTTP, after %v:\n  got  %s\n  want %s", i, name, after, jsonNorm(o, page), want)
				}
				after = map[string]interface{}{"ID": page[0]["ID"], "N": page[0]["N"], "F": page[0]["F"]}
			}
		}
		o.Label("pages over HTTP")
	}

	if c.CLI {
		for _, where := range [][]string{{"--url", "local"}, {"--url", srv.URL + "/bond", "--headers", "X-Test=1=="}} {
			for _, l := range []struct {
				args []string
				get  func() (interface{}, error)
			}{{[]string{"tables"}, func() (interface{}, error) { return in.Tables() }},
				{[]string{"indexes", "--table", "ptrs"}, func() (interface{}, error) { return in.Indexes("ptrs") }},
				{[]string{"entry-fields", "--table", "vals"}, func() (interface{}, error) { return in.EntryFields("vals") }},
				{[]string{"indexes", "--table", "nope"}, func() (interface{}, error) { return in.Indexes("nope") }}} {
				want, err := l.get()
				out, cerr := runInspectCLI(o, in, append(append([]string{}, where...), l.args...))
				if (err != nil) != (cerr != nil) || err == nil && !sameJSON(out, jsonNorm(o, want)) {
					o.Failf("command line %v %v prints %s, error %v; Inspect answers %v, error %v", where, l.args, out, cerr, want, err)
				}
				o.Evals(1)
			}
		}
	}

	// listings
	for _, x := range []inspect.Inspect{in, remote} {
		names, err := x.Tables()
		if err != nil || !reflect.DeepEqual(names, []string{"vals", "ptrs"}) {
			o.Failf("Tables: %v, %v", names, err)
		}
		for _, tn := range []string{"vals", "ptrs"} {
			ixs, err := x.Indexes(tn)
			if err != nil || !reflect.DeepEqual(ixs, []string{"primary", "by_s", "by_a", "by_who", "on"}) {
				o.Failf("Indexes(%s): %v, %v", tn, ixs, err)
			}
			fs, err := x.EntryFields(tn)
			o.NoErr(err, "EntryFields(%s)", tn)
			var got []string
			for f := range fs {
				got = append(got, f)
			}
			want := append([]string{"In"}, inFields...)
			sort.Strings(got)
			sort.Strings(want)
			if !reflect.DeepEqual(got, want) {
				o.Failf("EntryFields(%s) lists %v, want %v", tn, got, want)
			}
			for f, k := range map[string]string{"ID": "uint64", "A": "uint32", "N": "int64", "H": "int8", "F": "float64", "G": "float32", "On": "bool", "S": "string", "Who": "string", "Lv": "uint8", "Tags": "slice", "Att": "map", "other_name": "string"} {
				if fs[f] != k {
					o.Failf("EntryFields(%s): %s is %q, want %q", tn, f, fs[f], k)
				}
			}
		}
		if _, err := x.Indexes("nope"); err == nil {
			o.Failf("Indexes of an unknown table: no error")
		}
		if _, err := x.EntryFields("nope"); err == nil {
			o.Failf("EntryFields of an unknown table: no error")
		}
		o.Evals(7)
	}

	for _, q := range c.Reqs {
		what := "inspect request " + mustJSON(q)
		ctx, cancel := context.WithCancel(bg)
		if q.Cancel {
			cancel()
		}
		got, err := in.Query(ctx, q.Table, q.Index, inArgs(q.Selector), inArgs(q.Filter), q.Limit, inArgs(q.After))
		tb, ok := tabs[q.Table]
		okIx := map[string]bool{"": true, "primary": true, "by_s": true, "by_a": true, "by_who": true, "on": true}[q.Index]
		sel, okSel := inRow(q.Selector)
		after, okAfter := inRow(q.After)
		if q.Selector == nil && (q.Index == "" || q.Index == "primary") {
			sel = nil
		}
		if q.After == nil {
			after = nil
		}
		o.Evals(1)
		if !ok || !okIx || !okSel || !okAfter {
			if err == nil {
				o.Failf("%s: answered %v, but must be refused", what, got)
			}
			o.Label("refused")
		} else {
			var filter func(InRow) bool
			if q.Filter != nil {
				filter = func(r InRow) bool { return r.matches(q.Filter) }
			}
			want, wantErr := tb.query(ctx, q, sel, after, filter)
			if (err != nil) != (wantErr != nil) {
				o.Failf("%s: error %v, the direct query gives %v", what, err, wantErr)
			}
			if err == nil {
				same := len(got) == len(want)
				for i := 0; same && i < len(got); i++ {
					same = reflect.DeepEqual(got[i], want[i].fields())
				}
				if !same {
					o.Failf("%s:\n  got  %v\n  want %+v", what, got, want)
				}
				o.Label("answered")
				if len(want) > 0 && len(want) < len(rows) && (q.Selector != nil || q.Filter != nil || q.After != nil) {
					o.NonTrivial()
				}
			} else {
				o.Label("query error")
			}
		}
		// the same over HTTP
		plain := true
		for _, m := range []map[string]InVal{q.Selector, q.Filter, q.After} {
			for k, v := range m {
				plain = plain && v.plain(k) && (k != "Raw" || v.T == "nil") && k != "Any"
			}
		}
		if plain {
			rgot, rerr := remote.Query(ctx, q.Table, q.Index, inArgs(q.Selector), inArgs(q.Filter), q.Limit, inArgs(q.After))
			o.Evals(1)
			if (rerr != nil) != (err != nil || q.Cancel) {
				o.Failf("%s over HTTP: error %v, locally %v", what, rerr, err)
			}
			if rerr != nil && strings.Contains(rerr.Error(), "panicked") {
				o.Failf("%s over HTTP: %v", what, rerr)
			}
			if rerr == nil && jsonNorm(o, rgot) != jsonNorm(o, got) {
				o.Failf("%s over HTTP:\n  got  %s\n  want %s", what, jsonNorm(o, rgot), jsonNorm(o, got))
			}
			o.Label("compared over HTTP")
			if q.CLI > 0 {
				args := []string{"--url", "local"}
				if q.CLI == 2 {
					args = []string{"--url", srv.URL + "/bond", "--headers", "X-Test=1=="}
				}
				args = append(args, "query", "--table", q.Table, "--limit", fmt.Sprint(q.Limit))
				if q.Index != "" {
					args = append(args, "--index", q.Index)
				}
				for _, a := range []struct {
					flag string
					m    map[string]InVal
				}{{"--index-selector", q.Selector}, {"--filter", q.Filter}, {"--after", q.After}} {
					if a.m != nil {
						args = append(args, a.flag, mustJSON(inArgs(a.m)))
					}
				}
				out, cerr := runInspectCLI(o, in, args)
				o.Evals(1)
				if (cerr != nil) != (err != nil) {
					o.Failf("%s by the command line %q: error %v, locally %v", what, args, cerr, err)
				}
				if err == nil && !sameJSON(out, jsonNorm(o, got)) {
					o.Failf("%s by the command line %q:\n  prints %s\n  want   %s", what, args, out, jsonNorm(o, got))
				}
				o.Label("compared by command line")
			}
		}
		cancel()
	}

	for _, r := range c.Raw {
		req := httptest.NewRequest(r.Method, r.Path, bytes.NewReader(r.Body))
		if r.Accept != "" {
			req.Header.Set("Accept", r.Accept)
		}
		w := httptest.NewRecorder()
		func() {
			defer func() {
				if p := recover(); p != nil {
					o.Failf("request %s %s %q crashed the handler: %v", r.Method, r.Path, r.Body, p)
				}
			}()
			handler(w, req)
		}()
		o.Evals(1)
		o.Label(fmt.Sprintf("raw request: %d", w.Code))
		switch w.Code {
		case http.StatusOK:
			var x interface{}
			if err := json.Unmarshal(w.Body.Bytes(), &x); err != nil {
				o.Failf("request %s %q: status 200 with body %q: %v", r.Path, r.Body, w.Body.Bytes(), err)
			}
		case http.StatusInternalServerError:
			var x struct{ Error string }
			if err := json.Unmarshal(w.Body.Bytes(), &x); err != nil || x.Error == "" {
				o.Failf("request %s %q: status 500 with body %q", r.Path, r.Body, w.Body.Bytes())
			}
		}
	}
	srv.Close()
	st.close()
}
