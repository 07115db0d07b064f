package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sync"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/cond"
	"github.com/go-bond/bond/serializers"
	"pgregory.net/rapid"
	"verifbond/fw"
)

// CondNode is a condition as data.
type CondNode struct {
	K    string // eq gt gte lt lte func and or not
	F    string `json:",omitempty"` // ID N S Y H fl B flag
	V    Val    `json:",omitempty"`
	Kids []CondNode
	Raw  bool `json:",omitempty"` // func: a CondFunc value instead of cond.Func
}

// Val holds a value of any field; Fl is the bits of a float.
type Val struct {
	U  uint64 `json:",omitempty"`
	I  int64  `json:",omitempty"`
	S  string `json:",omitempty"`
	B  []byte `json:",omitempty"`
	T  bool   `json:",omitempty"`
	Fl uint64 `json:",omitempty"`
}

// CondRec is a record with a field of every kind.
type CondRec struct {
	ID   uint64
	N    int64
	S    string
	Y    uint8
	H    int16
	Fl   uint64 // float bits
	B    []byte
	Flag bool
}

func (r CondRec) fl() float64 { return math.Float64frombits(r.Fl) }

type CondCase struct {
	C     CondNode
	More  []CondNode // derived: each is also checked, sharing the built first one
	Rs    []CondRec
	Query bool
	Ptr   bool
}

var condFloats = []float64{0, math.Copysign(0, -1), 1, 1.5, -1.5, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, 5e-324}

func genCondVal(t *rapid.T, f string) (v Val) {
	switch f {
	case "ID":
		v.U = rapid.SampledFrom([]uint64{0, 1, 2, 3, 255, 256, 1 << 32, 1<<63 - 1, 1 << 63, math.MaxUint64}).Draw(t, "u")
	case "N":
		v.I = rapid.SampledFrom([]int64{0, 1, 2, -1, -2, 1 << 40, math.MaxInt64, math.MinInt64}).Draw(t, "i")
	case "H":
		v.I = rapid.SampledFrom([]int64{0, 1, 2, -1, -2, math.MaxInt16, math.MinInt16}).Draw(t, "h")
	case "Y":
		v.U = rapid.SampledFrom([]uint64{0, 1, 2, 127, 128, 255}).Draw(t, "y")
	case "S":
		v.S = rapid.SampledFrom([]string{"", "a", "b", "aa", "ab", "B", "\x00", "a\x00", "\xff", "é"}).Draw(t, "s")
	case "B":
		v.B = rapid.SampledFrom([][]byte{{0}, {1}, {0, 0}, {255}, []byte("a"), []byte("ab")}).Draw(t, "b")
	case "fl":
		v.Fl = math.Float64bits(rapid.SampledFrom(condFloats).Draw(t, "fl"))
	case "flag":
		v.T = rapid.Bool().Draw(t, "flag")
	}
	return
}

var condFields = []string{"ID", "N", "S", "Y", "H", "fl", "B", "flag"}

func genCond(t *rapid.T, depth int) CondNode {
	ks := []string{"eq", "gt", "gte", "lt", "lte", "func", "eq"}
	if depth > 0 {
		ks = append(ks, "and", "or", "not", "and", "or", "not")
	}
	c := CondNode{K: rapid.SampledFrom(ks).Draw(t, "k")}
	switch c.K {
	case "and", "or":
		for n := rapid.IntRange(0, 4).Draw(t, "kids"); n > 0; n-- {
			c.Kids = append(c.Kids, genCond(t, depth-1))
		}
	case "not":
		c.Kids = []CondNode{genCond(t, depth-1)}
	case "eq":
		c.F = rapid.SampledFrom(condFields).Draw(t, "f")
	case "func":
		c.F = rapid.SampledFrom(condFields[:5]).Draw(t, "f")
		c.Raw = rapid.Bool().Draw(t, "raw")
	default:
		c.F = rapid.SampledFrom(condFields[:6]).Draw(t, "f")
	}
	if c.F != "" {
		c.V = genCondVal(t, c.F)
	}
	return c
}

func genCondRec(t *rapid.T) CondRec {
	v := func(f string) Val { return genCondVal(t, f) }
	return CondRec{ID: v("ID").U, N: v("N").I, S: v("S").S, Y: uint8(v("Y").U), H: int16(v("H").I), Fl: v("fl").Fl, B: v("B").B, Flag: v("flag").T}
}

func ordered[V int64 | uint64 | string | uint8 | int16 | float64](k string, a, b V) bool {
	switch k {
	case "eq", "func":
		return a == b
	case "gt":
		return a > b
	case "gte":
		return a >= b
	case "lt":
		return a < b
	}
	return a <= b
}

// eval is the value of the formula.
func (c CondNode) eval(r CondRec) bool {
	switch c.K {
	case "and":
		for _, k := range c.Kids {
			if !k.eval(r) {
				return false
			}
		}
		return true
	case "or":
		for _, k := range c.Kids {
			if k.eval(r) {
				return true
			}
		}
		return false
	case "not":
		return !c.Kids[0].eval(r)
	}
	switch c.F {
	case "ID":
		return ordered(c.K, r.ID, c.V.U)
	case "N":
		return ordered(c.K, r.N, c.V.I)
	case "S":
		return ordered(c.K, r.S, c.V.S)
	case "Y":
		return ordered(c.K, r.Y, uint8(c.V.U))
	case "H":
		return ordered(c.K, r.H, int16(c.V.I))
	case "fl":
		return ordered(c.K, r.fl(), math.Float64frombits(c.V.Fl))
	case "B":
		return bytes.Equal(r.B, c.V.B)
	}
	return r.Flag == c.V.T
}

// leaf builds a comparison.
func leaf[R any, V int64 | uint64 | string | uint8 | int16 | float64](k string, get func(R) V, v V) cond.Cond[R] {
	switch k {
	case "eq":
		return cond.Eq(get, v)
	case "gt":
		return cond.Gt(get, v)
	case "gte":
		return cond.Gte(get, v)
	case "lt":
		return cond.Lt(get, v)
	case "lte":
		return cond.Lte(get, v)
	}
	return cond.Func(func(r R) bool { return get(r) == v })
}

// build builds the condition with bond's functions. shared replaces one child.
func condBuild[R any](c CondNode, un func(R) CondRec, shared cond.Cond[R]) cond.Cond[R] {
	switch c.K {
	case "and", "or":
		kids := []cond.Cond[R]{}
		for i, k := range c.Kids {
			if i == 0 && shared != nil {
				kids = append(kids, shared)
				continue
			}
			kids = append(kids, condBuild(k, un, nil))
		}
		var out cond.Cond[R]
		if c.K == "and" {
			out = cond.And(kids...)
		} else {
			out = cond.Or(kids...)
		}
		// the list belongs to the caller
		for i := range kids {
			kids[i] = cond.Func(func(R) bool { panic("evaluated a condition put into the list later") })
		}
		return out
	case "not":
		if shared != nil {
			return cond.Not(shared)
		}
		return cond.Not(condBuild(c.Kids[0], un, nil))
	}
	switch c.F {
	case "ID":
		return leaf(c.K, func(r R) uint64 { return un(r).ID }, c.V.U)
	case "N":
		return leaf(c.K, func(r R) int64 { return un(r).N }, c.V.I)
	case "S":
		return leaf(c.K, func(r R) string { return un(r).S }, c.V.S)
	case "Y":
		return leaf(c.K, func(r R) uint8 { return un(r).Y }, uint8(c.V.U))
	case "H":
		return leaf(c.K, func(r R) int16 { return un(r).H }, int16(c.V.I))
	case "fl":
		return leaf(c.K, func(r R) float64 { return un(r).fl() }, math.Float64frombits(c.V.Fl))
	case "B":
		return cond.Eq(func(r R) []byte { return un(r).B }, c.V.B)
	}
	return cond.Eq(func(r R) bool { return un(r).Flag }, c.V.T)
}

func (c CondNode) size() int {
	n := 1
	for _, k := range c.Kids {
		n += k.size()
	}
	return n
}

func (c CondNode) valid() bool {
	switch c.K {
	case "and", "or":
	case "not":
		if len(c.Kids) != 1 {
			return false
		}
	default:
		return true
	}
	for _, k := range c.Kids {
		if !k.valid() {
			return false
		}
	}
	return true
}

func init() {
	fw.Register(fw.Prop{
		ID: "C21", Title: "Filter conditions obey boolean algebra",
		Rule: "a case is a condition tree of depth up to four over unsigned, signed, string, float (with NaN and infinities), byte and boolean fields at the limits of their types, further trees that share the first one, and up to 12 records; each is evaluated twice, from several goroutines at once and as the filter of queries, on tables of records and of pointers; " +
			"it is non-trivial when the tree has at least three nodes and holds for some but not all records",
		Quick: 8000, Thorough: 150000,
	}, func(t *rapid.T) CondCase {
		c := CondCase{C: genCond(t, 4), Query: rapid.IntRange(0, 5).Draw(t, "query") == 0, Ptr: rapid.Bool().Draw(t, "ptr")}
		for i := rapid.IntRange(0, 2).Draw(t, "more"); i > 0; i-- {
			m := genCond(t, 2)
			switch m.K {
			case "and", "or":
				m.Kids = append([]CondNode{c.C}, m.Kids...)
			case "not":
				m.Kids = []CondNode{c.C}
			default:
				m = CondNode{K: "not", Kids: []CondNode{c.C}}
			}
			c.More = append(c.More, m)
		}
		for i := rapid.IntRange(1, 12).Draw(t, "rs"); i > 0; i-- {
			c.Rs = append(c.Rs, genCondRec(t))
		}
		return c
	}, func(c CondCase, o *fw.Obs) {
		if !c.C.valid() {
			return
		}
		if c.Ptr {
			runCond(c, o, func(r CondRec) *CondRec { return &r }, func(r *CondRec) CondRec { return *r })
		} else {
			runCond(c, o, func(r CondRec) CondRec { return r }, func(r CondRec) CondRec { return r })
		}
	})
}

func runCond[R any](c CondCase, o *fw.Obs, wrap func(CondRec) R, un func(R) CondRec) {
	first := condBuild(c.C, un, nil)
	nodes := []CondNode{c.C}
	conds := []cond.Cond[R]{first}
	for _, m := range c.More {
		if !m.valid() || len(m.Kids) == 0 || !reflect.DeepEqual(m.Kids[0], c.C) {
			continue
		}
		nodes = append(nodes, m)
		conds = append(conds, condBuild(m, un, first))
	}
	yes := 0
	var rs []R
	for _, r := range c.Rs {
		cp := r
		cp.B = append([]byte(nil), r.B...)
		rs = append(rs, wrap(cp))
	}
	for round := 0; round < 2; round++ {
		for i, r := range c.Rs {
			for j := range conds {
				want := nodes[j].eval(r)
				o.Evals(1)
				if got := conds[j].Eval(rs[i]); got != want {
					o.Failf("round %d: condition %s of %+v is %v, want %v", round, mustJSON(nodes[j]), r, got, want)
				}
				if j == 0 && round == 0 && want {
					yes++
				}
			}
			if u := un(rs[i]); !reflect.DeepEqual(u, r) && mustJSON(u) != mustJSON(r) {
				o.Failf("evaluating changed the record %+v to %+v", r, u)
			}
		}
	}
	// shared by several users at once
	var wg sync.WaitGroup
	bad := make([]string, 3)
	for g := 0; g < 3; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, r := range c.Rs {
				j := (g + i) % len(conds)
				if conds[j].Eval(rs[i]) != nodes[j].eval(r) {
					bad[g] = fmt.Sprintf("condition %s of %+v evaluated concurrently is wrong", mustJSON(nodes[j]), r)
				}
			}
		}()
	}
	wg.Wait()
	for _, b := range bad {
		if b != "" {
			o.Failf("%s", b)
		}
	}
	if c.C.size() >= 3 && yes > 0 && yes < len(c.Rs) {
		o.NonTrivial()
	}
	o.Label("root: " + c.C.K)
	if !c.Query {
		return
	}
	o.Label("as a query filter")
	st := openStore(o, DBOpt{})
	type row struct {
		Seq uint64
		R   CondRec
	}
	var seqOf = func(x *row) CondRec { return x.R }
	tb := bond.NewTable[*row](bond.TableOptions[*row]{DB: st.db, TableID: 1, TableName: "t",
		TablePrimaryKeyFunc: func(b bond.KeyBuilder, r *row) []byte { return b.AddUint64Field(r.Seq).Bytes() },
		Serializer:          &serializers.CBORSerializer{}})
	var rows []*row
	for i, r := range c.Rs {
		rows = append(rows, &row{uint64(i), r})
	}
	o.NoErr(tb.Insert(bg, rows), "insert")
	flt := condBuild(c.C, seqOf, nil)
	q := tb.Query().Filter(flt)
	for round := 0; round < 3; round++ {
		var got []*row
		var err error
		switch round {
		case 0:
			err = q.Execute(bg, &got)
		case 1: // the same condition in another query
			err = tb.Query().Filter(cond.And[*row](flt, cond.Not[*row](cond.Or[*row]()))).Execute(bg, &got)
		default: // and the first query again
			err = q.Execute(bg, &got)
		}
		o.NoErr(err, "query")
		var g, w []uint64
		for _, r := range got {
			g = append(g, r.Seq)
		}
		for i, r := range c.Rs {
			if c.C.eval(r) {
				w = append(w, uint64(i))
			}
		}
		o.Evals(1)
		if !reflect.DeepEqual(g, w) {
			b, _ := json.Marshal(c.C)
			o.Failf("query %d with the filter %s selects the rows %v, want %v of %+v", round, b, g, w, c.Rs)
		}
	}
	st.close()
}
