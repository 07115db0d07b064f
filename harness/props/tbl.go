package props

import (
	"context"
	"errors"
	"fmt"
	"maps"
	"runtime"
	"slices"
	"sync"

	"github.com/cockroachdb/pebble"
	"github.com/cockroachdb/pebble/bloom"
	"github.com/cockroachdb/pebble/vfs"
	"github.com/go-bond/bond"
	"github.com/go-bond/bond/cond"
	"github.com/go-bond/bond/serializers"
	"github.com/go-bond/bond/utils"
	"github.com/vmihailenco/msgpack/v5"
	"verifbond/fw"
)

// Tbl is a bond table of Rec or *Rec behind one interface.
type Tbl interface {
	Insert(ctx context.Context, rs []Rec, b bond.Batch) error
	Update(ctx context.Context, rs []Rec, b bond.Batch) error
	Upsert(ctx context.Context, rs []Rec, conflict func(old, new Rec) Rec, b bond.Batch) error
	Delete(ctx context.Context, rs []Rec, b bond.Batch) error
	UnsafeInsert(ctx context.Context, rs []Rec, b bond.Batch) error
	UnsafeUpdate(ctx context.Context, rs, old []Rec, b bond.Batch) error

	Exist(r Rec, b bond.Batch) bool
	GetPoint(ctx context.Context, r Rec, b bond.Batch) (Rec, error)
	// Get returns the records; missing[i] says that entry i is the nil/zero value.
	Get(ctx context.Context, s Sel, b bond.Batch) (rs []Rec, missing []bool, err error)
	Scan(ctx context.Context, rev bool, b bond.Batch) ([]Rec, error)
	// ScanIdx scans index ix (0: primary) with a selector.
	ScanIdx(ctx context.Context, ix uint8, s Sel, rev bool, b bond.Batch) ([]Rec, error)
	// ScanEach runs a lazy scan. get reports the record of the current row.
	ScanEach(ctx context.Context, ix uint8, s Sel, rev bool, b bond.Batch, f func(key []byte, get func() (Rec, error)) (bool, error)) error
	Iter(ix uint8, s Sel, b bond.Batch) bond.Iterator
	Query(q Q) QueryRun
	// Derive builds q and, from the same base, q intersected with each of more.
	Derive(q Q, more []Q) (QueryRun, []QueryRun)

	AddIndex(specs []IndexSpec, reindex bool) error
	ReIndex(ids []uint8) error
	Index(ix uint8) bond.IndexInfo
	AnyScan() bond.TableScanner[any]
	// AnyScanAll and AnyScanEach read through TableAnyScanner.
	AnyScanAll(ctx context.Context, rev bool, b bond.Batch) ([]Rec, error)
	AnyScanEach(ctx context.Context, rev bool, b bond.Batch) ([]Rec, error)
	// AnyEach is ScanEach through TableAnyScanner.
	AnyEach(ctx context.Context, ix uint8, s Sel, rev bool, b bond.Batch, f func(key []byte, get func() (Rec, error)) (bool, error)) error
	Info() bond.TableInfo
	// Secondary lists the IDs of the indexes, sorted.
	Secondary() []int
	Wrap(r Rec) any
	// OnCall sets a function that filter and order functions call.
	OnCall(f func(kind string))
	// DataKey is the storage key of the record's row.
	DataKey(r Rec) []byte
}

// QueryRun executes a built query.
type QueryRun interface {
	Run(ctx context.Context, b bond.Batch) ([]Rec, error)
}

// Q is a query as data.
type Q struct {
	Index     uint8 // 0: primary index
	Sel       Sel
	NoWith    bool     `json:",omitempty"` // do not call With (default index and start)
	Filter    string   `json:",omitempty"` // "", "F", "evenID", "Nneg", "Sa"
	Order     string   `json:",omitempty"` // "", "N", "-A"
	Offset    uint64   `json:",omitempty"`
	Limit     uint64   `json:",omitempty"`
	Reverse   bool     `json:",omitempty"`
	After     *Rec     `json:",omitempty"`
	Intersect []Q      `json:",omitempty"`
	Steps     []string `json:",omitempty"`
	Again     []string `json:",omitempty"` // clauses given before with other values (Reverse: twice more)
}

func filterRec(name string, r Rec) bool {
	switch name {
	case "F":
		return r.F
	case "evenID":
		return r.ID%2 == 0
	case "Nneg":
		return r.N < 0
	case "Sa":
		return len(r.S) > 0 && r.S[0] == 'a'
	case "never":
		return false
	}
	return true
}

// table implements Tbl for T = Rec or *Rec.
type table[T any] struct {
	s     Schema
	t     bond.Table[T]
	mu    sync.RWMutex
	idx   map[uint8]*bond.Index[T]
	wrapF func(Rec) T
	unF   func(T) (Rec, bool)
	// plainF is unF that does not keep what it is given
	plainF func(T) (Rec, bool)
	// called is told of calls to filter and order functions
	called func(kind string)
	// selectors built before; a case reuses them as a program would
	sels map[selKey]selEntry[T]
}

type selKey struct {
	kind string
	recs *Rec
	n    int
}

type selEntry[T any] struct {
	recs []Rec // keeps the address of the key in use
	text string
	sel  bond.Selector[T]
}

func openTable(db bond.DB, s Schema, opts ...func(*tblOpts)) Tbl {
	var o tblOpts
	for _, f := range opts {
		f(&o)
	}
	if s.Ptr {
		return newTable[*Rec](db, s, o, func(r Rec) *Rec { c := r.clone(); return &c }, func(p *Rec) (Rec, bool) {
			if p == nil {
				return Rec{}, false
			}
			return p.clone(), true
		})
	}
	return newTable[Rec](db, s, o, func(r Rec) Rec { return r.clone() }, func(r Rec) (Rec, bool) { return r.clone(), true })
}

type tblOpts struct {
	filter    bond.Filter
	noIndexes bool
	name      string
	// serializer replaces the one the schema names
	serializer bond.Serializer[any]
	// hold keeps what the table returns
	hold *holder
}

func withFilter(f bond.Filter) func(*tblOpts) { return func(o *tblOpts) { o.filter = f } }
func withoutIndexes() func(*tblOpts)          { return func(o *tblOpts) { o.noIndexes = true } }

func recSerializer(name string) bond.Serializer[any] {
	switch name {
	case "json":
		return &serializers.JsonSerializer{}
	case "msgpack":
		return &serializers.MsgpackSerializer{
			Encoder: poolOf(func() any { return msgpack.NewEncoder(nil) }),
			Decoder: poolOf2(func() any { return msgpack.NewDecoder(nil) }),
		}
	case "msgpackplain":
		return &serializers.MsgpackSerializer{}
	case "msgpgen":
		return &serializers.MsgpackGenSerializer{}
	case "vt":
		return &serializers.ProtobufSerializer{}
	}
	return &serializers.CBORSerializer{}
}

func poolOf(f func() any) utils.SyncPool[*msgpack.Encoder] {
	p := &utils.SyncPoolWrapper[*msgpack.Encoder]{}
	p.New = f
	return p
}

func poolOf2(f func() any) utils.SyncPool[*msgpack.Decoder] {
	p := &utils.SyncPoolWrapper[*msgpack.Decoder]{}
	p.New = f
	return p
}

func newTable[T any](db bond.DB, s Schema, o tblOpts, wrap func(Rec) T, un func(T) (Rec, bool)) Tbl {
	plain := un
	if o.hold != nil {
		un = func(x T) (Rec, bool) {
			r, ok := plain(x)
			if ok && len(o.hold.check) < 3000 {
				o.hold.check = append(o.hold.check, func() string {
					if now, _ := plain(x); !now.eq(&r) {
						return r.canon() + " is now " + now.canon()
					}
					return ""
				})
			}
			return r, ok
		}
	}
	t := &table[T]{s: s, idx: map[uint8]*bond.Index[T]{}, wrapF: wrap, unF: un, plainF: plain}
	name := o.name
	if name == "" {
		name = fmt.Sprintf("t%d", s.TableID)
	}
	ser := o.serializer
	if ser == nil {
		ser = recSerializer(s.Serializer)
	}
	t.t = bond.NewTable[T](bond.TableOptions[T]{
		DB: db, TableID: bond.TableID(s.TableID), TableName: name,
		TablePrimaryKeyFunc: func(b bond.KeyBuilder, tr T) []byte {
			r, _ := plain(tr)
			for _, f := range s.PK {
				b = addField(b, f, r)
			}
			return b.Bytes()
		},
		Serializer:       ser,
		ScanPrefetchSize: s.Prefetch,
		Filter:           o.filter,
	})
	if !o.noIndexes && len(s.Indexes) > 0 {
		if err := t.AddIndex(s.Indexes, false); err != nil {
			panic(fmt.Sprintf("AddIndex of %v failed: %v", s.Indexes, err))
		}
	}
	return t
}

func (t *table[T]) mkIndex(ix IndexSpec) *bond.Index[T] { return mkIndexOf[T](ix, t.plainF) }

func mkIndexOf[T any](ix IndexSpec, un func(T) (Rec, bool)) *bond.Index[T] {
	opt := bond.IndexOptions[T]{
		IndexID: bond.IndexID(ix.ID), IndexName: fmt.Sprintf("ix%d", ix.ID),
		IndexKeyFunc: func(b bond.KeyBuilder, tr T) []byte {
			r, _ := un(tr)
			if ix.Pad > 0 {
				b = b.AddBytesField(make([]byte, ix.Pad))
			}
			for _, f := range ix.Key {
				b = addField(b, f, r)
			}
			return b.Bytes()
		},
	}
	if len(ix.Order) > 0 {
		opt.IndexOrderFunc = func(o bond.IndexOrder, tr T) bond.IndexOrder {
			r, _ := un(tr)
			for _, of := range ix.Order {
				o = addOrder(o, of, r)
			}
			return o
		}
	}
	if ix.Filter != "" {
		opt.IndexFilterFunc = func(tr T) bool {
			r, _ := un(tr)
			return ix.accepts(r)
		}
	}
	return bond.NewIndex(opt)
}

func (t *table[T]) AddIndex(specs []IndexSpec, reindex bool) error {
	var ixs []*bond.Index[T]
	for _, ix := range specs {
		ixs = append(ixs, t.mkIndex(ix))
	}
	var err error
	if reindex {
		err = t.t.AddIndex(ixs, true)
	} else {
		err = t.t.AddIndex(ixs)
	}
	if err == nil {
		t.mu.Lock()
		defer t.mu.Unlock()
		for _, i := range ixs {
			t.idx[uint8(i.IndexID)] = i
		}
	}
	return err
}

func (t *table[T]) ReIndex(ids []uint8) error {
	var ixs []*bond.Index[T]
	for _, id := range ids {
		ixs = append(ixs, t.index(id))
	}
	return t.t.ReIndex(ixs)
}

func (t *table[T]) index(ix uint8) *bond.Index[T] {
	if ix == 0 {
		return t.t.PrimaryIndex()
	}
	t.mu.RLock()
	defer t.mu.RUnlock()
	return t.idx[ix]
}

func (t *table[T]) Index(ix uint8) bond.IndexInfo { return t.index(ix) }

func (t *table[T]) wraps(rs []Rec) []T {
	out := make([]T, len(rs))
	for i, r := range rs {
		out[i] = t.wrapF(r)
	}
	return out
}

func (t *table[T]) unwraps(ts []T) []Rec {
	out := make([]Rec, len(ts))
	for i, x := range ts {
		r, ok := t.unF(x)
		if !ok {
			r = Rec{P: "<nil record>"}
		}
		out[i] = r
	}
	return out
}

// errMutated reports that a call changed the records its caller passed in.
var errMutated = errors.New("the call modified the caller's records")

func (t *table[T]) same(ts []T, rs []Rec) bool { return sameRecs(t.unwraps(ts), rs) }

func (t *table[T]) write(rs []Rec, f func([]T) error) error {
	ts := t.wraps(rs)
	err := f(ts)
	if !t.same(ts, rs) {
		return fmt.Errorf("%w: passed %s now %s", errMutated, canons(rs), canons(t.unwraps(ts)))
	}
	return err
}

func (t *table[T]) Insert(ctx context.Context, rs []Rec, b bond.Batch) error {
	return t.write(rs, func(ts []T) error {
		if b == nil {
			return t.t.Insert(ctx, ts)
		}
		return t.t.Insert(ctx, ts, b)
	})
}

func (t *table[T]) Update(ctx context.Context, rs []Rec, b bond.Batch) error {
	return t.write(rs, func(ts []T) error {
		if b == nil {
			return t.t.Update(ctx, ts)
		}
		return t.t.Update(ctx, ts, b)
	})
}

// inPlace makes the old record the given one, by changing it where it can be changed.
func (t *table[T]) inPlace(old T, r Rec) T {
	r = r.clone()
	switch o := any(old).(type) {
	case *Rec:
		*o = r
		return old
	case Rec:
		if len(o.B) == len(r.B) {
			copy(o.B, r.B)
			r.B = o.B
		}
		if o.M != nil && r.M != nil {
			maps.Copy(o.M, r.M)
			maps.DeleteFunc(o.M, func(k string, _ int) bool { _, ok := r.M[k]; return !ok })
			r.M = o.M
		}
	}
	return t.wrapF(r)
}

func (t *table[T]) Upsert(ctx context.Context, rs []Rec, conflict func(old, new Rec) Rec, b bond.Batch) error {
	write := t.write
	if t.s.InPlace && conflict != nil {
		// of several records with one key, the first may be changed by the next
		write = func(rs []Rec, f func([]T) error) error { return f(t.wraps(rs)) }
	}
	return write(rs, func(ts []T) error {
		f := func(old, new T) T {
			un := t.unF
			if t.s.InPlace {
				un = t.plainF // conflict functions may change these
			}
			o, ok1 := un(old)
			n, ok2 := un(new)
			if !ok1 || !ok2 {
				panic("upsert conflict function got a nil record")
			}
			if t.s.InPlace {
				return t.inPlace(old, conflict(o.clone(), n.clone()))
			}
			return t.wrapF(conflict(o, n))
		}
		if conflict == nil {
			f = bond.TableUpsertOnConflictReplace[T]
		}
		if b == nil {
			return t.t.Upsert(ctx, ts, f)
		}
		return t.t.Upsert(ctx, ts, f, b)
	})
}

func (t *table[T]) Delete(ctx context.Context, rs []Rec, b bond.Batch) error {
	return t.write(rs, func(ts []T) error {
		if b == nil {
			return t.t.Delete(ctx, ts)
		}
		return t.t.Delete(ctx, ts, b)
	})
}

func (t *table[T]) UnsafeInsert(ctx context.Context, rs []Rec, b bond.Batch) error {
	return t.write(rs, func(ts []T) error {
		u := t.t.(bond.TableUnsafeInserter[T])
		if b == nil {
			return u.UnsafeInsert(ctx, ts)
		}
		return u.UnsafeInsert(ctx, ts, b)
	})
}

func (t *table[T]) UnsafeUpdate(ctx context.Context, rs, old []Rec, b bond.Batch) error {
	return t.write(rs, func(ts []T) error {
		u := t.t.(bond.TableUnsafeUpdater[T])
		olds := t.wraps(old)
		var err error
		if b == nil {
			err = u.UnsafeUpdate(ctx, ts, olds)
		} else {
			err = u.UnsafeUpdate(ctx, ts, olds, b)
		}
		if !t.same(olds, old) {
			return errMutated
		}
		return err
	})
}

func (t *table[T]) Exist(r Rec, b bond.Batch) bool {
	if b == nil {
		return t.t.Exist(t.wrapF(r))
	}
	return t.t.Exist(t.wrapF(r), b)
}

func (t *table[T]) GetPoint(ctx context.Context, r Rec, b bond.Batch) (Rec, error) {
	var x T
	var err error
	if b == nil {
		x, err = t.t.GetPoint(ctx, t.wrapF(r))
	} else {
		x, err = t.t.GetPoint(ctx, t.wrapF(r), b)
	}
	if err != nil {
		return Rec{}, err
	}
	rec, ok := t.unF(x)
	if !ok {
		return Rec{}, fmt.Errorf("GetPoint returned a nil record and no error")
	}
	return rec, nil
}

// selector returns the selector of s, the same one for the same s.
func (t *table[T]) selector(s Sel) bond.Selector[T] {
	if len(s.Recs) == 0 {
		return t.newSelector(s)
	}
	k, text := selKey{s.Kind, &s.Recs[0], len(s.Recs)}, canons(s.Recs)
	t.mu.Lock()
	defer t.mu.Unlock()
	e, ok := t.sels[k]
	if !ok || e.text != text {
		if t.sels == nil || len(t.sels) > 50 {
			t.sels = map[selKey]selEntry[T]{}
		}
		e = selEntry[T]{s.Recs, text, t.newSelector(s)}
		t.sels[k] = e
	}
	return e.sel
}

func (t *table[T]) newSelector(s Sel) bond.Selector[T] {
	// some selectors are made for other rows first
	set := len(s.Recs) > 0 && s.Recs[0].ID%3 == 1
	switch s.Kind {
	case "point":
		if set {
			sel := bond.NewSelectorPoint(t.wrapF(Rec{}))
			sel.SetPoint(t.wrapF(s.Recs[0]))
			return sel
		}
		return bond.NewSelectorPoint(t.wrapF(s.Recs[0]))
	case "points":
		if set {
			sel := bond.NewSelectorPoints(t.wrapF(Rec{}))
			sel.SetPoints(t.wraps(s.Recs)...)
			return sel
		}
		return bond.NewSelectorPoints(t.wraps(s.Recs)...)
	case "range":
		if set {
			sel := bond.NewSelectorRange(t.wrapF(Rec{}), t.wrapF(Rec{}))
			sel.SetRange(t.wrapF(s.Recs[0]), t.wrapF(s.Recs[1]))
			return sel
		}
		return bond.NewSelectorRange(t.wrapF(s.Recs[0]), t.wrapF(s.Recs[1]))
	case "ranges":
		var rs [][]T
		for i := 0; i+1 < len(s.Recs); i += 2 {
			rs = append(rs, []T{t.wrapF(s.Recs[i]), t.wrapF(s.Recs[i+1])})
		}
		if set {
			sel := bond.NewSelectorRanges([]T{t.wrapF(Rec{}), t.wrapF(Rec{})})
			sel.SetRanges(rs...)
			return sel
		}
		return bond.NewSelectorRanges(rs...)
	}
	panic("no selector for kind " + s.Kind)
}

func (t *table[T]) Get(ctx context.Context, s Sel, b bond.Batch) ([]Rec, []bool, error) {
	var ts []T
	var err error
	if b == nil {
		ts, err = t.t.Get(ctx, t.selector(s))
	} else {
		ts, err = t.t.Get(ctx, t.selector(s), b)
	}
	if err != nil {
		return nil, nil, err
	}
	rs := make([]Rec, len(ts))
	miss := make([]bool, len(ts))
	for i, x := range ts {
		r, ok := t.unF(x)
		rs[i], miss[i] = r, !ok
		if ok && !t.s.Ptr && r.canon() == (Rec{}).canon() {
			miss[i] = true
		}
	}
	return rs, miss, nil
}

func (t *table[T]) Scan(ctx context.Context, rev bool, b bond.Batch) ([]Rec, error) {
	var ts []T
	var err error
	if b == nil {
		err = t.t.Scan(ctx, &ts, rev)
	} else {
		err = t.t.Scan(ctx, &ts, rev, b)
	}
	return t.unwraps(ts), err
}

func (t *table[T]) ScanIdx(ctx context.Context, ix uint8, s Sel, rev bool, b bond.Batch) ([]Rec, error) {
	var ts []T
	var err error
	if b == nil {
		err = t.t.ScanIndex(ctx, t.index(ix), t.selector(s), &ts, rev)
	} else {
		err = t.t.ScanIndex(ctx, t.index(ix), t.selector(s), &ts, rev, b)
	}
	return t.unwraps(ts), err
}

func (t *table[T]) ScanEach(ctx context.Context, ix uint8, s Sel, rev bool, b bond.Batch, f func(key []byte, get func() (Rec, error)) (bool, error)) error {
	g := func(k bond.KeyBytes, l bond.Lazy[T]) (bool, error) {
		return f(k, func() (Rec, error) {
			x, err := l.Get()
			if err != nil {
				return Rec{}, err
			}
			r, ok := t.unF(x)
			if !ok {
				return Rec{}, fmt.Errorf("lazy Get returned a nil record and no error")
			}
			return r, nil
		})
	}
	var bs []bond.Batch
	if b != nil {
		bs = append(bs, b)
	}
	if s.Kind == "all" && ix == 0 {
		return t.t.ScanForEach(ctx, g, rev, bs...)
	}
	return t.t.ScanIndexForEach(ctx, t.index(ix), t.selector(s), g, rev, bs...)
}

func (t *table[T]) Iter(ix uint8, s Sel, b bond.Batch) bond.Iterator {
	var bs []bond.Batch
	if b != nil {
		bs = append(bs, b)
	}
	if ix == 0 {
		return t.t.Iter(t.selector(s), bs...)
	}
	return t.index(ix).Iter(t.t, t.selector(s), bs...)
}

type queryRun[T any] struct {
	t *table[T]
	q bond.Query[T]
}

func (t *table[T]) cond(name string) cond.Cond[T] {
	return cond.Func(func(x T) bool {
		r, ok := t.unF(x)
		if !ok {
			panic("filter got a nil record")
		}
		if t.called != nil {
			t.called("filter")
		}
		return filterRec(name, r)
	})
}

func (t *table[T]) build(q Q) bond.Query[T] {
	bq := t.t.Query()
	apply := map[string]func(){
		"with": func() {
			if !q.NoWith {
				bq = bq.With(t.index(q.Index), t.selector(q.Sel))
			}
		},
		"filter": func() {
			if q.Filter != "" {
				bq = bq.Filter(t.cond(q.Filter))
			}
		},
		"order": func() {
			if q.Order != "" {
				bq = bq.Order(func(a, b T) bool {
					ra, _ := t.unF(a)
					rb, _ := t.unF(b)
					if t.called != nil {
						t.called("order")
					}
					return t.s.lessRec(q.Order, ra, rb)
				})
			}
		},
		"offset": func() {
			if q.Offset > 0 {
				bq = bq.Offset(q.Offset)
			}
		},
		"limit": func() {
			if q.Limit > 0 {
				bq = bq.Limit(q.Limit)
			}
		},
		"reverse": func() {
			if q.Reverse {
				bq = bq.Reverse()
			}
		},
		"after": func() {
			if q.After != nil {
				bq = bq.After(t.wrapF(*q.After))
			}
		},
		"intersect": func() {
			var qs []bond.Query[T]
			for _, iq := range q.Intersect {
				qs = append(qs, t.build(iq))
			}
			if len(qs) > 0 {
				bq = bq.Intersects(qs...)
			}
		},
	}
	steps := q.Steps
	if len(steps) == 0 {
		steps = []string{"with", "filter", "order", "offset", "limit", "reverse", "after", "intersect"}
	}
	// clauses that are given again below, or cancel
	for _, s := range q.Again {
		switch {
		case s == "with" && !q.NoWith:
			bq = bq.With(t.index(0), t.selector(Sel{Kind: "points"}))
		case s == "filter" && q.Filter != "":
			bq = bq.Filter(t.cond("never"))
		case s == "order" && q.Order != "":
			bq = bq.Order(func(a, b T) bool { return false })
		case s == "offset" && q.Offset > 0:
			bq = bq.Offset(1000)
		case s == "limit" && q.Limit > 0:
			bq = bq.Limit(1)
		case s == "reverse":
			bq = bq.Reverse().Reverse()
		case s == "after" && q.After != nil:
			bq = bq.After(t.wrapF(Rec{}))
		case s == "intersect" && len(q.Intersect) > 0:
			bq = bq.Intersects()
		}
	}
	for _, s := range steps {
		apply[s]()
	}
	return bq
}

func (t *table[T]) Query(q Q) QueryRun { return &queryRun[T]{t, t.build(q)} }

func (t *table[T]) Derive(q Q, more []Q) (QueryRun, []QueryRun) {
	root := t.build(q)
	var out []QueryRun
	for _, m := range more {
		out = append(out, &queryRun[T]{t, root.Intersects(t.build(m))})
	}
	return &queryRun[T]{t, root}, out
}

func (q *queryRun[T]) Run(ctx context.Context, b bond.Batch) ([]Rec, error) {
	var ts []T
	var err error
	if b == nil {
		err = q.q.Execute(ctx, &ts)
	} else {
		err = q.q.Execute(ctx, &ts, b)
	}
	return q.t.unwraps(ts), err
}

func (t *table[T]) AnyScan() bond.TableScanner[any] { return bond.TableAnyScanner[T](t.t) }
func (t *table[T]) Info() bond.TableInfo            { return t.t }
func (t *table[T]) Secondary() []int {
	var ids []int
	for _, ix := range t.t.SecondaryIndexes() {
		ids = append(ids, int(ix.IndexID))
	}
	slices.Sort(ids)
	return ids
}
func (t *table[T]) OnCall(f func(kind string)) { t.called = f }
func (t *table[T]) Wrap(r Rec) any             { return t.wrapF(r) }

// ---- databases ----

type quietLogger struct{}

func (quietLogger) Infof(string, ...interface{})  {}
func (quietLogger) Errorf(string, ...interface{}) {}
func (quietLogger) Fatalf(f string, a ...interface{}) {
	panic(fmt.Sprintf("pebble fatal: "+f, a...))
}

// DBOpt chooses the pebble configuration of a case.
type DBOpt struct {
	SmallMem bool `json:",omitempty"` // 256 KiB memtable, small files and blocks
	Bloom    bool `json:",omitempty"` // sstable bloom filters, as bond's default options have
	// Manual: no automatic compactions, and no block is kept in memory
	Manual bool `json:",omitempty"`
	// Default: Bond's default options
	Default bool `json:",omitempty"`
	// ReadOnly: every commit is refused
	ReadOnly bool `json:",omitempty"`
}

func pebbleOptions(o DBOpt, fs vfs.FS) *pebble.Options {
	po := &pebble.Options{FS: fs, Logger: quietLogger{}, MemTableSize: 4 << 20, L0CompactionThreshold: 2, L0StopWritesThreshold: 1000,
		Levels: make([]pebble.LevelOptions, 7)}
	if o.SmallMem {
		po.MemTableSize = 256 << 10
		po.LBaseMaxBytes = 64 << 10
	}
	if o.Manual {
		po.DisableAutomaticCompactions = true
		po.Cache = pebble.NewCache(1)
	}
	po.ReadOnly = o.ReadOnly
	po.EnsureDefaults()
	po.MaxConcurrentCompactions = func() int { return 2 }
	po.Experimental.MaxWriterConcurrency = runtime.NumCPU()
	for i := range po.Levels {
		l := &po.Levels[i]
		l.EnsureDefaults()
		if o.SmallMem {
			l.BlockSize = 512
			l.IndexBlockSize = 512
			l.TargetFileSize = 16 << 10
		}
		if o.Bloom {
			l.FilterPolicy = bloom.FilterPolicy(10)
			l.FilterType = pebble.TableFilter
		}
	}
	return po
}

// Store is a database of a case that can be reopened.
type Store struct {
	o   *fw.Obs
	fs  vfs.FS
	dir string
	opt DBOpt
	db  bond.DB
}

func openStore(o *fw.Obs, opt DBOpt) *Store {
	return openStoreFS(o, opt, vfs.NewMem(), o.TempDir())
}

func openStoreFS(o *fw.Obs, opt DBOpt, fs vfs.FS, dir string) *Store {
	s := &Store{o: o, fs: fs, dir: dir, opt: opt}
	s.open()
	o.Cleanup(func() {
		if s.db != nil {
			_ = s.db.Close()
		}
	})
	return s
}

func (s *Store) open() {
	opts := &bond.Options{Serializer: &serializers.CBORSerializer{}}
	if s.opt.Default {
		opts = bond.DefaultOptions()
		opts.PebbleOptions.FS = s.fs
		opts.PebbleOptions.Logger = quietLogger{}
	} else {
		opts.PebbleOptions = pebbleOptions(s.opt, s.fs)
	}
	db, err := bond.Open(s.dir, opts)
	if err != nil {
		s.o.Failf("Open failed: %v", err)
	}
	s.db = db
}

// close closes the database and reports an error (pebble reports leaked
// iterators here).
func (s *Store) close() {
	db := s.db
	s.db = nil
	if err := db.Close(); err != nil {
		s.o.Failf("Close of the database failed: %v", err)
	}
}

func (s *Store) reopen() {
	s.close()
	s.open()
}

func (s *Store) flush() {
	if err := s.db.Backend().Flush(); err != nil {
		s.o.Failf("Flush failed: %v", err)
	}
}

func (s *Store) compact() {
	type compacter interface{ Compact() error }
	var err error
	if c, ok := s.db.(compacter); ok {
		err = c.Compact()
	} else {
		err = s.db.Backend().Compact([]byte{0}, []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, true)
	}
	if err != nil {
		s.o.Failf("Compact failed: %v", err)
	}
}

// rawKeys lists every key with the given prefix.
func (s *Store) rawKeys(prefix ...byte) [][]byte {
	it, err := s.db.Backend().NewIter(nil)
	if err != nil {
		s.o.Failf("raw iterator: %v", err)
	}
	var ks [][]byte
	for ok := it.First(); ok; ok = it.Next() {
		k := it.Key()
		if len(k) >= len(prefix) && string(k[:len(prefix)]) == string(prefix) {
			ks = append(ks, append([]byte(nil), k...))
		}
	}
	if err := it.Close(); err != nil {
		s.o.Failf("raw iterator: %v", err)
	}
	return ks
}

func (t *table[T]) DataKey(r Rec) []byte {
	return bond.KeyEncode(bond.Key{TableID: bond.TableID(t.s.TableID), PrimaryKey: t.t.PrimaryKey(bond.NewKeyBuilder(nil), t.wrapF(r))})
}

func (t *table[T]) unAny(x any) Rec {
	r, ok := t.unF(x.(T))
	if !ok {
		r = Rec{P: "<nil record>"}
	}
	return r
}

func (t *table[T]) AnyScanAll(ctx context.Context, rev bool, b bond.Batch) ([]Rec, error) {
	var xs []any
	var bs []bond.Batch
	if b != nil {
		bs = append(bs, b)
	}
	err := t.AnyScan().Scan(ctx, &xs, rev, bs...)
	var out []Rec
	for _, x := range xs {
		out = append(out, t.unAny(x))
	}
	return out, err
}

func (t *table[T]) AnyScanEach(ctx context.Context, rev bool, b bond.Batch) ([]Rec, error) {
	var bs []bond.Batch
	if b != nil {
		bs = append(bs, b)
	}
	var out []Rec
	err := t.AnyScan().ScanForEach(ctx, func(_ bond.KeyBytes, l bond.Lazy[any]) (bool, error) {
		x, err := l.Get()
		if err != nil {
			return false, err
		}
		out = append(out, t.unAny(x))
		return true, nil
	}, rev, bs...)
	return out, err
}

func (t *table[T]) AnyEach(ctx context.Context, ix uint8, s Sel, rev bool, b bond.Batch, f func(key []byte, get func() (Rec, error)) (bool, error)) error {
	g := func(k bond.KeyBytes, l bond.Lazy[any]) (bool, error) {
		return f(k, func() (Rec, error) {
			x, err := l.Get()
			if err != nil {
				return Rec{}, err
			}
			return t.unAny(x), nil
		})
	}
	var bs []bond.Batch
	if b != nil {
		bs = append(bs, b)
	}
	if s.Kind == "all" && ix == 0 {
		return t.AnyScan().ScanForEach(ctx, g, rev, bs...)
	}
	un := func(x any) (Rec, bool) { return t.unF(x.(T)) }
	var idx *bond.Index[any]
	if ix == 0 {
		idx = bond.NewIndex(bond.IndexOptions[any]{
			IndexID: bond.PrimaryIndexID, IndexName: bond.PrimaryIndexName,
			IndexKeyFunc: func(b bond.KeyBuilder, x any) []byte { return b.Bytes() },
		})
	} else {
		idx = mkIndexOf[any](*t.s.index(ix), un)
	}
	return t.AnyScan().ScanIndexForEach(ctx, idx, t.selector(s), g, rev, bs...)
}
