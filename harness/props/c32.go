package props

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/cockroachdb/pebble"
	"github.com/go-bond/bond"
	"pgregory.net/rapid"
	"verifbond/fw"
)

// ItOp is one step with iterators: open, close, a move, or a write beside them.
type ItOp struct {
	K  string // open, close, first, last, next, prev, ge, lt, prefix, write, flush, compact
	It int    // which iterator
	// open: over everything, over bounds, or of a selector
	At     *SelAt `json:",omitempty"`
	Lo, Hi *ItKey `json:",omitempty"`
	Out    bool   `json:",omitempty"` // outside of the batch
	Key    *ItKey `json:",omitempty"` // ge, lt, prefix
	W      *Op    `json:",omitempty"`
	N      int    `json:",omitempty"` // next, prev: so many times
}

// ItKey is the key of a record in an index, or of a record's row, with its end
// replaced.
type ItKey struct {
	Index uint8
	R     Rec
	Cut   int    `json:",omitempty"` // bytes taken from the end, as far as the prefix is left
	Add   []byte `json:",omitempty"`
	Table int    `json:",omitempty"` // added to the table ID
}

func (k ItKey) bytes(s Schema) []byte {
	var b []byte
	if ix := s.index(k.Index); ix != nil {
		b = refIndexKey(s, ix, k.R)
	} else {
		b = refKey(s.TableID, 0, nil, nil, refPK(s, k.R))
	}
	b = append([]byte(nil), b...)
	b[0] += byte(k.Table)
	if n := len(b) - k.Cut; k.Cut > 0 && n >= prefixLen(b) {
		b = b[:n]
	}
	return append(b, k.Add...)
}

func prefixLen(b []byte) int { return refComparer().Split(b) }

type IterCase struct {
	T   TableCase
	Ops []ItOp
}

const nIters = 3

func init() {
	fw.Register(fw.Prop{
		ID: "C32", Title: "Iterators move over one fixed, sorted sequence",
		Rule: "a case is a table filled by writes, possibly with writes pending in a read-write batch, and up to three iterators of the database, the batch, the table and its indexes that are opened, moved in every way and closed while writes, flushes and compactions go on; " +
			"it is non-trivial when an iterator changes its direction between entries, or is moved to an entry after a write",
		Quick: 2600, Thorough: 40000,
	}, func(t *rapid.T) IterCase {
		tc, m, d := genTableCase(t, 3)
		c := IterCase{T: tc}
		n := rapid.IntRange(3, 40).Draw(t, "ops")
		key := func() *ItKey {
			k := ItKey{Index: genIdx(t, tc.S)}
			k.R = genPos(t, tc.S, tc.S.index(k.Index), m, d)
			switch rapid.IntRange(0, 7).Draw(t, "keyform") {
			case 0:
				k.Cut = rapid.IntRange(1, 12).Draw(t, "cut")
			case 1:
				k.Add = rapid.SampledFrom([][]byte{{0}, {0xFF}, {1, 2}}).Draw(t, "add")
			case 2:
				k.Table = rapid.SampledFrom([]int{-1, 1}).Draw(t, "table")
			}
			return &k
		}
		type state struct{ open, multi, prefix bool }
		var its [nIters]state
		for i := 0; i < n; i++ {
			op := ItOp{It: rapid.IntRange(0, nIters-1).Draw(t, "it")}
			st := &its[op.It]
			switch {
			case !st.open:
				op.K = "open"
				op.Out = rapid.IntRange(0, 2).Draw(t, "out") == 0
				*st = state{open: true}
				switch rapid.IntRange(0, 4).Draw(t, "over") {
				case 0:
				case 1:
					op.Lo, op.Hi = key(), key()
				case 2:
					if rapid.Bool().Draw(t, "lo") {
						op.Lo = key()
					} else {
						op.Hi = key()
					}
				default:
					ix := genIdx(t, tc.S)
					op.At = &SelAt{ix, genSel(t, tc.S, ix, m, d)}
					st.multi = op.At.Sel.Kind == "points" || op.At.Sel.Kind == "ranges"
				}
			default:
				ks := []string{"first", "last", "next", "next", "next", "prev", "prev", "prev", "write", "close", "flush"}
				if !st.multi {
					ks = append(ks, "ge", "ge", "lt", "lt", "prefix")
				}
				if st.prefix { // only these moves are defined
					ks = []string{"first", "last", "next", "next", "ge", "lt", "prefix", "write"}
				}
				op.K = rapid.SampledFrom(ks).Draw(t, "k")
				switch op.K {
				case "next", "prev":
					op.N = rapid.SampledFrom([]int{1, 1, 1, 2, 3, 10}).Draw(t, "n")
				case "ge", "lt", "prefix":
					op.Key = key()
					st.prefix = op.K == "prefix"
				case "first", "last":
					st.prefix = false
				case "close":
					st.open = false
				case "flush":
					op.K = rapid.SampledFrom([]string{"flush", "flush", "compact"}).Draw(t, "flk")
				case "write":
					w := genWrite(t, m, d, 5)
					w.B, w.Drop = "", false
					if len(w.Rs) == 0 || !m.copy().apply(w) {
						continue
					}
					m.apply(w)
					op.W = &w
				}
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}, runIters)
}

// heldMv is an open iterator and what it must show.
type heldMv struct {
	it   bond.Iterator
	what string
	kvs  []refKV // index entries have no value
	pos  int     // -1: before the first; len: after the last
	set  bool    // it was positioned
	pre  []byte  // of a prefix seek
	// multi: made of several parts, which cannot seek
	multi   bool
	old     bool // a write has happened since
	lastMov string
	dir     string // of the last step
	bounds  *pebble.IterOptions
}

// within says whether the key is inside of the bounds; only there Pebble
// defines prefix seeks.
func (h *heldMv) within(k []byte) bool {
	if h.bounds != nil {
		return (h.bounds.LowerBound == nil || bytes.Compare(k, h.bounds.LowerBound) >= 0) && (h.bounds.UpperBound == nil || bytes.Compare(k, h.bounds.UpperBound) < 0)
	}
	n := len(h.kvs)
	return n > 0 && bytes.Compare(k, h.kvs[0].k) >= 0 && bytes.Compare(k, h.kvs[n-1].k) <= 0
}

func runIters(c IterCase, o *fw.Obs) {
	st, tb, m, b := c.T.load(o)
	base := newModel(c.T.S)
	for _, op := range c.T.Load {
		if op.K != "flush" && op.K != "compact" && ((op.K != "uinsert" && op.K != "uupdate") || unsafeOK(base, op)) {
			base.apply(op)
		}
	}
	// everything that is stored
	content := func(m *Model) (out []refKV) {
		out = append(out, refKV{refVersionKey, []byte("1")})
		for i := -1; i < len(c.T.S.Indexes); i++ {
			var ix *IndexSpec
			if i >= 0 {
				ix = &c.T.S.Indexes[i]
			}
			kvs, err := refPart(m, ix)
			o.Infra(err)
			out = append(out, kvs...)
		}
		sort.Slice(out, func(i, j int) bool { return bytes.Compare(out[i].k, out[j].k) < 0 })
		return
	}
	var its [nIters]*heldMv
	check := func(h *heldMv, ok bool) {
		o.Evals(1)
		if err := h.it.Error(); err != nil {
			o.Failf("%s: error %v after %s", h.what, err, h.lastMov)
		}
		want := h.pos >= 0 && h.pos < len(h.kvs)
		if ok != want || h.it.Valid() != want {
			at := ""
			if want {
				at = fmt.Sprintf(" at %x", h.kvs[h.pos].k)
			}
			o.Failf("%s of %d entries: %s returned %v, Valid is %v, want %v%s (entry %d)", h.what, len(h.kvs), h.lastMov, ok, h.it.Valid(), want, at, h.pos)
		}
		if !want {
			return
		}
		if h.old {
			o.NonTrivial()
			o.Label("moved after a write")
		}
		e := h.kvs[h.pos]
		if !bytes.Equal(h.it.Key(), e.k) {
			o.Failf("%s: %s stands at %x, want %x", h.what, h.lastMov, h.it.Key(), e.k)
		}
		if len(e.v) == 0 || bytes.Equal(e.v, h.it.Value()) {
			return
		}
		r, err := refDecode(c.T.S.Serializer, h.it.Value())
		w, werr := refDecode(c.T.S.Serializer, e.v)
		o.Infra(werr)
		if err != nil || !r.eq(&w) {
			o.Failf("%s: %s at %x shows %s, error %v, want %s", h.what, h.lastMov, e.k, r.canon(), err, w.canon())
		}
	}
	turn := func(h *heldMv, dir string) {
		if h.dir != "" && h.dir != dir && h.pos >= 0 && h.pos < len(h.kvs) {
			o.NonTrivial()
			o.Label("turned")
		}
		h.dir = dir
	}
	closeIt := func(i int) {
		if h := its[i]; h != nil {
			o.NoErr(h.it.Close(), "close of %s", h.what)
			its[i] = nil
		}
	}
	for i, op := range c.Ops {
		if op.It < 0 || op.It >= nIters {
			return
		}
		h := its[op.It]
		switch op.K {
		case "write":
			if op.W == nil || !m.copy().apply(*op.W) {
				continue
			}
			loadWrite(o, tb, m, *op.W, b, i)
			if b == nil {
				base = m.copy()
			}
			for _, h := range its {
				if h != nil {
					h.old = true
				}
			}
			continue
		case "flush":
			st.flush()
			continue
		case "compact":
			st.compact()
			continue
		case "open":
			if h != nil {
				continue
			}
			h = &heldMv{}
			src, see := b, m
			if b == nil || op.Out {
				src, see = nil, base
			}
			if at := op.At; at != nil {
				if !validSel(c.T.S, at.Index, at.Sel) {
					continue
				}
				h.what = fmt.Sprintf("iterator %d of index %d selector %s (batch %v)", op.It, at.Index, mustJSON(at.Sel), src != nil)
				ix := c.T.S.index(at.Index)
				for _, r := range see.sel(ix, at.Sel) {
					if ix != nil {
						h.kvs = append(h.kvs, refKV{refIndexKey(c.T.S, ix, r), nil})
						continue
					}
					v, err := refEncode(c.T.S.Serializer, r)
					o.Infra(err)
					h.kvs = append(h.kvs, refKV{refKey(c.T.S.TableID, 0, nil, nil, refPK(c.T.S, r)), v})
				}
				h.multi = at.Sel.Kind == "points" || at.Sel.Kind == "ranges"
				h.it = tb.Iter(at.Index, at.Sel, src)
				o.Label("selector " + at.Sel.Kind)
			} else {
				var po pebble.IterOptions
				if op.Lo != nil {
					po.LowerBound = op.Lo.bytes(c.T.S)
				}
				if op.Hi != nil {
					po.UpperBound = op.Hi.bytes(c.T.S)
				}
				if op.Lo != nil && op.Hi != nil && bytes.Compare(po.LowerBound, po.UpperBound) > 0 {
					po.LowerBound, po.UpperBound = po.UpperBound, po.LowerBound
				}
				for _, kv := range content(see) {
					if (po.LowerBound == nil || bytes.Compare(kv.k, po.LowerBound) >= 0) && (po.UpperBound == nil || bytes.Compare(kv.k, po.UpperBound) < 0) {
						h.kvs = append(h.kvs, kv)
					}
				}
				h.bounds = &po
				h.what = fmt.Sprintf("iterator %d from %x to %x (batch %v)", op.It, po.LowerBound, po.UpperBound, src != nil)
				io := &bond.IterOptions{IterOptions: po}
				switch {
				case src == nil:
					h.it = st.db.Iter(io)
				case i%2 == 0:
					h.it = st.db.Iter(io, src)
				default:
					h.it = src.Iter(io)
				}
				o.Label(fmt.Sprintf("bounds %v %v", op.Lo != nil, op.Hi != nil))
			}
			its[op.It] = h
			hh, at := h, op.It
			o.Cleanup(func() {
				if its[at] == hh {
					_ = hh.it.Close()
				}
			})
			if h.it.Valid() {
				o.Failf("%s is valid before it was moved", h.what)
			}
			continue
		case "close":
			closeIt(op.It)
			continue
		}
		if h == nil {
			continue
		}
		h.lastMov = op.K
		n := len(h.kvs)
		switch op.K {
		case "first":
			h.pos, h.set, h.pre = 0, true, nil
			check(h, h.it.First())
		case "last":
			h.pos, h.set, h.pre = n-1, true, nil
			check(h, h.it.Last())
		case "next":
			if !h.set || op.N > 100 {
				continue
			}
			for j := 0; j < op.N; j++ {
				if h.pre != nil && (h.pos < 0 || h.pos >= n) {
					break
				}
				if h.pos < n {
					h.pos++
				}
				if h.pre != nil && h.pos < n && !bytes.HasPrefix(h.kvs[h.pos].k, h.pre) {
					h.pos = n
				}
				check(h, h.it.Next())
			}
			turn(h, op.K)
		case "prev":
			if !h.set || h.pre != nil || op.N > 100 {
				continue
			}
			for j := 0; j < op.N; j++ {
				if h.pos >= 0 {
					h.pos--
				}
				check(h, h.it.Prev())
			}
			turn(h, op.K)
		case "ge", "lt", "prefix":
			if h.multi || op.Key == nil {
				continue
			}
			k := op.Key.bytes(c.T.S)
			if op.K == "prefix" && !h.within(k) {
				continue
			}
			h.lastMov = fmt.Sprintf("%s %x", op.K, k)
			h.set, h.pre = true, nil
			h.pos = sort.Search(n, func(i int) bool { return bytes.Compare(h.kvs[i].k, k) >= 0 })
			switch op.K {
			case "ge":
				check(h, h.it.SeekGE(k))
			case "lt":
				h.pos--
				check(h, h.it.SeekLT(k))
			default:
				h.pre = append([]byte(nil), k[:prefixLen(k)]...)
				if h.pos < n && !bytes.HasPrefix(h.kvs[h.pos].k, h.pre) {
					h.pos = n
				}
				check(h, h.it.SeekPrefixGE(k))
				if h.pos < n {
					o.Label("prefix found")
				}
			}
		}
	}
	for i := range its {
		closeIt(i)
	}
	if b != nil {
		o.Label("through a batch")
		o.NoErr(b.Close(), "batch close")
	}
	st.close()
}
