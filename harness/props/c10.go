package props

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/cockroachdb/pebble"
	"github.com/go-bond/bond"
	"github.com/go-bond/bond/serializers"
	"pgregory.net/rapid"
	"verifbond/fw"
)

// CbOp is one step over batches with callbacks.
type CbOp struct {
	K    string // set, del, on, commit, dbapply, apply, reset, close
	S    int
	To   int    `json:",omitempty"`
	Key  uint8  `json:",omitempty"`
	Val  uint8  `json:",omitempty"`
	On   string `json:",omitempty"` // commit, committed, error, close
	Do   string `json:",omitempty"` // what the callback does: "", fail, failonce, set
	Sync bool   `json:",omitempty"`
}

type CbCase struct {
	Types []string
	Ops   []CbOp
	// RO: the last commits are made on a read-only database and fail
	RO bool
}

type cb struct {
	name string
	on   string
	do   string
	key  []byte
	ran  int
}

type cbSlot struct {
	b         bond.Batch
	pend      map[string]string // "" deletes
	cbs       []*cb
	committed bool
}

var errCb = errors.New("callback refuses")

func cbKey(k uint8) []byte {
	return bond.NewUserKey(string([]byte{'k', k}))
}

func genCbOps(t *rapid.T, n int) []CbOp {
	var ops []CbOp
	for i := 0; i < n; i++ {
		op := CbOp{S: rapid.IntRange(0, 2).Draw(t, "slot")}
		op.K = rapid.SampledFrom([]string{"set", "set", "set", "del", "on", "on", "on", "on", "commit", "commit", "dbapply", "apply", "reset", "close"}).Draw(t, "k")
		switch op.K {
		case "set", "del":
			op.Key, op.Val = uint8(rapid.IntRange(0, 5).Draw(t, "key")), uint8(rapid.IntRange(1, 250).Draw(t, "val"))
		case "on":
			op.On = rapid.SampledFrom([]string{"commit", "commit", "committed", "committed", "close", "error"}).Draw(t, "on")
			if op.On == "commit" {
				op.Do = rapid.SampledFrom([]string{"", "", "", "fail", "failonce", "set"}).Draw(t, "do")
			}
			op.Key, op.Val = uint8(rapid.IntRange(6, 8).Draw(t, "key")), uint8(rapid.IntRange(1, 250).Draw(t, "val"))
		case "commit", "dbapply":
			op.Sync = rapid.Bool().Draw(t, "sync")
		case "apply":
			op.To = rapid.IntRange(0, 2).Draw(t, "to")
			op.Sync = rapid.Bool().Draw(t, "sync")
		}
		ops = append(ops, op)
	}
	return ops
}

func init() {
	fw.Register(fw.Prop{
		ID:    "C10",
		Title: "Batch callbacks report what happened to the batch",
		Rule: "a case is three batches and a history of writes, callback registrations (some failing, some writing), commits, applications to another batch, resets and closes; every callback records when it ran and what the database showed; " +
			"it is non-trivial when a batch with at least two OnCommit or OnCommitted callbacks and pending writes was committed, applied, or failed to",
		Quick: 4500, Thorough: 80000,
	}, func(t *rapid.T) CbCase {
		c := CbCase{RO: rapid.IntRange(0, 4).Draw(t, "ro") == 0}
		for i := 0; i < 3; i++ {
			c.Types = append(c.Types, rapid.SampledFrom([]string{"rw", "wo"}).Draw(t, "type"))
		}
		c.Ops = genCbOps(t, rapid.IntRange(4, 40).Draw(t, "ops"))
		return c
	}, runCallbacks)
}

func runCallbacks(c CbCase, o *fw.Obs) {
	if len(c.Types) != 3 {
		return
	}
	st := openStore(o, DBOpt{})
	if c.RO {
		// a database that can be read but refuses every commit
		o.NoErr(st.db.Set(cbKey(0), []byte("v0"), bond.Sync), "seed")
		st.close()
		po := pebbleOptions(st.opt, st.fs)
		po.ReadOnly = true
		db, err := bond.Open(st.dir, &bond.Options{PebbleOptions: po, Serializer: &serializers.CBORSerializer{}})
		o.NoErr(err, "open read-only")
		st.db = db
	}
	base := map[string]string{}
	if c.RO {
		base[string(cbKey(0))] = "v0"
	}
	visible := func() string {
		var parts []string
		for k := uint8(0); k < 9; k++ {
			v, cl, err := st.db.Get(cbKey(k))
			if errors.Is(err, pebble.ErrNotFound) || errors.Is(err, bond.ErrNotFound) {
				continue
			}
			o.NoErr(err, "Get of key %d", k)
			parts = append(parts, fmt.Sprintf("%x=%s", cbKey(k), v))
			_ = cl.Close()
		}
		return strings.Join(parts, " ")
	}
	show := func(m map[string]string) string {
		var parts []string
		for k, v := range m {
			if v != "" {
				parts = append(parts, fmt.Sprintf("%x=%s", k, v))
			}
		}
		sort.Strings(parts)
		return strings.Join(parts, " ")
	}
	overlay := func(m, p map[string]string) map[string]string {
		out := map[string]string{}
		for k, v := range m {
			out[k] = v
		}
		for k, v := range p {
			if v == "" {
				delete(out, k)
			} else {
				out[k] = v
			}
		}
		return out
	}
	var trace []string
	ids := map[uint64]int{}
	slots := make([]*cbSlot, 3)
	newID := func(b bond.Batch) {
		ids[b.ID()]++
		if ids[b.ID()] > 1 {
			o.Failf("two batches have the ID %d", b.ID())
		}
	}
	fresh := func(i int) {
		slots[i] = &cbSlot{b: batchOf(st.db, c.Types[i]), pend: map[string]string{}}
		newID(slots[i].b)
	}
	for i := range slots {
		fresh(i)
	}
	o.Cleanup(func() {
		for _, s := range slots {
			_ = s.b.Close()
		}
	})
	serial := 0
	// expect runs f and compares the callbacks it ran with the expected ones.
	run := func(what string, f func() error) (got []string, err error) {
		trace = nil
		err = f()
		return trace, err
	}
	for n, op := range c.Ops {
		op := op
		if op.S > 2 || op.To > 2 {
			continue
		}
		s := slots[op.S]
		what := fmt.Sprintf("op %d %s slot %d", n, op.K, op.S)
		switch op.K {
		case "set", "del":
			if s.committed {
				continue
			}
			got, err := run(what, func() error {
				if op.K == "del" {
					s.pend[string(cbKey(op.Key))] = ""
					return s.b.Delete(cbKey(op.Key), bond.NoSync)
				}
				v := fmt.Sprintf("v%d", op.Val)
				s.pend[string(cbKey(op.Key))] = v
				return s.b.Set(cbKey(op.Key), []byte(v), bond.NoSync)
			})
			o.NoErr(err, what)
			if len(got) > 0 {
				o.Failf("%s: a write into the batch ran callbacks %v", what, got)
			}
		case "on":
			if s.committed {
				continue
			}
			serial++
			x := &cb{name: fmt.Sprintf("%s#%d", op.On, serial), on: op.On, do: op.Do}
			s.cbs = append(s.cbs, x)
			b := s.b
			note := func(who bond.Batch) {
				x.ran++
				trace = append(trace, fmt.Sprintf("%s sees [%s]", x.name, visible()))
				if who == nil || who.ID() != b.ID() {
					o.Failf("callback %s ran for another batch", x.name)
				}
			}
			switch op.On {
			case "commit":
				key, val := cbKey(op.Key), fmt.Sprintf("v%d", op.Val)
				b.OnCommit(func(who bond.Batch) error {
					note(who)
					if op.Do == "fail" || op.Do == "failonce" && x.ran == 1 {
						return errCb
					}
					if op.Do == "set" {
						if err := who.Set(key, []byte(val), bond.NoSync); err != nil {
							o.Failf("Set in an OnCommit callback: %v", err)
						}
						s.pend[string(key)] = val
					}
					return nil
				})
			case "committed":
				b.OnCommitted(func(who bond.Batch) { note(who) })
			case "close":
				b.OnClose(func(who bond.Batch) { note(who) })
			case "error":
				b.OnError(func(who bond.Batch, err error) {
					if err == nil {
						o.Failf("OnError callback without an error")
					}
					note(who)
				})
			}
		case "commit", "dbapply", "apply":
			if s.committed || len(s.pend) == 0 {
				continue
			}
			if op.K == "apply" && (op.To == op.S || slots[op.To].committed) {
				continue
			}
			opt := bond.NoSync
			if op.Sync {
				opt = bond.Sync
			}
			// what must happen
			var want []string
			before := show(base)
			fails := false
			ncb := 0
			for _, x := range s.cbs {
				if x.on == "commit" || x.on == "committed" {
					ncb++
				}
				if x.on != "commit" || fails {
					continue
				}
				want = append(want, fmt.Sprintf("%s sees [%s]", x.name, before))
				if x.do == "fail" || x.do == "failonce" && x.ran == 0 {
					fails = true
				}
			}
			if ncb >= 2 {
				o.NonTrivial()
			}
			id := s.b.ID()
			got, err := run(what, func() error {
				switch op.K {
				case "apply":
					return slots[op.To].b.Apply(s.b, opt)
				case "dbapply":
					return st.db.Apply(s.b, opt)
				}
				return s.b.Commit(opt)
			})
			o.Evals(1)
			if s.b.ID() != id {
				o.Failf("%s: the batch changed its ID", what)
			}
			ro := c.RO && op.K != "apply"
			switch {
			case fails:
				if !errors.Is(err, errCb) {
					o.Failf("%s: an OnCommit callback failed, but the result is %v", what, err)
				}
				o.Label("commit refused by a callback (%s)", op.K)
			case ro:
				if err == nil {
					o.Failf("%s: commit on a read-only database succeeded", what)
				}
				for _, x := range s.cbs {
					if x.on == "error" {
						want = append(want, fmt.Sprintf("%s sees [%s]", x.name, before))
					}
				}
				o.Label("commit refused by the database")
			default:
				o.NoErr(err, what)
				after := before
				if op.K == "apply" {
					for k, v := range s.pend {
						slots[op.To].pend[k] = v
					}
				} else {
					base = overlay(base, s.pend)
					after = show(base)
				}
				for _, x := range s.cbs {
					if x.on == "committed" {
						want = append(want, fmt.Sprintf("%s sees [%s]", x.name, after))
					}
				}
				s.committed = true
				o.Label("%s with callbacks", op.K)
			}
			if strings.Join(got, "\n") != strings.Join(want, "\n") {
				o.Failf("%s: ran callbacks\n    %s\nwant\n    %s", what, strings.Join(got, "\n    "), strings.Join(want, "\n    "))
			}
		case "reset":
			id := s.b.ID()
			got, _ := run(what, func() error { s.b.Reset(); return nil })
			if len(got) > 0 {
				o.Failf("%s: Reset ran callbacks %v", what, got)
			}
			if s.b.ID() == id {
				o.Failf("%s: the batch keeps its ID", what)
			}
			newID(s.b)
			if !s.b.Empty() {
				o.Failf("%s: the batch is not empty", what)
			}
			s.cbs, s.pend, s.committed = nil, map[string]string{}, false
			o.Label("reset")
		case "close":
			var want []string
			for _, x := range s.cbs {
				if x.on == "close" {
					want = append(want, fmt.Sprintf("%s sees [%s]", x.name, show(base)))
				}
			}
			got, err := run(what, func() error { return s.b.Close() })
			o.NoErr(err, what)
			if strings.Join(got, "\n") != strings.Join(want, "\n") {
				o.Failf("%s: ran callbacks\n    %s\nwant\n    %s", what, strings.Join(got, "\n    "), strings.Join(want, "\n    "))
			}
			if len(want) > 0 {
				o.Label("close with callbacks")
			}
			fresh(op.S)
		}
		if v := visible(); v != show(base) {
			o.Failf("%s: the database shows [%s], want [%s]", what, v, show(base))
		}
		for i, s := range slots {
			if c.Types[i] != "rw" || s.committed {
				continue
			}
			v := overlay(base, s.pend)
			for k := uint8(0); k < 9; k++ {
				x, cl, err := s.b.Get(cbKey(k))
				g := ""
				if err == nil {
					g = string(x)
					_ = cl.Close()
				}
				if g != v[string(cbKey(k))] {
					o.Failf("%s: slot %d shows key %d as %q, want %q", what, i, k, g, v[string(cbKey(k))])
				}
			}
		}
	}
	for _, s := range slots {
		trace = nil
		_ = s.b.Close()
		fresh2 := 0
		for _, x := range s.cbs {
			if x.on == "close" {
				fresh2++
			}
		}
		if len(trace) != fresh2 {
			o.Failf("closing a batch ran %d of %d OnClose callbacks: %v", len(trace), fresh2, trace)
		}
		s.cbs = nil
	}
	for i := range slots {
		fresh(i)
	}
	// the database has callbacks of its own
	var closed []string
	final := visible()
	for i := 0; i <= len(c.Ops)%3; i++ {
		i := i
		st.db.OnClose(func(db bond.DB) {
			if db != st.db {
				o.Failf("the OnClose callback of the database gets another database")
			}
			if now := visible(); now != final {
				o.Failf("the OnClose callback of the database sees %q, want %q", now, final)
			}
			closed = append(closed, fmt.Sprint(i))
		})
	}
	if len(closed) != 0 {
		o.Failf("OnClose callbacks of the database ran before it was closed")
	}
	for _, s := range slots {
		_ = s.b.Close()
	}
	err := st.db.Close()
	st.db = nil
	o.NoErr(err, "Close of the database")
	if got, want := strings.Join(closed, ""), "012"[:len(c.Ops)%3+1]; got != want {
		o.Failf("closing the database ran the OnClose callbacks %q, want %q", got, want)
	}
}
