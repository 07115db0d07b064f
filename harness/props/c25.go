package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/filters"
	"pgregory.net/rapid"
	"verifbond/fw"
)

// FsOp is one step over a file filter store.
type FsOp struct {
	K    string // set, delrange, reopen
	Key  []byte `json:",omitempty"`
	End  []byte `json:",omitempty"`
	Size int    `json:",omitempty"`
	Fill byte   `json:",omitempty"`
}

type FsCase struct {
	Slash   bool
	Foreign []string
	Ops     []FsOp
}

// names that no key is stored under, files and (ending in a slash) directories
var foreignNames = []string{"notes-2024.txt", "%zz", "a%2", "sub/", ".hidden-x/", "bf_0-old", "x y", "zz-last"}

var fsKeyParts = []string{"bf_", "0", "1", "2", "10", "bn", "\x00", "\x00\x00\x00\x00\x00\x00", "\x01", "\xff", "-", ".", "..", "/", "A", "a", "z", "%", "%2D", "_", " ", "test_", "é", "\n", "~"}

func genFsKey(t *rapid.T) []byte {
	var k []byte
	for n := rapid.IntRange(0, 4).Draw(t, "parts"); n > 0; n-- {
		k = append(k, rapid.SampledFrom(fsKeyParts).Draw(t, "part")...)
	}
	if rapid.IntRange(0, 9).Draw(t, "table") == 0 {
		// the default key of a bloom filter in the space of some table
		k = bond.KeyEncode(bond.Key{TableID: bond.TableID(rapid.IntRange(0, 3).Draw(t, "id")), PrimaryKey: append([]byte("bf_"), k...)})
	}
	return k
}

func init() {
	fw.Register(fw.Prop{
		ID: "C25", Title: "The file filter store behaves like a map",
		Rule:  "a case is a directory with foreign files and directories and a history of sets, range deletions and reopenings with keys of letters, dots, slashes, percent signs, control and high bytes; after each step every key ever used is read and the directory is compared; it is non-trivial when a range deletion removed some but not all keys",
		Quick: 9000, Thorough: 150000,
	}, func(t *rapid.T) FsCase {
		c := FsCase{Slash: rapid.Bool().Draw(t, "slash")}
		for _, f := range foreignNames {
			if rapid.IntRange(0, 2).Draw(t, "foreign") == 0 {
				c.Foreign = append(c.Foreign, f)
			}
		}
		var used [][]byte
		key := func(l string) []byte {
			if len(used) > 0 && rapid.Bool().Draw(t, l+"used") {
				return used[rapid.IntRange(0, len(used)-1).Draw(t, l)]
			}
			return genFsKey(t)
		}
		for n := rapid.IntRange(2, 20).Draw(t, "ops"); n > 0; n-- {
			op := FsOp{K: rapid.SampledFrom([]string{"set", "set", "set", "set", "delrange", "reopen"}).Draw(t, "k")}
			switch op.K {
			case "set":
				op.Key = key("key")
				op.Size = rapid.SampledFrom([]int{0, 1, 5, 100, 5000}).Draw(t, "size")
				op.Fill = rapid.Byte().Draw(t, "fill")
				used = append(used, op.Key)
			case "delrange":
				op.Key, op.End = key("start"), key("end")
				if rapid.IntRange(0, 2).Draw(t, "prefix") == 0 && len(op.Key) > 0 && op.Key[len(op.Key)-1] < 255 {
					op.End = append([]byte(nil), op.Key...)
					op.End[len(op.End)-1]++
				}
				if bytes.Compare(op.Key, op.End) > 0 && rapid.IntRange(0, 9).Draw(t, "inverted") > 0 {
					op.Key, op.End = op.End, op.Key
				}
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}, runFs)
}

func runFs(c FsCase, o *fw.Obs) {
	root := o.TempDir()
	dir := filepath.Join(root, "store")
	o.Infra(os.Mkdir(dir, 0o755))
	// a neighbour that a path escape would reach
	o.Infra(os.WriteFile(filepath.Join(root, "neighbour"), []byte("n"), 0o644))
	foreign := map[string]bool{}
	for _, f := range c.Foreign {
		ok := false
		for _, g := range foreignNames {
			ok = ok || f == g
		}
		if !ok {
			continue
		}
		if strings.HasSuffix(f, "/") {
			d := filepath.Join(dir, f)
			o.Infra(os.MkdirAll(d, 0o755))
			o.Infra(os.WriteFile(filepath.Join(d, "inside"), []byte("f"), 0o644))
			foreign[filepath.Join(strings.TrimSuffix(f, "/"), "inside")] = true
		} else {
			o.Infra(os.WriteFile(filepath.Join(dir, f), []byte("f"), 0o644))
			foreign[f] = true
		}
	}
	p := dir
	if c.Slash {
		p += "/"
	}
	st := filters.NewFSFilterStorer(p)
	m := map[string][]byte{}
	seen := map[string]bool{"never set": true, "": true, ".": true, "..": true}
	for i, op := range c.Ops {
		switch op.K {
		case "set":
			v := bytes.Repeat([]byte{op.Fill, byte(i)}, op.Size)
			if err := st.Set(op.Key, v, bond.Sync); err != nil {
				o.Failf("op %d: Set(%q): %v", i, op.Key, err)
			}
			m[string(op.Key)] = append([]byte(nil), v...)
			seen[string(op.Key)] = true
			for j := range v {
				v[j] ^= 0xFF // the store must not keep the caller's slice
			}
		case "delrange":
			n := len(m)
			if err := st.DeleteRange(op.Key, op.End, bond.Sync); err != nil {
				o.Failf("op %d: DeleteRange(%q, %q): %v", i, op.Key, op.End, err)
			}
			for k := range m {
				if k >= string(op.Key) && k < string(op.End) {
					delete(m, k)
				}
			}
			if len(m) > 0 && len(m) < n {
				o.NonTrivial()
			}
			o.Label("range deletion")
		case "reopen":
			st = filters.NewFSFilterStorer(p)
		}
		for k := range seen {
			want, has := m[k]
			o.Evals(1)
			got, cl, err := st.Get([]byte(k))
			if has != (err == nil) || has && !bytes.Equal(got, want) {
				o.Failf("op %d (%s %q %q): Get(%q) = %d bytes %.20x, %v, want %d bytes %.20x, present %v", i, op.K, op.Key, op.End, k, len(got), got, err, len(want), want, has)
			}
			if err == nil && cl != nil {
				o.NoErr(cl.Close(), "Close of a value")
			}
		}
		// other files stay
		files := 0
		for f := range foreign {
			if b, err := os.ReadFile(filepath.Join(dir, f)); err != nil || string(b) != "f" {
				o.Failf("op %d (%s %q %q): the foreign file %q was touched: %v", i, op.K, op.Key, op.End, f, err)
			}
		}
		var names []string
		o.Infra(filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
			if err == nil && !info.IsDir() {
				files++
				names = append(names, path)
			}
			return err
		}))
		if b, err := os.ReadFile(filepath.Join(root, "neighbour")); err != nil || string(b) != "n" {
			o.Failf("op %d: a file outside the store was touched: %v", i, err)
		}
		if files > 1+len(foreign)+len(m) {
			sort.Strings(names)
			o.Failf("op %d (%s %q %q): %d files for %d keys and %d foreign files: %s", i, op.K, op.Key, op.End, files, len(m), len(foreign)+1, fmt.Sprint(names))
		}
	}
}
