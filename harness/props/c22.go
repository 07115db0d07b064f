package props

import (
	"crypto/sha256"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/cockroachdb/pebble"
	"github.com/cockroachdb/pebble/vfs"
	"github.com/go-bond/bond"
	"github.com/go-bond/bond/serializers"
	"pgregory.net/rapid"
	"verifbond/fw"
)

// VerOp is one step of the life of a database directory.
type VerOp struct {
	K    string // open, migrate, dataver, garbage
	V    int    // open, migrate: the format version
	Ws   []Op   `json:",omitempty"` // open: writes once it is open
	Text string `json:",omitempty"` // dataver, garbage: what is stored in the place of the version
	Rel  bool   `json:",omitempty"` // the directory is given as a relative path
	// Comp: the open ends with a compaction, so that data is in tables of that version
	Comp bool `json:",omitempty"`
	// Twice: the directory is opened once more while it is open
	Twice bool `json:",omitempty"`
}

type VerCase struct {
	S    Schema
	Deep bool // the directory is to be created inside a missing one
	Ops  []VerOp
}

var verSeq atomic.Int64

var minVer, maxVer = int(pebble.FormatMinSupported), int(pebble.FormatNewest)

func init() {
	fw.Register(fw.Prop{
		ID: "C22", Title: "A database opens only with its format version and keeps its data",
		Rule: "a case is a directory on disk and a sequence of opens with any of the supported Pebble format versions, with writes, migrations to the same, a newer, an older or an unknown version, opens that Pebble refuses, migrations where no database is, and opens while another data version, an unreadable one or an unreadable format version is stored; files and content are compared around every refusal and the whole table after every open; " +
			"it is non-trivial when an open was refused and a later one with the right version found rows again",
		Assumptions: []string{"migrations are not interrupted"},
		Quick:       350, Thorough: 6000,
	}, func(t *rapid.T) VerCase {
		c := VerCase{S: genSchema(t, 2), Deep: rapid.Bool().Draw(t, "deep")}
		d := genDom(t)
		m := newModel(c.S)
		cur := 0
		for i := rapid.IntRange(2, 7).Draw(t, "ops"); i > 0; i-- {
			op := VerOp{K: rapid.SampledFrom([]string{"open", "open", "open", "open", "migrate", "migrate", "dataver", "garbage", "blocked"}).Draw(t, "k"), Rel: rapid.IntRange(0, 3).Draw(t, "rel") == 0}
			if cur == 0 {
				op.K = "open"
				if rapid.IntRange(0, 3).Draw(t, "failfirst") == 0 {
					op.K = "fail"
				}
			}
			switch op.K {
			case "fail":
				op.V = rapid.SampledFrom([]int{1, minVer - 1, maxVer + 1, 999, minVer, maxVer}).Draw(t, "v")
			case "open":
				op.V = rapid.IntRange(minVer, maxVer).Draw(t, "v")
				if cur != 0 && rapid.IntRange(0, 2).Draw(t, "right") != 0 {
					op.V = cur
				}
				if cur == 0 {
					if rapid.IntRange(0, 2).Draw(t, "low") > 0 {
						op.V = minVer
					}
					cur = op.V
				}
				if cur == op.V {
					for n := rapid.IntRange(0, 2).Draw(t, "ws"); n > 0; n-- {
						w := genWrite(t, m, d, 4)
						w.B, w.Drop = "", false
						if len(w.Rs) > 0 {
							m.apply(w)
							op.Ws = append(op.Ws, w)
						}
					}
				}
				op.Comp = rapid.Bool().Draw(t, "comp")
				op.Twice = rapid.IntRange(0, 2).Draw(t, "twice") == 0
			case "migrate":
				op.V = rapid.IntRange(cur, maxVer).Draw(t, "v")
				if rapid.IntRange(0, 9).Draw(t, "unknown") == 0 {
					op.V = rapid.SampledFrom([]int{maxVer + 100, 255, 1 << 20}).Draw(t, "badv")
				} else if cur > minVer && rapid.IntRange(0, 3).Draw(t, "down") == 0 {
					op.V = rapid.IntRange(minVer, cur-1).Draw(t, "downv")
				} else {
					cur = op.V
				}
			case "dataver":
				op.Text = rapid.SampledFrom([]string{"2", "3", "10", "2147483647"}).Draw(t, "text")
				op.Comp = rapid.Bool().Draw(t, "comp")
			case "garbage":
				op.Text = rapid.SampledFrom([]string{"", "x", "13x", "-1", "1.5", "99999999999999999999999"}).Draw(t, "text")
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}, runVersions)
}

// noCreateFS creates no files.
type noCreateFS struct{ vfs.FS }

func (f noCreateFS) Create(string) (vfs.File, error) {
	return nil, errors.New("injected create failure")
}

// treeOf is the names and contents of all files below dir.
func treeOf(dir string) string {
	var out []string
	_ = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			out = append(out, p+" "+err.Error())
			return nil
		}
		if fi.IsDir() {
			out = append(out, p+"/")
			return nil
		}
		b, err := os.ReadFile(p)
		out = append(out, fmt.Sprintf("%s %x %v", p, sha256.Sum256(b), err))
		return nil
	})
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func verOptions(v int) *pebble.Options {
	po := pebbleOptions(DBOpt{}, vfs.Default)
	po.FormatMajorVersion = pebble.FormatMajorVersion(v)
	return po
}

func runVersions(c VerCase, o *fw.Obs) {
	// a name of its own: a leaked lock of another case must not matter
	root := filepath.Join(o.TempDir(), fmt.Sprint(verSeq.Add(1)))
	o.Infra(os.Mkdir(root, 0o755))
	dir := filepath.Join(root, "db")
	if c.Deep {
		dir = filepath.Join(root, "a", "b", "db")
	}
	file := filepath.Join(dir, "bond", bond.PebbleFormatFile)
	m := newModel(c.S)
	cur := 0
	refused, found := 0, false
	path := func(op VerOp) string {
		if op.Rel {
			if wd, err := os.Getwd(); err == nil {
				if r, err := filepath.Rel(wd, dir); err == nil {
					return r
				}
			}
		}
		return dir
	}
	open := func(p string, v int) (bond.DB, error) {
		return bond.Open(p, &bond.Options{PebbleOptions: verOptions(v), Serializer: &serializers.CBORSerializer{}})
	}
	// good opens the database with the right version and compares everything
	good := func(what string, op VerOp) {
		db, err := open(path(op), cur)
		if err != nil {
			o.Failf("%s: open with version %d, the version of the database: %v", what, cur, err)
		}
		st := &Store{o: o, fs: vfs.Default, dir: dir, db: db}
		o.Cleanup(func() {
			if st.db != nil {
				_ = st.db.Close()
			}
		})
		tb := openTable(db, c.S)
		if v := int(db.Backend().FormatMajorVersion()); v != cur {
			o.Failf("%s: opened with version %d, but Pebble runs with version %d", what, cur, v)
		}
		checkTable(o, st, tb, m, nil, true)
		checkIndexes(o, st, tb, m, true)
		if refused > 0 && len(m.rows) > 0 {
			found = true
		}
		if op.Twice {
			n, err := open(dir, cur)
			if err == nil {
				if n != nil {
					_ = n.Close()
				}
				o.Failf("%s: a database that is open was opened again", what)
			}
			for v := cur; v <= maxVer; v++ {
				if err := bond.MigratePebbleFormatVersion(path(op), uint64(v)); err == nil {
					o.Failf("%s: a database that is open was migrated from version %d to %d", what, cur, v)
				}
			}
			if v, err := bond.PebbleFormatVersion(path(op)); err != nil || int(v) != cur {
				o.Failf("%s: version %d, error %v after a refused migration of version %d", what, v, err, cur)
			}
			refused++
			o.Label("opened twice")
		}
		for i, w := range op.Ws {
			if (w.K == "uinsert" || w.K == "uupdate") && !unsafeOK(m, w) {
				continue
			}
			before := m.copy()
			ok := m.apply(w)
			if err := doWrite(tb, before, w, nil); ok != (err == nil) {
				o.Failf("%s: write %d %s: error %v, model accepts %v", what, i, w.K, err, ok)
			}
		}
		if op.Comp {
			st.flush()
			st.compact()
		}
		checkTable(o, st, tb, m, nil, false)
		st.close()
	}
	version := func(what string) {
		v, err := bond.PebbleFormatVersion(dir)
		o.Evals(1)
		if err != nil || int(v) != cur {
			o.Failf("%s: PebbleFormatVersion %d, error %v, want %d", what, v, err, cur)
		}
	}
	// refuse expects an error, and the directory as it was
	refuse := func(what string, files bool, f func() (bond.DB, error)) {
		before := treeOf(dir)
		db, err := f()
		o.Evals(1)
		if err == nil {
			if db != nil {
				_ = db.Close()
			}
			o.Failf("%s was accepted, the database has version %d", what, cur)
		}
		if after := treeOf(dir); files && after != before {
			o.Failf("%s was refused with %q but changed the directory\nbefore\n%s\nafter\n%s", what, err, before, after)
		}
		refused++
	}
	for i, op := range c.Ops {
		what := fmt.Sprintf("op %d", i)
		if cur == 0 && op.K != "open" && op.K != "fail" {
			continue
		}
		switch op.K {
		case "fail":
			// an open that Pebble refuses, before the database exists or after
			if op.V < 1 || op.V == cur {
				continue
			}
			if op.V >= minVer && op.V <= maxVer {
				refuse(fmt.Sprintf("%s: open with version %d and no file created", what, op.V), cur != 0, func() (bond.DB, error) {
					po := verOptions(op.V)
					po.FS = noCreateFS{vfs.Default}
					return bond.Open(path(op), &bond.Options{PebbleOptions: po, Serializer: &serializers.CBORSerializer{}})
				})
			} else {
				refuse(fmt.Sprintf("%s: open with the unknown version %d", what, op.V), cur != 0, func() (bond.DB, error) { return open(path(op), op.V) })
			}
			o.Label("open that Pebble refuses")
		case "open":
			if op.V < minVer || op.V > maxVer {
				continue
			}
			if cur == 0 {
				version(what)
				cur = op.V
			}
			if op.V == cur {
				good(what, op)
				o.Label("open with the right version")
			} else {
				refuse(fmt.Sprintf("%s: open with version %d", what, op.V), true, func() (bond.DB, error) { return open(path(op), op.V) })
				o.Label("open with the wrong version")
			}
		case "migrate":
			if op.V > maxVer+10 {
				err := bond.MigratePebbleFormatVersion(path(op), uint64(op.V))
				if err == nil {
					o.Failf("%s: migration to the unknown version %d was accepted", what, op.V)
				}
				o.Label("migration to an unknown version")
				refused++
			} else if op.V >= cur && op.V <= maxVer {
				o.NoErr(bond.MigratePebbleFormatVersion(path(op), uint64(op.V)), "%s: migration from %d to %d", what, cur, op.V)
				if op.V > cur {
					o.Label("migration")
					old := cur
					cur = op.V
					refuse(fmt.Sprintf("%s: open with the old version %d", what, old), true, func() (bond.DB, error) { return open(path(op), old) })
				}
			} else if op.V >= minVer && op.V < cur {
				// Pebble does not go back: whatever the call returns, the version is that of the data
				if bond.MigratePebbleFormatVersion(path(op), uint64(op.V)) != nil {
					refused++
				}
				o.Label("migration to an older version")
			}
			version(what)
			good(what+" after", VerOp{Rel: op.Rel})
		case "blocked":
			// a place where no database can be
			f := filepath.Join(root, fmt.Sprintf("file%d", i))
			o.Infra(os.WriteFile(f, []byte("text"), 0o644))
			for _, p := range []string{f, filepath.Join(f, "db")} {
				refuse(fmt.Sprintf("%s: open of %s, which is a file", what, p), true, func() (bond.DB, error) { return open(p, maxVer) })
			}
			if err := bond.MigratePebbleFormatVersion(f, uint64(maxVer)); err == nil {
				o.Failf("%s: %s, which is a file, was migrated", what, f)
			}
			// a place where no database is
			nodb := filepath.Join(root, fmt.Sprintf("nodb%d", i))
			if op.Rel {
				o.Infra(os.Mkdir(nodb, 0o755))
			}
			if err := bond.MigratePebbleFormatVersion(nodb, uint64(maxVer)); err == nil {
				o.Failf("%s: %s, where no database is, was migrated", what, nodb)
			}
			db, err := open(nodb, minVer)
			o.NoErr(err, "%s: open of a new database where a migration failed", what)
			if v := int(db.Backend().FormatMajorVersion()); v != minVer {
				o.Failf("%s: a new database of version %d where a migration failed is in version %d", what, minVer, v)
			}
			o.NoErr(db.Close(), "%s: close", what)
			if b, err := os.ReadFile(f); err != nil || string(b) != "text" {
				o.Failf("%s: the open of a file changed it to %q, %v", what, b, err)
			}
			o.Label("blocked place")
		case "garbage":
			o.Infra(os.WriteFile(file, []byte(op.Text), 0o644))
			refuse(fmt.Sprintf("%s: open with %q in the place of the version", what, op.Text), true, func() (bond.DB, error) { return open(path(op), cur) })
			if op.Rel {
				o.Infra(os.Remove(file))
				o.Infra(os.Mkdir(file, 0o755))
				refuse(fmt.Sprintf("%s: open with a directory in the place of the version", what), true, func() (bond.DB, error) { return open(path(op), cur) })
				o.Infra(os.Remove(file))
			}
			o.Infra(os.WriteFile(file, []byte(fmt.Sprint(cur)), 0o644))
			o.Label("unreadable version")
		case "dataver":
			set := func(text string) {
				po := verOptions(cur)
				po.Comparer = bond.DefaultKeyComparer()
				p, err := pebble.Open(dir, po)
				if err != nil {
					o.Failf("%s: the closed database cannot be opened: %v", what, err)
				}
				k := bond.KeyEncode(bond.Key{TableID: bond.BOND_DB_DATA_TABLE_ID, IndexID: 0, PrimaryKey: []byte("__bond_db_data_version__")})
				_, closer, err := p.Get(k)
				if err != nil {
					_ = p.Close()
					o.Failf("%s: no data version is stored: %v", what, err)
				}
				_ = closer.Close()
				if text != "" {
					err = p.Set(k, []byte(text), pebble.Sync)
				}
				if op.Comp && err == nil {
					err = p.Flush()
				}
				if e := p.Close(); err == nil {
					err = e
				}
				o.Infra(err)
			}
			set(op.Text)
			if op.Comp {
				// the data version is in a file whose reads fail, from the n-th on
				for n := 0; n < 20; n++ {
					ff := &readFaultFS{FS: vfs.Default}
					ff.arm(n, false)
					refuse(fmt.Sprintf("%s: open with data version %s, reads failing after %d", what, op.Text, n), false, func() (bond.DB, error) {
						po := verOptions(cur)
						po.FS = ff
						return bond.Open(path(op), &bond.Options{PebbleOptions: po, Serializer: &serializers.CBORSerializer{}})
					})
					if ff.fired.Load() == 0 {
						break
					}
					o.Label("data version cannot be read")
				}
			}
			for n := 0; n < 2; n++ {
				refuse(fmt.Sprintf("%s: open with data version %s", what, op.Text), false, func() (bond.DB, error) {
					db, err := open(path(op), cur)
					if err != nil && !strings.Contains(err.Error(), "version") {
						o.Failf("%s: open number %d with data version %s is refused with %q, which is not about the version", what, n, op.Text, err)
					}
					return db, err
				})
			}
			set(fmt.Sprint(bond.BOND_DB_DATA_VERSION))
			o.Label("wrong data version")
		}
		version(what)
	}
	if cur != 0 {
		good("at the end", VerOp{})
	}
	if found {
		o.NonTrivial()
	}
}
