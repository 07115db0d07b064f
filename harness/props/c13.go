package props

import (
	"bytes"

	"github.com/go-bond/bond"
	"pgregory.net/rapid"
	"verifbond/fw"
)

// KeyParts are the parts of one storage key.
type KeyParts struct {
	T, I  uint8
	Index []byte `json:",omitempty"`
	Order []byte `json:",omitempty"`
	PK    []byte `json:",omitempty"` // empty: a key prefix
}

type CodecCase struct {
	Keys []KeyParts
	User []string
	Buf  int // capacity of the reused buffer
}

func genKeyBytes(t *rapid.T, l string, min int) []byte {
	if rapid.IntRange(0, 400).Draw(t, l+"long?") == 400 {
		// lengths that need a second or third byte
		n := rapid.SampledFrom([]int{254, 255, 256, 257, 65534, 65535, 65536, 65537, 1 << 17}).Draw(t, l+"len")
		return bytes.Repeat(rapid.SliceOfN(rapid.Byte(), 1, 3).Draw(t, l+"rep"), n)[:n]
	}
	return rapid.SliceOfN(rapid.SampledFrom([]byte{0, 0, 0, 1, 2, 4, 0x7f, 0x80, 0xfe, 0xff, 0xff, 'a'}), min, rapid.SampledFrom([]int{4, 8, 8, 40, 300}).Draw(t, l+"max")).Draw(t, l)
}

var codecIDs = []uint8{0, 1, 2, 3, 254, 255}

func init() {
	fw.Register(fw.Prop{
		ID: "C13", Title: "Storage keys decode to what was encoded",
		Rule:  "a case is up to ten keys and key prefixes with boundary IDs and bytes 00/01/FF, some sharing parts, and user keys; each is encoded both ways into fresh and dirty reused buffers, decoded, taken apart and compared with the others; it is non-trivial when it holds keys of at least two tables or indexes with an index value, an order and a primary key",
		Quick: 120000, Thorough: 2500000,
	}, func(t *rapid.T) CodecCase {
		var c CodecCase
		for n := rapid.IntRange(1, 10).Draw(t, "keys"); n > 0; n-- {
			k := KeyParts{T: rapid.SampledFrom(codecIDs).Draw(t, "table"), I: rapid.SampledFrom(codecIDs).Draw(t, "index")}
			if rapid.IntRange(0, 5).Draw(t, "near") > 0 && len(c.Keys) > 0 {
				k = c.Keys[rapid.IntRange(0, len(c.Keys)-1).Draw(t, "of")]
				switch rapid.IntRange(0, 6).Draw(t, "change") {
				case 0:
					k.T++
				case 1:
					k.I++
				case 2:
					k.Index = genKeyBytes(t, "index", 0)
				case 3:
					if len(k.PK) > 0 {
						k.Order = genKeyBytes(t, "order", 0)
					}
				case 4:
					k.PK = genKeyBytes(t, "pk", 1)
				case 5:
					k.Order, k.PK = nil, nil
				case 6: // shift bytes between the parts
					if len(k.Index) > 0 && len(k.PK) > 0 {
						x := k.Index[len(k.Index)-1]
						k.Index = append([]byte(nil), k.Index[:len(k.Index)-1]...)
						k.Order = append([]byte{x}, k.Order...)
					}
				}
			} else {
				k.Index = genKeyBytes(t, "index", 0)
				if rapid.IntRange(0, 5).Draw(t, "prefix") > 0 {
					k.Order, k.PK = genKeyBytes(t, "order", 0), genKeyBytes(t, "pk", 1)
				}
			}
			c.Keys = append(c.Keys, k)
		}
		for n := rapid.IntRange(0, 3).Draw(t, "users"); n > 0; n-- {
			c.User = append(c.User, string(rapid.SliceOfN(rapid.SampledFrom([]byte{'a', 'k', '_', '0', 0x7f}), 0, 9).Draw(t, "user")))
		}
		c.Buf = rapid.SampledFrom([]int{0, 1, 10, 64, 512, 2048}).Draw(t, "buf")
		return c
	}, runCodec)
}

func runCodec(c CodecCase, o *fw.Obs) {
	type ent struct {
		k   bond.Key
		enc []byte
	}
	dirty := func() []byte {
		b := make([]byte, c.Buf)
		for i := range b {
			b[i] = 0xAA
		}
		return b[:0]
	}
	put := func(x []byte) func([]byte) []byte { return func(b []byte) []byte { return append(b, x...) } }
	eq := func(a, b bond.Key) bool {
		return a.TableID == b.TableID && a.IndexID == b.IndexID && bytes.Equal(a.Index, b.Index) && bytes.Equal(a.IndexOrder, b.IndexOrder) && bytes.Equal(a.PrimaryKey, b.PrimaryKey)
	}
	var all []ent
	add := func(k bond.Key, enc []byte) {
		o.Evals(1)
		prefix := len(k.PrimaryKey) == 0
		kb := bond.KeyBytes(enc)
		if d := bond.KeyDecode(enc); !eq(d, k) {
			o.Failf("KeyDecode of the encoding %x of %+v gives %+v", enc, k, d)
		}
		if d := kb.ToKey(); !eq(d, k) {
			o.Failf("ToKey of the encoding %x of %+v gives %+v", enc, k, d)
		}
		if kb.TableID() != k.TableID || kb.IndexID() != k.IndexID || !bytes.Equal(kb.Index(), k.Index) {
			o.Failf("accessors of the encoding %x of %+v give table %d index %d value %x", enc, k, kb.TableID(), kb.IndexID(), kb.Index())
		}
		if kb.IsDataKey() != (k.IndexID == 0) || kb.IsIndexKey() != (k.IndexID != 0) {
			o.Failf("key %+v: IsDataKey %v, IsIndexKey %v", k, kb.IsDataKey(), kb.IsIndexKey())
		}
		if k.IsKeyPrefix() != prefix {
			o.Failf("key %+v: IsKeyPrefix %v", k, k.IsKeyPrefix())
		}
		want := bond.KeyEncode(k.ToKeyPrefix())
		if n := bond.DefaultKeyComparer().Split(enc); n != len(want) || !bytes.Equal(enc[:n], want) {
			o.Failf("the prefix of %+v is split at %d of %x, want %x", k, n, enc, want)
		}
		if !prefix {
			dk := bond.Key{TableID: k.TableID, PrimaryKey: k.PrimaryKey}
			row := bond.KeyEncode(dk)
			if !eq(k.ToDataKey(), dk) {
				o.Failf("ToDataKey of %+v gives %+v", k, k.ToDataKey())
			}
			got, got2 := kb.ToDataKeyBytes(), kb.ToDataKeyBytes(dirty())
			if !bytes.Equal(got, row) || !bytes.Equal(got2, row) {
				o.Failf("ToDataKeyBytes of %+v gives %x and, with a buffer, %x, want %x", k, []byte(got), []byte(got2), row)
			}
			if !eq(bond.KeyDecode(got), dk) || !bond.KeyBytes(row).IsDataKey() || !dk.IsDataKey() {
				o.Failf("the data key %x of %+v does not read as one", row, k)
			}
		}
		all = append(all, ent{k, enc})
	}
	full := map[[2]uint8]bool{}
	for _, p := range c.Keys {
		if len(p.PK) == 0 && len(p.Order) > 0 {
			continue // not a key
		}
		k := bond.Key{TableID: bond.TableID(p.T), IndexID: bond.IndexID(p.I), Index: p.Index, IndexOrder: p.Order, PrimaryKey: p.PK}
		keep := mustJSON(p)
		encs := [][]byte{bond.KeyEncode(k), bond.KeyEncode(k, nil), bond.KeyEncode(k, dirty())}
		ix, or, pk := put(p.Index), put(p.Order), put(p.PK)
		if len(p.Index) == 0 && c.Buf%2 == 0 {
			ix = nil
		}
		if len(p.Order) == 0 && c.Buf%2 == 0 {
			or = nil
		}
		if len(p.PK) == 0 {
			or, pk = nil, nil
		}
		encs = append(encs, bond.KeyEncodeRaw(k.TableID, k.IndexID, ix, or, pk), bond.KeyEncodeRaw(k.TableID, k.IndexID, ix, or, pk, dirty()))
		for i, e := range encs {
			if !bytes.Equal(e, encs[0]) {
				o.Failf("key %+v: encoding %d is %x, the first is %x", k, i, e, encs[0])
			}
		}
		add(k, encs[0])
		if mustJSON(p) != keep {
			o.Failf("encoding and decoding changed the parts of the key: %s, now %s", keep, mustJSON(p))
		}
		if len(p.Index) > 0 && len(p.Order) > 0 && len(p.PK) > 0 {
			full[[2]uint8{p.T, p.I}] = true
		}
	}
	for _, u := range c.User {
		add(bond.Key{TableID: 0, IndexID: 255, PrimaryKey: []byte(u)}, bond.NewUserKey(u))
	}
	if len(full) > 1 {
		o.NonTrivial()
	}
	for i, a := range all {
		for j, b := range all {
			if i == j {
				continue
			}
			o.Evals(1)
			if bytes.Equal(a.enc, b.enc) != eq(a.k, b.k) {
				o.Failf("keys %+v and %+v encode to %x and %x", a.k, b.k, a.enc, b.enc)
			}
			ta, tb := int(a.k.TableID)<<8|int(a.k.IndexID), int(b.k.TableID)<<8|int(b.k.IndexID)
			if ta != tb && (bytes.Compare(a.enc, b.enc) < 0) != (ta < tb) {
				o.Failf("keys %+v and %+v are stored in each other's ranges", a.k, b.k)
			}
			if ta == tb && bytes.Equal(a.k.Index, b.k.Index) != bytes.HasPrefix(b.enc, a.enc[:bond.DefaultKeyComparer().Split(a.enc)]) {
				o.Failf("the prefix of %+v does and does not belong to %+v", a.k, b.k)
			}
			if ta == tb && bytes.Equal(a.k.Index, b.k.Index) && bytes.Equal(a.k.IndexOrder, b.k.IndexOrder) && len(a.k.PrimaryKey) > 0 && len(b.k.PrimaryKey) > 0 &&
				bytes.Compare(a.enc, b.enc) != bytes.Compare(a.k.PrimaryKey, b.k.PrimaryKey) {
				o.Failf("keys %+v and %+v do not sort by primary key", a.k, b.k)
			}
		}
	}
}
