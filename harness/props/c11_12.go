package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"

	"github.com/go-bond/bond"
	"pgregory.net/rapid"
	"verifbond/fw"
)

// KField is one field type of a key; KVal one value, as text: decimal for
// numbers, hex for bytes and strings.
type KField struct {
	T    string // i64 i32 i16 u64 u32 u16 u8 str bytes big
	Bits int    `json:",omitempty"`
	Desc bool   `json:",omitempty"`
}

type KCase struct {
	Fs   []KField
	Vals [][]string // tuples
	Pre  int        // spare capacity of the buffer handed to the builder
	junk byte       // what it was used for before
	Head string     // hex of the bytes already in it
}

func (f KField) isVar() bool { return f.T == "str" || f.T == "bytes" }

func intRange(f KField) (lo, hi *big.Int) {
	p := func(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }
	one := big.NewInt(1)
	switch f.T {
	case "i64":
		return big.NewInt(math.MinInt64), big.NewInt(math.MaxInt64)
	case "i32":
		return big.NewInt(math.MinInt32), big.NewInt(math.MaxInt32)
	case "i16":
		return big.NewInt(math.MinInt16), big.NewInt(math.MaxInt16)
	case "u64":
		return new(big.Int), new(big.Int).Sub(p(64), one)
	case "u32":
		return new(big.Int), new(big.Int).Sub(p(32), one)
	case "u16":
		return new(big.Int), new(big.Int).Sub(p(16), one)
	case "u8":
		return new(big.Int), big.NewInt(255)
	case "big":
		hi = new(big.Int).Sub(p(f.Bits), one)
		return new(big.Int).Neg(hi), hi
	}
	panic("no range of " + f.T)
}

func bigOf(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return new(big.Int)
	}
	return v
}

func genKVal(t *rapid.T, f KField, fixedLen int) string {
	if f.isVar() {
		n := fixedLen
		if n < 0 {
			n = rapid.SampledFrom([]int{0, 1, 1, 2, 2, 3, 4, 9}).Draw(t, "len")
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = rapid.SampledFrom([]byte{0, 1, 2, 3, 0x7f, 0x80, 0xfe, 0xff, 'a', 'b'}).Draw(t, "byte")
		}
		return hex.EncodeToString(b)
	}
	lo, hi := intRange(f)
	var v *big.Int
	switch rapid.IntRange(0, 4).Draw(t, "how") {
	case 0:
		v = new(big.Int).Set(lo)
	case 1:
		v = new(big.Int).Set(hi)
	case 2:
		v = new(big.Int)
	case 3: // around a power of two
		v = new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(0, hi.BitLen()).Draw(t, "pow")))
		if rapid.Bool().Draw(t, "neg") {
			v.Neg(v)
		}
	default:
		bs := rapid.SliceOfN(rapid.Byte(), (hi.BitLen()+7)/8, (hi.BitLen()+7)/8).Draw(t, "bytes")
		v = new(big.Int).SetBytes(bs)
		if rapid.Bool().Draw(t, "neg") {
			v.Neg(v)
		}
	}
	v.Add(v, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(t, "off"))))
	if v.Cmp(lo) < 0 {
		v.Set(lo)
	}
	if v.Cmp(hi) > 0 {
		v.Set(hi)
	}
	return v.String()
}

func genKCase(t *rapid.T, order bool) KCase {
	var c KCase
	types := []string{"i64", "i32", "i16", "u64", "u32", "u16", "u8", "big", "str", "bytes"}
	if order {
		types = types[:8]
		types = append(types, "bytes")
	}
	n := rapid.IntRange(1, 5).Draw(t, "fields")
	lens := make([]int, n)
	for i := 0; i < n; i++ {
		f := KField{T: rapid.SampledFrom(types).Draw(t, "type")}
		if f.T == "big" {
			f.Bits = 8 * rapid.SampledFrom([]int{1, 2, 4, 8, 16, 32}).Draw(t, "width")
		}
		lens[i] = -1
		if order {
			f.Desc = rapid.Bool().Draw(t, "desc")
		}
		if f.isVar() && (order || i < n-1 && rapid.Bool().Draw(t, "samelen")) {
			lens[i] = rapid.IntRange(0, 4).Draw(t, "flen")
		}
		c.Fs = append(c.Fs, f)
	}
	for j := rapid.IntRange(2, 12).Draw(t, "tuples"); j > 0; j-- {
		var v []string
		if len(c.Vals) > 0 && rapid.IntRange(0, 2).Draw(t, "near") > 0 {
			// differs from an earlier tuple in one field, or in two
			v = append(v, c.Vals[rapid.IntRange(0, len(c.Vals)-1).Draw(t, "of")]...)
			for k := rapid.IntRange(1, 2).Draw(t, "changes"); k > 0; k-- {
				i := rapid.IntRange(0, n-1).Draw(t, "at")
				if !c.Fs[i].isVar() && rapid.Bool().Draw(t, "step") {
					lo, hi := intRange(c.Fs[i])
					x := bigOf(v[i])
					x.Add(x, big.NewInt(int64(rapid.SampledFrom([]int{-1, 1, 255, 256, -256}).Draw(t, "by"))))
					if x.Cmp(lo) >= 0 && x.Cmp(hi) <= 0 {
						v[i] = x.String()
						continue
					}
				}
				v[i] = genKVal(t, c.Fs[i], lens[i])
			}
		} else {
			for i, f := range c.Fs {
				v = append(v, genKVal(t, f, lens[i]))
			}
		}
		c.Vals = append(c.Vals, v)
	}
	c.Pre = rapid.SampledFrom([]int{0, 1, 7, 64, 2048}).Draw(t, "spare")
	c.Head = hex.EncodeToString(rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "head"))
	return c
}

// valid says whether the values fit the field types.
func (c KCase) valid() bool {
	for _, v := range c.Vals {
		if len(v) != len(c.Fs) {
			return false
		}
		for i, f := range c.Fs {
			if f.isVar() {
				continue
			}
			if f.T == "big" && (f.Bits <= 0 || f.Bits%8 != 0) {
				return false
			}
			lo, hi := intRange(f)
			if x := bigOf(v[i]); x.Cmp(lo) < 0 || x.Cmp(hi) > 0 {
				return false
			}
		}
	}
	return len(c.Fs) > 0
}

// build encodes tuple v with a buffer of its own.
func (c KCase) build(o *fw.Obs, v []string, order bool) []byte {
	head, _ := hex.DecodeString(c.Head)
	used := func() []byte {
		buf := bytes.Repeat([]byte{c.junk}, len(head)+c.Pre)
		return buf[:copy(buf, head)]
	}
	b := bond.NewKeyBuilder(used())
	// a buffer of its own: builders write into the spare capacity
	ord := bond.IndexOrder{KeyBuilder: bond.NewKeyBuilder(used())}
	for i, f := range c.Fs {
		typ := bond.IndexOrderTypeASC
		if f.Desc {
			typ = bond.IndexOrderTypeDESC
		}
		var raw []byte
		var x, x0 *big.Int
		if f.isVar() {
			raw, _ = hex.DecodeString(v[i])
			raw = append(make([]byte, 0, len(raw)+16), raw...)
		} else {
			x, x0 = bigOf(v[i]), bigOf(v[i])
		}
		switch f.T {
		case "i64":
			b, ord = b.AddInt64Field(x.Int64()), ord.OrderInt64(x.Int64(), typ)
		case "i32":
			b, ord = b.AddInt32Field(int32(x.Int64())), ord.OrderInt32(int32(x.Int64()), typ)
		case "i16":
			b, ord = b.AddInt16Field(int16(x.Int64())), ord.OrderInt16(int16(x.Int64()), typ)
		case "u64":
			b, ord = b.AddUint64Field(x.Uint64()), ord.OrderUint64(x.Uint64(), typ)
		case "u32":
			b, ord = b.AddUint32Field(uint32(x.Uint64())), ord.OrderUint32(uint32(x.Uint64()), typ)
		case "u16":
			b, ord = b.AddUint16Field(uint16(x.Uint64())), ord.OrderUint16(uint16(x.Uint64()), typ)
		case "u8":
			b, ord = b.AddByteField(byte(x.Uint64())), ord.OrderByte(byte(x.Uint64()), typ)
		case "str":
			b = b.AddStringField(string(raw))
		case "bytes":
			keep := append([]byte(nil), raw...)
			if order {
				ord = ord.OrderBytes(raw, typ)
			} else {
				b = b.AddBytesField(raw)
			}
			if !bytes.Equal(keep, raw) {
				o.Failf("encoding %x as field %d (%+v) changed the caller's bytes to %x", keep, i, f, raw)
			}
		case "big":
			if order {
				ord = ord.OrderBigInt(x, f.Bits, typ)
			} else {
				b = b.AddBigIntField(x, f.Bits)
			}
			if x.Cmp(x0) != 0 {
				o.Failf("encoding %s as field %d (%+v) changed the caller's big.Int to %s", x0, i, f, x)
			}
		}
	}
	out := b.Bytes()
	if order {
		out = ord.Bytes()
	}
	if !bytes.HasPrefix(out, head) {
		o.Failf("the key %x does not begin with the bytes %x that the buffer held", out, head)
	}
	return out[len(head):]
}

// cmp compares two tuples field by field; ok is false when the bytes are not
// required to follow (a variable-length field of different lengths that is not
// the last one).
func (c KCase) cmp(a, b []string) (r int, ok bool) {
	for i, f := range c.Fs {
		var x int
		if f.isVar() {
			x0, _ := hex.DecodeString(a[i])
			x1, _ := hex.DecodeString(b[i])
			if len(x0) != len(x1) && i < len(c.Fs)-1 {
				return 0, false
			}
			x = bytes.Compare(x0, x1)
		} else {
			x = bigOf(a[i]).Cmp(bigOf(b[i]))
		}
		if f.Desc {
			x = -x
		}
		if x != 0 {
			return x, true
		}
	}
	return 0, true
}

// ambiguous says that the tuples belong to the known finding: several
// variable-length fields, with field ID bytes in their contents.
func (c KCase) ambiguous(vs ...[]string) bool {
	nv, bad, differ := 0, false, false
	for i, f := range c.Fs {
		if !f.isVar() {
			continue
		}
		nv++
		for _, v := range vs {
			x, _ := hex.DecodeString(v[i])
			differ = differ || len(v[i]) != len(vs[0][i])
			for _, b := range x {
				if b >= 1 && int(b) <= len(c.Fs) {
					bad = true
				}
			}
		}
	}
	return nv > 1 && bad && differ
}

func runKeys(c KCase, o *fw.Obs, order bool) {
	if !c.valid() {
		return
	}
	var enc [][]byte
	var keep [][]byte
	for i, v := range c.Vals {
		c.junk = byte(i * 41)
		e := c.build(o, v, order)
		enc = append(enc, e)
		keep = append(keep, append([]byte(nil), e...))
	}
	boundary := false
	for i := range c.Vals {
		for k, f := range c.Fs {
			if !f.isVar() {
				lo, hi := intRange(f)
				x := bigOf(c.Vals[i][k])
				boundary = boundary || x.Cmp(lo) == 0 || x.Cmp(hi) == 0
			}
		}
		c.junk = byte(i*41 + 77)
		if !bytes.Equal(enc[i], c.build(o, c.Vals[i], order)) || !bytes.Equal(enc[i], keep[i]) {
			o.Failf("encoding %v twice gives %x and another key", c.Vals[i], keep[i])
		}
		for j := range c.Vals {
			if i == j {
				continue
			}
			o.Evals(1)
			same := fmt.Sprint(c.Vals[i]) == fmt.Sprint(c.Vals[j])
			if !o.Known && c.ambiguous(c.Vals[i], c.Vals[j]) {
				o.Label("left out: several variable-length fields holding field IDs")
			} else if bytes.Equal(enc[i], enc[j]) != same {
				o.Failf("fields %+v: the values %v and %v encode to %x and %x", c.Fs, c.Vals[i], c.Vals[j], enc[i], enc[j])
			}
			want, ok := c.cmp(c.Vals[i], c.Vals[j])
			if !ok {
				o.Label("pair not ordered: variable-length field before the last")
				continue
			}
			if got := bytes.Compare(enc[i], enc[j]); got != want {
				o.Failf("fields %+v: %v against %v compares %d, but their keys %x and %x compare %d", c.Fs, c.Vals[i], c.Vals[j], want, enc[i], enc[j], got)
			}
			if want != 0 && boundary {
				o.NonTrivial()
			}
		}
	}
	for _, f := range c.Fs {
		o.Label("field %s%s", f.T, map[bool]string{true: " desc"}[f.Desc])
	}
}

func init() {
	rule := "a case is a sequence of up to five field types and up to twelve value tuples, biased to minima, maxima, powers of two and tuples that differ in one field; all pairs are compared; it is non-trivial when a pair of different tuples was ordered and a field had its minimum or maximum"
	fw.Register(fw.Prop{ID: "C11", Title: "Encoded key fields sort like their values and never collide", Rule: rule, Quick: 120000, Thorough: 2500000},
		func(t *rapid.T) KCase { return genKCase(t, false) }, func(c KCase, o *fw.Obs) { runKeys(c, o, false) })
	fw.Register(fw.Prop{ID: "C12", Title: "Index order fields sort ascending or descending as declared", Rule: rule, Quick: 120000, Thorough: 2500000},
		func(t *rapid.T) KCase { return genKCase(t, true) }, func(c KCase, o *fw.Obs) { runKeys(c, o, true) })
}
