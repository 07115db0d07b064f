package props

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"strings"

	"github.com/fxamacker/cbor/v2"
	"github.com/go-bond/bond"
	"github.com/go-bond/bond/serializers"
	"github.com/go-bond/bond/utils"
	"github.com/tinylib/msgp/msgp"
	"github.com/vmihailenco/msgpack/v5"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/structpb"
	"pgregory.net/rapid"
	"verifbond/fw"
)

// Wide is a record with every kind of field.
type Wide struct {
	U8   uint8             `json:"u8,omitempty" cbor:"u8,omitempty" msgpack:"u8,omitempty"`
	U64  uint64            `json:"u64"`
	I8   int8              `json:"i8"`
	I64  int64             `json:"i64"`
	I    int               `json:"i"`
	F32  float32           `json:"f32"`
	F64  float64           `json:"f64"`
	Str  string            `json:"str"`
	By   []byte            `json:"by"`
	Arr  [4]byte           `json:"arr"`
	Ok   bool              `json:"ok"`
	Ints []int64           `json:"ints"`
	Strs []string          `json:"strs"`
	In   Inner             `json:"in"`
	PIn  *Inner            `json:"pin"`
	Ins  []Inner           `json:"ins"`
	M    map[string]Inner  `json:"m"`
	MI   map[string]uint64 `json:"mi"`
	PI   *int32            `json:"pi"`
}

type Inner struct {
	A string   `json:"a"`
	B uint32   `json:"b,omitempty" cbor:"b,omitempty" msgpack:"b,omitempty"`
	C []string `json:"c,omitempty"`
}

// canon of a wide record: nil and empty containers are the same.
func (w Wide) canon() string {
	if len(w.By) == 0 {
		w.By = nil
	}
	if len(w.Ints) == 0 {
		w.Ints = nil
	}
	if len(w.Strs) == 0 {
		w.Strs = nil
	}
	if len(w.Ins) == 0 {
		w.Ins = nil
	}
	if len(w.M) == 0 {
		w.M = nil
	}
	if len(w.MI) == 0 {
		w.MI = nil
	}
	b, err := json.Marshal(w)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

// SOp is one step over a serializer.
type SOp struct {
	K    string // enc, encclose, encbuf, release, bad, junk
	Type string // rec, recptr, wide, proto
	R    Rec    `json:",omitempty"`
	W    *Wide  `json:",omitempty"`
	N    int    `json:",omitempty"`
	Junk string `json:",omitempty"` // hex
}

type SerCase struct {
	Ser string // cbor, cborcanon, json, msgpack*, msgpgen*, vt, proto
	Ops []SOp
	// G > 1: the sequence is run by that many goroutines at once, each with its
	// own buffers, over the one serializer
	G int `json:",omitempty"`
}

type protoCodec struct{}

func (protoCodec) Marshal(m serializers.ProtobufMessageV1) ([]byte, error) {
	return proto.Marshal(m.(proto.Message))
}
func (protoCodec) Unmarshal(b []byte, m serializers.ProtobufMessageV1) error {
	return proto.Unmarshal(b, m.(proto.Message))
}

// badRec starts to encode itself and fails.
type badRec struct{ Rec Rec }

var errBad = errors.New("this record cannot be encoded")

func (b *badRec) EncodeMsg(w *msgp.Writer) error {
	if err := b.Rec.EncodeMsg(w); err != nil {
		return err
	}
	return errBad
}

func (b *badRec) EncodeMsgpack(e *msgpack.Encoder) error {
	if err := e.Encode(b.Rec); err != nil {
		return err
	}
	return errBad
}
func (b *badRec) MarshalCBOR() ([]byte, error) { return []byte{0xa1}, errBad }
func (b *badRec) MarshalJSON() ([]byte, error) { return []byte("{"), errBad }
func (b *badRec) MarshalVT() ([]byte, error)   { return nil, errBad }

func bufPool() utils.SyncPool[bytes.Buffer] {
	p := &utils.SyncPoolWrapper[bytes.Buffer]{}
	p.New = func() any { return bytes.Buffer{} }
	return p
}

func serOf(name string) bond.Serializer[any] {
	switch name {
	case "cborcanon":
		e, _ := cbor.CanonicalEncOptions().EncMode()
		d, _ := cbor.DecOptions{}.DecMode()
		return &serializers.CBORSerializer{EncMode: e, DecMode: d}
	case "msgpackenc":
		return &serializers.MsgpackSerializer{Encoder: poolOf(func() any { return msgpack.NewEncoder(nil) })}
	case "msgpackbuf":
		return &serializers.MsgpackSerializer{Encoder: poolOf(func() any { return msgpack.NewEncoder(nil) }),
			Decoder: poolOf2(func() any { return msgpack.NewDecoder(nil) }), Buffer: bufPool()}
	case "msgpackonlybuf":
		return &serializers.MsgpackSerializer{Buffer: bufPool()}
	case "msgpackpre":
		// the pool the database keeps its own buffers in
		return &serializers.MsgpackSerializer{
			Encoder: utils.NewPreAllocatedPool[*msgpack.Encoder](func() any { return msgpack.NewEncoder(nil) }, 2),
			Buffer:  utils.NewPreAllocatedPool[bytes.Buffer](func() any { return bytes.Buffer{} }, 2)}
	case "msgpgenbuf":
		return &serializers.MsgpackGenSerializer{Buffer: bufPool()}
	case "proto":
		return &serializers.ProtobufSerializer{Encoder: protoCodec{}, Decoder: protoCodec{}}
	}
	return recSerializer(name)
}

func genWide(t *rapid.T) *Wide {
	f := func(l string) float64 {
		return rapid.SampledFrom([]float64{0, 1, -1, 0.5, -2.25, 65504, 65505, 1e10, 16777217, math.MaxFloat32, math.SmallestNonzeroFloat32}).Draw(t, l)
	}
	str := func(l string) string { return rapid.SampledFrom(palS).Draw(t, l) + genPayload.Draw(t, l) }
	inner := func() Inner {
		x := Inner{A: str("a"), B: rapid.SampledFrom(palA).Draw(t, "b")}
		for i := rapid.IntRange(0, 2).Draw(t, "c"); i > 0; i-- {
			x.C = append(x.C, str("c"))
		}
		return x
	}
	n := func(l string) int { return rapid.SampledFrom([]int{0, 0, 1, 2, 5, 17}).Draw(t, l) }
	w := &Wide{U8: rapid.SampledFrom(palY).Draw(t, "u8"), U64: rapid.SampledFrom(palID).Draw(t, "u64"), I8: rapid.SampledFrom([]int8{0, 1, -1, 127, -128, -33, -32, 23, 24}).Draw(t, "i8"),
		I64: rapid.SampledFrom(palN).Draw(t, "i64"), I: int(rapid.SampledFrom(palN).Draw(t, "i")), F32: float32(f("f32")), F64: f("f64") * 1.1,
		Str: str("str"), Ok: rapid.Bool().Draw(t, "ok"), In: inner()}
	w.By = append([]byte(nil), rapid.SampledFrom(palB).Draw(t, "by")...)
	copy(w.Arr[:], rapid.SampledFrom(palB).Draw(t, "arr"))
	for i := n("ints"); i > 0; i-- {
		w.Ints = append(w.Ints, rapid.SampledFrom(palN).Draw(t, "n"))
	}
	for i := n("strs"); i > 0; i-- {
		w.Strs = append(w.Strs, str("s"))
	}
	if rapid.Bool().Draw(t, "pin") {
		x := inner()
		w.PIn = &x
	}
	for i := rapid.IntRange(0, 3).Draw(t, "ins"); i > 0; i-- {
		w.Ins = append(w.Ins, inner())
	}
	for i := rapid.IntRange(0, 3).Draw(t, "m"); i > 0; i-- {
		if w.M == nil {
			w.M, w.MI = map[string]Inner{}, map[string]uint64{}
		}
		w.M[str("mk")] = inner()
		w.MI[str("mk")] = rapid.SampledFrom(palID).Draw(t, "mv")
	}
	if rapid.Bool().Draw(t, "pi") {
		x := rapid.SampledFrom(palD).Draw(t, "pi")
		w.PI = &x
	}
	return w
}

var serNames = []string{"cbor", "cborcanon", "json", "msgpack", "msgpackplain", "msgpackenc", "msgpackbuf", "msgpackbuf", "msgpackonlybuf", "msgpackpre", "msgpgen", "msgpgenbuf", "msgpgenbuf", "vt", "proto"}

// serTypes lists the record types a serializer takes.
func serTypes(ser string) []string {
	switch {
	case ser == "proto":
		return []string{"proto"}
	case ser == "vt":
		return []string{"rec"}
	case strings.HasPrefix(ser, "msgpgen"):
		return []string{"rec", "recptr"}
	}
	return []string{"rec", "recptr", "wide"}
}

func init() {
	fw.Register(fw.Prop{
		ID: "C14", Title: "Serializers give back the record, by every path",
		Rule:  "a case is one serializer (with or without pools) and a sequence of encodings by different paths whose results are kept, released and decoded later, mixed with values it cannot encode and decodings of random, truncated and mutated bytes; it is non-trivial when an encoding that was still held was decoded after at least two further encodings",
		Quick: 40000, Thorough: 800000, Flaky: true,
	}, func(t *rapid.T) SerCase {
		c := SerCase{Ser: rapid.SampledFrom(serNames).Draw(t, "ser")}
		if rapid.IntRange(0, 9).Draw(t, "many") == 0 {
			c.G = rapid.IntRange(2, 4).Draw(t, "g")
		}
		d := genDom(t)
		for n := rapid.IntRange(2, 20).Draw(t, "ops"); n > 0; n-- {
			op := SOp{K: rapid.SampledFrom([]string{"enc", "enc", "enc", "encclose", "encclose", "encclose", "encbuf", "encbuf", "release", "release", "bad", "junk", "junk"}).Draw(t, "k")}
			op.Type = rapid.SampledFrom(serTypes(c.Ser)).Draw(t, "type")
			switch op.K {
			case "enc", "encclose", "encbuf":
				if op.Type == "wide" {
					op.W = genWide(t)
				} else {
					op.R = genRec(t, d)
					if rapid.IntRange(0, 9).Draw(t, "big") == 0 {
						op.R.P = strings.Repeat("0123456789", rapid.IntRange(100, 1000).Draw(t, "size"))
					}
				}
			case "release":
				op.N = rapid.IntRange(0, 5).Draw(t, "n")
			case "bad":
				op.N = rapid.IntRange(0, 2).Draw(t, "n")
				op.R = genRec(t, d)
			case "junk":
				// random bytes, or an encoding cut or changed in one place
				op.N = rapid.IntRange(-1, 8).Draw(t, "of")
				op.Junk = hex.EncodeToString(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "junk"))
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}, runSer)
}

func recStruct(r Rec) *structpb.Struct {
	b, _ := json.Marshal(r)
	var m map[string]any
	_ = json.Unmarshal(b, &m)
	s, err := structpb.NewStruct(m)
	if err != nil {
		return &structpb.Struct{}
	}
	return s
}

func runSer(c SerCase, o *fw.Obs) {
	ser := serOf(c.Ser)
	if c.G <= 1 {
		runSerOps(c, ser, 0, o)
		return
	}
	var fs []func(o *fw.Obs)
	for g := 0; g < c.G && g < 8; g++ {
		g := g
		fs = append(fs, func(o *fw.Obs) {
			o.Label("many at once: %s", c.Ser)
			for k := 0; k < 3; k++ {
				runSerOps(c, ser, g*len(c.Ops)/c.G, o)
			}
		})
	}
	o.Go(fs...)
}

// runSerOps runs the operations from the given one on, and then those before it.
func runSerOps(c SerCase, ser bond.Serializer[any], from int, o *fw.Obs) {
	okType := map[string]bool{}
	for _, x := range serTypes(c.Ser) {
		okType[x] = true
	}
	type held struct {
		op    SOp
		data  []byte
		keep  []byte
		close func()
		age   int
	}
	var hs []*held
	// value is what a table hands to the serializer: a pointer to the record
	value := func(op SOp) any {
		r := op.R.clone()
		switch op.Type {
		case "rec":
			return &r
		case "recptr":
			p := &r
			return &p
		case "wide":
			if op.W == nil {
				return &Wide{}
			}
			x := *op.W
			return &x
		}
		return recStruct(op.R)
	}
	text := func(op SOp, v any) string {
		switch x := v.(type) {
		case *Rec:
			return x.canon()
		case **Rec:
			if *x == nil {
				return "<nil>"
			}
			return (*x).canon()
		case *Wide:
			return x.canon()
		case *structpb.Struct:
			b, err := json.Marshal(x.AsMap())
			return fmt.Sprintf("%s %v", b, err)
		}
		return "?"
	}
	empty := func(op SOp) any {
		switch op.Type {
		case "rec":
			return &Rec{}
		case "recptr":
			var p *Rec
			return &p
		case "wide":
			return &Wide{}
		}
		return &structpb.Struct{}
	}
	decode := func(what string, op SOp, data []byte) {
		o.Evals(1)
		in := append([]byte(nil), data...)
		v := empty(op)
		if err := ser.Deserialize(data, v); err != nil {
			o.Failf("%s %s: decoding %x, the encoding of %s, failed: %v", c.Ser, what, data, text(op, value(op)), err)
		}
		if got, want := text(op, v), text(op, value(op)); got != want {
			o.Failf("%s %s: %s decodes as %s", c.Ser, what, want, got)
		}
		if !bytes.Equal(in, data) {
			o.Failf("%s %s: decoding changed the bytes", c.Ser, what)
		}
		// the record must not share memory with the bytes
		for i := range in {
			in[i] ^= 0x55
		}
		v2 := empty(op)
		buf := append([]byte(nil), data...)
		o.NoErr(ser.Deserialize(buf, v2), "%s decode", c.Ser)
		for i := range buf {
			buf[i] ^= 0x55
		}
		if got, want := text(op, v2), text(op, value(op)); got != want {
			o.Failf("%s %s: the record %s changed to %s with the buffer it was decoded from", c.Ser, what, want, got)
		}
	}
	checkHeld := func(what string) {
		for _, h := range hs {
			if h.data != nil && !bytes.Equal(h.data, h.keep) {
				o.Failf("%s %s: the encoding of %s changed from %x to %x", c.Ser, what, text(h.op, value(h.op)), h.keep, h.data)
			}
		}
	}
	var buf bytes.Buffer
	var bufEnc func(any) ([]byte, error)
	if sb, ok := ser.(bond.SerializerWithBuffer[any]); ok {
		bufEnc = sb.SerializeFuncWithBuffer(&buf)
	}
	for i := range c.Ops {
		n := (from + i) % len(c.Ops)
		op := c.Ops[n]
		what := fmt.Sprintf("op %d (%s %s)", n, op.K, op.Type)
		if !okType[op.Type] {
			continue
		}
		switch op.K {
		case "enc", "encclose", "encbuf":
			v := value(op)
			before := text(op, v)
			var data []byte
			var err error
			h := &held{op: op}
			sc, canClose := ser.(bond.SerializerWithClosable[any])
			switch {
			case op.K == "encclose" && canClose:
				data, h.close, err = sc.SerializerWithCloseable(v)
				o.Label("encode with release: %s", c.Ser)
			case op.K == "encbuf" && bufEnc != nil:
				data, err = bufEnc(v)
				if err == nil {
					decode(what, op, data)
					data = append([]byte(nil), data...)
				}
				o.Label("encode into a buffer: %s", c.Ser)
			default:
				data, err = ser.Serialize(v)
				o.Label("encode: %s", c.Ser)
			}
			o.NoErr(err, "%s: encoding %s with %s", what, before, c.Ser)
			if text(op, v) != before {
				o.Failf("%s %s: encoding changed the record %s to %s", c.Ser, what, before, text(op, v))
			}
			for _, x := range hs {
				x.age++
			}
			h.data, h.keep = data, append([]byte(nil), data...)
			decode(what, op, data)
			hs = append(hs, h)
		case "release":
			if len(hs) > 0 {
				h := hs[op.N%len(hs)]
				if h.data != nil {
					decode(what, h.op, h.data)
					if h.age >= 2 {
						o.NonTrivial()
					}
				}
				if h.close != nil {
					h.close()
				}
				h.data, h.close = nil, nil
			}
		case "bad":
			var bad any
			switch op.N % 3 {
			case 0:
				bad = &struct{ C chan int }{make(chan int)}
			case 1:
				bad = &badRec{Rec: op.R}
			case 2:
				// a protobuf message that only the serializer with a codec takes
				if c.Ser != "vt" && !strings.HasPrefix(c.Ser, "msgpgen") {
					bad = &struct{ F func() }{func() {}}
					break
				}
				bad = recStruct(op.R)
				if err := ser.Deserialize([]byte{}, &structpb.Struct{}); err == nil {
					o.Failf("%s %s: decoded into a record it cannot decode", c.Ser, what)
				}
			}
			refused := func(path string, b []byte, err error) {
				o.Evals(1)
				if err == nil {
					o.Failf("%s %s: %T was encoded %s as %x", c.Ser, what, bad, path, b)
				}
				o.Label("value refused: %s", c.Ser)
			}
			b, err := ser.Serialize(bad)
			refused("plainly", b, err)
			if bufEnc != nil {
				b, err := bufEnc(bad)
				refused("into a buffer", b, err)
			}
			if sc, ok := ser.(bond.SerializerWithClosable[any]); ok {
				b, _, err := sc.SerializerWithCloseable(bad)
				refused("with release", b, err)
			}
		case "junk":
			j, _ := hex.DecodeString(op.Junk)
			if op.N >= 0 && len(hs) > 0 && len(j) > 2 {
				h := hs[op.N%len(hs)]
				if h.keep != nil {
					x := append([]byte(nil), h.keep...)
					if len(x) > 0 {
						at := (int(j[0])<<8 | int(j[1])) % len(x)
						if j[2]%2 == 0 {
							x = x[:at]
						} else {
							x[at] ^= j[2]
						}
					}
					j = x
				}
			}
			for _, v := range []any{empty(op)} {
				err := ser.Deserialize(j, v)
				if err != nil {
					o.Label("junk refused: %s", c.Ser)
				} else {
					o.Label("junk accepted: %s", c.Ser)
				}
			}
			o.Evals(1)
		}
		checkHeld(what)
	}
	for _, h := range hs {
		if h.data != nil {
			decode("at the end", h.op, h.data)
			if h.age >= 2 {
				o.NonTrivial()
			}
		}
	}
}
