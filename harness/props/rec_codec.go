package props

import (
	"encoding/json"

	"github.com/tinylib/msgp/msgp"
)

// EncodeMsg and DecodeMsg are what the msgp generator writes for Rec with
// omitempty fields; MarshalVT and UnmarshalVT stand for a vtproto type, whose
// UnmarshalVT leaves absent fields as they are.

func (r *Rec) EncodeMsg(w *msgp.Writer) error {
	n := uint32(1)
	set := func(b bool) bool {
		if b {
			n++
		}
		return b
	}
	hn, hs, hb, ha := set(r.N != 0), set(r.S != ""), set(len(r.B) > 0), set(r.A != 0)
	hd, hw, hh, hy := set(r.D != 0), set(r.W != 0), set(r.H != 0), set(r.Y != 0)
	hf, hm, hp := set(r.F), set(len(r.M) > 0), set(r.P != "")
	var err error
	do := func(e error) {
		if err == nil {
			err = e
		}
	}
	do(w.WriteMapHeader(n))
	field := func(has bool, name string, f func() error) {
		if has {
			do(w.WriteString(name))
			do(f())
		}
	}
	field(true, "id", func() error { return w.WriteUint64(r.ID) })
	field(hn, "n", func() error { return w.WriteInt64(r.N) })
	field(hs, "s", func() error { return w.WriteString(r.S) })
	field(hb, "b", func() error { return w.WriteBytes(r.B) })
	field(ha, "a", func() error { return w.WriteUint32(r.A) })
	field(hd, "d", func() error { return w.WriteInt32(r.D) })
	field(hw, "w", func() error { return w.WriteUint16(r.W) })
	field(hh, "h", func() error { return w.WriteInt16(r.H) })
	field(hy, "y", func() error { return w.WriteUint8(r.Y) })
	field(hf, "f", func() error { return w.WriteBool(r.F) })
	field(hm, "m", func() error {
		e := w.WriteMapHeader(uint32(len(r.M)))
		for k, v := range r.M {
			if e == nil {
				e = w.WriteString(k)
			}
			if e == nil {
				e = w.WriteInt(v)
			}
		}
		return e
	})
	field(hp, "p", func() error { return w.WriteString(r.P) })
	return err
}

func (r *Rec) DecodeMsg(d *msgp.Reader) error {
	n, err := d.ReadMapHeader()
	if err != nil {
		return err
	}
	for ; n > 0; n-- {
		k, err := d.ReadString()
		if err != nil {
			return err
		}
		switch k {
		case "id":
			r.ID, err = d.ReadUint64()
		case "n":
			r.N, err = d.ReadInt64()
		case "s":
			r.S, err = d.ReadString()
		case "b":
			r.B, err = d.ReadBytes(r.B)
		case "a":
			r.A, err = d.ReadUint32()
		case "d":
			r.D, err = d.ReadInt32()
		case "w":
			r.W, err = d.ReadUint16()
		case "h":
			r.H, err = d.ReadInt16()
		case "y":
			r.Y, err = d.ReadUint8()
		case "f":
			r.F, err = d.ReadBool()
		case "p":
			r.P, err = d.ReadString()
		case "m":
			var c uint32
			if c, err = d.ReadMapHeader(); err != nil {
				return err
			}
			if r.M == nil {
				r.M = map[string]int{}
			}
			for ; c > 0; c-- {
				mk, err := d.ReadString()
				if err != nil {
					return err
				}
				v, err := d.ReadInt()
				if err != nil {
					return err
				}
				r.M[mk] = v
			}
		default:
			err = d.Skip()
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func (r *Rec) MarshalVT() ([]byte, error) { return json.Marshal((*plainRec)(r)) }
func (r *Rec) UnmarshalVT(b []byte) error { return json.Unmarshal(b, (*plainRec)(r)) }

type plainRec Rec
