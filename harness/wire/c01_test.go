package wire

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"testing"

	nd "github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"pgregory.net/rapid"
	"verif/harness/hx"
	rw "verif/harness/refwire"
)

func TestC01Values(t *testing.T) {
	hx.Rule("value: a random tree of all value kinds (depth<=3, texts/blobs up to 100000 bytes, collections up to 300 entries), encoded by the agent, decoded by the agent over a plain or segmented reader with random bytes following, and by the reference decoder; non-trivial = a container, or a length/decimal beyond one byte")
	hx.Check(t, 1500, 60000, func(rt *rapid.T) {
		v := genV(3, 100000).Draw(rt, "v")
		rest := rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(rt, "rest")
		hx.Journal(v.String())
		enc, out := encodeV(toND(v))
		hx.Case(v.String(), v.T >= rw.TList || len(v.S) > 253 || v.I > 127 || v.I < -128)
		hx.Label(fmt.Sprintf("value type %d", v.T))
		if int(out.Size()) != len(enc) || int(out.GetWriteSize()) != len(enc) {
			rt.Fatalf("%v: %d bytes produced, reported size %d/%d", v, len(enc), out.Size(), out.GetWriteSize())
		}
		d := rw.NewDec(enc)
		rv := d.Value()
		if err := d.End(); err != nil {
			rt.Fatalf("%v: reference decoder: %v", v, err)
		}
		if !rw.Equal(v, rv) {
			rt.Fatalf("encoding of %v reads as %v", v, rv)
		}
		in, left, how := input(rt, enc, rest)
		got, err := in.ReadValue()
		if err != nil {
			rt.Fatalf("%v (%s): decode: %v", v, how, err)
		}
		if g := fromND(got); !rw.Equal(v, g) {
			rt.Fatalf("%v decoded as %v (%s)", v, g, how)
		}
		if r := left(); !bytes.Equal(r, rest) {
			rt.Fatalf("%v (%s): %d bytes remain, want the %d that followed", v, how, len(r), len(rest))
		}
		// the collector's encoding of the same value is understood as well
		e := (&rw.Enc{}).Value(v)
		got, err = nd.NewDataInputX(e.B).ReadValue()
		if err != nil || !rw.Equal(v, fromND(got)) {
			rt.Fatalf("reference encoding of %v decoded as %v, %v", v, got, err)
		}
	})
}

type prim struct {
	kind string
	i    int64
	f    float64
	b    []byte
	arr  []int32
}

func (p prim) String() string {
	s := fmt.Sprintf("%s(%d", p.kind, p.i)
	if p.b != nil {
		s += fmt.Sprintf(" len=%d", len(p.b))
	}
	return s + ")"
}

var primKinds = []string{"i8", "u8", "i16", "i32", "i64", "u64", "f32", "f64", "dec", "dec32", "bool", "str", "blob", "intbytes", "raw", "i32array"}

func genPrim() *rapid.Generator[prim] {
	return rapid.Custom(func(t *rapid.T) prim {
		p := prim{kind: rapid.SampledFrom(primKinds).Draw(t, "kind")}
		switch p.kind {
		case "str":
			p.b = []byte(genStr(100000).Draw(t, "s"))
		case "blob", "intbytes", "raw":
			p.b = genBytes(200000).Draw(t, "b")
			if p.b == nil {
				p.b = []byte{}
			}
		case "f32":
			p.f = float64(genF32().Draw(t, "f"))
		case "f64":
			p.f = genF64().Draw(t, "f")
		case "i32array":
			n := rapid.SampledFrom([]int{0, 1, 3, 300}).Draw(t, "n")
			for i := 0; i < n; i++ {
				p.arr = append(p.arr, int32(i*7919))
			}
		default:
			p.i = genI64().Draw(t, "i")
		}
		return p
	})
}

func TestC01Primitives(t *testing.T) {
	hx.Rule("primitives: a random sequence of 1..12 primitive writes (all 16 kinds, lengths 0..200000), read back in order by the agent and by the reference decoder, sizes compared after every write; non-trivial = at least 3 writes with one length or magnitude beyond one byte")
	hx.Check(t, 1200, 40000, func(rt *rapid.T) {
		ps := rapid.SliceOfN(genPrim(), 1, 12).Draw(rt, "ops")
		o := nd.NewDataOutputX(nil)
		ref := &rw.Enc{}
		wide := false
		for _, p := range ps {
			wide = wide || len(p.b) > 253 || p.i > 127 || p.i < -128
			switch p.kind {
			case "i8":
				o.WriteInt8(int8(p.i))
				ref.U8(byte(p.i))
			case "u8":
				o.WriteUInt8(uint8(p.i))
				ref.U8(byte(p.i))
			case "i16":
				o.WriteInt16(int16(p.i))
				ref.I16(int16(p.i))
			case "i32":
				o.WriteInt32(int32(p.i))
				ref.I32(int32(p.i))
			case "i64":
				o.WriteInt64(p.i)
				ref.I64(p.i)
			case "u64":
				o.WriteUInt64(uint64(p.i))
				ref.I64(p.i)
			case "f32":
				o.WriteFloat32(float32(p.f))
				ref.I32(int32(math.Float32bits(float32(p.f))))
			case "f64":
				o.WriteFloat64(p.f)
				ref.I64(int64(math.Float64bits(p.f)))
			case "dec":
				o.WriteDecimal(p.i)
				ref.Decimal(p.i)
			case "dec32":
				o.WriteDecimal32(int32(p.i))
				ref.Decimal(int64(int32(p.i)))
			case "bool":
				o.WriteBoolean(p.i&1 == 1)
				ref.U8(byte(p.i & 1))
			case "str":
				o.WriteString(string(p.b))
				ref.Blob(p.b)
			case "blob":
				o.WriteBlob(p.b)
				ref.Blob(p.b)
			case "intbytes":
				o.WriteIntBytes(p.b)
				ref.I32(int32(len(p.b))).Raw(p.b)
			case "raw":
				o.Write(p.b)
				ref.Raw(p.b)
			case "i32array":
				o.WriteInt32Array(p.arr)
				ref.I16(int16(len(p.arr)))
				for _, x := range p.arr {
					ref.I32(x)
				}
			}
			if int(o.Size()) != len(ref.B) || int(o.GetWriteSize()) != len(ref.B) || len(o.Bytes()) != len(ref.B) {
				rt.Fatalf("after %v of %v: %d bytes, reported %d, expected %d", p, ps, len(o.Bytes()), o.Size(), len(ref.B))
			}
		}
		hx.Case(fmt.Sprint(ps), len(ps) >= 3 && wide)
		enc := append([]byte(nil), o.Bytes()...)
		if !bytes.Equal(enc, ref.B) {
			rt.Fatalf("%v: bytes differ from the format: got %s want %s", ps, clip(enc), clip(ref.B))
		}
		in, left, how := input(rt, enc, []byte{0xAB, 0xCD})
		for _, p := range ps {
			var err error
			ok := true
			var got any
			switch p.kind {
			case "i8":
				var x int8
				x, err = in.ReadInt8()
				ok, got = x == int8(p.i), x
			case "u8":
				var x uint8
				x, err = in.ReadUInt8()
				ok, got = x == uint8(p.i), x
			case "i16":
				var x int16
				x, err = in.ReadInt16()
				ok, got = x == int16(p.i), x
			case "i32":
				var x int32
				x, err = in.ReadInt32()
				ok, got = x == int32(p.i), x
			case "i64", "u64":
				var x int64
				x, err = in.ReadInt64()
				ok, got = x == p.i, x
			case "f32":
				var x float32
				x, err = in.ReadFloat32()
				ok, got = math.Float32bits(x) == math.Float32bits(float32(p.f)), x
			case "f64":
				var x float64
				x, err = in.ReadFloat64()
				ok, got = math.Float64bits(x) == math.Float64bits(p.f), x
			case "dec":
				var x int64
				x, err = in.ReadDecimal()
				ok, got = x == p.i, x
			case "dec32":
				var x int64
				x, err = in.ReadDecimal()
				ok, got = x == int64(int32(p.i)), x
			case "bool":
				var x bool
				x, err = in.ReadBoolean()
				ok, got = x == (p.i&1 == 1), x
			case "str":
				var x string
				x, err = in.ReadString()
				ok, got = x == string(p.b), clip([]byte(x))
			case "blob":
				var x []byte
				x, err = in.ReadBlob()
				ok, got = bytes.Equal(x, p.b), clip(x)
			case "intbytes":
				var x []byte
				x, err = in.ReadIntBytes()
				ok, got = bytes.Equal(x, p.b), clip(x)
			case "raw":
				if len(p.b) == 0 {
					continue
				}
				var x []byte
				x, err = in.Read(int32(len(p.b)))
				ok, got = bytes.Equal(x, p.b), clip(x)
			case "i32array":
				var n int16
				n, err = in.ReadInt16()
				ok = int(n) == len(p.arr)
				for i := 0; ok && err == nil && i < int(n); i++ {
					var x int32
					x, err = in.ReadInt32()
					ok = x == p.arr[i]
				}
			}
			if err != nil || !ok {
				rt.Fatalf("%v in %v (%s): read %v, %v", p, ps, how, got, err)
			}
		}
		if r := left(); !bytes.Equal(r, []byte{0xAB, 0xCD}) {
			rt.Fatalf("%v (%s): %d bytes remain, want 2", ps, how, len(r))
		}
	})
}

func clip(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("%x..(%d bytes)", b[:60], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// failing writer positions do not matter for what is produced: writing to any io.Writer yields the same bytes.
func TestC01HugeTextAndWriters(t *testing.T) {
	hx.Rule("huge text: texts of 100001..300000 bytes between other values, checked to become the notice; any io.Writer receives the same bytes as the internal buffer; non-trivial = all")
	hx.Check(t, 60, 1500, func(rt *rapid.T) {
		n := rapid.OneOf(rapid.SampledFrom([]int{100001, 100002, 131072, 300000}), rapid.IntRange(100001, 300000)).Draw(rt, "n")
		v := rw.V{T: rw.TList, L: []rw.V{genV(1, 300).Draw(rt, "before"), rw.Text(string(fill(rt, n))), genV(1, 300).Draw(rt, "after")}}
		hx.Case(fmt.Sprint(n, v.L[0], v.L[2]), true)
		enc, out := encodeV(toND(v))
		want := rw.V{T: rw.TList, L: []rw.V{v.L[0], rw.Text("huge string omitted..."), v.L[2]}}
		d := rw.NewDec(enc)
		got := d.Value()
		if err := d.End(); err != nil || !rw.Equal(got, want) {
			rt.Fatalf("text of %d bytes: reference decoder read %v, %v", n, got, err)
		}
		if int(out.Size()) != len(enc) {
			rt.Fatalf("text of %d bytes: size %d reported, %d produced", n, out.Size(), len(enc))
		}
		var buf bytes.Buffer
		o := nd.NewDataOutputX(io.Writer(&buf))
		o.WriteValue(toND(v))
		d = rw.NewDec(buf.Bytes())
		if got := d.Value(); d.End() != nil || !rw.Equal(got, want) {
			rt.Fatalf("written to another writer: %v, %v", got, d.Err)
		}
	})
}
