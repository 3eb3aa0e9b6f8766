package wire

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"testing"

	nd "github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"pgregory.net/rapid"
	"verif/harness/hx"
	rw "verif/harness/refwire"
)

func TestMain(m *testing.M) { hx.Main(m) }

// ---- generators -----------------------------------------------------------------------------

var edgeInts = []int64{0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536,
	math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1,
	0x7FFFFF, 0x800000, 0xFFFFFF, -0x800000, -0x800001, 0x7FFFFFFFFF, 0x8000000000}

func genI64() *rapid.Generator[int64] {
	return rapid.OneOf(rapid.SampledFrom(edgeInts), rapid.Int64(), rapid.Int64Range(-300, 300), rapid.Int64Range(-70000, 70000),
		rapid.Custom(func(t *rapid.T) int64 {
			return rapid.SampledFrom(edgeInts).Draw(t, "e") + rapid.Int64Range(-2, 2).Draw(t, "d")
		}))
}

func genI32() *rapid.Generator[int32] {
	return rapid.Custom(func(t *rapid.T) int32 { return int32(genI64().Draw(t, "i")) })
}

var edgeLens = []int{0, 1, 2, 252, 253, 254, 255, 256, 257, 32766, 32767, 32768, 32769, 40000, 65534, 65535, 65536, 65537, 70000, 99999, 100000}

// genBytes produces byte strings of every interesting length; long ones are a repeated random pattern.
func genBytes(maxLen int) *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		switch rapid.IntRange(0, 9).Draw(t, "kind") {
		case 0, 1:
			ls := []int{}
			for _, l := range edgeLens {
				if l <= maxLen {
					ls = append(ls, l)
				}
			}
			return fill(t, rapid.SampledFrom(ls).Draw(t, "elen"))
		case 2:
			return fill(t, rapid.IntRange(0, min(maxLen, 700)).Draw(t, "mlen"))
		case 3:
			if maxLen > 1000 {
				return fill(t, rapid.IntRange(0, maxLen).Draw(t, "len"))
			}
			fallthrough
		default:
			return rapid.SliceOfN(rapid.Byte(), 0, min(maxLen, 24)).Draw(t, "bytes")
		}
	})
}

func fill(t *rapid.T, n int) []byte {
	p := rapid.SliceOfN(rapid.Byte(), 1, 9).Draw(t, "pattern")
	b := make([]byte, n)
	for i := range b {
		b[i] = p[i%len(p)] + byte(i/251)
	}
	return b
}

func genStr(maxLen int) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		if rapid.IntRange(0, 3).Draw(t, "s") == 0 {
			return string(genBytes(maxLen).Draw(t, "raw"))
		}
		return rapid.StringN(0, 12, 60).Draw(t, "str")
	})
}

func genF32() *rapid.Generator[float32] {
	return rapid.OneOf(rapid.SampledFrom([]float32{0, float32(math.Copysign(0, -1)), 1, -1, math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Inf(1)), float32(math.Inf(-1))}), rapid.Float32())
}

func genF64() *rapid.Generator[float64] {
	return rapid.OneOf(rapid.SampledFrom([]float64{0, math.Copysign(0, -1), 1, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.Pi}), rapid.Float64())
}

func genV(depth, maxLen int) *rapid.Generator[rw.V] {
	return rapid.Custom(func(t *rapid.T) rw.V {
		kinds := []byte{rw.TNull, rw.TBool, rw.TDec, rw.TFloat, rw.TDbl, rw.TText, rw.THash, rw.TBlob, rw.TIP4}
		if depth > 0 {
			kinds = append(kinds, rw.TList, rw.TMap, rw.TList, rw.TMap)
		}
		v := rw.V{T: rapid.SampledFrom(kinds).Draw(t, "type")}
		switch v.T {
		case rw.TBool:
			v.I = int64(rapid.IntRange(0, 1).Draw(t, "bool"))
		case rw.TDec:
			v.I = genI64().Draw(t, "dec")
		case rw.THash:
			v.I = int64(genI32().Draw(t, "hash"))
		case rw.TFloat:
			v.F = uint64(math.Float32bits(genF32().Draw(t, "f32")))
		case rw.TDbl:
			v.F = math.Float64bits(genF64().Draw(t, "f64"))
		case rw.TText:
			v.S = genStr(maxLen).Draw(t, "text")
		case rw.TBlob:
			v.S = string(genBytes(maxLen).Draw(t, "blob"))
		case rw.TIP4:
			v.S = string(rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, "ip"))
		case rw.TList:
			n := genCount(t)
			if n > 8 { // long lists of small things, so that the count itself crosses its length classes
				for i := 0; i < n; i++ {
					v.L = append(v.L, rw.Dec64(int64(i)))
				}
				break
			}
			for i := 0; i < n; i++ {
				v.L = append(v.L, genV(depth-1, min(maxLen, 300)).Draw(t, "e"))
			}
		case rw.TMap:
			v.M = genM(depth, min(maxLen, 300)).Draw(t, "m")
		}
		return v
	})
}

func genCount(t *rapid.T) int {
	if rapid.IntRange(0, 14).Draw(t, "big") == 0 {
		return rapid.SampledFrom([]int{127, 128, 129, 255, 256, 300}).Draw(t, "n")
	}
	return rapid.IntRange(0, 5).Draw(t, "n")
}

func genM(depth, maxLen int) *rapid.Generator[map[string]rw.V] {
	return rapid.Custom(func(t *rapid.T) map[string]rw.V {
		m := map[string]rw.V{}
		n := genCount(t)
		if n > 8 {
			for i := 0; i < n; i++ {
				m[fmt.Sprintf("key%d", i)] = rw.Dec64(int64(i))
			}
			return m
		}
		for i := 0; i < n; i++ {
			m[genStr(maxLen).Draw(t, "k")] = genV(depth-1, maxLen).Draw(t, "v")
		}
		return m
	})
}

// ---- conversions ----------------------------------------------------------------------------

func toND(v rw.V) nd.Value {
	switch v.T {
	case rw.TNull:
		return nd.NewNilValue()
	case rw.TBool:
		return nd.NewBooleanValue(v.I != 0)
	case rw.TDec:
		return nd.NewDecimalValue(v.I)
	case rw.TFloat:
		return nd.NewFloatValue(math.Float32frombits(uint32(v.F)))
	case rw.TDbl:
		return nd.NewDoubleValue(math.Float64frombits(v.F))
	case rw.TText:
		return nd.NewTextValue(v.S)
	case rw.THash:
		return nd.NewTextHashValue(int32(v.I))
	case rw.TBlob:
		return nd.NewBlobValue([]byte(v.S))
	case rw.TIP4:
		return nd.NewIp4Value(fmt.Sprintf("%d.%d.%d.%d", v.S[0], v.S[1], v.S[2], v.S[3]))
	case rw.TList:
		l := nd.NewListValue()
		for _, x := range v.L {
			l.Add(toND(x))
		}
		return l
	case rw.TMap:
		m := nd.NewMapValue()
		for k, x := range v.M {
			m.Put(k, toND(x))
		}
		return m
	}
	panic("HARNESS-ERROR type")
}

func fromND(x nd.Value) rw.V {
	switch v := x.(type) {
	case *nd.NilValue:
		return rw.V{}
	case *nd.BooleanValue:
		return rw.Bool(v.Value)
	case *nd.DecimalValue:
		return rw.Dec64(v.Value)
	case *nd.Float32Value:
		return rw.V{T: rw.TFloat, F: uint64(math.Float32bits(v.Value))}
	case *nd.DoubleValue:
		return rw.V{T: rw.TDbl, F: math.Float64bits(v.Value)}
	case *nd.TextValue:
		return rw.Text(v.Value)
	case *nd.TextHashValue:
		return rw.V{T: rw.THash, I: int64(v.Value)}
	case *nd.BlobValue:
		return rw.V{T: rw.TBlob, S: string(v.Value)}
	case *nd.Ip4Value:
		return rw.V{T: rw.TIP4, S: string(v.Value)}
	case *nd.ListValue:
		r := rw.V{T: rw.TList}
		for _, e := range v.Value {
			r.L = append(r.L, fromND(e))
		}
		return r
	case *nd.MapValue:
		return rw.V{T: rw.TMap, M: fromTable(v.Table)}
	case nil:
		return rw.V{T: 255, S: "nil interface"}
	}
	return rw.V{T: 254, S: fmt.Sprintf("%T", x)}
}

func fromTable(t map[string]nd.Value) map[string]rw.V {
	m := map[string]rw.V{}
	for k, e := range t {
		m[k] = fromND(e)
	}
	return m
}

// seg delivers its bytes in pieces of the given sizes (cyclically), as a network connection may.
type seg struct {
	b    []byte
	cuts []int
	i    int
}

func (s *seg) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if len(s.cuts) > 0 {
		n = min(n, s.cuts[s.i%len(s.cuts)])
		s.i++
	}
	n = min(max(n, 1), len(s.b))
	copy(p, s.b[:n])
	s.b = s.b[n:]
	return n, nil
}

func encodeV(v nd.Value) ([]byte, *nd.DataOutputX) {
	o := nd.NewDataOutputX(nil)
	o.WriteValue(v)
	return append([]byte(nil), o.Bytes()...), o
}

func encodeP(p nd.Pack) []byte {
	o, _ := nd.NewDataOutputX(nil).WritePack(p)
	return append([]byte(nil), o.Bytes()...)
}

// inputs gives decoders over b followed by rest, in the ways a caller may construct them.
func input(t *rapid.T, b, rest []byte) (*nd.DataInputX, func() []byte, string) {
	all := append(append([]byte(nil), b...), rest...)
	switch rapid.IntRange(0, 2).Draw(t, "reader") {
	case 0:
		in := nd.NewDataInputX(all)
		return in, func() []byte { r, _ := in.Read(int32(len(rest))); return r }, "bytes"
	case 1:
		rd := bytes.NewReader(all)
		return nd.NewDataInputX(rd), func() []byte { r, _ := io.ReadAll(rd); return r }, "reader"
	default:
		s := &seg{b: all, cuts: rapid.SliceOfN(rapid.IntRange(1, 50000), 1, 4).Draw(t, "cuts")}
		return nd.NewDataInputX(s), func() []byte { return s.b }, "segmented"
	}
}
