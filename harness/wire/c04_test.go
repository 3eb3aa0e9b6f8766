package wire

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"runtime"
	"testing"
	"time"

	nd "github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"pgregory.net/rapid"
	"verif/harness/hx"
	rw "verif/harness/refwire"
)

// result of one decoding, comparable.
type result struct {
	err  bool
	desc string
	left int
}

var readers = []string{"value", "pack", "object", "object2", "perf", "k8s", "map", "list", "text", "alert", "blob", "string", "intbytes", "decimal"}

func decodeWith(kind string, in *nd.DataInputX) (desc string, failed bool) {
	pack := func(p nd.Pack, err error) (string, bool) {
		if err != nil {
			return "", true
		}
		if p == nil {
			return "nil pack without error", false
		}
		s := fmt.Sprintf("%T ", p)
		switch x := p.(type) {
		case *nd.MapPack:
			s += rw.V{T: rw.TMap, M: fromTable(x.Table)}.String()
		case *nd.ObjectPack:
			s += fmt.Sprintf("%q %d %q %q %q %v %d ", x.ObjType, x.ObjHash, x.ObjName, x.Address, x.Version, x.Alive, x.Wakeup) + fromND(x.Tags).String()
		case *nd.ObjectPack2:
			s += fmt.Sprintf("%q %q %d %q %q %q %v %d %d", x.SiteID, x.ObjType, x.ObjHash, x.ObjName, x.Address, x.Version, x.Alive, x.Wakeup, x.Family) + fromND(x.Tags).String()
		case *nd.PerfCounterPack:
			s += fmt.Sprintf("%d %q %d", x.Time, x.ObjName, x.Timetype) + fromND(x.Data).String()
		case *nd.PerfCounterK8SPack:
			s += fmt.Sprintf("%d %q %q %q %d %d", x.Time, x.SiteID, x.ObjName, x.ContainerName, x.Timetype, x.MetricLevel) + fromND(x.Data).String()
		case *nd.TextPack:
			s += fmt.Sprintf("%q %d %q", x.Xtype, x.Hash, x.Text)
		case *nd.AlertPack:
			s += fmt.Sprintf("%d %d %q %d %q %q", x.Time, x.Level, x.ObjType, x.ObjHash, x.Title, x.Message) + fromND(x.Tags).String()
		default:
			s += "?"
		}
		return s, false
	}
	val := func(v nd.Value, err error) (string, bool) {
		if err != nil {
			return "", true
		}
		return fromND(v).String(), false
	}
	switch kind {
	case "value":
		return val(in.ReadValue())
	case "list":
		return val(nd.NewListValue().Read(in))
	case "map":
		return val(nd.NewMapValue().Read(in))
	case "pack":
		return pack(in.ReadPack())
	case "object":
		return pack(nd.NewObjectPack().Read(in))
	case "object2":
		return pack(nd.NewObjectPack2().Read(in))
	case "perf":
		return pack(nd.NewPerfCounterPack().Read(in))
	case "k8s":
		return pack(nd.NewPerfCounterK8SPack().Read(in))
	case "text":
		return pack(nd.NewTextPack().Read(in))
	case "alert":
		return pack(nd.NewAlertPack().Read(in))
	case "blob":
		b, err := in.ReadBlob()
		return hex.EncodeToString(b), err != nil
	case "string":
		b, err := in.ReadString()
		return b, err != nil
	case "intbytes":
		b, err := in.ReadIntBytes()
		return hex.EncodeToString(b), err != nil
	default:
		n, err := in.ReadDecimal()
		return fmt.Sprint(n), err != nil
	}
}

// decode runs one decoding, with its allocation measured and panics and runaways caught.
func decode(rt *rapid.T, kind string, b []byte, cuts []int) result {
	s := &seg{b: append([]byte(nil), b...), cuts: cuts}
	var r result
	var m0, m1 runtime.MemStats
	var pan any
	runtime.ReadMemStats(&m0)
	func() {
		defer func() { pan = recover() }()
		r.desc, r.err = decodeWith(kind, nd.NewDataInputX(s))
	}()
	runtime.ReadMemStats(&m1)
	if pan != nil {
		rt.Fatalf("decoding %s as %s panicked: %v", clip(b), kind, pan)
	}
	if a := m1.TotalAlloc - m0.TotalAlloc; a > 16<<20+uint64(len(b))*4000 {
		rt.Fatalf("decoding %d bytes %s as %s allocated %d bytes", len(b), clip(b), kind, a)
	}
	if r.err {
		r.desc = ""
	} else {
		r.left = len(s.b)
	}
	return r
}

// validBytes produces a complete encoding for the kind of reader.
func validBytes(rt *rapid.T, kind string) []byte {
	switch kind {
	case "value", "list", "map":
		v := genV(3, 3000).Draw(rt, "v")
		if kind == "list" {
			v = rw.V{T: rw.TList, L: []rw.V{v, genV(1, 300).Draw(rt, "v2")}}
		} else if kind == "map" {
			v = rw.V{T: rw.TMap, M: map[string]rw.V{"a": v, "b": genV(1, 300).Draw(rt, "v2")}}
		}
		b := (&rw.Enc{}).Value(v).B
		if kind != "value" {
			b = b[1:]
		}
		return b
	case "blob", "string":
		return (&rw.Enc{}).Blob(genBytes(70000).Draw(rt, "b")).B
	case "intbytes":
		b := genBytes(70000).Draw(rt, "b")
		return (&rw.Enc{}).I32(int32(len(b))).Raw(b).B
	case "decimal":
		return (&rw.Enc{}).Decimal(genI64().Draw(rt, "i")).B
	}
	if kind == "pack" {
		_, p := genPack(rt, 3000, "object2", "perf", "k8s", "map", "text", "alert")
		return encodeP(p)
	}
	_, p := genPack(rt, 3000, kind)
	return encodeP(p)[1:]
}

func TestC04Prefixes(t *testing.T) {
	hx.Rule("prefix: a valid random encoding cut at every byte (at up to 60 sampled bytes when longer), delivered in random segments; every strict prefix must give an error, and the whole must decode the same in one piece, byte by byte and in random segments; non-trivial = an encoding of at least 4 bytes")
	hx.Check(t, 700, 30000, func(rt *rapid.T) {
		kind := rapid.SampledFrom(readers).Draw(rt, "kind")
		b := validBytes(rt, kind)
		hx.Case(kind+" "+clip(b), len(b) >= 4)
		hx.Label("prefix " + kind)
		hx.Journal(kind + " " + hex.EncodeToString(b))
		cuts := rapid.SliceOfN(rapid.IntRange(1, 700), 0, 4).Draw(rt, "cuts")
		hx.Guard("decoding "+kind, 2<<30, 60*time.Second, func() {
			whole := decode(rt, kind, b, nil)
			if whole.err || whole.left != 0 {
				rt.Fatalf("valid %s %s: error=%v, %d bytes left", kind, clip(b), whole.err, whole.left)
			}
			for _, c := range [][]int{{1}, cuts} {
				if r := decode(rt, kind, b, c); r != whole {
					rt.Fatalf("%s %s delivered in pieces %v: %+.300v; in one piece: %+.300v", kind, clip(b), c, r, whole)
				}
			}
			step := 1
			if len(b) > 60 {
				step = len(b)/60 + 1
			}
			at := map[int]bool{}
			for i := rapid.IntRange(0, step-1).Draw(rt, "phase"); i < len(b); i += step {
				at[i] = true
			}
			for i := max(0, len(b)-3); i < len(b); i++ {
				at[i] = true
			}
			for i := range min(len(b), 6) {
				at[i] = true
			}
			for i := range at {
				if r := decode(rt, kind, b[:i], cuts); !r.err {
					rt.Fatalf("%s %s cut to %d of %d bytes decoded without error: %.300v", kind, clip(b), i, len(b), r.desc)
				}
			}
		})
	})
}

// hostile byte strings: random, or valid ones with corrupted bytes, lengths and counts.
func genHostile(rt *rapid.T, kind string) []byte {
	switch rapid.IntRange(0, 6).Draw(rt, "hostile") {
	case 0:
		return rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(rt, "random")
	case 1: // plausible type bytes and counts
		toks := [][]byte{{0}, {10}, {20}, {30}, {40}, {50}, {51}, {60}, {61}, {70}, {80}, {65}, {70, 8, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {80, 8, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff},
			{70, 4, 0x7f, 0xff, 0xff, 0xff}, {4, 0x7f, 0xff, 0xff, 0xff}, {8, 0x80, 0, 0, 0, 0, 0, 0, 0}, {254, 0x7f, 0xff, 0xff, 0xff}, {254, 0xff, 0xff, 0xff, 0xff}, {254, 0x80, 0, 0, 0}, {255, 0xff, 0xff}, {255, 0x80, 0},
			{70, 1, 0xff}, {3, 1, 2, 3}, {5, 1, 2, 3, 4, 5}, {7}, {9}, {60, 254, 0x40, 0, 0, 0}, {50, 254, 0x7f, 0xff, 0xff, 0xff}, {0x7f, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0xff}, {1, 5}, {2, 1, 0}}
		var b []byte
		for i := rapid.IntRange(1, 12).Draw(rt, "ntok"); i > 0; i-- {
			b = append(b, rapid.SampledFrom(toks).Draw(rt, "tok")...)
		}
		return b
	case 2: // deep nesting
		unit := rapid.SampledFrom([][]byte{{70, 1, 1}, {80, 1, 1, 0}, {70, 1, 2}, {80, 1, 1, 1, 'k', 70, 1, 1}}).Draw(rt, "unit")
		return bytes.Repeat(unit, rapid.SampledFrom([]int{10, 500, 5000, 30000}).Draw(rt, "depth"))
	default:
		b := append([]byte(nil), validBytes(rt, kind)...)
		for i := rapid.IntRange(1, 3).Draw(rt, "edits"); i > 0 && len(b) > 0; i-- {
			at := rapid.IntRange(0, min(len(b)-1, rapid.SampledFrom([]int{8, 100000}).Draw(rt, "zone"))).Draw(rt, "at")
			switch rapid.IntRange(0, 4).Draw(rt, "edit") {
			case 0:
				b[at] = rapid.Byte().Draw(rt, "byte")
			case 1:
				b[at] = rapid.SampledFrom([]byte{0, 1, 2, 4, 8, 10, 60, 61, 65, 70, 80, 127, 128, 253, 254, 255}).Draw(rt, "special")
			case 2:
				b = append(b[:at], b[at+1:]...)
			case 3:
				b = append(b[:at], append(rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(rt, "ins"), b[at:]...)...)
			default:
				ins := rapid.SampledFrom([][]byte{{254, 0x7f, 0xff, 0xff, 0xff}, {254, 0x30, 0, 0, 0}, {255, 0xff, 0xff}, {8, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {4, 0x7f, 0xff, 0xff, 0xff}, {0x7f, 0xff, 0xff, 0xff}}).Draw(rt, "huge")
				b = append(b[:at], append(append([]byte(nil), ins...), b[min(len(b), at+1):]...)...)
			}
		}
		return b
	}
}

func TestC04Hostile(t *testing.T) {
	hx.Rule("hostile: random bytes, sequences of plausible type bytes with huge counts and lengths, deep nesting (up to 30000 levels here, 6 million in its own test), and valid encodings with corrupted bytes, decoded by all readers: no panic, allocation under 16 MB + 4000 x input, bounded processor time, and the same outcome in one piece, byte by byte and in random segments; what decodes successfully must agree with the reference decoder whenever that accepts the same bytes; non-trivial = at least 3 bytes")
	hx.Check(t, 2500, 120000, func(rt *rapid.T) {
		kind := rapid.SampledFrom(readers).Draw(rt, "kind")
		b := genHostile(rt, kind)
		if len(b) > 200000 {
			b = b[:200000]
		}
		hx.Case(kind+" "+clip(b), len(b) >= 3)
		hx.Label("hostile " + kind)
		hx.Journal(kind + " " + hex.EncodeToString(b))
		cuts := rapid.SliceOfN(rapid.IntRange(1, 700), 1, 4).Draw(rt, "cuts")
		hx.Guard("decoding "+kind, 2<<30, 60*time.Second, func() {
			whole := decode(rt, kind, b, nil)
			for _, c := range [][]int{{1}, cuts} {
				if r := decode(rt, kind, b, c); r != whole {
					rt.Fatalf("%s %s delivered in pieces %v: %+.300v; in one piece: %+.300v", kind, clip(b), c, r, whole)
				}
			}
			if whole.err {
				hx.Label("refused")
			} else {
				hx.Label("accepted")
			}
			if kind == "value" {
				d := rw.NewDec(b)
				v := d.Value()
				if d.Err == nil {
					if whole.err || whole.desc != v.String() || whole.left != d.Left() {
						rt.Fatalf("value %s: reference reads %v with %d left; agent: %+.300v", clip(b), v, d.Left(), whole)
					}
					hx.Label("agrees with the reference")
				}
			}
		})
	})
}

func TestC04DeepNesting(t *testing.T) {
	hx.Rule("nesting bomb: 1..6 million nested lists or maps read as value and pack must not exhaust the stack, and 100 levels must still decode; non-trivial = all")
	hx.Check(t, 4, 12, func(rt *rapid.T) {
		unit := rapid.SampledFrom([][]byte{{70, 1, 1}, {80, 1, 1, 0}}).Draw(rt, "unit")
		n := rapid.IntRange(1000000, 6000000).Draw(rt, "levels")
		hx.Case(fmt.Sprint(unit, n), true)
		b := bytes.Repeat(unit, n)
		hx.Journal(fmt.Sprintf("%d levels of %v", n, unit))
		r := decode(rt, "value", b, nil)
		if !r.err {
			rt.Fatalf("%d nested open containers decoded without error", n)
		}
		if r = decode(rt, "pack", append([]byte{10, 1, 1, 0}, b...), nil); !r.err {
			rt.Fatalf("pack with %d nested open containers decoded without error", n)
		}
		v := rw.V{T: rw.TNull}
		for i := 0; i < 100; i++ {
			if unit[0] == 70 {
				v = rw.V{T: rw.TList, L: []rw.V{v}}
			} else {
				v = rw.V{T: rw.TMap, M: map[string]rw.V{"": v}}
			}
		}
		if r = decode(rt, "value", (&rw.Enc{}).Value(v).B, nil); r.err || r.desc != v.String() {
			rt.Fatalf("100 nested containers: %+.200v", r)
		}
	})
}
