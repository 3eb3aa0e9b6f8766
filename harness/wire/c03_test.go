package wire

import (
	"fmt"
	"math"
	"testing"

	nd "github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"pgregory.net/rapid"
	"verif/harness/hx"
	rw "verif/harness/refwire"
)

func TestC03Packs(t *testing.T) {
	hx.Rule("pack: an object registration (both layouts), counter, Kubernetes counter or map pack with random fields and table, written and read back (by its own reader, and through the generic pack reader where the type byte selects it), with other bytes following; non-trivial = a table with at least one entry")
	hx.Check(t, 2500, 100000, func(rt *rapid.T) {
		kind, p := genPack(rt, 60000, "object", "object2", "perf", "k8s", "map", "map")
		var blank nd.Pack
		generic := true
		var table map[string]nd.Value
		switch x := p.(type) {
		case *nd.ObjectPack:
			blank, generic, table = nd.NewObjectPack(), false, x.Tags.Table
		case *nd.ObjectPack2:
			blank, table = nd.NewObjectPack2(), x.Tags.Table
		case *nd.PerfCounterPack:
			blank, table = nd.NewPerfCounterPack(), x.Data.Table
		case *nd.PerfCounterK8SPack:
			blank, table = nd.NewPerfCounterK8SPack(), x.Data.Table
		case *nd.MapPack:
			blank, table = nd.NewMapPack(), x.Table
		default:
			rt.Skip("not a pack with a reader")
		}
		enc := encodeP(p)
		hx.Case(kind+" "+clip(enc), len(table) > 0)
		hx.Label("pack " + kind)
		tail := []byte{0xEE, 0x01}
		cmp := func(got nd.Pack, how string) {
			if fmt.Sprintf("%T", got) != fmt.Sprintf("%T", p) {
				rt.Fatalf("%s read back as %T", kind, got)
			}
			// equal packs have equal encodings up to table order; compare field by field through the wire
			if m := wireMatches(kind, got, enc); m != "" {
				rt.Fatalf("%s read back (%s) differs: %s", kind, how, m)
			}
		}
		in, left, how := input(rt, enc[1:], tail)
		got, err := blank.Read(in)
		if err != nil {
			rt.Fatalf("%s (%s): %v", kind, how, err)
		}
		cmp(got, how)
		if r := left(); len(r) != 2 || r[0] != 0xEE {
			rt.Fatalf("%s (%s): %d bytes remain, want 2", kind, how, len(r))
		}
		if generic {
			in, left, how = input(rt, enc, tail)
			got, err = in.ReadPack()
			if err != nil {
				rt.Fatalf("%s (ReadPack, %s): %v", kind, how, err)
			}
			cmp(got, "ReadPack "+how)
			if r := left(); len(r) != 2 || r[0] != 0xEE {
				rt.Fatalf("%s (ReadPack %s): %d bytes remain, want 2", kind, how, len(r))
			}
		}
	})
}

type putter interface{ Put(string, interface{}) }

type getter interface {
	GetString(string) string
	GetBoolean(string) bool
	GetInt8(string) int8
	GetInt16(string) int16
	GetInt32(string) int32
	GetInt64(string) int64
}

func TestC03PutGet(t *testing.T) {
	hx.Rule("put/get: a random sequence of up to 20 puts of string, bool, int, int32, int64, uint32, float32 and ready-made values under 4 keys into a map value, map pack, counter pack or Kubernetes counter pack, against a reference table; after every put all typed getters of all keys (and of an absent one) are compared, and at the end the encoded table; non-trivial = a key put at least twice")
	hx.Check(t, 3000, 120000, func(rt *rapid.T) {
		kind := rapid.IntRange(0, 3).Draw(rt, "container")
		var p putter
		var g getter
		var table func() map[string]nd.Value
		empty := func() bool { return len(table()) == 0 }
		has := func(k string) bool { _, ok := table()[k]; return ok }
		switch kind {
		case 0:
			m := nd.NewMapValue()
			p, g, table, empty, has = m, m, func() map[string]nd.Value { return m.Table }, m.IsEmpty, m.ContainesKey
		case 1:
			m := nd.NewMapPack()
			p, g, table, empty, has = m, m, func() map[string]nd.Value { return m.Table }, m.IsEmpty, m.ContainsKey
		case 2:
			m := nd.NewPerfCounterPack()
			p, g, table = m, m.Data, func() map[string]nd.Value { return m.Data.Table }
		case 3:
			m := nd.NewPerfCounterK8SPack()
			p, g, table = m, m.Data, func() map[string]nd.Value { return m.Data.Table }
		}
		hx.Label(fmt.Sprintf("container %d", kind))
		model := map[string]rw.V{}
		keys := []string{"", "a", "key", "한글"}
		n := rapid.IntRange(0, 20).Draw(rt, "n")
		twice := false
		var log string
		check := func() {
			if len(table()) != len(model) || empty() != (len(model) == 0) {
				rt.Fatalf("%d entries (empty=%v), want %d after %s", len(table()), empty(), len(model), log)
			}
			for _, k := range append(keys, "absent") {
				v, ok := model[k]
				if has(k) != ok {
					rt.Fatalf("contains %q = %v after %s", k, has(k), log)
				}
				var ws string
				var wb bool
				var wi int64
				isInt := false
				switch v.T {
				case rw.TText:
					ws = v.S
				case rw.TBool:
					wb = v.I != 0
				case rw.TDec:
					wi, isInt = v.I, true
				}
				_ = isInt
				if s := g.GetString(k); s != ws {
					rt.Fatalf("GetString(%q)=%q want %q after %s", k, s, ws, log)
				}
				if b := g.GetBoolean(k); b != wb {
					rt.Fatalf("GetBoolean(%q)=%v want %v after %s", k, b, wb, log)
				}
				if i := g.GetInt64(k); i != wi {
					rt.Fatalf("GetInt64(%q)=%v want %v after %s", k, i, wi, log)
				}
				if i := g.GetInt32(k); wi >= math.MinInt32 && wi <= math.MaxInt32 && int64(i) != wi {
					rt.Fatalf("GetInt32(%q)=%v want %v after %s", k, i, wi, log)
				}
				if i := g.GetInt16(k); wi >= math.MinInt16 && wi <= math.MaxInt16 && int64(i) != wi {
					rt.Fatalf("GetInt16(%q)=%v want %v after %s", k, i, wi, log)
				}
				if i := g.GetInt8(k); wi >= math.MinInt8 && wi <= math.MaxInt8 && int64(i) != wi {
					rt.Fatalf("GetInt8(%q)=%v want %v after %s", k, i, wi, log)
				}
			}
		}
		check()
		for i := 0; i < n; i++ {
			k := rapid.SampledFrom(keys).Draw(rt, "key")
			var a any
			var w rw.V
			switch rapid.IntRange(0, 7).Draw(rt, "type") {
			case 0:
				s := rapid.OneOf(genStr(300), rapid.SampledFrom([]string{"", "true", "false", "0", "1", "-1", "nil"})).Draw(rt, "s")
				a, w = s, rw.Text(s)
			case 1:
				b := rapid.Bool().Draw(rt, "b")
				a, w = b, rw.Bool(b)
			case 2:
				x := genI64().Draw(rt, "i")
				a, w = int(x), rw.Dec64(x)
			case 3:
				x := genI32().Draw(rt, "i")
				a, w = x, rw.Dec64(int64(x))
			case 4:
				x := genI64().Draw(rt, "i")
				a, w = x, rw.Dec64(x)
			case 5:
				x := uint32(genI32().Draw(rt, "i"))
				a, w = x, rw.Dec64(int64(x))
			case 6:
				f := genF32().Draw(rt, "f")
				a, w = f, rw.V{T: rw.TFloat, F: uint64(math.Float32bits(f))}
			default:
				w = genV(1, 100).Draw(rt, "v")
				a = toND(w)
			}
			if _, ok := model[k]; ok {
				twice = true
			}
			log += fmt.Sprintf(" put(%.20q,%T %.60v)", k, a, a)
			p.Put(k, a)
			model[k] = w
			check()
		}
		hx.Case(fmt.Sprint(kind, log), twice)
		if !rw.Equal(rw.V{T: rw.TMap, M: fromTable(table())}, rw.V{T: rw.TMap, M: model}) {
			rt.Fatalf("table %v want %v after %s", fromTable(table()), model, log)
		}
		if kind == 0 {
			enc, _ := encodeV(p.(*nd.MapValue))
			d := rw.NewDec(enc)
			if v := d.Value(); d.End() != nil || !rw.Equal(v, rw.V{T: rw.TMap, M: model}) {
				rt.Fatalf("encoded table %v want %v", v, model)
			}
		}
	})
}

func TestC03ListsAndStatus(t *testing.T) {
	hx.Rule("lists: a random sequence of typed adds (also through a map pack's NewList), every typed accessor of every position compared with the reference list; object status set to random numbers and read from the tags and from the encoding; non-trivial = at least two elements")
	hx.Check(t, 2000, 60000, func(rt *rapid.T) {
		var l *nd.ListValue
		var mp *nd.MapPack
		if rapid.Bool().Draw(rt, "inpack") {
			mp = nd.NewMapPack()
			l = mp.NewList("the list")
		} else {
			l = nd.NewListValue()
		}
		var model []rw.V
		n := rapid.IntRange(0, 10).Draw(rt, "n")
		for i := 0; i < n; i++ {
			var w rw.V
			switch rapid.IntRange(0, 5).Draw(rt, "type") {
			case 0:
				w = rw.Text(genStr(300).Draw(rt, "s"))
				l.AddString(w.S)
			case 1:
				b := rapid.Bool().Draw(rt, "b")
				w = rw.Bool(b)
				l.AddBoolean(b)
			case 2:
				x := genI64().Draw(rt, "i")
				w = rw.Dec64(x)
				l.AddInt64(x)
			case 3:
				x := genI32().Draw(rt, "i")
				w = rw.Dec64(int64(x))
				l.AddInt32(x)
			case 4:
				f := genF32().Draw(rt, "f")
				w = rw.V{T: rw.TFloat, F: uint64(math.Float32bits(f))}
				l.AddFloat(f)
			default:
				w = genV(1, 50).Draw(rt, "v")
				l.Add(toND(w))
			}
			model = append(model, w)
		}
		want := rw.V{T: rw.TList, L: model}
		hx.Case(want.String(), n >= 2)
		if l.Size() != n || !rw.Equal(fromND(l), want) {
			rt.Fatalf("list %v (size %d) want %v", fromND(l), l.Size(), want)
		}
		for i, w := range model {
			var ws string
			var wb bool
			var wi int64
			var wf float32
			switch w.T {
			case rw.TText:
				ws = w.S
			case rw.TBool:
				wb = w.I != 0
			case rw.TDec:
				wi = w.I
			case rw.TFloat:
				wf = math.Float32frombits(uint32(w.F))
			}
			if l.GetString(i) != ws || l.GetBoolean(i) != wb || l.GetInt64(i) != wi || math.Float32bits(l.GetFloat(i)) != math.Float32bits(wf) {
				rt.Fatalf("element %d of %v: %q %v %d %v", i, want, l.GetString(i), l.GetBoolean(i), l.GetInt64(i), l.GetFloat(i))
			}
			if x := l.GetInt32(i); wi == int64(int32(wi)) && int64(x) != wi {
				rt.Fatalf("element %d of %v: GetInt32 %d", i, want, x)
			}
		}
		if mp != nil {
			if d := rw.NewDec(encodeP(mp)); true {
				p, ok := d.Pack().(*rw.Map)
				if !ok || d.End() != nil || !rw.Equal(p.M.M["the list"], want) {
					rt.Fatalf("list in a pack: wire %v, want %v", p, want)
				}
			}
		}
		st := genI32().Draw(rt, "status")
		o1, o2 := nd.NewObjectPack(), nd.NewObjectPack2()
		o1.SetStatus(int(st))
		o2.SetStatus(int(st))
		if o1.Tags.GetInt32("status") != st || o2.Tags.GetInt64("status") != int64(st) {
			rt.Fatalf("status %d not in the tags: %s / %s", st, o1.Tags.ToString(), o2.Tags.ToString())
		}
		if p, err := rw.OnePack(encodeP(o1)); err != nil || !rw.Equal(p.(*rw.Object).Tags.M["status"], rw.Dec64(int64(st))) {
			rt.Fatalf("status %d on the wire: %v %v", st, p, err)
		}
	})
}
