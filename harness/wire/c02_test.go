package wire

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"testing"

	nd "github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata/texttype"
	"pgregory.net/rapid"
	"verif/harness/hx"
	rw "verif/harness/refwire"
)

func drawFields(t *rapid.T, ptr any, maxStr int, skip string) {
	v := reflect.ValueOf(ptr).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		name := v.Type().Field(i).Name
		if strings.Contains(skip, "|"+name+"|") || !f.CanSet() {
			continue
		}
		drawField(t, f, name, maxStr, skip)
	}
}

func drawField(t *rapid.T, f reflect.Value, name string, maxStr int, skip string) {
	switch f.Kind() {
	case reflect.Int64:
		f.SetInt(genI64().Draw(t, name))
	case reflect.Int32:
		f.SetInt(int64(genI32().Draw(t, name)))
	case reflect.Int8:
		f.SetInt(int64(rapid.Int8().Draw(t, name)))
	case reflect.Uint8:
		f.SetUint(uint64(rapid.Byte().Draw(t, name)))
	case reflect.Bool:
		f.SetBool(rapid.Bool().Draw(t, name))
	case reflect.String:
		f.SetString(genStr(maxStr).Draw(t, name))
	case reflect.Slice:
		if f.Type().Elem().Kind() == reflect.Uint8 {
			f.SetBytes(genBytes(maxStr).Draw(t, name))
		} else {
			n := rapid.OneOf(rapid.IntRange(0, 4), rapid.SampledFrom([]int{127, 128, 255, 256, 300})).Draw(t, name+".n")
			s := reflect.MakeSlice(f.Type(), n, n)
			for i := 0; i < n; i++ {
				if n > 8 {
					s.Index(i).SetInt(int64(i) * 715827)
				} else {
					drawField(t, s.Index(i), name, maxStr, skip)
				}
			}
			f.Set(s)
		}
	case reflect.Struct:
		drawFields(t, f.Addr().Interface(), maxStr, skip)
	default:
		panic("HARNESS-ERROR kind " + f.Kind().String() + " of " + name)
	}
}

// same compares a reference pack or step with the agent's by field name; ref fields without a counterpart
// are looked up in names ("" skips).
func same(ref, got any, names map[string]string) string {
	r, g := reflect.ValueOf(ref).Elem(), reflect.ValueOf(got).Elem()
	for i := 0; i < r.NumField(); i++ {
		n := r.Type().Field(i).Name
		m := n
		if x, ok := names[n]; ok {
			m = x
		}
		if m == "" {
			continue
		}
		gf := g.FieldByName(m)
		if !gf.IsValid() {
			panic("HARNESS-ERROR no field " + m)
		}
		rf := r.Field(i)
		var eq bool
		switch rf.Kind() {
		case reflect.Int64, reflect.Int32, reflect.Int8:
			eq = rf.Int() == gf.Int()
		case reflect.Uint8:
			eq = rf.Uint() == gf.Uint()
		case reflect.Bool:
			eq = rf.Bool() == gf.Bool()
		case reflect.String:
			if gf.Kind() == reflect.Slice {
				eq = rf.String() == string(gf.Bytes())
			} else {
				eq = rf.String() == gf.String()
			}
		case reflect.Slice:
			if rf.Type().Elem().Kind() == reflect.Uint8 {
				eq = bytes.Equal(rf.Bytes(), gf.Bytes())
			} else {
				eq = rf.Len() == gf.Len()
				for j := 0; eq && j < rf.Len(); j++ {
					eq = rf.Index(j).Int() == gf.Index(j).Int()
				}
			}
		case reflect.Struct: // a value
			eq = rw.Equal(rf.Interface().(rw.V), fromND(gf.Interface().(nd.Value)))
		default:
			panic("HARNESS-ERROR kind " + rf.Kind().String())
		}
		if !eq {
			return fmt.Sprintf("field %s: wire has %.200v, caller set %.200v", m, rf.Interface(), gf.Interface())
		}
	}
	return ""
}

func mapND(m map[string]rw.V) *nd.MapValue {
	return toND(rw.V{T: rw.TMap, M: m}).(*nd.MapValue)
}

// genPack returns one of the packs the agent sends, filled at random.
func genPack(t *rapid.T, maxStr int, kinds ...string) (string, nd.Pack) {
	if len(kinds) == 0 {
		kinds = []string{"xlog", "xlog", "profile", "text", "alert", "object", "object2", "perf", "k8s", "map"}
	}
	kind := rapid.SampledFrom(kinds).Draw(t, "pack")
	switch kind {
	case "xlog":
		p := nd.NewXlogPack()
		drawFields(t, p, min(maxStr, 2000), "")
		return kind, p
	case "profile":
		p := nd.NewXlogProfilePack()
		drawFields(t, p, maxStr, "")
		return kind, p
	case "text":
		p := nd.NewTextPack()
		p.Xtype = texttype.TextType(rapid.OneOf(rapid.SampledFrom([]string{"error", "apicall", "service", "object", "ua", "hmsg", "stackelem"}), genStr(300)).Draw(t, "type"))
		p.Hash = genI32().Draw(t, "hash")
		p.Text = genStr(maxStr).Draw(t, "text")
		return kind, p
	case "alert":
		p := nd.NewAlertPack()
		drawFields(t, p, maxStr, "|Tags|")
		p.Tags = mapND(genM(1, 300).Draw(t, "tags"))
		return kind, p
	case "object":
		p := nd.NewObjectPack()
		drawFields(t, p, maxStr, "|Tags|")
		p.Tags = mapND(genM(1, 300).Draw(t, "tags"))
		return kind, p
	case "object2":
		p := nd.NewObjectPack2()
		drawFields(t, p, maxStr, "|Tags|")
		p.Tags = mapND(genM(1, 300).Draw(t, "tags"))
		return kind, p
	case "perf":
		p := nd.NewPerfCounterPack()
		drawFields(t, p, maxStr, "|Data|")
		p.Data = mapND(genM(1, 300).Draw(t, "data"))
		return kind, p
	case "k8s":
		p := nd.NewPerfCounterK8SPack()
		drawFields(t, p, min(maxStr, 2000), "|Data|")
		p.Data = mapND(genM(1, 300).Draw(t, "data"))
		return kind, p
	default:
		p := nd.NewMapPack()
		for k, v := range genM(2, 2000).Draw(t, "map") {
			p.Put(k, toND(v))
		}
		return kind, p
	}
}

func wireMatches(kind string, p nd.Pack, enc []byte) string {
	var got any
	var err error
	if kind == "object2" {
		d := rw.NewDec(enc)
		got = d.ObjectPack2()
		err = d.End()
	} else {
		got, err = rw.OnePack(enc)
	}
	if err != nil {
		return err.Error()
	}
	switch g := got.(type) {
	case *rw.Xlog:
		return same(g, p.(*nd.XlogPack), map[string]string{"Queuing2T": "Queuing2ndTime"})
	case *rw.Profile:
		return same(g, p.(*nd.XlogProfilePack), map[string]string{"Steps": "Profile"})
	case *rw.TextRec:
		return same(g, p.(*nd.TextPack), map[string]string{"Type": "Xtype"})
	case *rw.Alert:
		return same(g, p.(*nd.AlertPack), nil)
	case *rw.Object:
		return same(g, p.(*nd.ObjectPack), nil)
	case *rw.Object2:
		return same(g, p.(*nd.ObjectPack2), nil)
	case *rw.Perf:
		return same(g, p.(*nd.PerfCounterPack), nil)
	case *rw.K8s:
		return same(g, p.(*nd.PerfCounterK8SPack), map[string]string{"Namespace": "NameSpace", "Node": "NodeName", "Daemon": "DaemonSetName", "Deploy": "DeploymentName", "Pod": "PodName", "Container": "ContainerName", "Level": "MetricLevel"})
	case *rw.Map:
		if !rw.Equal(g.M, rw.V{T: rw.TMap, M: fromTable(p.(*nd.MapPack).Table)}) {
			return fmt.Sprintf("table on the wire %v", g.M)
		}
		return ""
	}
	return fmt.Sprintf("unexpected pack %T", got)
}

func TestC02Packs(t *testing.T) {
	hx.Rule("pack: one of the nine pack kinds with every exported field random (integers around every width boundary, texts up to 60000 bytes, tables nested), encoded with its type byte and decoded by the strict reference decoder; also several packs back to back; non-trivial = at least two fields away from zero, which every case has with overwhelming probability (counted by the encoding being longer than 40 bytes)")
	hx.Check(t, 2500, 120000, func(rt *rapid.T) {
		n := 1
		if rapid.IntRange(0, 5).Draw(rt, "several") == 0 {
			n = rapid.IntRange(2, 4).Draw(rt, "n")
		}
		o := nd.NewDataOutputX(nil)
		type one struct {
			kind string
			p    nd.Pack
			end  int
		}
		var all []one
		for i := 0; i < n; i++ {
			kind, p := genPack(rt, 60000)
			if _, err := o.WritePack(p); err != nil {
				rt.Fatalf("write: %v", err)
			}
			all = append(all, one{kind, p, len(o.Bytes())})
			hx.Label("pack " + kind)
		}
		enc := o.Bytes()
		if int(o.Size()) != len(enc) {
			rt.Fatalf("size %d reported, %d produced", o.Size(), len(enc))
		}
		hx.Case(fmt.Sprintf("%d packs, first %s: %s", n, all[0].kind, clip(enc)), len(enc) > 40)
		at := 0
		for _, x := range all {
			if m := wireMatches(x.kind, x.p, enc[at:x.end]); m != "" {
				rt.Fatalf("%s pack: %s (bytes %s)", x.kind, m, clip(enc[at:x.end]))
			}
			at = x.end
		}
	})
}

// genStep returns a step and what the wire should carry for it.
func genStep(t *rapid.T) (nd.Step, rw.Step) {
	hdr := func(s *nd.SingleStep, w *rw.Step) {
		s.Parent, s.Index, s.StartTime = genI32().Draw(t, "parent"), genI32().Draw(t, "index"), genI32().Draw(t, "start")
		w.Parent, w.Index, w.Start = s.Parent, s.Index, s.StartTime
	}
	i32 := func(n string) int32 { return genI32().Draw(t, n) }
	switch rapid.IntRange(0, 6).Draw(t, "step") {
	case 0:
		s := nd.NewMethodStep()
		w := rw.Step{T: rw.SMethod}
		hdr(&s.SingleStep, &w)
		s.Hash, s.Elapsed, s.CpuTime = i32("h"), i32("e"), i32("c")
		w.Hash, w.Elapsed, w.Cpu = s.Hash, s.Elapsed, s.CpuTime
		return s, w
	case 1:
		s := nd.NewMessageStep(genStr(3000).Draw(t, "msg"), 0)
		w := rw.Step{T: rw.SMessage}
		hdr(&s.SingleStep, &w)
		w.Msg = s.Message
		return s, w
	case 2:
		s := nd.NewApiCallStep()
		w := rw.Step{T: rw.SApi}
		hdr(&s.SingleStep, &w)
		s.Txid, s.Hash, s.Elapsed, s.CpuTime, s.Error = genI64().Draw(t, "txid"), i32("h"), i32("e"), i32("c"), i32("err")
		s.Opt = rapid.SampledFrom([]uint8{0, 1, 1, 2, 255}).Draw(t, "opt")
		s.Address = genStr(300).Draw(t, "addr")
		w.Txid, w.Hash, w.Elapsed, w.Cpu, w.Error, w.Opt = s.Txid, s.Hash, s.Elapsed, s.CpuTime, s.Error, s.Opt
		if s.Opt == 1 {
			w.Addr = s.Address
		}
		return s, w
	case 3:
		s := nd.NewHashedMessageStep(i32("h"), 0)
		w := rw.Step{T: rw.SHashed}
		hdr(&s.SingleStep, &w)
		s.Time, s.Value = i32("time"), i32("value")
		w.Hash, w.Time, w.Value = s.Hash, s.Time, s.Value
		return s, w
	case 4:
		s := nd.NewAsyncServiceStep()
		w := rw.Step{T: rw.SAsync, Opt: 1}
		hdr(&s.SingleStep, &w)
		s.Txid, s.Hash, s.Elapsed = genI64().Draw(t, "txid"), i32("h"), i32("e")
		w.Txid, w.Hash, w.Elapsed = s.Txid, s.Hash, s.Elapsed
		return s, w
	case 5:
		s := nd.NewPMessageStep(0)
		w := rw.Step{T: rw.SParam}
		hdr(&s.SingleStep, &w)
		ps := rapid.SliceOfN(genStr(300), 0, 5).Draw(t, "params")
		s.SetMessage(i32("h"), ps...)
		s.Elapsed, s.Level = i32("e"), nd.PMessageLevel(rapid.Byte().Draw(t, "level"))
		w.Hash, w.Elapsed, w.Level = s.Hash, s.Elapsed, int32(s.Level)
		for _, p := range ps {
			w.Params += p + "\x03"
		}
		return s, w
	default:
		s := nd.NewDumpStep()
		w := rw.Step{T: rw.SDump}
		hdr(&s.SingleStep, &w)
		n := rapid.OneOf(rapid.IntRange(0, 5), rapid.SampledFrom([]int{127, 128, 255, 256, 1000, 32767})).Draw(t, "stacks")
		for i := 0; i < n; i++ {
			s.Stacks = append(s.Stacks, int32(i)*-7777777)
		}
		w.Stacks = s.Stacks
		return s, w
	}
}

func TestC02Steps(t *testing.T) {
	hx.Rule("steps: a random list of 0..8 steps of all seven kinds with nil steps among them, all fields random; the list's bytes must parse, strictly, into exactly those steps in order; non-trivial = at least two steps")
	hx.Check(t, 2500, 120000, func(rt *rapid.T) {
		n := rapid.IntRange(0, 8).Draw(rt, "n")
		var steps []nd.Step
		var want []rw.Step
		for i := 0; i < n; i++ {
			if rapid.IntRange(0, 7).Draw(rt, "nil") == 0 {
				steps = append(steps, nil)
				continue
			}
			s, w := genStep(rt)
			steps = append(steps, s)
			want = append(want, w)
			hx.Label(fmt.Sprintf("step type %d", w.T))
		}
		enc := nd.StepsToBytes(steps)
		hx.Case(fmt.Sprintf("%d steps: %s", n, clip(enc)), len(want) >= 2)
		got, err := rw.Steps(enc)
		if err != nil {
			rt.Fatalf("steps %v: %v", want, err)
		}
		if len(got) != len(want) {
			rt.Fatalf("%d steps on the wire, %d given", len(got), len(want))
		}
		for i := range got {
			if fmt.Sprintf("%+v", got[i]) != fmt.Sprintf("%+v", want[i]) {
				rt.Fatalf("step %d: wire has %.600s, caller set %.600s", i, fmt.Sprintf("%+v", got[i]), fmt.Sprintf("%+v", want[i]))
			}
		}
		// the same steps written one by one give the same bytes
		o := nd.NewDataOutputX(nil)
		for _, s := range steps {
			if s != nil {
				o.WriteStep(s)
			}
		}
		if !bytes.Equal(o.Bytes(), enc) || int(o.Size()) != len(enc) {
			rt.Fatalf("steps written singly give %d bytes (size %d), as a list %d", len(o.Bytes()), o.Size(), len(enc))
		}
	})
}

func TestC02Order(t *testing.T) {
	hx.Rule("step accessors: index, parent and order of each step kind read back what was set through the interface; non-trivial = all")
	hx.Check(t, 300, 5000, func(rt *rapid.T) {
		s, w := genStep(rt)
		i, p := genI32().Draw(rt, "i"), genI32().Draw(rt, "p")
		s.SetIndex(i)
		s.SetParent(p)
		hx.Case(fmt.Sprintf("%d %d %d", w.T, i, p), true)
		if s.GetOrder() != i || s.GetParent() != p || s.GetStepType() != w.T {
			rt.Fatalf("step type %d (want %d): order %d want %d, parent %d want %d", s.GetStepType(), w.T, s.GetOrder(), i, s.GetParent(), p)
		}
		got, err := rw.Steps(nd.StepsToBytes([]nd.Step{s}))
		if err != nil || len(got) != 1 || got[0].Index != i || got[0].Parent != p {
			rt.Fatalf("step on the wire %+v, %v; want index %d parent %d", got, err, i, p)
		}
	})
}
