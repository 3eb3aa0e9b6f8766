package trace

import (
	"errors"
	"fmt"
	"math"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/counter"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/counter/gocounter"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/task/countertask"
	"pgregory.net/rapid"
	"verif/harness/cgocall"
	"verif/harness/hx"
	"verif/harness/refwire"
)

// span bounds a runtime figure that was read somewhere between two samples of it.
type span struct{ lo, hi float64 }

type rtstat struct {
	at          time.Time
	gor, cgo    float64
	heap        float64
	gcs, pauses float64 // totals; pauses in ns
}

func readRt() rtstat {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return rtstat{time.Now(), float64(runtime.NumGoroutine()), float64(runtime.NumCgoCall()), float64(m.HeapAlloc), float64(m.NumGC), float64(m.PauseTotalNs)}
}

// reading is a moment at which the agent read the runtime's figures.
type reading struct {
	pre, post rtstat
	at        time.Time
}

// expect is what a counter record must say.
type expect struct {
	what    string
	objName string
	vals    map[string][]span // alternatives
	active  []int64
}

func exact(f float64) []span {
	e := math.Abs(f) * 1e-5
	return []span{{f - e, f + e}}
}

func (e *expect) service(c *counter.ServiceCounter) {
	e.vals["GoTPS"] = exact(float64(c.Tps))
	e.vals["GoElapsedTime"] = exact(float64(c.Elapsed))
	e.vals["GoErrorRate"] = exact(float64(c.ErrorRate))
}

func (e *expect) runtime(cur reading, prev *reading) {
	slack := func(a, b, t float64) []span { return []span{{math.Min(a, b) - t, math.Max(a, b) + t}} }
	e.vals["Goroutine"] = slack(cur.pre.gor, cur.post.gor, 12)
	e.vals["GoCgoCall"] = slack(cur.pre.cgo, cur.post.cgo, 0)
	if cur.pre.gcs == cur.post.gcs {
		e.vals["GoHeapUsed"] = slack(cur.pre.heap, cur.post.heap, 1<<20)
	}
	if prev == nil {
		e.vals["GoGcCount"] = exact(0)
		e.vals["GoGcPause"] = exact(0)
		return
	}
	sec := cur.at.Sub(prev.at).Seconds()
	per := func(lo, hi, plo, phi float64) []span {
		a, b := (lo-phi)/sec, (hi-plo)/sec
		return []span{{a - math.Abs(a)*1e-5, b + math.Abs(b)*1e-5}}
	}
	e.vals["GoGcCount"] = per(cur.pre.gcs, cur.post.gcs, prev.pre.gcs, prev.post.gcs)
	e.vals["GoGcPause"] = per(cur.pre.pauses/1e6, cur.post.pauses/1e6, prev.pre.pauses/1e6, prev.post.pauses/1e6)
}

func number(v refwire.V) (float64, bool) {
	switch v.T {
	case refwire.TDec:
		return float64(v.I), true
	case refwire.TFloat:
		return float64(math.Float32frombits(uint32(v.F))), true
	case refwire.TDbl:
		return math.Float64frombits(v.F), true
	}
	return 0, false
}

// countsOff is how many of the last numbers of goroutines were off.
var countsOff int

func (e *expect) judge(p *refwire.Perf) error {
	if p.ObjName != e.objName {
		return fmt.Errorf("%s names the agent %q, expected %q", e.what, p.ObjName, e.objName)
	}
	for k, alts := range e.vals {
		v, ok := p.Data.M[k]
		if !ok {
			return fmt.Errorf("%s has no %s: %v", e.what, k, p.Data)
		}
		n, ok := number(v)
		good := false
		for _, s := range alts {
			good = good || ok && n >= s.lo && n <= s.hi
		}
		if k == "Goroutine" {
			// the runtime counts without stopping the goroutines: while it moves records of finished ones
			// from one list to another (32 at a time), a single count may be off
			if good {
				countsOff = 0
			} else if countsOff++; ok && countsOff < 3 && n >= alts[0].lo-40 && n <= alts[0].hi+40 {
				good = true
			}
		}
		if !good {
			return fmt.Errorf("%s has %s %v, expected %v", e.what, k, v, alts)
		}
	}
	if e.active != nil {
		v := p.Data.M["ActiveSpeed"]
		good := v.T == refwire.TList && len(v.L) == 3
		for i := 0; good && i < 3; i++ {
			n, ok := number(v.L[i])
			good = ok && n == float64(e.active[i])
		}
		if !good {
			return fmt.Errorf("%s has active services %v, expected %v", e.what, v, e.active)
		}
	}
	return nil
}

type c26op struct {
	k    string
	n, m int
	err  bool
	s    string
}

func (o c26op) String() string {
	s := fmt.Sprintf("%s %d", o.k, o.n)
	if o.m != 0 {
		s += fmt.Sprintf("/%d", o.m)
	}
	if o.err {
		s += " err"
	}
	return s + o.s
}

// ticker is the model of the counter task over the life of the process.
type ticker struct {
	t0      time.Time
	n       int // real-time records so far
	last    *reading
	direct  *reading
	samples []struct {
		sec int64
		v   float64
	}
	yellow, red int
	objName     string
	svcs        map[int]*svc
	rt, five    []*expect
	class       map[int]bool
	gcs         bool
}

func (k *ticker) avg(secs int64, skipLast bool) float64 {
	now := time.Now().Unix()
	sum, n := 0.0, 0.0
	for i, s := range k.samples {
		if s.sec > now-secs && s.sec <= now && !(skipLast && i == len(k.samples)-1) {
			sum += s.v
			n++
		}
	}
	if n == 0 {
		return 0
	}
	return sum / n
}

func (k *ticker) next() time.Time { return k.t0.Add(time.Duration(k.n+1) * 2 * time.Second) }

// advance lets time pass, through the records due meanwhile.
func (k *ticker) advance(d time.Duration) {
	target := time.Now().Add(d)
	for {
		tick := k.next()
		if target.Before(tick.Add(-2 * time.Millisecond)) {
			if d := time.Until(target); d > 0 {
				time.Sleep(d)
			}
			return
		}
		time.Sleep(time.Until(tick.Add(-time.Millisecond)))
		pre := readRt()
		time.Sleep(2 * time.Millisecond)
		cur := reading{pre, readRt(), tick}
		k.n++
		e := &expect{what: fmt.Sprintf("the real-time record after %d s", 2*k.n), objName: k.objName, vals: map[string][]span{}}
		e.runtime(cur, k.last)
		if k.last != nil && cur.pre.gcs > k.last.post.gcs {
			k.gcs = true
		}
		k.last = &cur
		e.service(counter.GetServiceMeter().GetAllCounter(30))
		e.active = []int64{0, 0, 0}
		for _, s := range k.svcs {
			ms := int(tick.Sub(s.start) / time.Millisecond)
			c := 2
			if ms <= k.yellow {
				c = 0
			} else if ms <= k.red {
				c = 1
			}
			e.active[c]++
			k.class[c] = true
		}
		k.samples = append(k.samples, struct {
			sec int64
			v   float64
		}{tick.Unix(), float64(len(k.svcs))})
		e.vals["GoActiveService"] = exact(k.avg(30, false))
		k.rt = append(k.rt, e)
		if k.n%5 == 0 {
			f := &expect{what: fmt.Sprintf("the five-minute record after %d s", 2*k.n), objName: k.objName, vals: map[string][]span{}}
			f.service(counter.GetServiceMeter().GetAllCounter(300))
			// both records are due: the sample of this moment may be in it already
			f.vals["GoActiveService"] = append(exact(k.avg(300, false)), exact(k.avg(300, true))...)
			k.five = append(k.five, f)
		}
	}
}

func TestC26Counters(t *testing.T) {
	w := newWorld(t)
	debug.SetGCPercent(-1)
	defer debug.SetGCPercent(100)
	hx.Rule("histories of up to 25 actions (recorded and real services, held goroutines, ballast, collections, C calls, renaming, new limits, single records) on a fake clock with the periodic records of up to 8 minutes; non-trivial: at least 3 real-time records and a five-minute record, services of two age classes or collections in between")
	host, err := os.Hostname()
	if err != nil {
		host = "unknown"
	}
	k := &ticker{svcs: map[int]*svc{}}
	if err := w.b.Run(func() {
		time.Sleep(time.Until(time.Now().Truncate(time.Second).Add(1500 * time.Millisecond)))
		k.t0 = time.Now()
		countertask.Start()
	}); err != nil {
		t.Fatal(err)
	}
	hx.Check(t, 120, 5000, func(rt *rapid.T) {
		var ops []c26op
		for i := rapid.IntRange(2, 25).Draw(rt, "n"); i > 0; i-- {
			o := c26op{k: rapid.SampledFrom([]string{"record", "record", "record", "start", "start", "end", "wait", "wait", "wait", "long", "hold", "release", "ballast", "drop", "gc", "gc", "cgo", "conf", "sendsvc", "sendgo", "get"}).Draw(rt, "op")}
			switch o.k {
			case "record":
				o.n = rapid.SampledFrom([]int{1, 1, 3, 20, 90}).Draw(rt, "rep")
				o.m = rapid.IntRange(0, 20000).Draw(rt, "ms")
				o.err = rapid.IntRange(0, 2).Draw(rt, "err") == 0
			case "start":
				o.n = rapid.SampledFrom([]int{1, 1, 2, 5, 40}).Draw(rt, "services")
			case "end":
				o.n = rapid.SampledFrom([]int{1, 1, 3, 100}).Draw(rt, "services")
			case "wait":
				o.n = rapid.IntRange(1, 12000).Draw(rt, "ms")
			case "long":
				o.n = rapid.OneOf(rapid.IntRange(20000, 70000), rapid.IntRange(280000, 340000)).Draw(rt, "ms")
			case "hold":
				o.n = rapid.IntRange(1, 400).Draw(rt, "goroutines")
			case "ballast":
				o.n = rapid.IntRange(2, 24).Draw(rt, "MB")
			case "gc":
				o.n = rapid.IntRange(1, 4).Draw(rt, "times")
			case "cgo":
				o.n = rapid.IntRange(1, 3000).Draw(rt, "calls")
			case "conf":
				o.n = rapid.SampledFrom([]int{3000, 1000, 6001, 0}).Draw(rt, "yellow")
				o.m = o.n + rapid.SampledFrom([]int{0, 5000, 1999}).Draw(rt, "red")
				o.s = rapid.SampledFrom([]string{"vt", "other", "näme 2"}).Draw(rt, "name")
			}
			ops = append(ops, o)
		}
		ops = append(ops, c26op{k: "wait", n: rapid.IntRange(2000, 12000).Draw(rt, "tail")})
		desc := fmt.Sprint(ops)
		hx.Journal(desc)
		k.rt, k.five, k.class, k.gcs = nil, nil, map[int]bool{}, false
		countsOff = 0
		conf := func(y, r int, name string) {
			k.yellow, k.red, k.objName = y, r, "/"+host+"/"+name
			w.configure(map[string]string{"trace_activeservice_yellow_time": fmt.Sprint(y), "trace_activeservice_red_time": fmt.Sprint(r), "obj_name": name,
				"stuck_service_base_time_ms": "100000000"})
		}
		conf(3000, 8000, "vt")
		runtime.GC()
		if err := w.b.Run(func() { k.advance(310 * time.Second) }); err != nil { // leave earlier cases behind
			rt.Fatalf("%v", err)
		}
		w.col.Sync()
		k.rt, k.five, k.class, k.gcs = nil, nil, map[int]bool{}, false
		w.col.Take()
		d0 := w.col.Drops()
		var held chan struct{}
		var ballast [][]byte
		var prevGet *gocounter.GoCounter
		var prevRead *reading
		id := 0
		var fail error
		step := func(o c26op) {
			switch o.k {
			case "record":
				for i := 0; i < o.n; i++ {
					counter.GetServiceMeter().Add(o.m+i, o.err)
				}
			case "start":
				for i := 0; i < o.n; i++ {
					id++
					k.svcs[id] = &svc{start: time.Now(), ctx: strace.StartService(base(), fmt.Sprintf("s%d", id), "10.0.0.1:80")}
				}
			case "end":
				for i := 0; i < o.n && len(k.svcs) > 0; i++ {
					for j := 0; j <= id; j++ {
						if s := k.svcs[j]; s != nil {
							strace.EndService(s.ctx)
							delete(k.svcs, j)
							break
						}
					}
				}
			case "wait", "long":
				k.advance(time.Duration(o.n) * time.Millisecond)
			case "hold":
				if held == nil {
					held = make(chan struct{})
				}
				for i := 0; i < o.n; i++ {
					go func(c chan struct{}) { <-c }(held)
				}
			case "release":
				if held != nil {
					close(held)
					held = nil
				}
			case "ballast":
				b := make([]byte, o.n<<20)
				for i := 0; i < len(b); i += 4096 {
					b[i] = 1
				}
				ballast = append(ballast, b)
			case "drop":
				ballast = nil
				runtime.GC()
			case "gc":
				for i := 0; i < o.n; i++ {
					runtime.GC()
				}
			case "cgo":
				cgocall.Do(o.n)
			case "sendsvc":
				k.advance(5 * time.Millisecond)
				e := &expect{what: "a service record", objName: k.objName, vals: map[string][]span{}}
				e.service(counter.GetServiceMeter().GetAllCounter(30))
				k.rt = append(k.rt, e)
				counter.SendServiceCounter()
				k.advance(5 * time.Millisecond)
			case "sendgo":
				k.advance(5 * time.Millisecond)
				pre := readRt()
				now := time.Now()
				counter.SendGoCounter()
				cur := reading{pre, readRt(), now}
				e := &expect{what: "a runtime record", objName: k.objName, vals: map[string][]span{}}
				e.runtime(cur, k.direct)
				k.direct = &cur
				k.rt = append(k.rt, e)
				k.advance(5 * time.Millisecond)
			case "get":
				k.advance(5 * time.Millisecond)
				pre := readRt()
				p := gocounter.GoCounter{}
				if prevGet != nil {
					p = *prevGet
				}
				now := time.Now()
				c := gocounter.GetGoCounter(p)
				cur := reading{pre, readRt(), now}
				e := &expect{what: "GetGoCounter", vals: map[string][]span{}}
				e.runtime(cur, prevRead)
				prevGet, prevRead = &c, &cur
				dbl := func(f float64) refwire.V { return refwire.V{T: refwire.TDbl, F: math.Float64bits(f)} }
				pk := &refwire.Perf{Data: refwire.V{M: map[string]refwire.V{"Goroutine": refwire.Dec64(int64(c.GoroutineNum)), "GoCgoCall": refwire.Dec64(c.CgoCallNum),
					"GoHeapUsed": refwire.Dec64(c.HeapAlloc), "GoGcCount": dbl(c.GcPerSec), "GoGcPause": dbl(c.GcPausePerSec)}}}
				if err := e.judge(pk); err != nil && fail == nil {
					fail = err
				}
			}
		}
		for i := 0; i < len(ops); {
			if ops[i].k == "conf" {
				conf(ops[i].n, ops[i].m, ops[i].s)
				i++
				continue
			}
			j := i
			for j < len(ops) && ops[j].k != "conf" {
				j++
			}
			if err := w.b.Run(func() {
				for ; i < j; i++ {
					step(ops[i])
					if runtime.NumGoroutine() > 20000 {
						panic("HARNESS-ERROR too many goroutines")
					}
				}
			}); err != nil {
				rt.Fatalf("%v\n%s", err, desc)
			}
		}
		g, err := w.collect(d0)
		nrt, nfive := len(k.rt), len(k.five)
		rts, fives := k.rt, k.five
		gcs, ages := k.gcs, len(k.class) > 1
		if e := w.b.Run(func() {
			if held != nil {
				close(held)
			}
			for _, s := range k.svcs {
				strace.EndService(s.ctx)
			}
			k.svcs = map[int]*svc{}
			ballast = nil
			runtime.GC()
			k.advance(2 * time.Second)
		}); e != nil {
			rt.Fatalf("%v\n%s", e, desc)
		}
		if len(k.samples) > 1000 {
			k.samples = append(k.samples[:0:0], k.samples[len(k.samples)-300:]...)
		}
		w.col.Sync()
		if errors.Is(err, errDropped) {
			hx.Discard()
			return
		}
		if err != nil {
			rt.Fatalf("%v\n%s", err, desc)
		}
		if fail == nil {
			fail = judgeCounters(g.others, rts, fives)
		}
		if fail != nil {
			rt.Fatalf("%v\n%s", fail, desc)
		}
		if gcs {
			hx.Label("collections between records")
		}
		if ages {
			hx.Label("services of several ages")
		}
		if strings.Contains(desc, "long") {
			hx.Label("five-minute windows")
		}
		hx.Case(desc, nrt >= 3 && nfive >= 1 && (gcs || ages))
	})
}

func judgeCounters(packs []any, rts, fives []*expect) error {
	i, j := 0, 0
	for _, p := range packs {
		p, ok := p.(*refwire.Perf)
		if !ok {
			continue
		}
		switch p.Timetype {
		case 1:
			if i == len(rts) {
				return fmt.Errorf("%d real-time records were due and another was sent: %v", i, p.Data)
			}
			if err := rts[i].judge(p); err != nil {
				return err
			}
			i++
		case 3:
			if j == len(fives) {
				return fmt.Errorf("%d five-minute records were due and another was sent: %v", j, p.Data)
			}
			if err := fives[j].judge(p); err != nil {
				return err
			}
			j++
		default:
			return fmt.Errorf("a record of time type %d", p.Timetype)
		}
	}
	if i != len(rts) || j != len(fives) {
		return fmt.Errorf("%d real-time and %d five-minute records were due, %d and %d were sent", len(rts), len(fives), i, j)
	}
	return nil
}
