package trace

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/tcpclient"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"pgregory.net/rapid"
	"verif/harness/hx"
	"verif/harness/refwire"
)

// encoded is the pack as the collector sees it.
func encoded(p netdata.Pack) (map[string]refwire.V, error) {
	out, err := netdata.NewDataOutputX(nil).WritePack(p)
	if err != nil {
		return nil, err
	}
	x, err := refwire.OnePack(out.Bytes())
	if err != nil {
		return nil, err
	}
	m, ok := x.(*refwire.Map)
	if !ok {
		return nil, fmt.Errorf("a %T", x)
	}
	return m.M.M, nil
}

// checkList compares the active-service listing, and the lookups, with the model.
func (r *runner) checkList() {
	m, err := encoded(tcpclient.GetActiveList())
	if err != nil {
		r.failf("the active-service list does not encode: %v", err)
		return
	}
	col := func(k string) []refwire.V {
		v, ok := m[k]
		if !ok || v.T != refwire.TList {
			r.failf("the active-service list has no list %q", k)
		}
		return v.L
	}
	want := map[string]string{}
	goids := map[string][]int64{}
	for _, s := range r.svcs {
		t := tctxmanager.GetTraceContextByTxid(s.txid)
		d, err := encoded(tcpclient.GetGoroutineDetail(func() netdata.Pack {
			p := netdata.NewMapPack()
			p.Put("txid", s.txid)
			return p
		}()))
		if err != nil {
			r.failf("the detail of a service does not encode: %v", err)
			return
		}
		if s.ended {
			if t != nil {
				r.failf("looking up the ended service %q (%s) found %v", s.name, s.kind, t)
			}
			if _, ok := d["Service Txid"]; ok {
				r.failf("the detail of the ended service %q: %v", s.name, d)
			}
			continue
		}
		if t != s.tctx {
			r.failf("looking up the running service %q (%s) found %v", s.name, s.kind, t)
		}
		if d["Service Txid"].S != idText(s.txid) || d["Service Name"].S != s.name || d["Service Elapsed"].I != int64(s.ms()) {
			r.failf("the detail of service %q (id %s, %d ms): %v", s.name, idText(s.txid), s.ms(), d)
		}
		ip, _, _ := strings.Cut(s.ip, ":")
		goids[idText(s.txid)] = s.goids
		want[idText(s.txid)] = fmt.Sprintf("%q %d %s", s.name, s.ms(), ip)
	}
	txid, service, elapsed, ip, id, name := col("txid"), col("service"), col("elapsed"), col("ip"), col("id"), col("name")
	for _, k := range []string{"stat", "cpu", "sql", "subcall", "service", "elapsed", "ip", "id", "name"} {
		if len(col(k)) != len(txid) {
			r.failf("the active-service list has %d %q entries and %d ids", len(col(k)), k, len(txid))
			return
		}
	}
	for i := range txid {
		k := txid[i].S
		if g := fmt.Sprintf("%q %d %s", service[i].S, elapsed[i].I, ip[i].S); want[k] != g {
			r.failf("the active-service list has %s: %s, expected %q", k, g, want[k])
		}
		if name[i].S != fmt.Sprintf("[goroutine] %d", id[i].I) {
			r.failf("the active-service list names goroutine %d %q", id[i].I, name[i].S)
		}
		if g := goids[k]; !slices.Contains(g, id[i].I) {
			r.failf("the active-service list gives service %s (%s) goroutine %d, it was started by %v", k, service[i].S, id[i].I, g)
		}
		delete(want, k)
	}
	for k, v := range want {
		r.failf("the active-service list of %d has no %s: %s", len(txid), k, v)
	}
	if m["complete"].String() != refwire.Bool(true).String() {
		r.failf("the active-service list is not marked complete: %v", m["complete"])
	}
}

type limits struct {
	yellow, red, stuck int
	remove, alert      bool
}

func TestC19Registry(t *testing.T) {
	hx.Rule("programs of up to 30 tracing calls over several kinds of services with listings, lookups and active counts in between, under generated limits; non-trivial: a count finds a service beyond the stuck limit, or services in two age classes")
	w := newWorld(t)
	m := mix{"http": 2, "app": 4, "child": 3, "inh": 1, "goraw": 1, "end": 4, "sleep": 7, "msg": 1, "err": 1, "name": 2, "nest": 1, "method": 1, "close": 1}
	hx.Check(t, 300, 8000, func(rt *rapid.T) {
		lim := limits{yellow: rapid.SampledFrom([]int{0, 1, 3000, 100, 50000}).Draw(rt, "yellow"), remove: rapid.Bool().Draw(rt, "remove"), alert: rapid.Bool().Draw(rt, "alert")}
		lim.red = lim.yellow + rapid.SampledFrom([]int{0, 1, 1000, 5000}).Draw(rt, "red")
		lim.stuck = rapid.SampledFrom([]int{0, 5, 1000, 100000, 300000, lim.red}).Draw(rt, "stuck")
		conf := map[string]string{"trace_activeservice_yellow_time": fmt.Sprint(lim.yellow), "trace_activeservice_red_time": fmt.Sprint(lim.red),
			"stuck_service_base_time_ms": fmt.Sprint(lim.stuck), "stuck_service_remove_enabled": fmt.Sprint(lim.remove), "stuck_service_alert_enabled": fmt.Sprint(lim.alert)}
		p := genPlan(rt, rapid.IntRange(3, 30).Draw(rt, "n"), m, false, 8)
		var ops []op
		for _, o := range p.ops {
			ops = append(ops, o)
			switch rapid.IntRange(0, 5).Draw(rt, "query") {
			case 0:
				ops = append(ops, op{k: "list", s: -1})
			case 1:
				ops = append(ops, op{k: "count", s: -1})
			case 2: // to the edge of a limit of some running service
				ops = append(ops, op{k: "edge", s: -1, n: rapid.IntRange(0, 20).Draw(rt, "which"), m: rapid.IntRange(0, 11).Draw(rt, "limit")}, op{k: "count", s: -1})
			}
		}
		ops = append(ops, op{k: "count", s: -1}, op{k: "list", s: -1})
		// services which are not sent when they end are active as others are
		discard := ""
		switch rapid.IntRange(0, 5).Draw(rt, "discard") {
		case 0:
			discard = "*"
		case 1:
			discard = rapid.SampledFrom([]string{"a*", "/*", "*b", "/a*,b*", "*<GET>"}).Draw(rt, "pattern")
		}
		conf["xlog_discard_service_patterns"] = discard
		conf["xlog_discard_service_show_error"] = "false"
		desc := fmt.Sprintf("%+v discard %q %v", lim, discard, ops)
		hx.Journal(desc)
		w.configure(conf)
		w.col.Take()
		d0 := w.col.Drops()
		r := &runner{w: w}
		xlogs := map[int64][]*refwire.Xlog{}
		nt, lost := false, false
		var fail error
		for i := 0; i < len(ops) && fail == nil && len(r.fails) == 0; {
			var stuck []*svc
			counted := false
			if err := w.b.Run(func() {
				for ; i < len(ops) && !counted; i++ {
					switch o := ops[i]; o.k {
					case "list":
						r.checkList()
					case "edge":
						var live []*svc
						for _, s := range r.svcs {
							if !s.ended {
								live = append(live, s)
							}
						}
						if len(live) > 0 {
							s := live[o.n%len(live)]
							at := []int{lim.yellow, lim.red, lim.stuck, lim.stuck}[o.m%4] + []int{0, 1, -1}[o.m/4]
							if d := at - int(s.ms()); d > 0 {
								r.exec(op{k: "sleep", n: d})
							}
						}
					case "count":
						counted = true
						var want [3]int64
						for _, s := range r.svcs {
							if s.ended {
								continue
							}
							e := int(s.ms())
							switch {
							case e <= lim.yellow:
								want[0]++
							case e <= lim.red:
								want[1]++
							default:
								want[2]++
							}
							if e > lim.stuck {
								stuck = append(stuck, s)
								s.elapsed = s.ms()
							}
						}
						if want[0] > 0 && want[1]+want[2] > 0 || len(stuck) > 0 {
							nt = true
						}
						if n := tctxmanager.GetActiveCount(); n != want {
							r.failf("the active counts are %v, expected %v", n, want)
						}
						if lim.remove {
							for _, s := range stuck {
								s.ended = true
								s.stuck = true
							}
						}
					default:
						r.exec(o)
						synctest.Wait()
					}
				}
				if counted {
					r.checkList()
				}
				synctest.Wait()
			}); err != nil {
				rt.Fatalf("%v\n%s", err, desc)
			}
			if !counted {
				break
			}
			g, err := w.collect(d0)
			if errors.Is(err, errDropped) {
				lost = true
				break
			}
			if err != nil {
				fail = err
				break
			}
			for id, l := range g.xlogs {
				xlogs[id] = append(xlogs[id], l...)
			}
			fail = judgeAlerts(g.alerts, stuck, lim)
		}
		var rest *got
		if fail == nil && len(r.fails) == 0 && !lost {
			if err := w.b.Run(settle); err != nil {
				rt.Fatalf("%v\n%s", err, desc)
			}
			var err error
			if rest, err = w.collect(d0); errors.Is(err, errDropped) {
				lost = true
			} else if err != nil {
				fail = err
			} else {
				if len(rest.alerts) > 0 {
					fail = fmt.Errorf("an alert without a count: %+v", rest.alerts[0])
				}
				for id, l := range rest.xlogs {
					xlogs[id] = append(xlogs[id], l...)
				}
			}
		}
		// end the rest
		w.configure(nil)
		if err := w.b.Run(r.finish); err != nil {
			rt.Fatalf("%v\n%s", err, desc)
		}
		d1 := w.col.Drops()
		after, err := w.collect(d1)
		if errors.Is(err, errDropped) {
			lost = true
		}
		if fail == nil && len(r.fails) > 0 {
			fail = errors.New(r.fails[0])
		}
		if fail == nil && lost {
			hx.Discard()
			return
		}
		if fail == nil && err != nil {
			fail = err
		}
		if fail == nil {
			for _, s := range r.svcs {
				n, total := 0, 1
				if s.ended {
					n = 1
					if matches(discard, s.name) {
						n, total = 0, 0
					}
				}
				if len(xlogs[s.txid]) != n || len(xlogs[s.txid])+len(after.xlogs[s.txid]) != total {
					fail = fmt.Errorf("service %q (%s, ended %v, stuck %v) has %d xlogs, and %d after everything ended", s.name, s.kind, s.ended, s.stuck, len(xlogs[s.txid]), len(after.xlogs[s.txid]))
					break
				}
				if n == 0 {
					continue
				}
				x := xlogs[s.txid][0]
				if x.Elapsed != s.elapsed {
					fail = fmt.Errorf("service %q (%s, stuck %v) has an xlog with %d ms, expected %d", s.name, s.kind, s.stuck, x.Elapsed, s.elapsed)
				}
				if x.Error != s.err && !(s.stuck && s.err == 0 && x.Error != 0) {
					fail = fmt.Errorf("service %q (%s, stuck %v) has an xlog with error %d, expected %d", s.name, s.kind, s.stuck, x.Error, s.err)
				}
			}
		}
		if fail == nil {
			// nothing is left
			if err := w.b.Run(func() {
				if n := tctxmanager.GetActiveCount(); n != [3]int64{} || len(tctxmanager.GetAllTctx()) != 0 {
					fail = fmt.Errorf("all services have ended, and %v are active (%d listed)", n, len(tctxmanager.GetAllTctx()))
				}
			}); err != nil {
				fail = err
			}
		}
		if fail != nil {
			rt.Fatalf("%v\n%s", fail, desc)
		}
		hx.Case(desc, nt)
	})
}

// judgeAlerts compares the alerts of one count with the services found stuck.
func judgeAlerts(as []*refwire.Alert, stuck []*svc, lim limits) error {
	taken := map[*svc]bool{}
	for _, a := range as {
		level := byte(1)
		if lim.alert {
			level = 2
		}
		if a.Level != level || a.ObjHash != objHash() {
			return fmt.Errorf("an alert of level %d from agent %d, expected %d from %d", a.Level, a.ObjHash, level, objHash())
		}
		clean := true
		for _, s := range stuck {
			clean = clean && !strings.Contains(s.name, "%")
		}
		if clean && strings.Contains(a.Message, "%!") {
			return fmt.Errorf("a garbled alert: %q", a.Message)
		}
	}
	// each alert names another stuck service
	var assign func(i int) bool
	assign = func(i int) bool {
		if i == len(as) {
			return true
		}
		for _, s := range stuck {
			if !taken[s] && strings.Contains(as[i].Message, s.name) && hasNumber(as[i].Message, s.elapsed) {
				taken[s] = true
				if assign(i + 1) {
					return true
				}
				delete(taken, s)
			}
		}
		return false
	}
	if !assign(0) {
		l := ""
		for _, a := range as {
			l += fmt.Sprintf("%q ", a.Message)
		}
		n := ""
		for _, s := range stuck {
			n += fmt.Sprintf("%q %d ms ", s.name, s.elapsed)
		}
		return fmt.Errorf("the alerts %sdo not name the stuck services %s", l, n)
	}
	var left []*svc
	for _, s := range stuck {
		if !taken[s] {
			left = append(left, s)
		}
	}
	for _, s := range left {
		if s.warned && !s.stuck { // it was reported before, and is left running
			continue
		}
		return fmt.Errorf("no alert about the service %q, running for %d ms", s.name, s.elapsed)
	}
	for _, s := range stuck {
		s.warned = true
	}
	return nil
}

func hasNumber(text string, n int32) bool {
	for _, f := range strings.FieldsFunc(text, func(c rune) bool { return c < '0' || c > '9' }) {
		if f == fmt.Sprint(n) {
			return true
		}
	}
	return false
}

// TestC19Race counts and lists active services while others start and end.
func TestC19Race(t *testing.T) {
	hx.Rule("services started and ended by several goroutines while active services are counted (with removal of stuck ones) and listed; non-trivial: every case")
	w := newWorld(t)
	hx.Check(t, 20, 300, func(rt *rapid.T) {
		g := rapid.IntRange(2, 5).Draw(rt, "goroutines")
		n := rapid.IntRange(20, 120).Draw(rt, "services")
		stuck := rapid.Bool().Draw(rt, "stuck")
		desc := fmt.Sprintf("%d goroutines of %d services, stuck %v", g, n, stuck)
		hx.Journal(desc)
		limit := "300000"
		if stuck {
			limit = "5"
		}
		w.configure(map[string]string{"stuck_service_base_time_ms": limit})
		w.col.Take()
		d0 := w.col.Drops()
		ids := make([][]int64, g)
		var bad atomic.Value
		if err := w.b.Run(func() {
			kept := make([][]context.Context, g)
			for k := 0; k < g; k++ {
				for i := 0; i < n; i++ {
					ctx := strace.StartService(context.Background(), "race", "1.1.1.1")
					kept[k] = append(kept[k], ctx)
					ids[k] = append(ids[k], tctxmanager.GetTraceContext(ctx).Txid)
				}
			}
			time.Sleep(10 * time.Millisecond)
			var wg sync.WaitGroup
			var ready atomic.Int32
			for k := 0; k <= g; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					ready.Add(1)
					for spin := 0; ready.Load() <= int32(g); spin++ {
						if spin%1000 == 999 {
							runtime.Gosched()
						}
					}
					if k == g {
						for i := 0; i < 4; i++ {
							c := tctxmanager.GetActiveCount()
							if s := c[0] + c[1] + c[2]; s < 0 || s > int64(2*g*n) {
								bad.Store(fmt.Sprintf("active counts %v", c))
							}
							if _, err := encoded(tcpclient.GetActiveList()); err != nil {
								bad.Store(err.Error())
							}
						}
						return
					}
					for i := 0; i < n; i++ {
						strace.EndService(kept[k][i])
						if i%3 == 0 {
							ctx := strace.StartService(context.Background(), "race2", "1.1.1.1")
							ids[k] = append(ids[k], tctxmanager.GetTraceContext(ctx).Txid)
							strace.EndService(ctx)
						}
					}
				}()
			}
			wg.Wait()
			if l := len(tctxmanager.GetAllTctx()); l != 0 {
				bad.Store(fmt.Sprintf("all services have ended and %d are listed", l))
			}
			settle()
		}); err != nil {
			rt.Fatalf("%v\n%s", err, desc)
		}
		got, err := w.collect(d0)
		if errors.Is(err, errDropped) {
			hx.Discard()
			return
		}
		if err == nil && bad.Load() != nil {
			err = errors.New(bad.Load().(string))
		}
		if err != nil {
			rt.Fatalf("%v\n%s", err, desc)
		}
		for _, l := range ids {
			for _, id := range l {
				if k := len(got.xlogs[id]); k != 1 {
					rt.Fatalf("a service ended while active services were counted has %d xlogs\n%s", k, desc)
				}
			}
		}
		hx.Case(desc, true)
	})
}

// TestC19Crowd has hundreds to thousands of services running at once.
func TestC19Crowd(t *testing.T) {
	hx.Rule("up to 2000 services running at once, started in groups of different ages, counted, listed and looked up, some ended in between, the oldest perhaps stuck; non-trivial: more than 500 at once")
	w := newWorld(t)
	hx.Check(t, 12, 200, func(rt *rapid.T) {
		total := rapid.OneOf(rapid.IntRange(300, 2000), rapid.SampledFrom([]int{2000, 2000, 1999, 1001})).Draw(rt, "services")
		groups := rapid.IntRange(1, 6).Draw(rt, "groups")
		var gap []int
		for i := 0; i < groups; i++ {
			gap = append(gap, rapid.SampledFrom([]int{0, 1, 50, 100, 101, 500, 1000, 5000}).Draw(rt, "gap"))
		}
		lim := limits{yellow: 100, red: 1000, stuck: rapid.SampledFrom([]int{300000, 300000, 1500, 5000}).Draw(rt, "stuck"), remove: rapid.Bool().Draw(rt, "remove")}
		step := rapid.IntRange(2, 9).Draw(rt, "every") // one in so many ends
		desc := fmt.Sprintf("%d services in groups with %v ms after each, %+v, one in %d ends", total, gap, lim, step)
		hx.Journal(desc)
		w.configure(map[string]string{"trace_activeservice_yellow_time": "100", "trace_activeservice_red_time": "1000", "stuck_service_base_time_ms": fmt.Sprint(lim.stuck),
			"stuck_service_remove_enabled": fmt.Sprint(lim.remove)})
		w.col.Take()
		var fail error
		failf := func(f string, a ...any) {
			if fail == nil {
				fail = fmt.Errorf(f, a...)
			}
		}
		if err := w.b.Run(func() {
			type run struct {
				ctx   context.Context
				t     *netio.TraceContext
				name  string
				start time.Time
				gone  bool
			}
			var all []*run
			judge := func(when string) {
				var want [3]int64
				live := map[string]*run{}
				var stuck []*run
				for _, s := range all {
					if s.gone {
						continue
					}
					live[idText(s.t.Txid)] = s
					switch e := int(time.Since(s.start) / time.Millisecond); {
					case e <= lim.yellow:
						want[0]++
					case e <= lim.red:
						want[1]++
					default:
						want[2]++
						if e > lim.stuck {
							stuck = append(stuck, s)
						}
					}
				}
				if len(live) > 0 && len(live) <= 2000 {
					if n := tctxmanager.GetActiveCount(); n != want {
						failf("%s: the active counts are %v, expected %v", when, n, want)
					}
				}
				if lim.remove {
					for _, s := range stuck {
						s.gone = true
						delete(live, idText(s.t.Txid))
					}
				}
				for _, s := range all {
					got := tctxmanager.GetTraceContextByTxid(s.t.Txid)
					if s.gone && got != nil {
						failf("%s: looking up the ended service %s found it", when, s.name)
					}
					if !s.gone && got != s.t {
						failf("%s: looking up the running service %s found %v", when, s.name, got)
					}
				}
				m, err := encoded(tcpclient.GetActiveList())
				if err != nil {
					failf("%s: the active-service list does not encode: %v", when, err)
					return
				}
				ids, names, ages := m["txid"].L, m["service"].L, m["elapsed"].L
				if len(ids) != len(live) || len(names) != len(ids) || len(ages) != len(ids) {
					failf("%s: the active-service list has %d ids, %d names, %d ages, and %d services run", when, len(ids), len(names), len(ages), len(live))
					return
				}
				for i := range ids {
					s := live[ids[i].S]
					if s == nil {
						failf("%s: the active-service list has %s twice or after its end", when, ids[i].S)
					} else if names[i].S != s.name || ages[i].I != int64(time.Since(s.start)/time.Millisecond) {
						failf("%s: the active-service list has %q, %d ms for %q, started %v ago", when, names[i].S, ages[i].I, s.name, time.Since(s.start))
					}
					delete(live, ids[i].S)
				}
			}
			for i := 0; i < total; i++ {
				s := &run{name: fmt.Sprintf("crowd-%d", i%700), start: time.Now()}
				s.ctx = strace.StartService(context.Background(), s.name, "1.1.1.1")
				s.t = tctxmanager.GetTraceContext(s.ctx)
				all = append(all, s)
				if (i+1)%(total/groups+1) == 0 {
					time.Sleep(time.Duration(gap[i/(total/groups+1)]) * time.Millisecond)
				}
			}
			time.Sleep(time.Duration(gap[groups-1]) * time.Millisecond)
			judge("all started")
			for i, s := range all {
				if i%step == 0 {
					strace.EndService(s.ctx)
					s.gone = true
				}
			}
			judge("some ended")
			time.Sleep(1200 * time.Millisecond)
			judge("older")
			for _, s := range all {
				strace.EndService(s.ctx)
				s.gone = true
			}
			judge("all ended")
			settle()
			if n := tctxmanager.GetActiveCount(); n != [3]int64{} {
				failf("all services have ended, and %v are active", n)
			}
		}); err != nil {
			rt.Fatalf("%v\n%s", err, desc)
		}
		w.configure(nil)
		w.col.Take()
		if fail != nil {
			rt.Fatalf("%v\n%s", fail, desc)
		}
		hx.Case(desc, total > 500)
	})
}
