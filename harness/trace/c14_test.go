package trace

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"pgregory.net/rapid"
	"verif/harness/hx"
	"verif/harness/refwire"
)

func ipBytes(addr string) string {
	h, _, _ := strings.Cut(addr, ":")
	var a, b, c, d int
	if n, _ := fmt.Sscanf(h, "%d.%d.%d.%d", &a, &b, &c, &d); n != 4 {
		return "\x00\x00\x00\x00"
	}
	return string([]byte{byte(a), byte(b), byte(c), byte(d)})
}

// judgeXlog compares a finished service's xlog with the model.
func judgeXlog(s *svc, x *refwire.Xlog) error {
	var bad []string
	cmp := func(what string, want, got any) {
		if want != got {
			bad = append(bad, fmt.Sprintf("%s is %v, expected %v", what, got, want))
		}
	}
	cmp("transaction id", s.txid, x.Txid)
	cmp("agent hash", objHash(), x.ObjHash)
	cmp(fmt.Sprintf("service hash (of %q)", s.name), crc(s.name), x.Service)
	cmp("type", s.xtype, x.XType)
	cmp("elapsed", s.elapsed, x.Elapsed)
	cmp("error", s.err, x.Error)
	cmp("status", s.status, x.Status)
	ip := x.Ipaddr
	if ip == "" {
		ip = "\x00\x00\x00\x00"
	}
	cmp("address (of "+s.ip+")", fmt.Sprint([]byte(ipBytes(s.ip))), fmt.Sprint([]byte(ip)))
	cmp("user agent", s.ua, x.UserAgent)
	cmp("referer", s.ref, x.Referer)
	cmp("API-call count", s.acount, x.ApicallCount)
	cmp("API-call time", s.atime, x.ApicallTime)
	cmp("SQL count and time", s.sql, [2]int32{x.SqlCount, x.SqlTime})
	cmp("user id", s.user, x.Userid)
	cmp("login", crc(s.login), x.Login)
	cmp("description", crc(s.desc), x.Desc)
	cmp("texts", s.text, [5]string{x.Text1, x.Text2, x.Text3, x.Text4, x.Text5})
	if bad != nil {
		return fmt.Errorf("xlog of %s %q: %s", s.kind, s.name, strings.Join(bad, "; "))
	}
	return nil
}

func TestC14Xlog(t *testing.T) {
	hx.Rule("programs of up to 30 tracing calls over several interleaved web, application and goroutine services, with calls after ends and second ends; non-trivial: two services ended, or one ended after attribute changes")
	w := newWorld(t)
	m := mix{"http": 3, "app": 3, "child": 2, "nest": 1, "end": 6, "sleep": 4, "msg": 1, "method": 1, "api": 3, "prop": 1, "close": 5, "err": 2, "errf": 1, "name": 2, "fields": 2, "pmsg": 1, "stream": 1}
	hx.Check(t, 400, 10000, func(rt *rapid.T) {
		conf := map[string]string{}
		if rapid.Bool().Draw(rt, "ipheader") {
			conf["trace_http_client_ip_header_key"] = "X-Client-Ip"
		}
		p := genPlan(rt, rapid.IntRange(4, 40).Draw(rt, "n"), m, true, 6)
		desc := fmt.Sprint(conf, " ", p)
		hx.Journal(desc)
		r, g, err := w.execute(p, conf)
		if errors.Is(err, errDropped) {
			hx.Discard()
			return
		}
		if err == nil && len(r.fails) > 0 {
			err = errors.New(r.fails[0])
		}
		n := 0
		if err == nil {
			for _, s := range r.svcs {
				x, e := g.one(s)
				if e == nil && x != nil {
					n++
					e = judgeXlog(s, x)
					delete(g.xlogs, s.txid)
				}
				if e != nil {
					err = e
					break
				}
			}
		}
		if err == nil && len(g.xlogs) > 0 {
			err = fmt.Errorf("xlogs of %d unknown transactions", len(g.xlogs))
		}
		if err != nil {
			rt.Fatalf("%v\n%s", err, desc)
		}
		hx.Case(desc, n >= 2 || n == 1 && len(p.ops) >= 5)
	})
}

// TestC14Race ends services from several goroutines at once.
func TestC14Race(t *testing.T) {
	hx.Rule("batches of services, each ended by 2 to 4 goroutines at the same time; non-trivial: every batch")
	w := newWorld(t)
	hx.Check(t, 25, 400, func(rt *rapid.T) {
		n := rapid.IntRange(100, 300).Draw(rt, "services")
		g := rapid.IntRange(2, 4).Draw(rt, "goroutines")
		kind := rapid.IntRange(0, 1).Draw(rt, "kind")
		steps := rapid.IntRange(0, 5).Draw(rt, "steps")
		w.configure(nil)
		w.col.Take()
		d0 := w.col.Drops()
		var txids []int64
		if err := w.b.Run(func() {
			for i := 0; i < n; i++ {
				ctx := strace.StartService(context.Background(), fmt.Sprintf("race%d", i%5), "1.2.3.4")
				txids = append(txids, tctxmanager.GetTraceContext(ctx).Txid)
				for k := 0; k < steps; k++ {
					strace.AddMessageStep(ctx, "s")
				}
				var wg sync.WaitGroup
				var ready atomic.Int32
				for k := 0; k < g; k++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						ready.Add(1)
						for spin := 0; ready.Load() < int32(g); spin++ {
							if spin%1000 == 999 {
								runtime.Gosched()
							}
						}
						if kind == 0 || k%2 == 0 {
							strace.EndService(ctx)
						} else {
							strace.EndHttpService(ctx, nil, nil)
						}
					}()
				}
				wg.Wait()
			}
			settle()
		}); err != nil {
			rt.Fatalf("%v", err)
		}
		got, err := w.collect(d0)
		if errors.Is(err, errDropped) {
			hx.Discard()
			return
		}
		if err != nil {
			rt.Fatalf("%v", err)
		}
		for _, id := range txids {
			if k := len(got.xlogs[id]); k != 1 {
				rt.Fatalf("a service ended by %d goroutines at once has %d xlogs", g, k)
			}
		}
		hx.Case(fmt.Sprintf("%d services, %d goroutines, kind %d, %d steps", n, g, kind, steps), true)
	})
}
