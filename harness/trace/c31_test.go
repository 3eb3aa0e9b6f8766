package trace

import (
	"context"
	"fmt"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/dump"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/tcpclient"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"pgregory.net/rapid"
	"verif/harness/fc"
	"verif/harness/foot"
	"verif/harness/hx"
)

func TestC31Traced(t *testing.T) {
	hx.Rule("a history of up to 40 tracing calls, listings, dumps, profiles and changes of the collector's address is repeated with fresh texts; judged: no descriptors, goroutines or active services more than before, and a heap that does not grow with the repetitions; non-trivial: at least two services and five further calls")
	w := newWorld(t)
	other, err := fc.NewUDP(0)
	if err != nil {
		t.Fatalf("HARNESS-ERROR %v", err)
	}
	debug.SetMemoryLimit(3 << 30)
	m := mix{"http": 3, "app": 3, "child": 3, "inh": 2, "goraw": 1, "end": 4, "sleep": 2, "msg": 3, "hmsg": 2, "pmsg": 2, "add": 1, "method": 4, "api": 3, "prop": 2, "close": 5, "err": 2, "errf": 1, "name": 1, "nest": 1, "fields": 2}
	hx.Check(t, 12, 400, func(rt *rapid.T) {
		p := genPlan(rt, rapid.IntRange(3, 40).Draw(rt, "n"), m, true, 8)
		var ops []op
		svcs, calls := 0, 0
		for _, o := range p.ops {
			if o.k == "http" || o.k == "app" || o.k == "child" || o.k == "inh" {
				svcs++
			} else {
				calls++
			}
			ops = append(ops, o)
			if rapid.IntRange(0, 5).Draw(rt, "more") == 0 {
				ops = append(ops, op{k: rapid.SampledFrom([]string{"list", "count", "alert", "files", "dump", "block", "mutex", "blockbin", "mutexbin", "reset", "move", "size"}).Draw(rt, "what"), s: -1, n: rapid.IntRange(0, 3).Draw(rt, "arg")})
			}
		}
		conf := map[string]string{}
		for _, c := range [][2]string{{"xlog_sampling_enabled", "true"}, {"xlog_discard_service_patterns", "/*"}, {"profile_http_header_enabled", "true"}, {"profile_step_max_keep_in_memory_count", "3"},
			{"profile_http_querystring_enabled", "true"}, {"stuck_service_base_time_ms", "10"}, {"stuck_service_remove_enabled", "false"}, {"trace_obj_send", "true"}} {
			if rapid.IntRange(0, 3).Draw(rt, c[0]) == 0 {
				conf[c[0]] = c[1]
			}
		}
		desc := fmt.Sprintf("%v %v", conf, ops)
		hx.Journal(desc)
		w.configure(conf)
		if rapid.Bool().Draw(rt, "cancellable") { // by nobody until all is judged
			desc += " in a context that can be cancelled"
			if err := w.b.Run(func() {
				c, cancel := context.WithCancel(context.Background())
				c.Done()
				root = c
				rt.Cleanup(func() {
					root = context.Background()
					w.b.Run(cancel)
				})
			}); err != nil {
				rt.Fatalf("%v", err)
			}
		}
		round := 0
		run := func(n int) {
			for ; n > 0; n-- {
				round++
				mark := strconv.Itoa(round)
				r := &runner{w: w, conf: conf, hdrOn: conf["profile_http_header_enabled"] == "true", qryOn: conf["profile_http_querystring_enabled"] == "true"}
				if err := w.b.Run(func() {
					for _, o := range ops {
						if round > 8 && strings.HasPrefix(o.k, "block") || round > 8 && strings.HasPrefix(o.k, "mutex") {
							continue // the runtime's own profiling keeps more and more
						}
						switch o.k {
						case "list":
							tcpclient.GetActiveList()
						case "count":
							tctxmanager.GetActiveCount()
						case "alert":
							netio.SendAlert(netdata.AlertInfo, "title"+mark, "text"+mark)
						case "files":
							dump.ListDumpFiles()
							dump.ListBinaryDumpFiles()
							out := netdata.NewDataOutputX(nil)
							dump.DownloadBinaryDumpFiles(out, "none.pprof")
							dump.DeleteBinaryDumpFiles("none.pprof")
						case "dump":
							dump.HeavyAllStackTrace()
						case "block":
							dump.ProfileBlock(o.n, 1000, 1)
						case "mutex":
							dump.ProfileMutex(o.n, 5, 1)
						case "blockbin":
							dump.ProfileBlockBinaryDump(o.n, 1000)
						case "mutexbin":
							dump.ProfileMutexBinaryDump(o.n, 5)
						case "reset":
							if o.n == 0 && round%50 == 0 { // and then the memories fill again
								break
							}
							tcpclient.GetGoroutineDetail(netdata.NewMapPack())
						case "move", "size":
							c := map[string]string{}
							for k, v := range conf {
								c[k] = v
							}
							if round%2 == 0 && o.k == "move" {
								c["net_collector_udp_port"] = strconv.Itoa(other.Port)
							} else if round%2 == 0 {
								c["udp_max_bytes"] = strconv.Itoa(2000 + o.n)
							}
							w.configure(c)
							time.Sleep(1500 * time.Millisecond)
						default:
							o.a = vary(o.a, mark)
							r.exec(o)
						}
					}
					settle()
					r.finish()
					time.Sleep(3 * time.Second)
					synctest.Wait()
				}); err != nil {
					rt.Fatalf("%v\n%s", err, desc)
				}
				w.configure(conf)
				w.b.Run(settle)
				w.forget(w.col)
				w.forget(other)
			}
		}
		run(2)
		old := debug.SetGCPercent(-1) // what is forgotten stays open
		f0, g0 := foot.Files(), foot.Goroutines()
		run(6)
		f1, g1 := foot.Files(), foot.Goroutines()
		debug.SetGCPercent(old)
		if l := foot.More(f0, f1); l != "" {
			rt.Fatalf("after six repetitions the process has open %s\n%s", l, desc)
		}
		if l := foot.More(g0, g1); l != "" {
			rt.Fatalf("after six repetitions the agent has goroutines %s\n%s", l, desc)
		}
		if n := len(tctxmanager.GetAllTctx()); n != 0 {
			rt.Fatalf("%d services are active when all have ended\n%s", n, desc)
		}
		heap := func() int64 {
			if err := w.b.Run(netio.ResetTextSent); err != nil { // a memory of bounded size, judged elsewhere
				rt.Fatalf("%v\n%s", err, desc)
			}
			return foot.Heap()
		}
		// What is kept of every repetition makes every interval end higher; one interval may end higher for reasons
		// of the runtime (a table that doubled), a row of eight does not.
		h := []int64{heap()}
		for len(h) < 9 {
			run(60)
			h = append(h, heap())
			if d := h[len(h)-1] - h[len(h)-2]; d < 28<<10 {
				break
			}
		}
		if len(h) == 9 && h[8]-h[7] >= 28<<10 {
			rt.Fatalf("each of eight times sixty repetitions left the heap larger: %v\n%s", h, desc)
		}
		hx.Case(desc, svcs > 1 && calls >= 5)
	})
}

// forget drops what a collector has received.
func (w *world) forget(u *fc.UDP) {
	if err := u.Sync(); err != nil {
		hx.Inconclusive("%v", err)
	}
	u.Take()
}

// vary makes a text of every round's own, all of one size class.
func vary(s, mark string) string {
	if len(s) > 40 {
		s = s[:40]
	}
	return fmt.Sprintf("%s %*s", s, 55-len(s), mark)
}

// texts are the agent's memories of texts sent, each of a bounded size.
var texts = map[string]func(string) int32{
	"service": netio.SendServiceName, "hashed": netio.SendHashedMessage, "object": netio.SendObjName, "referer": netio.SendReferer,
	"agent": netio.SendUserAgent, "method": netio.SendMethod, "apicall": netio.SendApicall, "error": netio.SendError,
	"login": netio.SendLogin, "desc": netio.SendDesc, "element": netio.SendStackElement,
	"service never ended": func(s string) int32 {
		strace.StartService(context.Background(), s, "10.0.0.1")
		return 0
	},
}

func TestC31Texts(t *testing.T) {
	hx.Rule("up to three kinds of text, each with tens of thousands of distinct texts, or services never ended, beyond what the agent remembers; judged: the heap stops growing; non-trivial: at least two kinds")
	w := newWorld(t)
	debug.SetMemoryLimit(3 << 30)
	var kinds []string
	for k := range texts {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	hx.Check(t, 3, 30, func(rt *rapid.T) {
		ks := rapid.SliceOfNDistinct(rapid.SampledFrom(kinds), 1, 3, rapid.ID[string]).Draw(rt, "kinds")
		size := rapid.SampledFrom([]int{12, 60, 300}).Draw(rt, "length")
		again := rapid.IntRange(0, 40).Draw(rt, "repeated")
		desc := fmt.Sprintf("kinds %v, texts of %d bytes, %d of a hundred sent before", ks, size, again)
		hx.Journal(desc)
		w.configure(map[string]string{})
		n := 0
		fill := func(max int) {
			for n < max {
				if err := w.b.Run(func() {
					for i := 0; i < 1000; i++ {
						m := n
						if n%100 < again {
							m = n - 50
						}
						for _, k := range ks {
							texts[k](fmt.Sprintf("%s %d %*s", k, m, size, "x"))
						}
						n++
					}
					settle()
				}); err != nil {
					rt.Fatalf("%v\n%s", err, desc)
				}
				w.forget(w.col)
			}
		}
		if err := w.b.Run(netio.ResetTextSent); err != nil {
			rt.Fatalf("%v\n%s", err, desc)
		}
		fill(24000)
		h0 := foot.Heap()
		fill(72000)
		h1 := foot.Heap()
		// a table of what is remembered may double once more
		if h1-h0 > int64(len(ks))*1200<<10 {
			rt.Fatalf("%d further texts of each kind left the heap %d bytes larger: there is no bound on what is remembered\n%s", 48000, h1-h0, desc)
		}
		if err := w.b.Run(netio.ResetTextSent); err != nil {
			rt.Fatalf("%v\n%s", err, desc)
		}
		for _, c := range tctxmanager.GetAllTctx() {
			tctxmanager.End(c.(*netio.TraceContext))
		}
		hx.Case(desc, len(ks) > 1)
	})
}
