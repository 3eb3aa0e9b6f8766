package tcp

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/factory/channelfactory"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/dump"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/tcpclient"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/task/agenttask"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/task/countertask"
	"pgregory.net/rapid"
	"verif/harness/fc"
	"verif/harness/hx"
	"verif/harness/refwire"
)

// A host program: goroutines, each with its own services and a hand in those of the others, and the agent's
// own tasks beside them.
type rop struct {
	K string // what
	S int    // on the service of this slot
	N int
	T string
}

type raceplan struct {
	Sim     bool // simulated clock with the periodic tasks, or real time with a command connection
	Threads [][]rop
	Cmds    []string // real time: the commands
	Conf    []string
}

func (p raceplan) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "simulated=%v conf=%v commands=%v", p.Sim, p.Conf, p.Cmds)
	for i, t := range p.Threads {
		fmt.Fprintf(&b, "\n%d:", i)
		for _, o := range t {
			fmt.Fprintf(&b, " %s(%d,%d,%q)", o.K, o.S, o.N, o.T)
		}
	}
	return b.String()
}

var raceOps = []string{"app", "http", "app", "http", "msg", "msg", "hmsg", "pmsg", "method", "method", "param", "api", "prop", "err", "errf", "rename", "go", "go", "inherit",
	"end", "end", "list", "list", "detail", "count", "reset", "alert", "files", "cpu", "dump", "sleep", "sleep", "yield"}

func genRace(rt *rapid.T) raceplan {
	p := raceplan{Sim: rapid.IntRange(0, 2).Draw(rt, "sim") > 0}
	for i := rapid.IntRange(2, 6).Draw(rt, "threads"); i > 0; i-- {
		var t []rop
		for j := rapid.IntRange(3, 40).Draw(rt, "ops"); j > 0; j-- {
			t = append(t, rop{rapid.SampledFrom(raceOps).Draw(rt, "op"), rapid.IntRange(0, 2).Draw(rt, "slot"), rapid.IntRange(0, 8).Draw(rt, "n"),
				rapid.SampledFrom(raceTexts).Draw(rt, "text")})
		}
		p.Threads = append(p.Threads, t)
	}
	if !p.Sim {
		p.Cmds = rapid.SliceOfN(rapid.SampledFrom([]string{"OBJECT_ACTIVE_SERVICE_LIST", "OBJECT_ACTIVE_SERVICE_LIST", "OBJECT_THREAD_DETAIL", "OBJECT_ENV", "OBJECT_DUMP_FILE_LIST",
			"OBJECT_LIST_HEAP_DUMP", "LIST_CONFIGURE_WAS", "GET_CONFIGURE_WAS", "OBJECT_RESET_CACHE", "OBJECT_CALL_BLOCK_PROFILE", "TRIGGER_MUTEX_PROFILE", "TRIGGER_THREAD_DUMP", "KEEP_ALIVE"}), 2, 12).Draw(rt, "commands")
	}
	for _, s := range []string{"profile_step_max_keep_in_memory_count=3", "xlog_sampling_enabled=true", "xlog_patterned_sampling_enabled=true\nxlog_patterned_sampling_service_patterns=/p*,*ath", "xlog_discard_service_patterns=/other*", "profile_http_header_enabled=true", "trace_activeserivce_yellow_time=1", "send_queue_size=5", "udp_max_bytes=900"} {
		if rapid.IntRange(0, 3).Draw(rt, "conf") == 0 {
			p.Conf = append(p.Conf, s)
		}
	}
	return p
}

// ---- the host process

type shared struct {
	ctx  context.Context
	txid int64
}

// threadLog is what one goroutine of the program noted; nothing is shared, as noting must not order anything.
type threadLog struct {
	own  map[string]int64    // the services it started, by their ids in listings, and its own number then
	seen []map[string]string // what listings had, by id
}

type racehost struct {
	p     raceplan
	slots [3]atomic.Pointer[shared]
	bad   atomic.Pointer[string]
	wg    sync.WaitGroup
	logs  []*threadLog // one for each goroutine, the last for the commands
}

func (h *racehost) badf(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	h.bad.CompareAndSwap(nil, &s)
}

func raceText(m *netdata.MapPack, k string) []string {
	l, _ := m.Table[k].(*netdata.ListValue)
	var out []string
	if l != nil {
		for _, v := range l.Value {
			out = append(out, v.ToString())
		}
	}
	return out
}

const hostIP = "10.9.8.7"

// listed judges a listing of the active services, whoever got it.
func (h *racehost) listed(l *threadLog, service, name, id, ip, txid []string) {
	if len(service) != len(name) || len(name) != len(id) || len(id) != len(ip) || len(ip) != len(txid) {
		h.badf("a listing of %d services, %d names, %d goroutines, %d addresses, %d ids", len(service), len(name), len(id), len(ip), len(txid))
		return
	}
	at := map[string]string{}
	l.seen = append(l.seen, at)
	for i := range service {
		if _, ok := at[txid[i]]; ok {
			h.badf("the listing has service %s twice", txid[i])
		}
		at[txid[i]] = id[i]
		if !raceNames[service[i]] || ip[i] != hostIP || id[i] == "0" || name[i] != "[goroutine] "+id[i] {
			h.badf("the listing has the service %q of %q, %q, from %q", service[i], id[i], name[i], ip[i])
		}
	}
}

var raceTexts = []string{"a", "b", "c", "/path", "/other/path", "some longer text"}

// raceNames are the names a service may have: known beforehand, as looking them up must not order anything.
var raceNames = func() map[string]bool {
	m := map[string]bool{}
	for _, t := range raceTexts {
		m[t], m[t+"<GET>"], m["go "+t], m["renamed "+t] = true, true, true, true
	}
	return m
}()

func (h *racehost) thread(t int, ops []rop) {
	var mine []context.Context
	l := h.logs[t]
	me := hx.Goid()
	r := rand.New(rand.NewSource(int64(t)))
	for _, o := range ops {
		s := h.slots[o.S].Load()
		switch {
		case o.K == "app" || o.K == "http" || s == nil && !strings.Contains("list count reset alert files cpu dump sleep yield", o.K):
			var c context.Context
			if o.K == "http" {
				req, _ := http.NewRequest("GET", "http://h/", nil)
				req.URL.Path = o.T
				req.RemoteAddr = hostIP + ":99"
				req.Header.Set("User-Agent", o.T)
				req.Header.Set("Referer", o.T)
				c = strace.StartHttpService(context.Background(), req)
			} else {
				c = strace.StartService(context.Background(), o.T, hostIP)
			}
			mine = append(mine, c)
			l.own[refwire.XlogID(tctxmanager.GetTraceContext(c).Txid)] = me
			h.slots[o.S].Store(&shared{c, tctxmanager.GetTraceContext(c).Txid})
		case o.K == "end":
			switch o.N % 3 {
			case 0:
				strace.EndService(s.ctx)
			case 1:
				strace.EndHttpService(s.ctx, nil, nil)
			default:
				h.wg.Add(1)
				go func() { defer h.wg.Done(); strace.EndService(s.ctx) }()
			}
		case o.K == "go":
			h.wg.Add(1)
			strace.GoWithTrace(s.ctx, "go "+o.T, func(c context.Context) {
				defer h.wg.Done()
				for i := 0; i < o.N; i++ {
					h.one(s.ctx, rop{K: raceOps[4+r0(o.N+i)%12], N: i, T: o.T}) // the parent's
					h.one(c, rop{K: raceOps[4+r0(o.N*3+i)%12], N: i, T: o.T})
				}
			})
		case o.K == "inherit":
			c, _ := strace.StartNewInheritanceService(context.Background(), tctxmanager.GetTraceContext(s.ctx))
			h.one(c, rop{K: "msg", T: o.T})
			strace.EndService(c)
		case o.K == "list":
			m := tcpclient.GetActiveList()
			h.listed(l, raceText(m, "service"), raceText(m, "name"), raceText(m, "id"), raceText(m, "ip"), raceText(m, "txid"))
		case o.K == "detail":
			param := netdata.NewMapPack()
			param.Put("txid", s.txid)
			m := tcpclient.GetGoroutineDetail(param)
			if n := m.Table["Service Name"]; n != nil {
				if !raceNames[n.ToString()] {
					h.badf("the details of %q", n.ToString())
				}
			}
		case o.K == "count":
			tctxmanager.GetActiveCount()
		case o.K == "reset":
			netio.ResetTextSent()
		case o.K == "alert":
			netio.SendAlert(netdata.AlertInfo, o.T, o.T)
		case o.K == "files":
			dump.ListDumpFiles()
			dump.ListBinaryDumpFiles()
		case o.K == "cpu":
			switch o.N % 4 {
			case 0:
				dump.ProfileBlock(1, 1000, 1)
			case 1:
				dump.ProfileMutex(1, 5, 1)
			case 2:
				dump.ProfileMutexBinaryDump(1, 5)
			case 3:
				dump.ProfileBlockBinaryDump(1, 1000)
			}
		case o.K == "dump":
			dump.HeavyAllStackTrace()
		case o.K == "sleep":
			if h.p.Sim {
				time.Sleep(time.Duration(o.N) * 500 * time.Millisecond)
			} else {
				time.Sleep(time.Duration(r.Intn(o.N*1000+1)) * time.Microsecond)
			}
		case o.K == "yield":
			runtime.Gosched()
		default:
			h.one(s.ctx, o)
		}
	}
	for _, c := range mine {
		strace.EndService(c)
	}
}

func r0(n int) int { return n * 2654435761 >> 7 & 0xffff }

// one is something traced on a service.
func (h *racehost) one(c context.Context, o rop) {
	switch o.K {
	case "msg":
		strace.AddMessageStep(c, o.T)
	case "hmsg":
		strace.AddHashedMessageStep(c, o.T, int32(o.N), 1)
	case "pmsg":
		strace.AddPMessageStep(c, netdata.PMSG_INFO, o.T, 1, "p")
	case "method":
		m := strace.StartCustomMethod(c, o.T)
		if o.N > 4 {
			strace.AddMessageStep(c, "within")
		}
		strace.EndMethod(c, m)
	case "param":
		strace.EndMethod(c, strace.StartMethodWithParam(c, o.N, o.T))
	case "api":
		var err error
		if o.N > 5 {
			err = errors.New(o.T)
		}
		strace.EndApiCall(c, strace.StartApiCall(c, o.T, ""), err)
	case "prop":
		req, _ := http.NewRequest("GET", "http://h/x", nil)
		strace.EndApiCall(c, strace.StartApiCallWithPropagation(c, req, o.T, "addr"), nil)
	case "err":
		strace.MarkAsError(c, o.T)
	case "errf":
		strace.MarkAsErrorForcibly(c, o.T)
	case "rename":
		strace.SetServiceNameForcibly(c, "renamed "+o.T)
	}
}

// commands has the agent's own connection answer the planned commands.
func (h *racehost) commands(ln *net.TCPListener, done chan struct{}) {
	defer close(done)
	ln.SetDeadline(time.Now().Add(patience))
	c, err := ln.AcceptTCP()
	if err != nil {
		h.badf("the agent did not connect: %v", err)
		return
	}
	s := &session{c: c, began: time.Now()}
	if _, err := s.read(8); err != nil {
		h.badf("the agent did not identify itself: %v", err)
		return
	}
	defer s.drop()
	for i, cmd := range h.p.Cmds {
		param := mapParam()
		if cmd == "OBJECT_THREAD_DETAIL" {
			if sl := h.slots[i%3].Load(); sl != nil {
				param = mapParam("txid", sl.txid)
			}
		}
		rs, err := s.ask(cmd, param, false)
		if err != nil {
			h.badf("%v", err)
			return
		}
		if cmd == "OBJECT_ACTIVE_SERVICE_LIST" {
			m, err := one(rs)
			if err != nil {
				h.badf("%s: %v", cmd, err)
				return
			}
			var l [5][]string
			for k, f := range []string{"service", "name", "id", "ip", "txid"} {
				l[k], _ = list(m[f])
			}
			h.listed(h.logs[len(h.logs)-1], l[0], l[1], l[2], l[3], l[4])
		}
	}
}

func (h *racehost) work() {
	var gate, all sync.WaitGroup
	gate.Add(1)
	for i, ops := range h.p.Threads {
		all.Add(1)
		go func() {
			defer all.Done()
			gate.Wait()
			h.thread(i, ops)
		}()
	}
	gate.Done()
	all.Wait()
	h.wg.Wait()
}

// TestC29Child is the host process.
func TestC29Child(t *testing.T) {
	pf := os.Getenv("VERIF_PLAN")
	if pf == "" {
		t.Skip()
	}
	h := &racehost{}
	b, err := os.ReadFile(pf)
	if err != nil || json.Unmarshal(b, &h.p) != nil {
		t.Fatalf("HARNESS-ERROR %v", err)
	}
	for range len(h.p.Threads) + 1 {
		h.logs = append(h.logs, &threadLog{own: map[string]int64{}})
	}
	common.RegisterSendPanicF(netio.SendPanic)
	conf.GetInstance()
	channelfactory.GetUDPChannel()
	end := func() {
		if n := len(tctxmanager.GetAllTctx()); n != 0 {
			h.badf("%d services are active when all have ended", n)
		}
		own := map[string]int64{}
		for _, l := range h.logs {
			for k, g := range l.own {
				own[k] = g
			}
		}
		for _, l := range h.logs {
			for _, at := range l.seen {
				for k, id := range at {
					if g, ok := own[k]; ok && id != fmt.Sprint(g) {
						h.badf("service %s was started by goroutine %d and listed under %s", k, g, id)
					}
				}
			}
		}
		if s := h.bad.Load(); s != nil {
			fmt.Println("CHILD-BAD", *s)
		}
		fmt.Println("CHILD-DONE")
		os.Exit(0)
	}
	if h.p.Sim {
		synctest.Test(t, func(t *testing.T) {
			agenttask.SendObjPack()
			agenttask.Start()
			countertask.Start()
			h.work()
			// a child ends after what it runs
			time.Sleep(3 * time.Second)
			end()
		})
	}
	f := os.NewFile(3, "listener")
	l, err := net.FileListener(f)
	if err != nil {
		t.Fatalf("HARNESS-ERROR %v", err)
	}
	strace.StartTracingMode()
	agenttask.Start()
	countertask.Start()
	done := make(chan struct{})
	go h.commands(l.(*net.TCPListener), done)
	time.Sleep(1050 * time.Millisecond) // when the agent connects
	h.work()
	<-done
	time.Sleep(50 * time.Millisecond)
	end()
}

// ---- the check

func TestC29Races(t *testing.T) {
	hx.Rule("a host process built with the race detector runs a generated program: 2-6 goroutines trace services of their own and of one another (steps, errors, names, child goroutines, ends), list, count and detail the active services, reset the texts, dump and profile, with the periodic tasks on a simulated clock or a command connection in real time; judged: no race reported, the process survives, listings show whole services, nothing is active at the end; non-trivial: a service used by two goroutines, and a look at the active services")
	if !raceOn {
		t.Fatal("HARNESS-ERROR built without the race detector")
	}
	col, err := fc.NewUDP(0)
	if err != nil {
		t.Fatalf("HARNESS-ERROR %v", err)
	}
	go func() {
		for {
			time.Sleep(time.Second)
			col.Take()
		}
	}()
	ln, err := net.ListenTCP("tcp4", &net.TCPAddr{IP: net.ParseIP(fc.IP)})
	if err != nil {
		t.Fatalf("HARNESS-ERROR %v", err)
	}
	port := ln.Addr().(*net.TCPAddr).Port
	exe, _ := os.Executable()
	base := os.Getenv("VERIF_SCRATCH")
	n := 0
	hx.Check(t, 20, 600, func(rt *rapid.T) {
		p := genRace(rt)
		desc := p.String()
		hx.Journal(desc)
		n++
		if out := runRace(rt, p, filepath.Join(base, fmt.Sprintf("r%d", n)), exe, ln, port, col); out != "" {
			rt.Fatalf("%s\n%s", out, desc)
		}
		users := map[int]map[int]bool{}
		look := len(p.Cmds) > 0
		for i, t := range p.Threads {
			for _, o := range t {
				if users[o.S] == nil {
					users[o.S] = map[int]bool{}
				}
				users[o.S][i] = true
				look = look || o.K == "list" || o.K == "count" || o.K == "detail"
			}
		}
		two := false
		for _, u := range users {
			two = two || len(u) > 1
		}
		if p.Sim {
			hx.Label("simulated clock")
		} else {
			hx.Label("real time")
		}
		hx.Case(desc, two && look)
	})
}

func runRace(rt *rapid.T, p raceplan, dir, exe string, ln *net.TCPListener, port int, col *fc.UDP) string {
	os.MkdirAll(dir, 0755)
	defer os.RemoveAll(dir)
	c := fmt.Sprintf("net_collector_ip=%s\nnet_collector_udp_port=%d\nnet_collector_tcp_port=%d\nobj_name=vt\n%s\n", fc.IP, col.Port, port, strings.Join(p.Conf, "\n"))
	path := filepath.Join(dir, "scouter.conf")
	os.WriteFile(path, []byte(c), 0644)
	b, _ := json.Marshal(p)
	os.WriteFile(filepath.Join(dir, "plan.json"), b, 0644)
	cmd := exec.Command(exe, "-test.run", "^TestC29Child$", "-test.timeout", "0")
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "TMPDIR=" + dir, "VERIF_PLAN=" + filepath.Join(dir, "plan.json"), "SCOUTER_CONFIG=" + path,
		"SCOUTER_AGENT_HOME=" + dir, "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0 history_size=3"}
	f, err := ln.File()
	if err != nil {
		rt.Fatalf("HARNESS-ERROR %v", err)
	}
	defer f.Close()
	cmd.ExtraFiles = []*os.File{f}
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		rt.Fatalf("HARNESS-ERROR %v", err)
	}
	timer := time.AfterFunc(2*time.Minute, func() { cmd.Process.Signal(syscall.SIGQUIT) })
	err = cmd.Wait()
	late := !timer.Stop()
	text := out.String()
	if i := strings.Index(text, "WARNING: DATA RACE"); i >= 0 {
		r := text[i+len("WARNING: DATA RACE\n"):]
		if j := strings.Index(r, "\n=================="); j > 0 {
			r = r[:j]
		}
		if !agentRace(r) {
			rt.Fatalf("HARNESS-ERROR a race of the harness: %s", r)
		}
		return "a data race: " + raceSites(r)
	}
	if m := strings.Index(text, "CHILD-BAD "); m >= 0 {
		return strings.SplitN(text[m+10:], "\n", 2)[0]
	}
	if late || err != nil || !strings.Contains(text, "CHILD-DONE") {
		if strings.Contains(text, "HARNESS-ERROR") || err != nil && strings.Contains(err.Error(), "signal: killed") {
			hx.Inconclusive("%v %s", err, tailOf(text))
		}
		if late {
			return "the host process hangs\n" + tailOf(text)
		}
		return fmt.Sprintf("the host process died: %v\n%s", err, headOf(text))
	}
	return ""
}

// agentRace tells whether either access of a reported race happens in the agent's code: the innermost frame that
// is not the runtime's or the standard library's.
func agentRace(r string) bool {
	for _, part := range strings.Split(r, "\n\n") {
		if strings.Contains(part, "Goroutine ") && strings.Contains(part, "created at:") {
			continue
		}
		for _, l := range strings.Split(part, "\n") {
			if strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "      ") {
				if strings.Contains(l, "scouter-agent-golang/scouterx") {
					return true
				}
				if strings.Contains(l, "verif/harness") {
					break
				}
			}
		}
	}
	return false
}

// raceSites is the report in short.
func raceSites(r string) string {
	var l []string
	for _, s := range strings.Split(r, "\n") {
		s = strings.TrimSpace(s)
		if strings.Contains(s, "0x00") && !strings.Contains(s, "by ") {
			if i := strings.LastIndex(s, " +0x"); i > 0 {
				s = s[:i]
			}
		}
		if i := strings.LastIndex(s, "/scouterx/"); i > 0 && strings.HasPrefix(s, "/") {
			s = s[i+1:]
		}
		l = append(l, s)
	}
	s := strings.Join(l, "\n")
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}

func tailOf(s string) string {
	if len(s) > 3000 {
		return s[len(s)-3000:]
	}
	return s
}

func headOf(s string) string {
	for _, m := range []string{"panic: ", "fatal error: "} {
		if i := strings.Index(s, m); i >= 0 {
			s = s[i:]
			break
		}
	}
	if len(s) > 4000 {
		return s[:4000]
	}
	return s
}
