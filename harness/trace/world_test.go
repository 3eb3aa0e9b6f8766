package trace

import (
	"context"
	"errors"
	"fmt"
	"hash/crc32"
	"net/http"
	"net/url"
	"os"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/factory/channelfactory"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/udpsender"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"pgregory.net/rapid"
	"verif/harness/bubble"
	"verif/harness/cfg"
	"verif/harness/fc"
	"verif/harness/hx"
	"verif/harness/refwire"
)

func TestMain(m *testing.M) { hx.Main(m) }

// crc is the agent's text hash.
func crc(s string) int32 {
	if s == "" {
		return 0
	}
	return int32(crc32.ChecksumIEEE([]byte(s)))
}

// world is one process' agent, living in a bubble, and its collector.
type world struct {
	b     *bubble.B
	col   *fc.UDP
	conf  map[string]string
	texts map[string]bool // "category hash text" announced
}

// closedPort is a TCP port that stays bound and refuses connections.
func closedPort() int {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{}); err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	return sa.(*syscall.SockaddrInet4).Port
}

func newWorld(t *testing.T) *world {
	w := &world{texts: map[string]bool{}}
	var err error
	if w.col, err = fc.NewUDP(0); err != nil {
		t.Fatalf("HARNESS-ERROR %v", err)
	}
	tcp := closedPort()
	w.conf = map[string]string{"net_collector_ip": fc.IP, "net_collector_udp_port": strconv.Itoa(w.col.Port),
		"net_collector_tcp_port": strconv.Itoa(tcp), "send_queue_size": "100000", "obj_name": "vt"}
	cfg.Set(w.conf)
	channelfactory.GetUDPChannel()
	w.b = bubble.New(t)
	if err := w.b.Run(func() {
		udpsender.GetInstance()
		common.RegisterSendPanicF(netio.SendPanic)
		strace.StartTracingMode()
	}); err != nil {
		t.Fatal(err)
	}
	return w
}

// configure applies the base settings and the given ones.
func (w *world) configure(m map[string]string) {
	c := map[string]string{}
	for k, v := range w.conf {
		c[k] = v
	}
	for k, v := range m {
		c[k] = v
	}
	cfg.Set(c)
}

func objHash() int32 {
	h, err := os.Hostname()
	if err != nil {
		h = "unknown"
	}
	return crc("/" + h + "/vt")
}

// got is what a case made the agent send.
type got struct {
	xlogs    map[int64][]*refwire.Xlog
	profiles map[int64][]*refwire.Profile
	alerts   []*refwire.Alert
	others   []any
}

func settle() {
	synctest.Wait()
	time.Sleep(2 * time.Second)
	synctest.Wait()
}

var errDropped = errors.New("the kernel dropped datagrams")

// collect decodes everything received since the last call.
func (w *world) collect(d0 int) (*got, error) {
	if err := w.col.Sync(); err != nil {
		hx.Inconclusive("%v", err)
	}
	grams := w.col.Take()
	if w.col.Drops() != d0 {
		return nil, errDropped
	}
	ps, err := fc.Packs(grams)
	if err != nil {
		return nil, err
	}
	g := &got{xlogs: map[int64][]*refwire.Xlog{}, profiles: map[int64][]*refwire.Profile{}}
	for _, p := range ps {
		switch p := p.(type) {
		case *refwire.Xlog:
			g.xlogs[p.Txid] = append(g.xlogs[p.Txid], p)
		case *refwire.Profile:
			g.profiles[p.Txid] = append(g.profiles[p.Txid], p)
		case *refwire.TextRec:
			w.texts[fmt.Sprintf("%s %d %s", p.Type, p.Hash, p.Text)] = true
		case *refwire.Alert:
			g.alerts = append(g.alerts, p)
		default:
			g.others = append(g.others, p)
		}
	}
	return g, nil
}

// ---- programs -------------------------------------------------------------------------------

// op is one step of a program. s is the service it concerns.
type op struct {
	k       string
	s       int
	a, b, c string
	d       string
	n, m    int
	params  []string
	err     bool
}

func (o op) String() string {
	s := o.k
	if o.s >= 0 {
		s += fmt.Sprintf("@%d", o.s)
	}
	for _, x := range []string{o.a, o.b, o.c, o.d} {
		if x != "" {
			s += fmt.Sprintf(" %.30q", x)
		}
	}
	if o.n != 0 || o.m != 0 {
		s += fmt.Sprintf(" %d/%d", o.n, o.m)
	}
	if len(o.params) > 0 {
		s += fmt.Sprintf(" %.20q", o.params)
	}
	if o.err {
		s += " err"
	}
	return s
}

// plan is the symbolic state while a program is drawn.
type plan struct {
	ops  []op
	svcs []*psvc
	ip   string // header for the client address
}

type psvc struct {
	ended bool
	open  []byte // 'm' or 'a'
	kind  string
	steps int
}

func genName(rt *rapid.T, what string) string {
	return rapid.OneOf(
		rapid.SampledFrom([]string{"/a", "/b", "/order/list", "/pay", "svc", "job:run", "/α/β", "x<GET>", "한글서비스"}),
		rapid.StringMatching(`[a-zA-Z0-9/_.?&=-]{1,20}`),
		rapid.StringN(1, 12, -1),
		rapid.Map(rapid.SampledFrom([]int{300, 1100, 2300, 5000, 9000}), func(n int) string { return strings.Repeat("n", n-2) + "<>" }),
	).Draw(rt, what)
}

// genText is any text, sometimes empty, sometimes long.
func genText(rt *rapid.T, what string) string {
	return rapid.OneOf(
		rapid.SampledFrom([]string{"", "x", "hello", "same text"}),
		rapid.StringN(0, 30, -1),
		rapid.Map(rapid.IntRange(200, 700), func(n int) string { return strings.Repeat("t", n) }),
		rapid.Map(rapid.IntRange(250, 258), func(n int) string { return strings.Repeat("é", n/2) }),
	).Draw(rt, what)
}

func genIP(rt *rapid.T) string {
	o := rapid.IntRange(0, 255)
	return fmt.Sprintf("%d.%d.%d.%d", o.Draw(rt, "o1"), o.Draw(rt, "o2"), o.Draw(rt, "o3"), o.Draw(rt, "o4"))
}

func genAddr(rt *rapid.T) string {
	switch rapid.IntRange(0, 5).Draw(rt, "addrkind") {
	case 0:
		return ""
	case 1:
		return genIP(rt)
	}
	return genIP(rt) + ":" + strconv.Itoa(rapid.IntRange(1, 65535).Draw(rt, "port"))
}

// weights of the operations in a program
type mix map[string]int

func (m mix) kinds() []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var l []string
	for _, k := range ks {
		for i := 0; i < m[k]; i++ {
			l = append(l, k)
		}
	}
	return l
}

func (p *plan) pick(rt *rapid.T, live bool) int {
	var l []int
	for i, s := range p.svcs {
		if !live || !s.ended {
			l = append(l, i)
		}
	}
	if len(l) == 0 {
		return -1
	}
	// mostly recent ones
	if rapid.IntRange(0, 2).Draw(rt, "recent") > 0 {
		return l[len(l)-1-rapid.IntRange(0, min(2, len(l)-1)).Draw(rt, "which")]
	}
	return rapid.SampledFrom(l).Draw(rt, "which")
}

// genPlan draws a program of at most n operations. late lets operations fall on ended services too.
func genPlan(rt *rapid.T, n int, m mix, late bool, maxSvc int) *plan {
	p := &plan{}
	kinds := m.kinds()
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom(kinds).Draw(rt, "op")
		if len(p.svcs) == 0 {
			k = rapid.SampledFrom([]string{"http", "app"}).Draw(rt, "first")
		}
		o := op{k: k, s: -1}
		switch k {
		case "http", "app":
			if len(p.svcs) >= maxSvc {
				continue
			}
			o.a = genName(rt, "name")
			o.b = genAddr(rt)
			if k == "http" {
				o.a = "/" + o.a
				o.c = rapid.SampledFrom([]string{"GET", "POST", "PUT", "X"}).Draw(rt, "method")
				o.params = []string{genText(rt, "ua"), genText(rt, "referer"), "", genText(rt, "query")}
				if rapid.Bool().Draw(rt, "hasheader") {
					o.params[2] = genIP(rt)
				}
				o.d = rapid.SampledFrom([]string{"", "v1", "v 2", "empty", "one", "a,b"}).Draw(rt, "custom")
			}
			p.svcs = append(p.svcs, &psvc{kind: k})
			p.ops = append(p.ops, o)
			continue
		case "sleep":
			o.n = rapid.OneOf(rapid.IntRange(0, 5), rapid.IntRange(0, 3000), rapid.IntRange(0, 200000)).Draw(rt, "ms")
			p.ops = append(p.ops, o)
			continue
		case "goraw":
			o.a = genName(rt, "name")
			p.ops = append(p.ops, o)
			continue
		}
		live := !late || rapid.IntRange(0, 7).Draw(rt, "late") > 0
		o.s = p.pick(rt, live)
		if o.s < 0 {
			continue
		}
		sv := p.svcs[o.s]
		switch k {
		case "child", "inh":
			if len(p.svcs) >= maxSvc {
				continue
			}
			o.a = genName(rt, "name")
			o.n = rapid.IntRange(0, 2).Draw(rt, "ctxkind")
			p.svcs = append(p.svcs, &psvc{kind: k})
		case "nest":
			o.a = genName(rt, "name")
			o.n = rapid.IntRange(0, 1).Draw(rt, "http")
		case "end":
			o.n = rapid.IntRange(0, 3).Draw(rt, "endkind")
			o.m = rapid.SampledFrom([]int{200, 404, 500, 0, 302, -1, 99999}).Draw(rt, "status")
			sv.ended = true
		case "msg":
			o.a = genText(rt, "msg")
		case "hmsg":
			o.a = genText(rt, "msg")
			o.n = rapid.IntRange(-1000, 100000).Draw(rt, "value")
			o.m = rapid.IntRange(0, 100000).Draw(rt, "elapsed")
		case "pmsg":
			o.a = genText(rt, "msg")
			o.n = rapid.IntRange(0, 4).Draw(rt, "level")
			o.m = rapid.IntRange(0, 100000).Draw(rt, "elapsed")
			for j := rapid.IntRange(0, 3).Draw(rt, "nparams"); j > 0; j-- {
				o.params = append(o.params, genText(rt, "param"))
			}
		case "add":
			o.n = rapid.IntRange(0, 3).Draw(rt, "stepkind")
			o.m = rapid.IntRange(-5, 100000).Draw(rt, "start")
			o.a = genText(rt, "text")
		case "method":
			o.n = rapid.IntRange(0, 3).Draw(rt, "methodkind")
			o.a = genName(rt, "name")
			for j := rapid.IntRange(0, 2).Draw(rt, "nparams"); j > 0; j-- {
				o.params = append(o.params, rapid.StringN(0, 8, -1).Draw(rt, "param"))
			}
			sv.open = append(sv.open, 'm')
		case "api", "prop":
			o.a = genName(rt, "name")
			o.b = rapid.SampledFrom([]string{"", "10.0.0.1:80", "host/path", strings.Repeat("h", 300)}).Draw(rt, "addr")
			o.n = rapid.IntRange(0, 2).Draw(rt, "reqkind")
			sv.open = append(sv.open, 'a')
		case "close": // ends the innermost open method or API call
			if len(sv.open) == 0 {
				continue
			}
			o.k = map[byte]string{'m': "mend", 'a': "aend"}[sv.open[len(sv.open)-1]]
			sv.open = sv.open[:len(sv.open)-1]
			if o.k == "aend" && rapid.IntRange(0, 2).Draw(rt, "fail") == 0 {
				o.err = true
				o.a = genText(rt, "error")
			}
		case "err", "errf":
			o.a = genText(rt, "error")
		case "name":
			o.a = genName(rt, "name")
			if rapid.IntRange(0, 9).Draw(rt, "noname") == 0 {
				o.a = ""
			}
		case "stream":
			o.n = rapid.IntRange(0, 1).Draw(rt, "mark")
		case "fields":
			for j := 0; j < 7; j++ {
				o.params = append(o.params, genText(rt, "field"))
			}
			o.n = rapid.SampledFrom([]int{0, 0, 200, 503, -3}).Draw(rt, "fieldstatus")
			o.m = rapid.SampledFrom([]int{0, 1, 7, 300, 70000, -2}).Draw(rt, "fieldcounts")
		default:
			panic("HARNESS-ERROR operation " + k)
		}
		p.ops = append(p.ops, o)
	}
	return p
}

func (p *plan) String() string {
	var b strings.Builder
	for _, o := range p.ops {
		fmt.Fprintf(&b, "%s; ", o)
	}
	return b.String()
}

// ---- execution, in lockstep with the model ---------------------------------------------------

type est struct { // expected step
	refwire.Step
	top   bool // not enclosed: the parent is not specified
	loose bool // only type, index and enclosing step are specified
	group int  // steps of one group may come in any order
}

type openStep struct {
	index, parent int32 // parent: -1 when not enclosed
	m             *netdata.MethodStep
	a             *netdata.ApiCallStep
	hash          int32
	start         int32
	addr          string
}

type svc struct {
	sql           [2]int32 // SQL count and time
	user          int64
	stream        bool
	goids         []int64 // the goroutines it may be listed under
	kind          string
	ctx           context.Context
	tctx          *netio.TraceContext
	start         time.Time
	parent        *svc
	actor         chan func()
	done          chan struct{}
	returned      bool
	runs          int
	bad           string
	name, ip      string
	xtype         byte
	err           int32
	status        int32
	ua, ref       int32
	acount        int32
	atime         int32
	login         string
	desc          string
	text          [5]string
	txid          int64
	gxid          int64
	caller        int64
	open          []*openStep
	next          int32
	steps         []est
	ended         bool
	elapsed       int32
	lateSteps     int
	renamed       bool
	startNames    int
	stuck, warned bool
}

type runner struct {
	w     *world
	svcs  []*svc
	fails []string
	ip    string // client address header
	hdrs  []string
	hdrOn bool
	qryOn bool
	group int
	conf  map[string]string
}

func (r *runner) failf(f string, a ...any) {
	r.fails = append(r.fails, fmt.Sprintf(f, a...))
}

func (s *svc) run(f func()) {
	if s.actor == nil || s.returned {
		f()
		return
	}
	c := make(chan struct{})
	s.actor <- func() { defer close(c); f() }
	<-c
}

func (s *svc) ms() int32 { return int32(time.Since(s.start) / time.Millisecond) }

func (s *svc) enclosing() int32 {
	if len(s.open) == 0 {
		return -1
	}
	return s.open[len(s.open)-1].index
}

// added: a step was added in one go.
func (s *svc) added(st refwire.Step, loose bool, group int) {
	if s.ended {
		s.lateSteps++
		return
	}
	st.Index = s.next
	s.next++
	e := est{Step: st, loose: loose, group: group}
	if p := s.enclosing(); p >= 0 {
		e.Parent = p
	} else {
		e.top = true
	}
	s.steps = append(s.steps, e)
}

// pushed: a method or API call was started.
func (s *svc) pushed(o *openStep) {
	o.parent = s.enclosing()
	o.start = s.ms()
	if !s.ended {
		o.index = s.next
		s.next++
	} else {
		o.index = -2
	}
	s.open = append(s.open, o)
}

func (s *svc) popped(st refwire.Step) {
	o := s.open[len(s.open)-1]
	s.open = s.open[:len(s.open)-1]
	if s.ended {
		s.lateSteps++
		return
	}
	st.Index = o.index
	st.Start = o.start
	st.Elapsed = s.ms() - o.start
	e := est{Step: st}
	if o.parent >= 0 {
		e.Parent = o.parent
	} else {
		e.top = true
	}
	s.steps = append(s.steps, e)
}

func msgStep(m string, start int32) refwire.Step {
	return refwire.Step{T: refwire.SMessage, Msg: m, Start: start}
}

func (s *svc) fail(hash int32) {
	if s.err == 0 {
		s.err = hash
	}
}

type ctxKey struct{}

//go:noinline
func plainMethod(ctx context.Context) *netdata.MethodStep { return strace.StartMethod(ctx) }

//go:noinline
func paramMethod(ctx context.Context, p []interface{}) *netdata.MethodStep {
	return strace.StartMethodWithParam(ctx, p...)
}

func (r *runner) register(s *svc, ctx context.Context) {
	s.ctx = ctx
	s.tctx = tctxmanager.GetTraceContext(ctx)
	if s.tctx == nil {
		r.failf("the context of a started service (%s %q) is not traced", s.kind, s.name)
		s.tctx = netio.NewTraceContext()
	}
	s.txid = s.tctx.Txid
	if s.goids == nil {
		s.goids = []int64{hx.Goid()}
	}
	for _, o := range r.svcs {
		if o.txid == s.txid {
			r.failf("two services share transaction id %d", s.txid)
		}
	}
	if ctx.Value(ctxKey{}) != "mine" {
		r.failf("the context of a started service (%s) lost the caller's value", s.kind)
	}
	s.start = time.Now()
	r.svcs = append(r.svcs, s)
	// the agent's own first step
	s.added(refwire.Step{T: refwire.SMessage}, true, 0)
}

func (r *runner) request(o op) *http.Request {
	req := &http.Request{Method: o.c, URL: &url.URL{Path: o.a, RawQuery: o.params[3]}, Header: http.Header{}, RemoteAddr: o.b}
	if o.params[0] != "" {
		req.Header.Set("User-Agent", o.params[0])
	}
	if o.params[1] != "" {
		req.Header.Set("Referer", o.params[1])
	}
	if o.params[2] != "" {
		req.Header.Set("X-Client-Ip", o.params[2])
	}
	if o.d != "" {
		switch o.d {
		case "empty":
			req.Header["X-Custom"] = []string{"", "second"}
		case "one":
			req.Header["X-Custom"] = []string{""}
		default:
			req.Header["X-Custom"] = []string{o.d, "second", o.d}
		}
	}
	return req
}

func base() context.Context { return context.WithValue(root, ctxKey{}, "mine") }

// root is the context that all others come from.
var root = context.Background()

// exec performs one operation on the agent and on the model.
func (r *runner) exec(o op) {
	switch o.k {
	case "conf":
		m := map[string]string{"profile_step_max_keep_in_memory_count": strconv.Itoa(o.n), "profile_step_max_count": strconv.Itoa(o.m)}
		for k, v := range r.conf {
			if _, ok := m[k]; !ok {
				m[k] = v
			}
		}
		r.w.configure(m)
		return
	case "sleep":
		time.Sleep(time.Duration(o.n) * time.Millisecond)
		return
	case "http":
		req := r.request(o)
		s := &svc{kind: "http", name: o.a + "<" + o.c + ">", xtype: 0, ip: o.b, ua: crc(o.params[0]), ref: crc(o.params[1])}
		if r.ip != "" && o.params[2] != "" {
			s.ip = o.params[2]
		}
		ctx := strace.StartHttpService(base(), req)
		r.register(s, ctx)
		s.gxid = s.txid
		if r.hdrOn {
			r.group++
			keys := r.hdrs
			if len(keys) == 0 {
				for k := range req.Header {
					keys = append(keys, k)
				}
			}
			for _, k := range keys {
				if v := req.Header.Values(strings.TrimSpace(k)); len(v) > 0 {
					s.added(msgStep(fmt.Sprintf("header: %s: %s", k, strings.Join(v, ",")), 0), false, r.group)
				}
			}
		}
		if r.qryOn {
			s.added(msgStep("query: "+o.params[3], 0), false, 0)
		}
		return
	case "app":
		s := &svc{kind: "app", name: o.a, xtype: 1, ip: o.b}
		r.register(s, strace.StartService(base(), o.a, o.b))
		s.gxid = s.txid
		return
	case "goraw":
		// an untraced goroutine
		n := 0
		ok := true
		strace.GoWithTrace(base(), o.a, func(ctx context.Context) {
			n++
			ok = ctx.Value(ctxKey{}) == "mine" && tctxmanager.GetTraceContext(ctx) == nil
		})
		synctest.Wait()
		if n != 1 || !ok {
			r.failf("an untraced goroutine's function ran %d times (context kept: %v)", n, ok)
		}
		return
	}
	s := r.svcs[o.s]
	switch o.k {
	case "child":
		c := &svc{kind: "child", name: o.a, xtype: 4, ip: s.ip, parent: s, actor: make(chan func()), done: make(chan struct{}), caller: s.txid, gxid: s.gxid}
		started := make(chan context.Context, 2)
		pctx := s.ctx
		var starter, own int64
		s.run(func() {
			starter = hx.Goid()
			strace.GoWithTrace(pctx, o.a, func(ctx context.Context) {
				own = hx.Goid()
				started <- ctx
				c.runs++
				for f := range c.actor {
					f()
				}
				close(c.done)
			})
		})
		ctx := <-started
		c.goids = []int64{starter, own}
		// the parent's step that names it
		r.register(c, ctx)
		s.added(refwire.Step{T: refwire.SAsync, Start: s.ms(), Txid: c.txid, Hash: crc(o.a)}, false, 0)
		if r.svcs[len(r.svcs)-1].tctx == s.tctx {
			r.failf("the goroutine's service is its parent's")
		}
	case "inh":
		var ctx context.Context
		switch o.n {
		case 0:
			ctx = base()
		case 1:
			ctx = s.ctx
		case 2:
			ctx = r.svcs[0].ctx
		}
		nctx, ntctx := strace.StartNewInheritanceService(ctx, s.tctx)
		c := &svc{kind: "inh", name: s.name, xtype: s.xtype, ip: s.ip, parent: s, caller: s.txid, gxid: s.gxid, err: s.err, ua: s.ua, ref: s.ref,
			acount: s.acount, atime: s.atime, login: s.login, desc: s.desc, text: s.text, stream: s.stream, sql: s.sql, user: s.user}
		if s.ended { // what was set after its end is inherited too
			t := s.tctx
			c.name, c.err, c.ua, c.ref, c.acount, c.atime, c.login, c.desc = t.ServiceName, t.Error, t.UserAgent, t.Referer, t.ApicallCount, t.ApicallTime, t.Login, t.Desc
			c.sql, c.user = [2]int32{t.SqlCount, t.SqlTime}, t.Userid
			c.text = [5]string{t.Text1, t.Text2, t.Text3, t.Text4, t.Text5}
		}
		r.register(c, nctx)
		if c.tctx != ntctx {
			r.failf("StartNewInheritanceService returned a context that does not hold the returned trace context")
		}
		c.added(refwire.Step{T: refwire.SMessage}, true, 0)
	case "nest":
		var ctx context.Context
		if o.n == 0 {
			ctx = strace.StartService(s.ctx, o.a, "9.9.9.9")
		} else {
			ctx = strace.StartHttpService(s.ctx, &http.Request{Method: "GET", URL: &url.URL{Path: o.a}, Header: http.Header{}})
		}
		if tctxmanager.GetTraceContext(ctx) != s.tctx {
			r.failf("starting a service inside a traced context replaced its service")
		}
	case "end":
		was := s.ended
		if !was {
			s.elapsed = s.ms()
		}
		status := false
		if s.actor != nil && !s.returned && (o.n == 3 || was) {
			// the goroutine's function returns
			s.returned = true
			close(s.actor)
			<-s.done
			synctest.Wait()
		} else {
			s.run(func() {
				switch o.n {
				case 0, 3:
					strace.EndService(s.ctx)
				case 1:
					strace.EndHttpService(s.ctx, nil, nil)
				case 2:
					status = true
					strace.EndHttpService(s.ctx, &http.Request{}, &http.Response{StatusCode: o.m})
				}
			})
		}
		if status && !was {
			s.status = int32(o.m)
		}
		s.ended = true
	case "msg":
		st := msgStep(o.a, s.ms())
		s.run(func() { strace.AddMessageStep(s.ctx, o.a) })
		s.added(st, false, 0)
	case "hmsg":
		st := refwire.Step{T: refwire.SHashed, Start: s.ms(), Hash: crc(o.a), Value: int32(o.n), Time: int32(o.m)}
		s.run(func() { strace.AddHashedMessageStep(s.ctx, o.a, int32(o.n), int32(o.m)) })
		s.added(st, false, 0)
	case "pmsg":
		st := refwire.Step{T: refwire.SParam, Start: s.ms(), Hash: crc(o.a), Level: int32(o.n), Elapsed: int32(o.m)}
		for _, p := range o.params {
			st.Params += p + "\x03"
		}
		s.run(func() { strace.AddPMessageStep(s.ctx, netdata.PMessageLevel(o.n), o.a, int32(o.m), o.params...) })
		s.added(st, false, 0)
	case "add":
		var st netdata.Step
		var e refwire.Step
		switch o.n {
		case 0:
			st = netdata.NewMessageStep(o.a, int32(o.m))
			e = msgStep(o.a, int32(o.m))
		case 1:
			h := netdata.NewHashedMessageStep(77, int32(o.m))
			h.Value, h.Time = 3, 4
			st = h
			e = refwire.Step{T: refwire.SHashed, Start: int32(o.m), Hash: 77, Value: 3, Time: 4}
		case 2:
			h := netdata.NewPMessageStep(int32(o.m))
			h.SetMessage(5, o.a)
			st = h
			e = refwire.Step{T: refwire.SParam, Start: int32(o.m), Hash: 5, Params: o.a + "\x03"}
		case 3:
			h := netdata.NewMethodStep()
			h.Hash, h.Elapsed, h.StartTime = 9, 10, int32(o.m)
			st = h
			e = refwire.Step{T: refwire.SMethod, Start: int32(o.m), Hash: 9, Elapsed: 10}
		}
		s.run(func() { strace.AddStep(s.ctx, st) })
		s.added(e, false, 0)
	case "method":
		var m *netdata.MethodStep
		var name string
		var ps []interface{}
		if o.n == 1 || o.n == 3 {
			for i, p := range o.params {
				if i == 0 {
					ps = append(ps, len(p))
					s.added(msgStep(fmt.Sprintf("param: %d", len(p)), s.ms()), false, 0)
				} else {
					ps = append(ps, p)
					s.added(msgStep("param: "+p, s.ms()), false, 0)
				}
			}
		}
		switch o.n {
		case 0:
			name = "trace.plainMethod()"
			s.run(func() { m = plainMethod(s.ctx) })
		case 1:
			name = "trace.paramMethod()"
			s.run(func() { m = paramMethod(s.ctx, ps) })
		case 2:
			name = o.a
			s.run(func() { m = strace.StartCustomMethod(s.ctx, o.a) })
		case 3:
			name = o.a
			s.run(func() { m = strace.StartCustomMethodWithParam(s.ctx, o.a, ps...) })
		}
		if m == nil {
			r.failf("starting a method of a traced service gave no step")
		}
		s.pushed(&openStep{m: m, hash: crc(name)})
	case "mend":
		st := s.open[len(s.open)-1]
		s.run(func() { strace.EndMethod(s.ctx, st.m) })
		s.popped(refwire.Step{T: refwire.SMethod, Hash: st.hash})
	case "api", "prop":
		var a *netdata.ApiCallStep
		if o.k == "api" {
			s.run(func() { a = strace.StartApiCall(s.ctx, o.a, o.b) })
		} else {
			var req *http.Request
			if o.n != 1 {
				req = &http.Request{Header: http.Header{"X-Mine": {"1"}}}
			}
			if o.n == 2 { // sent before, or forwarded
				for _, k := range []string{"Gxid", "Caller", "Callee", "Caller-Obj"} {
					req.Header.Set("X-Scouter-"+k, "z1a2b3c")
				}
			}
			s.run(func() { a = strace.StartApiCallWithPropagation(s.ctx, req, o.a, o.b) })
			if req != nil && a != nil {
				want := http.Header{"X-Mine": {"1"}, "X-Scouter-Gxid": {idText(s.gxid)}, "X-Scouter-Caller": {idText(s.txid)},
					"X-Scouter-Callee": {idText(a.Txid)}, "X-Scouter-Caller-Obj": {strconv.Itoa(int(objHash()))}}
				if fmt.Sprint(want) != fmt.Sprint(req.Header) {
					r.failf("propagation headers of a call from %d (global %d) to %d: %v, expected %v", s.txid, s.gxid, a.Txid, req.Header, want)
				}
			}
		}
		if a == nil {
			r.failf("starting an API call of a traced service gave no step")
			a = netdata.NewApiCallStep()
		}
		s.pushed(&openStep{a: a, hash: crc(o.a), addr: o.b})
	case "aend":
		st := s.open[len(s.open)-1]
		e := refwire.Step{T: refwire.SApi, Hash: st.hash, Txid: st.a.Txid, Addr: st.addr}
		if st.addr != "" {
			e.Opt = 1
		}
		var err error
		if o.err {
			err = errors.New(o.a)
			e.Error = crc(o.a)
		}
		d := s.ms() - st.start
		s.run(func() { strace.EndApiCall(s.ctx, st.a, err) })
		if !s.ended {
			s.acount++
			s.atime += d
			if o.err {
				s.fail(crc(o.a))
			}
		}
		s.popped(e)
	case "err":
		st := refwire.Step{T: refwire.SParam, Start: s.ms(), Hash: crc(o.a), Level: 3}
		s.run(func() { strace.MarkAsError(s.ctx, o.a) })
		if !s.ended {
			s.fail(crc(o.a))
		}
		s.added(st, false, 0)
	case "errf":
		s.run(func() { strace.MarkAsErrorForcibly(s.ctx, o.a) })
		if !s.ended {
			s.err = crc(o.a)
		}
	case "name":
		s.run(func() { strace.SetServiceNameForcibly(s.ctx, o.a) })
		if !s.ended {
			s.name = o.a
			s.renamed = true
		}
	case "stream":
		if s.ended {
			break
		}
		if o.n == 1 {
			s.run(func() {
				if !strace.SetAsStream(s.ctx) {
					r.failf("SetAsStream of the %s service %q gave false", s.kind, s.name)
				}
			})
			s.stream = true
		}
		s.run(func() {
			if is := strace.IsStream(s.ctx); is != s.stream {
				r.failf("IsStream of the %s service %q is %v, expected %v", s.kind, s.name, is, s.stream)
			}
		})
	case "fields":
		f := o.params
		t := s.tctx
		t.Login, t.Desc, t.Text1, t.Text2, t.Text3, t.Text4, t.Text5 = f[0], f[1], f[2], f[3], f[4], f[5], f[6]
		t.SqlCount, t.SqlTime, t.Userid = int32(o.m), int32(2*o.m), int64(o.m)<<33
		if !s.ended {
			if o.n != 0 {
				t.Status, s.status = int32(o.n), int32(o.n)
			}
			s.sql, s.user = [2]int32{int32(o.m), int32(2 * o.m)}, int64(o.m)<<33
			s.login, s.desc, s.text = f[0], f[1], [5]string{f[2], f[3], f[4], f[5], f[6]}
		}
	}
}

// idText is the textual form of an id: decimal up to 9, else base 32 after x (or z when negative).
func idText(n int64) string { return refwire.XlogID(n) }

// finish ends what still runs, after what the case sent has been collected.
func (r *runner) finish() {
	for _, s := range r.svcs {
		if s.actor != nil && !s.returned {
			s.returned = true
			close(s.actor)
			<-s.done
		}
		strace.EndService(s.ctx)
	}
	settle()
}

// execute runs the plan in the world and returns what was sent.
func (w *world) execute(p *plan, conf map[string]string) (*runner, *got, error) {
	r := &runner{w: w, conf: conf, ip: conf["trace_http_client_ip_header_key"], hdrOn: conf["profile_http_header_enabled"] == "true", qryOn: conf["profile_http_querystring_enabled"] == "true"}
	if k := conf["profile_http_header_keys"]; k != "" {
		r.hdrs = strings.Split(k, ",")
	}
	w.configure(conf)
	w.col.Take()
	d0 := w.col.Drops()
	if err := w.b.Run(func() {
		for _, o := range p.ops {
			r.exec(o)
		}
		settle()
	}); err != nil {
		return r, nil, err
	}
	g, gerr := w.collect(d0)
	if err := w.b.Run(r.finish); err != nil {
		return r, nil, err
	}
	if err := w.col.Sync(); err != nil {
		hx.Inconclusive("%v", err)
	}
	d1 := w.col.Drops()
	rest, rerr := w.collect(d1) // also learns the texts
	if gerr == nil {
		gerr = rerr
	}
	if gerr != nil {
		return r, g, gerr
	}
	// children that had not ended by themselves end when their function returns
	for _, s := range r.svcs {
		if s.actor != nil && s.runs != 1 {
			r.failf("a goroutine's function ran %d times", s.runs)
		}
		if s.ended && len(rest.xlogs[s.txid]) > 0 {
			r.failf("service %q ended again after its end", s.name)
		}
		if !s.ended && len(rest.xlogs[s.txid]) != 1 {
			r.failf("service %q ended last and has %d xlogs", s.name, len(rest.xlogs[s.txid]))
		}
	}
	return r, g, nil
}

// one returns the service's xlog, or says what is wrong.
func (g *got) one(s *svc) (*refwire.Xlog, error) {
	l := g.xlogs[s.txid]
	if s.ended && len(l) != 1 {
		return nil, fmt.Errorf("service %q (%s) has ended and has %d xlogs", s.name, s.kind, len(l))
	}
	if !s.ended && len(l) != 0 {
		return nil, fmt.Errorf("service %q (%s) has not ended and has %d xlogs", s.name, s.kind, len(l))
	}
	if len(l) == 0 {
		return nil, nil
	}
	return l[0], nil
}
