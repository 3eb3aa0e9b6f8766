package trace

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"runtime"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"pgregory.net/rapid"
	"verif/harness/hx"
	"verif/harness/refwire"
)

// ---- odd calls ----

// octx is a context an application has at hand.
type octx struct {
	ctx    context.Context
	svc    int // index of the service it is traced by, -1 when untraced
	kind   string
	cancel context.CancelFunc
}

type ownKey string

// ownCtx is a context type of the application's own.
type ownCtx struct{ context.Context }

func (ownCtx) String() string { panic("not printable") }

type badStringer struct{}

func (badStringer) String() string { panic("no string") }

type badErr struct{ s string }

func (e *badErr) Error() string { return e.s }

type oddOp struct {
	k          string
	c, s, x, y int
	t          string
	ps         []int
}

func (o oddOp) String() string {
	s := fmt.Sprintf("%s c%d", o.k, o.c)
	if o.s != 0 || o.x != 0 || o.y != 0 {
		s += fmt.Sprintf(" %d %d %d", o.s, o.x, o.y)
	}
	if o.t != "" {
		s += fmt.Sprintf(" %.20q", o.t)
	}
	if o.ps != nil {
		s += fmt.Sprint(o.ps)
	}
	return s
}

// values an application may pass as a parameter
func oddParam(i int) interface{} {
	switch i % 14 {
	case 0:
		return nil
	case 1:
		return ""
	case 2:
		return strings.Repeat("long", 300)
	case 3:
		return (*int)(nil)
	case 4:
		return badStringer{}
	case 5:
		return make(chan int)
	case 6:
		return func() {}
	case 7:
		return map[string]int{"b": 1, "a": 2}
	case 8:
		return errors.New("param")
	case 9:
		return []interface{}{nil, 1, "x"}
	case 10:
		return struct{ a, b interface{} }{nil, &badErr{}}
	case 11:
		return (error)(nil)
	case 12:
		return (*badErr)(nil)
	}
	return string([]byte{0xff, 0, 0xfe, 3})
}

func oddRequest(i int) *http.Request {
	switch i % 8 {
	case 0:
		return nil
	case 1:
		return &http.Request{}
	case 2:
		return &http.Request{URL: &url.URL{}}
	case 3:
		return &http.Request{URL: &url.URL{Path: "/x"}, Header: http.Header{}, RemoteAddr: "not an address"}
	case 4:
		return &http.Request{Header: http.Header{"A": nil}, RemoteAddr: "[::1]:80"}
	case 5:
		return &http.Request{Method: strings.Repeat("M", 200), URL: &url.URL{Path: strings.Repeat("/p", 150), RawQuery: "%%%"}, Header: http.Header{"": {""}, "User-Agent": {"", "b"}}, RemoteAddr: ":::"}
	case 6:
		r, _ := http.NewRequest("GET", "http://host/path?q", nil)
		return r
	}
	return &http.Request{URL: &url.URL{Opaque: "o"}, Header: http.Header{"X-Client-Ip": {"999.1.1.1.1"}}}
}

func oddResponse(i int) *http.Response {
	switch i % 3 {
	case 0:
		return nil
	case 1:
		return &http.Response{}
	}
	return &http.Response{StatusCode: -7}
}

func oddError(i int) error {
	switch i % 4 {
	case 0:
		return nil
	case 1:
		return errors.New("")
	case 2:
		return (*badErr)(nil) // its Error method panics
	}
	return &badErr{"failed"}
}

var oddKinds = []string{"value", "cancel", "deadline", "wrap", "own", "http", "http", "app", "app", "inh", "inhnil", "go", "go", "endhttp", "end", "end",
	"method", "methodp", "cmethod", "cmethodp", "mend", "mend", "api", "prop", "aend", "aend", "msg", "hmsg", "pmsg", "add", "err", "errf", "name", "stream", "isstream", "noop", "cancelnow", "sleep", "lookup"}

func genOdd(rt *rapid.T) []oddOp {
	var l []oddOp
	for i := rapid.IntRange(3, 45).Draw(rt, "n"); i > 0; i-- {
		o := oddOp{k: rapid.SampledFrom(oddKinds).Draw(rt, "op"), c: rapid.IntRange(0, 30).Draw(rt, "ctx"),
			s: rapid.IntRange(0, 12).Draw(rt, "step"), x: rapid.IntRange(-1, 20).Draw(rt, "x"), y: rapid.IntRange(-1, 20).Draw(rt, "y")}
		o.t = rapid.SampledFrom([]string{"", "t", "\x00\xff", "한글", strings.Repeat("z", 300), strings.Repeat("h", 70000)}).Draw(rt, "text")
		if strings.HasSuffix(o.k, "p") {
			o.ps = rapid.SliceOfN(rapid.IntRange(0, 13), 0, 3).Draw(rt, "params")
		}
		l = append(l, o)
	}
	return l
}

type oddRun struct {
	ctxs  []octx
	steps []any // *MethodStep or *ApiCallStep
	tctxs []*netio.TraceContext
	gone  []chan struct{}
	fails []string
	used  int // calls on untraced contexts
	odd   int
	mark  string
	live  map[int64]bool
}

func (r *oddRun) failf(f string, a ...any) { r.fails = append(r.fails, fmt.Sprintf(f, a...)) }

// call runs one call of the API: it must not panic, and must not wait.
func (r *oddRun) call(what string, f func()) {
	t0 := time.Now()
	defer func() {
		if p := recover(); p != nil {
			buf := make([]byte, 4096)
			r.failf("%s panicked: %v\n%s", what, p, buf[:runtime.Stack(buf, false)])
		}
		if d := time.Since(t0); d != 0 {
			r.failf("%s took %v", what, d)
		}
	}()
	f()
}

// checkStart judges the context which a start gave for the context c.
func (r *oddRun) checkStart(what string, c octx, n context.Context) {
	if n == nil {
		r.failf("%s on a %s context gave no context", what, c.kind)
		return
	}
	if c.ctx == nil {
		r.add(n, "after "+what)
		return
	}
	d0, ok0 := c.ctx.Deadline()
	d1, ok1 := n.Deadline()
	if ok0 != ok1 || !d0.Equal(d1) {
		r.failf("%s on a %s context: deadline %v %v became %v %v", what, c.kind, d0, ok0, d1, ok1)
	}
	if c.ctx.Err() != n.Err() {
		r.failf("%s on a %s context: error %v became %v", what, c.kind, c.ctx.Err(), n.Err())
	}
	for _, k := range []any{ownKey("a"), ownKey("b"), ctxKey{}} {
		if c.ctx.Value(k) != n.Value(k) {
			r.failf("%s on a %s context lost the value of %v", what, c.kind, k)
		}
	}
	if c.ctx.Done() != n.Done() {
		r.failf("%s on a %s context changed its cancellation", what, c.kind)
	}
	if c.svc >= 0 && tctxmanager.GetTraceContext(n) != r.tctxs[c.svc] && what != "inheriting" {
		r.failf("%s inside a service left that service", what)
	}
	r.add(n, "after "+what)
}

// add remembers a context, and the service tracing it.
func (r *oddRun) add(n context.Context, kind string) {
	c := octx{ctx: n, svc: -1, kind: kind}
	if n != nil {
		if t := tctxmanager.GetTraceContext(n); t != nil {
			for i, o := range r.tctxs {
				if o == t {
					c.svc = i
				}
			}
			if c.svc < 0 {
				c.svc = len(r.tctxs)
				r.tctxs = append(r.tctxs, t)
			}
		}
	}
	r.ctxs = append(r.ctxs, c)
}

func (r *oddRun) exec(o oddOp) {
	c := r.ctxs[o.c%len(r.ctxs)]
	text := o.t
	if c.svc < 0 { // its texts must never be sent
		r.used++
		text = r.mark + o.t
	}
	untraced := func(what string, nothing bool) {
		if c.svc < 0 && !nothing {
			r.failf("%s on a %s context, which is not traced, gave a step", what, c.kind)
		}
	}
	var params []interface{}
	for _, p := range o.ps {
		params = append(params, oddParam(p))
	}
	parent := c.ctx
	if parent == nil {
		parent = context.Background()
	}
	var st any
	if len(r.steps) > 0 && o.s > 0 {
		st = r.steps[len(r.steps)-1-(o.s-1)%len(r.steps)]
	}
	switch o.k {
	case "value":
		r.add(context.WithValue(parent, ownKey([]string{"a", "b"}[o.s%2]), fmt.Sprint(o.s)), "value")
	case "cancel":
		n, f := context.WithCancel(parent)
		r.add(n, "cancellable")
		r.ctxs[len(r.ctxs)-1].cancel = f
	case "deadline":
		n, f := context.WithTimeout(parent, time.Duration(o.x)*time.Second)
		r.add(n, "deadline")
		r.ctxs[len(r.ctxs)-1].cancel = f
	case "cancelnow":
		if c.cancel != nil {
			c.cancel()
		}
	case "own", "wrap":
		r.add(ownCtx{parent}, "own")
	case "sleep":
		time.Sleep(time.Duration(o.s*o.s) * time.Millisecond)
	case "http":
		var n context.Context
		req := oddRequest(o.s)
		r.call(fmt.Sprintf("StartHttpService(%s context, request %d)", c.kind, o.s%8), func() { n = strace.StartHttpService(c.ctx, req) })
		r.checkStart("StartHttpService", c, n)
		if c.ctx != nil && n != nil && req != nil && req.URL != nil && tctxmanager.GetTraceContext(n) == nil {
			r.failf("StartHttpService on a %s context with request %d started no service", c.kind, o.s%8)
		}
	case "app":
		var n context.Context
		r.call(fmt.Sprintf("StartService(%s context)", c.kind), func() { n = strace.StartService(c.ctx, o.t, o.t) })
		r.checkStart("StartService", c, n)
		if n != nil && tctxmanager.GetTraceContext(n) == nil {
			r.failf("StartService on a %s context started no service", c.kind)
		}
	case "inh", "inhnil":
		var p *netio.TraceContext
		if o.k == "inh" {
			if len(r.tctxs) == 0 {
				return
			}
			p = r.tctxs[o.s%len(r.tctxs)]
		}
		var n context.Context
		r.call(fmt.Sprintf("StartNewInheritanceService(%s context)", c.kind), func() { n, _ = strace.StartNewInheritanceService(c.ctx, p) })
		r.checkStart("inheriting", c, n)
	case "go":
		ran := 0
		var in context.Context
		done := make(chan struct{})
		r.call(fmt.Sprintf("GoWithTrace(%s context)", c.kind), func() {
			strace.GoWithTrace(c.ctx, text, func(ctx context.Context) {
				ran++
				in = ctx
				if o.s%3 == 0 {
					time.Sleep(time.Duration(o.s) * time.Millisecond)
				}
				defer close(done)
				if o.s%5 == 1 {
					runtime.Goexit()
				}
			})
		})
		time.Sleep(50 * time.Millisecond)
		synctest.Wait()
		if ran != 1 {
			r.failf("the function given to GoWithTrace on a %s context ran %d times", c.kind, ran)
			return
		}
		<-done
		if c.ctx == nil {
			return
		}
		if in == nil {
			r.failf("the function given to GoWithTrace on a %s context got no context", c.kind)
			return
		}
		for _, k := range []any{ownKey("a"), ownKey("b"), ctxKey{}} {
			if c.ctx.Value(k) != in.Value(k) {
				r.failf("GoWithTrace on a %s context lost the value of %v", c.kind, k)
			}
		}
		if c.ctx.Done() != in.Done() {
			r.failf("GoWithTrace on a %s context changed its cancellation", c.kind)
		}
		t := tctxmanager.GetTraceContext(in)
		if (c.svc >= 0) != (t != nil) {
			r.failf("the function given to GoWithTrace on a %s context (service %d) got trace context %v", c.kind, c.svc, t)
		} else if t != nil {
			r.add(in, "goroutine")
		}
	case "end":
		r.call(fmt.Sprintf("EndService(%s context)", c.kind), func() { strace.EndService(c.ctx) })
	case "endhttp":
		r.call(fmt.Sprintf("EndHttpService(%s context, %d, %d)", c.kind, o.x, o.y), func() { strace.EndHttpService(c.ctx, oddRequest(o.x+8), oddResponse(o.y+3)) })
	case "method", "methodp", "cmethod", "cmethodp":
		var m *netdata.MethodStep
		r.call(fmt.Sprintf("start of a method (%s, %s context, %v)", o.k, c.kind, o.ps), func() {
			switch o.k {
			case "method":
				m = strace.StartMethod(c.ctx)
			case "methodp":
				m = strace.StartMethodWithParam(c.ctx, params...)
			case "cmethod":
				m = strace.StartCustomMethod(c.ctx, text)
			case "cmethodp":
				m = strace.StartCustomMethodWithParam(c.ctx, text, params...)
			}
		})
		untraced("start of a method", m == nil)
		if c.svc >= 0 && m == nil {
			r.failf("start of a method (%s, %v) of a traced service gave no step", o.k, o.ps)
		}
		r.steps = append(r.steps, m)
	case "mend":
		m, _ := st.(*netdata.MethodStep)
		r.call(fmt.Sprintf("EndMethod(%s context, %v)", c.kind, m), func() { strace.EndMethod(c.ctx, m) })
	case "api":
		var a *netdata.ApiCallStep
		r.call("StartApiCall", func() { a = strace.StartApiCall(c.ctx, text, o.t) })
		untraced("StartApiCall", a == nil)
		r.steps = append(r.steps, a)
	case "prop":
		var a *netdata.ApiCallStep
		req := oddRequest(o.s)
		before := 0
		if req != nil {
			before = len(req.Header)
		}
		r.call(fmt.Sprintf("StartApiCallWithPropagation(%s context, request %d)", c.kind, o.s%8), func() { a = strace.StartApiCallWithPropagation(c.ctx, req, text, o.t) })
		untraced("StartApiCallWithPropagation", a == nil)
		if c.svc >= 0 && a == nil {
			r.failf("StartApiCallWithPropagation of a traced service (request %d) gave no step", o.s%8)
		}
		if c.svc < 0 && req != nil && len(req.Header) != before {
			r.failf("StartApiCallWithPropagation on a %s context, which is not traced, changed the request", c.kind)
		}
		r.steps = append(r.steps, a)
	case "aend":
		a, _ := st.(*netdata.ApiCallStep)
		r.call(fmt.Sprintf("EndApiCall(%s context, %v, error %d)", c.kind, a, o.x), func() { strace.EndApiCall(c.ctx, a, oddError(o.x+4)) })
	case "msg":
		r.call("AddMessageStep", func() { strace.AddMessageStep(c.ctx, text) })
	case "hmsg":
		r.call("AddHashedMessageStep", func() { strace.AddHashedMessageStep(c.ctx, text, int32(o.x), int32(o.y)) })
	case "pmsg":
		r.call("AddPMessageStep", func() {
			strace.AddPMessageStep(c.ctx, netdata.PMessageLevel(o.x), text, int32(o.y), []string{o.t, "p"}[:o.s%3]...)
		})
	case "add":
		var s netdata.Step
		switch o.s % 6 {
		case 1:
			s = (*netdata.MessageStep)(nil)
		case 2:
			s = &netdata.MessageStep{}
		case 3:
			s = &netdata.ApiCallStep{}
		case 4:
			s = netdata.NewPMessageStep(int32(o.x))
		case 5:
			if m, ok := st.(*netdata.MethodStep); ok && m != nil {
				s = m
			}
		}
		r.call(fmt.Sprintf("AddStep(%s context, %T)", c.kind, s), func() { strace.AddStep(c.ctx, s) })
	case "err":
		r.call("MarkAsError", func() { strace.MarkAsError(c.ctx, text) })
	case "errf":
		r.call("MarkAsErrorForcibly", func() { strace.MarkAsErrorForcibly(c.ctx, text) })
	case "name":
		r.call("SetServiceNameForcibly", func() { strace.SetServiceNameForcibly(c.ctx, text) })
	case "stream":
		var ok bool
		r.call("SetAsStream", func() { ok = strace.SetAsStream(c.ctx) })
		if ok != (c.svc >= 0) {
			r.failf("SetAsStream on a %s context (service %d) gave %v", c.kind, c.svc, ok)
		}
	case "isstream":
		var is bool
		r.call("IsStream", func() { is = strace.IsStream(c.ctx) })
		if is && c.svc < 0 {
			r.failf("IsStream of a %s context, which is not traced", c.kind)
		}
	case "lookup":
		var t *netio.TraceContext
		r.call(fmt.Sprintf("GetTraceContext(%s context)", c.kind), func() { t = tctxmanager.GetTraceContext(c.ctx) })
		if (t != nil) != (c.svc >= 0) {
			r.failf("GetTraceContext of a %s context (service %d) gave %v", c.kind, c.svc, t)
		}
		r.call("GetTraceContextByTxid", func() { t = tctxmanager.GetTraceContextByTxid(int64(o.x)) })
		if t != nil {
			r.failf("GetTraceContextByTxid(%d) found %v", o.x, t)
		}
	case "noop":
		var t *netio.TraceContext
		r.call(fmt.Sprintf("GetTraceContextFallbackNoop(%s context)", c.kind), func() { t = tctxmanager.GetTraceContextFallbackNoop(c.ctx) })
		if t == nil {
			r.failf("GetTraceContextFallbackNoop of a %s context gave nil", c.kind)
			return
		}
		if t.Noop != (c.svc < 0) {
			r.failf("GetTraceContextFallbackNoop of a %s context (service %d) gave noop=%v", c.kind, c.svc, t.Noop)
		}
		r.call("setting fields", func() {
			t.Login, t.Desc, t.Text1 = text, text, text
			for i := 0; i < o.s*100; i++ {
				t.Profile.Add(netdata.NewMessageStep(text[:min(len(text), 20)], 0))
			}
		})
	default:
		panic("HARNESS-ERROR " + o.k)
	}
}

func TestC18Odd(t *testing.T) {
	hx.Rule("programs of up to 45 tracing calls on nil, plain, cancelled, expired, derived, traced, ended and foreign contexts, with nil, foreign, reused and unended steps, odd requests, responses, errors, names and parameters; non-trivial: at least 2 calls on untraced contexts and one service")
	w := newWorld(t)
	cases := 0
	hx.Check(t, 400, 10000, func(rt *rapid.T) {
		ops := genOdd(rt)
		registered := rapid.Bool().Draw(rt, "reports")
		desc := fmt.Sprint("panics reported: ", registered, "; ", ops)
		hx.Journal(desc)
		cases++
		w.configure(map[string]string{"profile_http_header_enabled": "true", "profile_http_querystring_enabled": "true",
			"profile_step_max_keep_in_memory_count": []string{"1024", "3", "100"}[len(ops)%3], "trace_http_client_ip_header_key": "X-Client-Ip"})
		w.col.Take()
		d0 := w.col.Drops()
		r := &oddRun{mark: fmt.Sprintf("untraced %d ", cases), live: map[int64]bool{}}
		var fresh int64
		hang := time.AfterFunc(4*time.Minute, func() { hx.Violation("a tracing call did not return; case: %s", desc) })
		defer hang.Stop()
		if err := w.b.Run(func() {
			common.RegisterSendPanicF(nil)
			if registered {
				common.RegisterSendPanicF(netio.SendPanic)
			}
			r.add(nil, "nil")
			r.add(context.Background(), "background")
			r.add(context.WithValue(base(), ownKey("a"), 1), "value")
			for _, o := range ops {
				r.exec(o)
			}
			synctest.Wait()
			for _, c := range r.ctxs {
				r.call("EndService", func() { strace.EndService(c.ctx) })
				if c.cancel != nil {
					c.cancel()
				}
			}
			// a well-behaved service afterwards
			ctx := strace.StartService(base(), "fresh", "1.2.3.4")
			if t := tctxmanager.GetTraceContext(ctx); t != nil {
				fresh = t.Txid
			}
			m := strace.StartCustomMethod(ctx, "m")
			strace.AddMessageStep(ctx, "inside")
			strace.EndMethod(ctx, m)
			strace.EndService(ctx)
			settle()
			common.RegisterSendPanicF(netio.SendPanic)
		}); err != nil {
			rt.Fatalf("%v\n%s", err, desc)
		}
		g, err := w.collect(d0)
		if errors.Is(err, errDropped) {
			hx.Discard()
			return
		}
		if err == nil && len(r.fails) > 0 {
			err = errors.New(r.fails[0])
		}
		if err == nil {
			err = r.judge(w, g, fresh, registered)
		}
		if err != nil {
			rt.Fatalf("%v\n%s", err, desc)
		}
		hx.Case(desc, r.used >= 2 && len(r.tctxs) > 0)
	})
}

func (r *oddRun) judge(w *world, g *got, fresh int64, registered bool) error {
	known := map[int64]bool{fresh: true}
	for _, t := range r.tctxs {
		known[t.Txid] = true
		if n := len(g.xlogs[t.Txid]); n != 1 {
			return fmt.Errorf("service %q has %d xlogs", t.ServiceName, n)
		}
	}
	for id := range g.xlogs {
		if !known[id] {
			return fmt.Errorf("an xlog of the unknown transaction %d", id)
		}
	}
	for id, l := range g.profiles {
		if !known[id] {
			return fmt.Errorf("a profile of the unknown transaction %d", id)
		}
		for _, p := range l {
			if _, err := refwire.Steps(p.Steps); err != nil {
				return err
			}
		}
	}
	for k := range w.texts {
		if strings.Contains(k, r.mark) {
			return fmt.Errorf("the text of a call on an untraced context was sent: %.60q", k)
		}
	}
	for _, a := range g.alerts {
		if a.Title != "Panic" || !registered {
			return fmt.Errorf("an alert was sent: %q %q", a.Title, a.Message)
		}
	}
	if len(g.others) > 0 {
		return fmt.Errorf("something else was sent: %+v", g.others[0])
	}
	if len(g.xlogs[fresh]) != 1 || len(g.profiles[fresh]) == 0 {
		return fmt.Errorf("a service after the odd calls has %d xlogs and %d profiles", len(g.xlogs[fresh]), len(g.profiles[fresh]))
	}
	var l []refwire.Step
	for _, p := range g.profiles[fresh] {
		s, err := refwire.Steps(p.Steps)
		if err != nil {
			return err
		}
		l = append(l, s...)
	}
	if len(l) != 3 {
		return fmt.Errorf("the profile of a service after the odd calls has %d steps, expected 3: %+v", len(l), l)
	}
	return nil
}
