package trace

import (
	"context"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/counter"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"pgregory.net/rapid"
	"verif/harness/hx"
	"verif/harness/refwire"
)

// glob: does the whole name match the pattern, '*' standing for any text?
func glob(p, s string) bool {
	if p == "" {
		return s == ""
	}
	if p[0] == '*' {
		for i := 0; i <= len(s); i++ {
			if glob(p[1:], s[i:]) {
				return true
			}
		}
		return false
	}
	return s != "" && s[0] == p[0] && glob(p[1:], s[1:])
}

func matches(list, name string) bool {
	if name == "" { // no pattern matches an empty name
		return false
	}
	for _, p := range strings.Split(list, ",") {
		if p != "" && glob(p, name) {
			return true
		}
	}
	return false
}

// sampling is one of the four sampling configurations.
type sampling struct {
	on, only bool
	step     [3]int
	rate     [4]int
	pats     string
}

func (s sampling) put(m map[string]string, k string, pats bool) {
	m[k+"_enabled"] = fmt.Sprint(s.on)
	m[k+"_only_profile"] = fmt.Sprint(s.only)
	for i, v := range s.step {
		m[fmt.Sprintf("%s_step%d_ms", k, i+1)] = fmt.Sprint(v)
	}
	for i := 0; i < 3; i++ {
		m[fmt.Sprintf("%s_step%d_rate_pct", k, i+1)] = fmt.Sprint(s.rate[i])
	}
	m[k+"_over_rate_pct"] = fmt.Sprint(s.rate[3])
	if pats {
		m[k+"_service_patterns"] = s.pats
	}
}

// pct is the chance in percent of being sent in full.
func (s sampling) pct(elapsed int) int {
	for i, v := range s.step {
		if elapsed < v {
			return s.rate[i]
		}
	}
	return s.rate[3]
}

type samplingConf struct {
	general          sampling
	patterned        [3]sampling
	exclude, discard string
	showError        bool
}

func (c samplingConf) settings() map[string]string {
	m := map[string]string{"xlog_sampling_exclude_patterns": c.exclude, "xlog_discard_service_patterns": c.discard, "xlog_discard_service_show_error": fmt.Sprint(c.showError)}
	c.general.put(m, "xlog_sampling", false)
	for i, k := range []string{"xlog_patterned_sampling", "xlog_patterned2_sampling", "xlog_patterned3_sampling"} {
		c.patterned[i].put(m, k, true)
	}
	return m
}

// decide says with which chance (percent) a service is sent in full, and what happens otherwise:
// "profile" (without profile), "all" (not at all unless called) or "force" (not at all).
func (c samplingConf) decide(name string, elapsed int, failed bool) (pct int, otherwise string) {
	if matches(c.discard, name) && !(failed && c.showError) {
		return 0, "force"
	}
	if failed {
		return 100, ""
	}
	if c.general.on && matches(c.exclude, name) {
		return 100, ""
	}
	use := c.general
	for i := 2; i >= 0; i-- {
		if c.patterned[i].on && matches(c.patterned[i].pats, name) {
			use = c.patterned[i]
		}
	}
	if !use.on {
		return 100, ""
	}
	otherwise = "all"
	if use.only {
		otherwise = "profile"
	}
	return use.pct(elapsed), otherwise
}

var names17 = []string{"/order/list", "/order/new", "/pay", "/pay/x", "/a", "/static/a.css", "job", "*", "/order", "x"}

// errors of hashes of either sign
var errors17 = []string{"boom", "e", "no route", "timeout after 3 s", "eof", "x", "連接失敗", "a longer error: with details"}

func genPats(rt *rapid.T, what string) string {
	l := rapid.SliceOfN(rapid.SampledFrom([]string{"/order/*", "/pay*", "*css", "/a", "job", "*", "/*/x", "/o*w", "*/*", "nomatch", "/pay"}), 0, 3).Draw(rt, what)
	return strings.Join(l, ",")
}

func genSampling(rt *rapid.T, exact bool) sampling {
	var s sampling
	s.on = rapid.Bool().Draw(rt, "on")
	s.only = rapid.Bool().Draw(rt, "only")
	st := rapid.SampledFrom([][3]int{{100, 500, 1000}, {1, 2, 3}, {10, 10, 20}, {0, 5, 1000}, {50, 100, 2500}, {300, 200, 100}}).Draw(rt, "steps")
	s.step = st
	for i := range s.rate {
		if exact {
			s.rate[i] = rapid.SampledFrom([]int{0, 100, 0, 100, -5, 3000}).Draw(rt, "rate")
		} else {
			s.rate[i] = rapid.SampledFrom([]int{0, 100, 1, 50, 99, 20}).Draw(rt, "rate")
		}
	}
	s.pats = genPats(rt, "pats")
	return s
}

type svc17 struct {
	name    string
	elapsed int
	failed  bool
	fail    int // how
	text    string
	called  int // 0 root, 1 goroutine of another service, 2 inherited
	kind    int
	stream  bool
}

func TestC17Sampling(t *testing.T) {
	hx.Rule("sampling configurations (four samplings, excludes, discards) changed between batches of services of generated names, ages, errors and callers; non-trivial: some sampling or discard pattern applies to a service of the batch")
	w := newWorld(t)
	tally := map[int][2]int{} // rate -> services, sent in full
	hx.Check(t, 500, 12000, func(rt *rapid.T) {
		exact := rapid.IntRange(0, 2).Draw(rt, "exact") > 0
		desc := ""
		nt := false
		pool := []string{genPats(rt, "pool"), genPats(rt, "pool")} // lists that come again, here and there
		again := func(l string) string {
			if k := rapid.IntRange(0, 5).Draw(rt, "again"); k < 2 {
				return pool[k]
			}
			return l
		}
		for b := rapid.IntRange(1, 4).Draw(rt, "batches"); b > 0; b-- {
			c := samplingConf{general: genSampling(rt, exact), exclude: again(genPats(rt, "exclude")), showError: rapid.Bool().Draw(rt, "showerr")}
			for i := range c.patterned {
				c.patterned[i] = genSampling(rt, exact)
				c.patterned[i].pats = again(c.patterned[i].pats)
			}
			if rapid.IntRange(0, 2).Draw(rt, "discards") == 0 {
				c.discard = again(genPats(rt, "discard"))
			}
			reset := b == 1 || rapid.Bool().Draw(rt, "reset") // whether the defaults hold in between
			var svcs []svc17
			for i := rapid.IntRange(1, 14).Draw(rt, "n"); i > 0; i-- {
				s := svc17{name: rapid.SampledFrom(names17).Draw(rt, "name"), failed: rapid.IntRange(0, 3).Draw(rt, "failed") == 0, fail: rapid.IntRange(0, 2).Draw(rt, "fail"), text: rapid.SampledFrom(errors17).Draw(rt, "error"), called: rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(rt, "called")}
				all := append([]sampling{c.general}, c.patterned[:]...)
				sp := rapid.SampledFrom(all).Draw(rt, "around")
				s.elapsed = max(0, sp.step[rapid.IntRange(0, 2).Draw(rt, "bound")]+rapid.IntRange(-1, 1).Draw(rt, "off"))
				if rapid.IntRange(0, 3).Draw(rt, "free") == 0 {
					s.elapsed = rapid.IntRange(0, 3000).Draw(rt, "elapsed")
				}
				s.kind = rapid.IntRange(0, 1).Draw(rt, "how")
				s.stream = rapid.IntRange(0, 5).Draw(rt, "stream") == 0
				svcs = append(svcs, s)
			}
			sort.SliceStable(svcs, func(i, j int) bool { return svcs[i].elapsed < svcs[j].elapsed })
			desc += fmt.Sprintf("%+v: %+v; ", c, svcs)
			hx.Journal(desc)
			w.configure(c.settings())
			w.col.Take()
			d0 := w.col.Drops()
			ids := make([]int64, len(svcs))
			var bad string
			var parent context.Context
			var release chan struct{}
			if err := w.b.Run(func() {
				time.Sleep(31 * time.Second) // the service meter's window of 30 s is empty
				release = make(chan struct{})
				ctxs := make([]context.Context, len(svcs))
				parent = strace.StartService(context.Background(), "parent", "")
				parentT := tctxmanager.GetTraceContext(parent)
				for i, s := range svcs {
					switch s.called {
					case 0:
						ctxs[i] = strace.StartService(context.Background(), s.name, "1.1.1.1")
					case 1:
						got := make(chan context.Context, 1)
						strace.GoWithTrace(parent, s.name, func(ctx context.Context) { got <- ctx; <-release })
						ctxs[i] = <-got
					case 2:
						ctxs[i], _ = strace.StartNewInheritanceService(context.Background(), parentT)
						strace.SetServiceNameForcibly(ctxs[i], s.name)
					}
					ids[i] = tctxmanager.GetTraceContext(ctxs[i]).Txid
					if s.stream {
						strace.SetAsStream(ctxs[i])
					}
					strace.AddMessageStep(ctxs[i], "step")
				}
				t0 := time.Now()
				fails, sum := 0, 0
				for i, s := range svcs {
					time.Sleep(time.Duration(s.elapsed)*time.Millisecond - time.Since(t0))
					if s.failed {
						switch s.fail {
						case 0:
							strace.MarkAsError(ctxs[i], s.text)
						case 1:
							strace.MarkAsErrorForcibly(ctxs[i], s.text)
						case 2:
							strace.EndApiCall(ctxs[i], strace.StartApiCall(ctxs[i], "call", ""), errors.New(s.text))
						}
						fails++
					}
					sum += s.elapsed
					if s.kind == 0 {
						strace.EndService(ctxs[i])
					} else {
						strace.EndHttpService(ctxs[i], nil, nil)
					}
				}
				m := counter.GetServiceMeter().GetAllCounter(30)
				n := len(svcs)
				wantRate := float32(fails) / float32(n) * 100
				if m.Tps != float32(n)/30 || m.Elapsed != sum/n || math.Abs(float64(m.ErrorRate-wantRate)) > 0.01 {
					bad = fmt.Sprintf("%d services ended, %d failed, %d ms in all: the meter says %v a second, %v%% failed, %d ms", n, fails, sum, m.Tps, m.ErrorRate, m.Elapsed)
				}
				settle()
			}); err != nil {
				rt.Fatalf("%v\n%s", err, desc)
			}
			g, err := w.collect(d0)
			if errors.Is(err, errDropped) {
				hx.Discard()
				return
			}
			if err == nil && bad != "" {
				err = errors.New(bad)
			}
			for i, s := range svcs {
				if err != nil {
					break
				}
				pct, otherwise := c.decide(s.name, s.elapsed, s.failed)
				if otherwise != "" {
					nt = true
				}
				full, e := judgeSent(g.xlogs[ids[i]], g.profiles[ids[i]], otherwise, s.called > 0)
				if e == nil && pct >= 100 && !full {
					e = errors.New("it was not sent in full")
				}
				if e == nil && pct <= 0 && full {
					e = errors.New("it was sent in full")
				}
				if e != nil {
					err = fmt.Errorf("service %+v, to be sent in full with %d%%, else %q: %v", s, pct, otherwise, e)
				}
				if pct > 0 && pct < 100 {
					k := tally[pct]
					k[0]++
					if full {
						k[1]++
					}
					tally[pct] = k
				}
			}
			if err != nil {
				rt.Fatalf("%v\n%s", err, desc)
			}
			// let the parent and the goroutines end, unseen
			if reset {
				w.configure(nil)
			}
			if err := w.b.Run(func() {
				close(release)
				strace.EndService(parent)
				settle()
			}); err != nil {
				rt.Fatalf("%v\n%s", err, desc)
			}
			w.col.Sync()
		}
		hx.Case(desc, nt)
	})
	for pct, k := range tally {
		p := float64(pct) / 100
		n := float64(k[0])
		if d := math.Abs(float64(k[1]) - n*p); d > 7*math.Sqrt(n*p*(1-p))+5 {
			t.Errorf("of %d services sampled at %d%%, %d were sent in full", k[0], pct, k[1])
		}
	}
}

// judgeSent says whether a service was sent in full; otherwise it must have been treated as said.
func judgeSent(xs []*refwire.Xlog, ps []*refwire.Profile, otherwise string, called bool) (bool, error) {
	if len(xs) > 1 {
		return false, fmt.Errorf("%d xlogs", len(xs))
	}
	steps := 0
	for _, p := range ps {
		l, err := refwire.Steps(p.Steps)
		if err != nil {
			return false, err
		}
		steps += len(l)
	}
	if len(xs) == 1 && steps > 0 {
		if int(xs[0].ProfileCount) != steps {
			return false, fmt.Errorf("the xlog counts %d steps, %d were sent", xs[0].ProfileCount, steps)
		}
		return true, nil
	}
	if steps > 0 {
		return false, errors.New("a profile was sent without its xlog")
	}
	switch otherwise {
	case "profile":
		if len(xs) != 1 {
			return false, errors.New("only the profile was to be left out, and the xlog is missing")
		}
	case "all":
		if called != (len(xs) == 1) {
			return false, fmt.Errorf("%d xlogs were sent (called by another service: %v)", len(xs), called)
		}
	case "force":
		if len(xs) != 0 {
			return false, errors.New("its xlog was sent")
		}
	case "":
		if len(xs) != 0 {
			return false, errors.New("its profile was not sent")
		}
		return false, errors.New("nothing was sent")
	}
	return false, nil
}
