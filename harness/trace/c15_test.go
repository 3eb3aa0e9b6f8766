package trace

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/hx"
	"verif/harness/refwire"
)

// judgeProfile compares the profile records of a finished service with the model.
func judgeProfile(s *svc, x *refwire.Xlog, ps []*refwire.Profile, max int) error {
	at := map[int32]int{} // index to place in the order of completion
	methods := map[int32]bool{}
	for i, e := range s.steps {
		at[e.Index] = i
		if e.T == refwire.SMethod || e.T == refwire.SApi {
			methods[e.Index] = true
		}
	}
	for _, o := range s.open {
		methods[o.index] = true
	}
	seen := map[int32]bool{}
	groups := map[int][2][]string{}
	count, size := 0, 0
	for _, p := range ps {
		if p.ObjHash != objHash() {
			return fmt.Errorf("a profile record names agent %d", p.ObjHash)
		}
		if !s.renamed && p.Service != crc(s.name) && p.Service != 0 {
			return fmt.Errorf("a profile record names service %d, the service's hash is %d", p.Service, crc(s.name))
		}
		steps, err := refwire.Steps(p.Steps)
		if err != nil {
			return fmt.Errorf("a profile record's steps: %v", err)
		}
		if len(steps) > max {
			return fmt.Errorf("a profile record has %d steps, the maximum is %d", len(steps), max)
		}
		if len(steps) == 0 {
			return fmt.Errorf("an empty profile record")
		}
		count += len(steps)
		size += len(p.Steps)
		last := -1
		for _, st := range steps {
			i, ok := at[st.Index]
			if !ok {
				return fmt.Errorf("a step with index %d that was not added (completed): %+v", st.Index, st)
			}
			if seen[st.Index] {
				return fmt.Errorf("the step with index %d came twice", st.Index)
			}
			seen[st.Index] = true
			if i < last {
				return fmt.Errorf("the step with index %d is out of order in its record", st.Index)
			}
			last = i
			e := s.steps[i]
			if e.top {
				if methods[st.Parent] {
					return fmt.Errorf("the step with index %d says %d encloses it, and nothing does", st.Index, st.Parent)
				}
				st.Parent = 0
			}
			if st.T == refwire.SAsync {
				st.Opt, st.Elapsed = 0, 0
			}
			if e.loose {
				if st.T != e.T || st.Parent != e.Parent {
					return fmt.Errorf("step %+v, expected type %d, parent %d", st, e.T, e.Parent)
				}
				continue
			}
			if e.group > 0 {
				g := groups[e.group]
				n := func(m string) string { return strings.Join(strings.Fields(m), " ") }
				groups[e.group] = [2][]string{append(g[0], n(e.Msg)), append(g[1], n(st.Msg))}
				e.Msg = st.Msg
			}
			if fmt.Sprintf("%+v", e.Step) != fmt.Sprintf("%+v", st) {
				return fmt.Errorf("step %+v, expected %+v", st, e.Step)
			}
		}
	}
	for _, g := range groups {
		sort.Strings(g[0])
		sort.Strings(g[1])
		if fmt.Sprint(g[0]) != fmt.Sprint(g[1]) {
			return fmt.Errorf("header steps %q, expected %q", g[1], g[0])
		}
	}
	for _, e := range s.steps {
		if !seen[e.Index] {
			return fmt.Errorf("%d of %d steps arrived; missing: %+v", len(seen), len(s.steps), e.Step)
		}
	}
	if int(x.ProfileCount) != count || int(x.ProfileSize) != size {
		return fmt.Errorf("the xlog counts %d steps of %d bytes, the profile has %d of %d", x.ProfileCount, x.ProfileSize, count, size)
	}
	return nil
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func TestC15Profile(t *testing.T) {
	hx.Rule("programs of up to 60 tracing calls adding, nesting and closing steps of every kind, repeated up to 400 times, under small and default limits which may change in the middle, over interleaved services; non-trivial: some service has at least 8 steps or more than one record")
	w := newWorld(t)
	m := mix{"http": 1, "app": 1, "child": 1, "inh": 1, "end": 2, "sleep": 3, "msg": 5, "hmsg": 4, "pmsg": 4, "add": 4, "method": 6, "api": 4, "prop": 1, "close": 9, "err": 1, "name": 1}
	hx.Check(t, 300, 8000, func(rt *rapid.T) {
		keep := rapid.OneOf(rapid.SampledFrom([]int{1, 2, 3, 2048, 2048}), rapid.IntRange(2, 40)).Draw(rt, "keep")
		max := rapid.OneOf(rapid.SampledFrom([]int{1, 2, 1024, 1024}), rapid.IntRange(1, 50)).Draw(rt, "max")
		conf := map[string]string{"profile_step_max_keep_in_memory_count": fmt.Sprint(keep), "profile_step_max_count": fmt.Sprint(max)}
		if rapid.Bool().Draw(rt, "headers") {
			conf["profile_http_header_enabled"] = "true"
			conf["profile_http_header_keys"] = rapid.SampledFrom([]string{"", "X-Custom", "User-Agent,X-Custom", "x-custom, Referer", "Nope"}).Draw(rt, "keys")
		}
		if rapid.Bool().Draw(rt, "query") {
			conf["profile_http_querystring_enabled"] = "true"
		}
		p := genPlan(rt, rapid.IntRange(3, 60).Draw(rt, "n"), m, rapid.IntRange(0, 3).Draw(rt, "late") == 0, 5)
		// the limits change in the middle
		for n := rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(rt, "changes"); n > 0; n-- {
			o := op{k: "conf", s: -1, n: rapid.OneOf(rapid.SampledFrom([]int{1, 2, 2048}), rapid.IntRange(2, 60)).Draw(rt, "keep2"),
				m: rapid.OneOf(rapid.SampledFrom([]int{1, 2, 1024}), rapid.IntRange(1, 50)).Draw(rt, "max2")}
			i := rapid.IntRange(0, len(p.ops)).Draw(rt, "at")
			p.ops = append(p.ops[:i:i], append([]op{o}, p.ops[i:]...)...)
			max = maxInt(max, o.m)
		}
		// blow up one operation: many steps of a kind
		if rapid.IntRange(0, 2).Draw(rt, "blow") == 0 {
			rep := rapid.IntRange(2, 400).Draw(rt, "rep")
			if rapid.IntRange(0, 20).Draw(rt, "big") == 0 && keep > 500 {
				rep = rapid.IntRange(1000, 5000).Draw(rt, "rep2")
			}
			for i, o := range p.ops {
				if o.k == "msg" || o.k == "hmsg" || o.k == "pmsg" {
					l := append([]op{}, p.ops[:i]...)
					for k := 0; k < rep; k++ {
						o2 := o
						if len(o2.a) > 20 {
							o2.a = fmt.Sprintf("rep%d", k%7)
						}
						l = append(l, o2)
					}
					p.ops = append(l, p.ops[i+1:]...)
					break
				}
			}
		}
		for i, s := range p.svcs {
			if !s.ended && rapid.IntRange(0, 5).Draw(rt, "leave") > 0 {
				p.ops = append(p.ops, op{k: "end", s: i, n: rapid.IntRange(0, 3).Draw(rt, "endkind"), m: 200})
			}
		}
		desc := fmt.Sprint(conf, " ", p)
		if len(desc) > 20000 {
			desc = desc[:20000]
		}
		hx.Journal(desc)
		r, g, err := w.execute(p, conf)
		if errors.Is(err, errDropped) {
			hx.Discard()
			return
		}
		if err == nil && len(r.fails) > 0 {
			err = errors.New(r.fails[0])
		}
		nt := false
		if err == nil {
			for _, s := range r.svcs {
				x, e := g.one(s)
				if e == nil && x != nil {
					e = judgeProfile(s, x, g.profiles[s.txid], max)
					nt = nt || len(s.steps) >= 8 || len(g.profiles[s.txid]) > 1
				}
				if e != nil {
					err = fmt.Errorf("service %q (%s): %v", s.name, s.kind, e)
					break
				}
			}
		}
		if err != nil {
			rt.Fatalf("%v\n%s", err, desc)
		}
		hx.Case(desc, nt)
	})
}
