package trace

import (
	"errors"
	"fmt"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/hx"
	"verif/harness/refwire"
)

func TestC16Links(t *testing.T) {
	hx.Rule("programs of up to 50 tracing calls building trees of goroutine services, inherited services and propagated API calls; non-trivial: some ended service has a caller, or a call was propagated")
	w := newWorld(t)
	m := mix{"http": 1, "app": 1, "child": 6, "inh": 3, "goraw": 1, "prop": 4, "api": 1, "close": 4, "end": 5, "sleep": 2, "msg": 1, "method": 2, "err": 1, "errf": 1, "name": 1, "fields": 2, "stream": 1}
	hx.Check(t, 400, 10000, func(rt *rapid.T) {
		p := genPlan(rt, rapid.IntRange(4, 50).Draw(rt, "n"), m, rapid.IntRange(0, 3).Draw(rt, "late") == 0, 12)
		for i, s := range p.svcs {
			if !s.ended && rapid.IntRange(0, 3).Draw(rt, "leave") > 0 {
				p.ops = append(p.ops, op{k: "end", s: i, n: rapid.IntRange(0, 3).Draw(rt, "endkind"), m: 200})
			}
		}
		desc := p.String()
		hx.Journal(desc)
		r, g, err := w.execute(p, nil)
		if errors.Is(err, errDropped) {
			hx.Discard()
			return
		}
		if err == nil && len(r.fails) > 0 {
			err = errors.New(r.fails[0])
		}
		nt := false
		if err == nil {
			for _, s := range r.svcs {
				x, e := g.one(s)
				if e == nil && x != nil {
					e = judgeXlog(s, x)
					if e == nil && (x.Caller != s.caller || x.Gxid != s.gxid) {
						e = fmt.Errorf("%s service %q has caller %d and global id %d, expected %d and %d", s.kind, s.name, x.Caller, x.Gxid, s.caller, s.gxid)
					}
					nt = nt || s.caller != 0
				}
				if e == nil && s.kind == "child" && s.parent.ended {
					e = named(s, g.profiles[s.parent.txid])
				}
				if e == nil && x != nil {
					e = judgeProfile(s, x, g.profiles[s.txid], 1024)
				}
				if e != nil {
					err = e
					break
				}
			}
			for _, o := range p.ops {
				nt = nt || o.k == "prop"
			}
		}
		if err != nil {
			rt.Fatalf("%v\n%s", err, desc)
		}
		hx.Case(desc, nt)
	})
}

// named says whether the parent's profile has the one step that names the goroutine's service. A parent
// that had ended before has none.
func named(s *svc, ps []*refwire.Profile) error {
	want := false
	for _, e := range s.parent.steps {
		want = want || e.T == refwire.SAsync && e.Txid == s.txid
	}
	n := 0
	for _, p := range ps {
		steps, err := refwire.Steps(p.Steps)
		if err != nil {
			return err
		}
		for _, st := range steps {
			if st.T == refwire.SAsync && st.Txid == s.txid {
				n++
			}
		}
	}
	if want != (n == 1) {
		return fmt.Errorf("the parent's profile names goroutine service %q %d times", s.name, n)
	}
	return nil
}
