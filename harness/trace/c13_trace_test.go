package trace

import (
	"errors"
	"fmt"
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"pgregory.net/rapid"
	"verif/harness/hx"
	"verif/harness/refwire"
)

// TestC13Trace: every hash in what traced services send has been announced with its text.
func TestC13Trace(t *testing.T) {
	hx.Rule("programs of up to 40 tracing calls after a reset of the text caches: every hash in the xlogs, profile records and steps received must have been announced; non-trivial: at least 5 hashes of 3 categories")
	w := newWorld(t)
	m := mix{"http": 3, "app": 2, "child": 2, "inh": 1, "end": 5, "sleep": 1, "hmsg": 3, "pmsg": 3, "method": 3, "api": 3, "prop": 1, "close": 5, "err": 2, "errf": 1, "name": 2, "fields": 2}
	hx.Check(t, 300, 6000, func(rt *rapid.T) {
		p := genPlan(rt, rapid.IntRange(4, 40).Draw(rt, "n"), m, false, 6)
		for i, s := range p.svcs {
			if !s.ended {
				p.ops = append(p.ops, op{k: "end", s: i, n: rapid.IntRange(0, 3).Draw(rt, "endkind"), m: 200})
			}
		}
		desc := p.String()
		hx.Journal(desc)
		w.texts = map[string]bool{}
		netio.ResetTextSent()
		_, g, err := w.execute(p, nil)
		if errors.Is(err, errDropped) {
			hx.Discard()
			return
		}
		if err != nil {
			rt.Fatalf("%v\n%s", err, desc)
		}
		known := map[string]bool{}
		for k := range w.texts {
			var cat string
			var h int32
			fmt.Sscan(k, &cat, &h)
			if text := k[len(fmt.Sprintf("%s %d ", cat, h)):]; crc(text) != h {
				rt.Fatalf("a %s announcement has hash %d for the text %q\n%s", cat, h, text, desc)
			}
			known[fmt.Sprint(cat, " ", h)] = true
		}
		n, cats := 0, map[string]bool{}
		ref := func(cat string, h int32) {
			if h == 0 {
				return
			}
			n++
			cats[cat] = true
			if !known[fmt.Sprint(cat, " ", h)] {
				rt.Fatalf("%s hash %d was used and its text has not been announced\n%s", cat, h, desc)
			}
		}
		for _, l := range g.xlogs {
			for _, x := range l {
				ref("service", x.Service)
				ref("error", x.Error)
				ref("ua", x.UserAgent)
				ref("referer", x.Referer)
				ref("login", x.Login)
				ref("desc", x.Desc)
				ref("hmsg", x.ThreadNameHash)
			}
		}
		for _, l := range g.profiles {
			for _, pr := range l {
				ref("service", pr.Service)
				steps, err := refwire.Steps(pr.Steps)
				if err != nil {
					rt.Fatalf("%v\n%s", err, desc)
				}
				for _, s := range steps {
					switch s.T {
					case refwire.SHashed, refwire.SParam:
						ref("hmsg", s.Hash)
					case refwire.SMethod:
						ref("method", s.Hash)
					case refwire.SApi:
						ref("apicall", s.Hash)
						ref("error", s.Error)
					case refwire.SAsync:
						ref("apicall", s.Hash)
					}
				}
			}
		}
		hx.Case(desc, n >= 5 && len(cats) >= 3)
	})
}
