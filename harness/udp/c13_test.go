package udp

import (
	"fmt"
	"strings"
	"sync"
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"pgregory.net/rapid"
	"verif/harness/fc"
	"verif/harness/hx"
	"verif/harness/refwire"
)

type category struct {
	typ  string
	size int
	send func(string) int32
}

var categories = []category{
	{"service", 10000, netio.SendServiceName}, {"object", 100, netio.SendObjName}, {"referer", 10000, netio.SendReferer},
	{"ua", 10000, netio.SendUserAgent}, {"method", 10000, netio.SendMethod}, {"apicall", 10000, netio.SendApicall},
	{"error", 10000, netio.SendError}, {"login", 10000, netio.SendLogin}, {"desc", 10000, netio.SendDesc},
	{"stackelem", 10000, netio.SendStackElement}, {"hmsg", 10000, netio.SendHashedMessage},
}

// sentModel knows, per category, what the collector was told and how many newer texts it was told since.
type sentModel struct {
	count [11]int
	drops [11]int // texts that found the queue full; they may have displaced others
	at    [11]map[string]int
}

func (m *sentModel) reset() {
	for i := range m.at {
		m.at[i] = map[string]int{}
		m.count[i], m.drops[i] = 0, 0
	}
}

// due says whether using the text must (1), must not (0) or may (2) announce it.
func (m *sentModel) due(c int, text string) int {
	_, ok := m.at[c][text]
	switch {
	case !ok:
		return 1
	case m.newer(c, text) < categories[c].size:
		return 0
	}
	return 2
}

func (m *sentModel) newer(c int, text string) int { return m.count[c] + m.drops[c] - m.at[c][text] }

func (m *sentModel) sent(c int, text string) {
	m.count[c]++
	m.at[c][text] = m.count[c] + m.drops[c]
}

func textRecs(grams []fc.Gram) ([]refwire.TextRec, error) {
	ps, err := fc.Packs(grams)
	if err != nil {
		return nil, err
	}
	var l []refwire.TextRec
	for _, p := range ps {
		t, ok := p.(*refwire.TextRec)
		if !ok {
			return nil, fmt.Errorf("a pack that is no text record: %T", p)
		}
		l = append(l, *t)
	}
	return l, nil
}

type use13 struct {
	cat  int
	text string
}

func TestC13Texts(t *testing.T) {
	hx.Rule("histories of texts (new, repeated, the same in several categories, enough new ones to displace others, more than the send queue holds), resets and concurrent users, over the eleven categories; non-trivial: some text is used again")
	q := []int{40000, 60, 40000, 25}[shard()%4]
	w := newWorld(t, q)
	m := &sentModel{}
	m.reset()
	hashes := map[int32]string{0: ""}
	fresh := 0
	newText := func(rt *rapid.T) string {
		for {
			fresh++
			s := rapid.OneOf(
				rapid.StringMatching(`[a-z/<>]{0,12}`),
				rapid.StringOfN(rapid.Rune(), 0, 20, -1),
				rapid.Map(rapid.IntRange(1, 9), func(k int) string { return strings.Repeat("x", k*k*k*k*4) }),
			).Draw(rt, "text") + fmt.Sprint(fresh)
			if o, ok := hashes[crc(s)]; !ok || o == s {
				hashes[crc(s)] = s
				return s
			}
		}
	}
	hx.Check(t, 120, 4000, func(rt *rapid.T) {
		var known []string
		fresh = 0
		m.reset()
		if err := w.b.Run(netio.ResetTextSent); err != nil {
			rt.Fatal(err)
		}
		repeat := false
		desc := fmt.Sprintf("queue=%d", q)
		for k := rapid.IntRange(1, 6).Draw(rt, "ops"); k > 0; k-- {
			kind := rapid.SampledFrom([]string{"mix", "mix", "mix", "flood", "reset", "conc", "objects"}).Draw(rt, "kind")
			var uses []use13
			local := []string{""}
			pick := func() string {
				if rapid.IntRange(0, 2).Draw(rt, "new") == 0 || len(known) == 0 {
					s := newText(rt)
					known = append(known, s)
					local = append(local, s)
					return s
				}
				repeat = true
				if rapid.Bool().Draw(rt, "local") {
					return rapid.SampledFrom(local).Draw(rt, "old")
				}
				return known[len(known)-1-rapid.IntRange(0, min(len(known)-1, 60)).Draw(rt, "old")]
			}
			cat := func() int { return rapid.IntRange(0, len(categories)-1).Draw(rt, "cat") }
			switch kind {
			case "mix", "conc":
				for i := rapid.IntRange(1, 60).Draw(rt, "n"); i > 0; i-- {
					uses = append(uses, use13{cat(), pick()})
				}
			case "flood", "objects":
				// distance around the cache's size between two uses of a text
				c := cat()
				if kind == "objects" || q < 1000 || rapid.IntRange(0, 3).Draw(rt, "big") != 0 {
					c = 1
				}
				first := pick()
				uses = append(uses, use13{c, first})
				n := categories[c].size + rapid.IntRange(-3, 3).Draw(rt, "d")
				if rapid.IntRange(0, 3).Draw(rt, "short") == 0 {
					n /= 2
				}
				for i := 0; i < n; i++ {
					fresh++
					s := fmt.Sprintf("f%d", fresh)
					if o, ok := hashes[crc(s)]; ok && o != s {
						continue
					}
					hashes[crc(s)] = s
					uses = append(uses, use13{c, s})
				}
				for i := rapid.IntRange(0, 20).Draw(rt, "again"); i > 0; i-- {
					uses = append(uses, uses[rapid.IntRange(0, len(uses)-1).Draw(rt, "which")])
				}
				uses = append(uses, use13{c, first})
				repeat = true
			}
			g := 1
			if kind == "conc" {
				g = rapid.IntRange(2, 8).Draw(rt, "g")
				if g*len(uses) > q {
					continue
				}
			}
			desc += fmt.Sprintf(" %s(%d/%d", kind, len(uses), g)
			for i, u := range uses {
				if i < 30 {
					desc += fmt.Sprintf(" %s:%.16q", categories[u.cat].typ, u.text)
				}
			}
			desc += ")"
			hx.Journal(desc)
			w.cols[0].Take()
			d0 := w.cols[0].Drops()
			var bad string
			var bmu sync.Mutex
			err := w.b.Run(func() {
				if kind == "reset" {
					netio.ResetTextSent()
					m.reset()
				}
				use := func(u use13) {
					want := int32(0)
					if u.text != "" {
						want = crc(u.text)
					}
					if h := categories[u.cat].send(u.text); h != want {
						bmu.Lock()
						bad = fmt.Sprintf("%s %.60q has hash %d, got %d", categories[u.cat].typ, u.text, want, h)
						bmu.Unlock()
					}
				}
				if g == 1 {
					for _, u := range uses {
						use(u)
					}
				} else {
					var wg sync.WaitGroup
					for i := 0; i < g; i++ {
						wg.Add(1)
						go func() {
							defer wg.Done()
							for j := range uses {
								use(uses[(j+i*7)%len(uses)])
							}
						}()
					}
					wg.Wait()
				}
				settle()
			})
			if err != nil {
				rt.Fatalf("%v\n%s", err, desc)
			}
			if bad != "" {
				rt.Fatalf("%s\n%s", bad, desc)
			}
			if err := w.cols[0].Sync(); err != nil {
				hx.Inconclusive("%v", err)
			}
			recs, err := textRecs(w.cols[0].Take())
			if w.cols[0].Drops() != d0 {
				hx.Inconclusive("the kernel dropped datagrams")
			}
			if err != nil {
				rt.Fatalf("%v\n%s", err, desc)
			}
			for _, r := range recs {
				if r.Hash != crc(r.Text) || r.Text == "" {
					rt.Fatalf("record %s %d %.60q: not the text's hash\n%s", r.Type, r.Hash, r.Text, desc)
				}
			}
			if g > 1 {
				// any order; at least once, at most once per user
				n := map[use13]int{}
				for _, r := range recs {
					for c := range categories {
						if categories[c].typ == r.Type {
							n[use13{c, r.Text}]++
						}
					}
				}
				done := map[use13]bool{}
				for _, u := range uses {
					if done[u] || u.text == "" {
						continue
					}
					done[u] = true
					due := m.due(u.cat, u.text)
					if due == 1 && n[u] == 0 {
						rt.Fatalf("%s %.60q was used by %d goroutines and never sent\n%s", categories[u.cat].typ, u.text, g, desc)
					}
					// texts used at the same time may displace each other
					if due == 0 && n[u] > 0 && m.newer(u.cat, u.text)+len(uses)*g < categories[u.cat].size {
						rt.Fatalf("%s %.60q was sent again\n%s", categories[u.cat].typ, u.text, desc)
					}
					if n[u] > g {
						rt.Fatalf("%s %.60q was sent %d times by %d goroutines\n%s", categories[u.cat].typ, u.text, n[u], g, desc)
					}
					delete(n, u)
				}
				if len(n) > 0 {
					rt.Fatalf("texts were sent that were not used: %v\n%s", n, desc)
				}
				// what the caches hold now depends on the schedule
				if err := w.b.Run(netio.ResetTextSent); err != nil {
					rt.Fatal(err)
				}
				m.reset()
				continue
			}
			room := q
			for i, u := range uses {
				if u.text == "" {
					continue
				}
				due := m.due(u.cat, u.text)
				is := len(recs) > 0 && recs[0].Type == categories[u.cat].typ && recs[0].Text == u.text
				if room == 0 {
					if due > 0 {
						m.drops[u.cat]++
					}
					continue // dropped: the queue is full
				}
				if due == 1 && !is {
					next := "nothing"
					if len(recs) > 0 {
						next = fmt.Sprintf("%s %.60q", recs[0].Type, recs[0].Text)
					}
					rt.Fatalf("use %d: %s %.60q was not sent (next came %s)\n%s", i, categories[u.cat].typ, u.text, next, desc)
				}
				if due == 0 && is {
					rt.Fatalf("use %d: %s %.60q was sent again (%d newer texts of a cache of %d)\n%s", i, categories[u.cat].typ, u.text, m.count[u.cat]-m.at[u.cat][u.text], categories[u.cat].size, desc)
				}
				if is {
					recs = recs[1:]
					m.sent(u.cat, u.text)
					room--
				}
			}
			if len(recs) > 0 {
				rt.Fatalf("%s %.60q was sent, and by no use\n%s", recs[0].Type, recs[0].Text, desc)
			}
		}
		hx.Case(desc, repeat)
	})
}
