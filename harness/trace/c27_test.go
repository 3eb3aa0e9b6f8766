package trace

import (
	"fmt"
	"os"
	"testing"
	"testing/synctest"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/task/agenttask"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/task/countertask"
	"pgregory.net/rapid"
	"verif/harness/fc"
	"verif/harness/hx"
	"verif/harness/refwire"
)

// A started agent's periodic records, judged every half second of the fake clock.
type c27 struct {
	w       *world
	cols    []*fc.UDP
	up      []bool
	cur     int // the collector configured
	before  int // the one configured before
	now     int // half seconds since the start
	moved   int // when the collector changed last
	lossy   int // when the collector in force appeared last: the first record after that may be lost
	name    string
	otype   string
	last    map[string]int // record kind -> when the last one came
	texts   map[string]bool
	pending map[string]int // name registered -> when: its text is due
}

func c27ObjName(simple string) string {
	h, err := os.Hostname()
	if err != nil {
		h = "unknown"
	}
	return "/" + h + "/" + simple
}

type c27op struct {
	k string
	n int
	s string
}

func (o c27op) String() string {
	if o.s != "" {
		return fmt.Sprintf("%s %q", o.k, o.s)
	}
	return fmt.Sprint(o.k, " ", o.n)
}

var c27kinds = []struct {
	what       string
	gap, slack int // half seconds
}{{"registration", 4, 1}, {"real-time counter record", 4, 1}, {"five-minute counter record", 20, 1}}

// tick lets half a second pass and judges what was sent.
func (c *c27) tick() error {
	if err := c.w.b.Run(func() {
		time.Sleep(500 * time.Millisecond)
		synctest.Wait()
	}); err != nil {
		return err
	}
	c.now++
	n := map[string]int{}
	for i, col := range c.cols {
		if !c.up[i] {
			continue
		}
		if err := col.Sync(); err != nil {
			hx.Inconclusive("%v", err)
		}
		d := col.Drops()
		grams := col.Take()
		if d != 0 {
			return errDropped
		}
		ps, err := fc.Packs(grams)
		if err != nil {
			return err
		}
		for _, p := range ps {
			if i != c.cur && !(i == c.before && c.now-c.moved <= 4) {
				return fmt.Errorf("%.1f s after the collector changed another one receives %+v", float64(c.now-c.moved)/2, p)
			}
			switch p := p.(type) {
			case *refwire.Object:
				n["registration"]++
				if p.ObjName != c.name || p.ObjType != c.otype || p.ObjHash != crc(c.name) {
					return fmt.Errorf("registered as %q (type %q, hash %d), the name is %q (type %q, hash %d)", p.ObjName, p.ObjType, p.ObjHash, c.name, c.otype, crc(c.name))
				}
				if p.Version == "" || !p.Alive {
					return fmt.Errorf("registered with version %q, alive %v", p.Version, p.Alive)
				}
				if !c.texts[c.name] {
					if _, ok := c.pending[c.name]; !ok {
						c.pending[c.name] = c.now
					}
				}
			case *refwire.Perf:
				if p.ObjName != c.name {
					return fmt.Errorf("a counter record names %q, the name is %q", p.ObjName, c.name)
				}
				switch p.Timetype {
				case 1:
					n["real-time counter record"]++
				case 3:
					n["five-minute counter record"]++
				default:
					return fmt.Errorf("a counter record has time type %d", p.Timetype)
				}
			case *refwire.TextRec:
				if p.Type == "object" {
					if p.Hash != crc(p.Text) {
						return fmt.Errorf("text %q announced with hash %d", p.Text, p.Hash)
					}
					c.texts[p.Text] = true
					delete(c.pending, p.Text)
				}
			default:
				return fmt.Errorf("unexpected record %+v", p)
			}
		}
	}
	if !c.up[c.cur] {
		c.lossy = c.now
	}
	if c.now-c.lossy <= 12 { // an announcement may have been lost
		c.texts[c.name] = true
		delete(c.pending, c.name)
	}
	settled := max(c.lossy, c.moved)
	for _, k := range c27kinds {
		l, seen := c.last[k.what]
		if n[k.what] > 1 {
			return fmt.Errorf("%d %ss within half a second", n[k.what], k.what)
		}
		if n[k.what] == 1 {
			if seen && c.now-l < k.gap-k.slack {
				return fmt.Errorf("a %s came %.1f s after the previous one", k.what, float64(c.now-l)/2)
			}
			c.last[k.what] = c.now
			continue
		}
		due, lim := l, k.gap+k.slack
		if settled > l {
			due, lim = settled, 2*k.gap+k.slack+1 // one may have been lost
		}
		if c.now-due > lim {
			return fmt.Errorf("no %s for %.1f s", k.what, float64(c.now-due)/2)
		}
	}
	for n, at := range c.pending {
		if c.now-at > 3 {
			return fmt.Errorf("the name %q was registered %.1f s ago and its text has not been announced", n, float64(c.now-at)/2)
		}
	}
	return nil
}

func TestC27Cadence(t *testing.T) {
	hx.Rule("C27 cadence: a case is a history of 2-10 steps of one started agent on a fake clock: waits of 0.5-45 s, name changes, type changes, moves between three collectors, collectors going and returning. Judged at every half second: registrations (name, hash, type, version) and real-time counters every 2 s, five-minute counters every 10 s, at the collector in force, and the announcement of a new name's text. Non-trivial: it changes the name, the type or the collector, or a collector goes and returns.")
	w := newWorld(t)
	c := &c27{w: w, cols: []*fc.UDP{w.col}, up: []bool{true, true, true}, last: map[string]int{}, texts: map[string]bool{},
		pending: map[string]int{}, name: c27ObjName("vt"), otype: "golang", moved: -100, lossy: -100}
	for len(c.cols) < 3 {
		ip, port := fc.IP2, w.col.Port // one differs by the address alone, one by the port alone
		if len(c.cols) == 2 {
			ip, port = fc.IP, 0
		}
		u, err := fc.NewUDPAt(ip, port)
		if err != nil {
			t.Fatalf("HARNESS-ERROR %v", err)
		}
		c.cols = append(c.cols, u)
	}
	wait := func(n int) (err error) {
		for i := 0; i < n && err == nil; i++ {
			err = c.tick()
		}
		return err
	}
	dead := false
	// the agent starts
	var first error
	started := hx.Preparing()
	if e := w.b.Run(func() {
		time.Sleep(300 * time.Millisecond)
		agenttask.SendObjPack()
		agenttask.Start()
		countertask.Start()
		time.Sleep(100 * time.Millisecond)
	}); e != nil {
		first = e
	}
	for _, k := range c27kinds {
		c.last[k.what] = -3
	}
	if first == nil {
		first = c.tick()
	}
	if first == nil && c.last["registration"] != 1 {
		first = fmt.Errorf("no registration at the start")
	}
	for _, k := range c27kinds {
		c.last[k.what] = max(c.last[k.what], 0)
	}
	started()
	hx.Check(t, 150, 2500, func(rt *rapid.T) {
		if dead {
			rt.SkipNow()
		}
		n := rapid.IntRange(2, 10).Draw(rt, "n")
		var ops []c27op
		for i := 0; i < n; i++ {
			switch rapid.SampledFrom([]string{"wait", "wait", "name", "type", "move", "move", "down", "both"}).Draw(rt, "k") {
			case "wait":
				ops = append(ops, c27op{k: "wait", n: rapid.IntRange(1, 90).Draw(rt, "halves")})
			case "name":
				ops = append(ops, c27op{k: "name", s: rapid.SampledFrom([]string{"vt", "a", "b", "other name", "名前", "x/y"}).Draw(rt, "s")})
			case "type":
				ops = append(ops, c27op{k: "type", s: rapid.SampledFrom([]string{"golang", "batch", "t2"}).Draw(rt, "s")})
			case "move":
				ops = append(ops, c27op{k: "move", n: rapid.IntRange(0, 2).Draw(rt, "i")}, c27op{k: "wait", n: rapid.IntRange(1, 20).Draw(rt, "halves")})
			case "down":
				ops = append(ops, c27op{k: "down"}, c27op{k: "wait", n: rapid.IntRange(1, 40).Draw(rt, "halves")}, c27op{k: "up"})
			case "both":
				ops = append(ops, c27op{k: "move", n: rapid.IntRange(0, 2).Draw(rt, "i")}, c27op{k: "name", s: rapid.StringMatching(`[a-c]{1,3}`).Draw(rt, "s")}, c27op{k: "wait", n: rapid.IntRange(1, 20).Draw(rt, "halves")})
			}
		}
		ops = append(ops, c27op{k: "wait", n: rapid.IntRange(1, 45).Draw(rt, "last")})
		key := fmt.Sprint(ops)
		hx.Journal(key)
		err := first
		nt := false
		conf := map[string]string{"obj_name": "vt"}
		move := func(i int) {
			if i == c.cur {
				return
			}
			if c.now-c.moved <= 4 && err == nil { // let the former move be over
				err = wait(5)
			}
			c.before, c.cur = c.cur, i
			conf["net_collector_ip"] = c.cols[i].IP
			conf["net_collector_udp_port"] = fmt.Sprint(c.cols[i].Port)
			w.configure(conf)
			c.moved = c.now
		}
		// every case begins with the same settings, and without judging what the one before left
		move(0)
		w.configure(conf)
		c.name, c.otype = c27ObjName("vt"), "golang"
		c.pending = map[string]int{}
		for _, k := range c27kinds {
			c.last[k.what] = min(c.last[k.what], c.now)
		}
		for _, o := range ops {
			if err != nil {
				break
			}
			hx.Label("op " + o.k)
			switch o.k {
			case "wait":
				err = wait(o.n)
			case "name":
				nt = true
				conf["obj_name"] = o.s
				w.configure(conf)
				c.name = c27ObjName(o.s)
			case "type":
				nt = true
				conf["obj_type"] = o.s
				w.configure(conf)
				c.otype = o.s
			case "move":
				nt = true
				move(o.n)
			case "down":
				nt = true
				c.cols[c.cur].Close()
				c.up[c.cur] = false
			case "up":
				u, e := fc.NewUDPAt(c.cols[c.cur].IP, c.cols[c.cur].Port)
				if e != nil {
					hx.Inconclusive("the port is gone: %v", e)
				}
				c.cols[c.cur], c.up[c.cur] = u, true
				c.lossy = c.now
			}
		}
		if err != nil && !c.up[c.cur] { // a failing case leaves all as it found it
			u, e := fc.NewUDPAt(c.cols[c.cur].IP, c.cols[c.cur].Port)
			if e != nil {
				hx.Inconclusive("the port is gone: %v", e)
			}
			c.cols[c.cur], c.up[c.cur] = u, true
			c.lossy = c.now
		}
		hx.Case(key, nt)
		if err == errDropped {
			dead = true
			hx.Discard()
			rt.SkipNow()
		}
		if err != nil {
			c.moved = c.now // forgive what is left of it
			for _, col := range c.cols {
				col.Take()
			}
			rt.Fatalf("%v", err)
		}
	})
}
