package udp

import (
	"container/list"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/factory/channelfactory"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/udpsender"
	"pgregory.net/rapid"
	"verif/harness/bubble"
	"verif/harness/cfg"
	"verif/harness/fc"
	"verif/harness/hx"
	"verif/harness/refwire"
)

const noCol = 3

const mark = 0xEE // no pack type; starts the buffers made here

// selfBuf is a buffer that says its own length and id.
func selfBuf(id, n int) []byte {
	if n < 9 {
		n = 9
	}
	b := fill(id, n)
	b[0] = mark
	binary.BigEndian.PutUint32(b[1:], uint32(n))
	binary.BigEndian.PutUint32(b[5:], uint32(id))
	return b
}

func seqText(id, n int) string {
	s := fmt.Sprintf("%d:", id)
	if n > len(s) {
		s += strings.Repeat(string(rune('a'+id%26)), n-len(s))
	}
	return s
}

// arrived lists the ids of everything in the datagrams, in order, checking every byte.
func arrived(grams []fc.Gram) ([]int, error) {
	units, err := fc.Reassemble(grams)
	if err != nil {
		return nil, err
	}
	var ids []int
	for _, u := range units {
		d := refwire.NewDec(u.Body)
		for k := 0; k < u.Count; k++ {
			if d.Left() == 0 {
				return nil, fmt.Errorf("a frame of %d buffers ends after %d", u.Count, k)
			}
			if u.Body[d.Off] != mark {
				t, ok := d.Pack().(*refwire.TextRec)
				if d.Err != nil || !ok {
					return nil, fmt.Errorf("buffer %d of a frame of %d is not one that was sent: %v", k, u.Count, d.Err)
				}
				s, _, _ := strings.Cut(t.Text, ":")
				id, err := strconv.Atoi(s)
				if err != nil || t.Text != seqText(id, len(t.Text)) || t.Hash != int32(id*7) {
					return nil, fmt.Errorf("text record %.40q is not one that was sent", t.Text)
				}
				ids = append(ids, id)
				continue
			}
			if d.Left() < 9 {
				return nil, fmt.Errorf("a frame of %d buffers is cut", u.Count)
			}
			n := int(binary.BigEndian.Uint32(u.Body[d.Off+1:]))
			id := int(binary.BigEndian.Uint32(u.Body[d.Off+5:]))
			got := d.Take(n)
			if d.Err != nil || string(got) != string(selfBuf(id, n)) {
				return nil, fmt.Errorf("buffer %d (%d bytes) did not arrive as sent", id, n)
			}
			ids = append(ids, id)
		}
		if d.Left() != 0 {
			return nil, fmt.Errorf("%d bytes follow a frame's %d buffers", d.Left(), u.Count)
		}
	}
	return ids, nil
}

type item struct {
	id, n  int
	pack   bool
	direct bool
}

func (it item) put(s *udpsender.UDPSender) {
	if it.pack {
		p := &netdata.TextPack{Xtype: "seq", Hash: int32(it.id * 7), Text: seqText(it.id, it.n)}
		if it.direct {
			s.SendPackDirect(p)
		} else {
			s.AddPack(p)
		}
		return
	}
	s.AddBuffer(selfBuf(it.id, it.n))
}

type world struct {
	b     *bubble.B
	cols  []*fc.UDP
	cap   int
	conf  map[string]string
	s     *udpsender.UDPSender
	at    int // collector in use
	limit int
}

func newWorld(t *testing.T, queue int) *world {
	w := &world{cap: queue, limit: 60000}
	for i := 0; i < 3; i++ {
		ip, port := fc.IP, 0
		if i == 2 { // the port of the first at another address
			ip, port = fc.IP2, w.cols[0].Port
		}
		c, err := fc.NewUDPAt(ip, port)
		if err != nil {
			t.Fatalf("HARNESS-ERROR %v", err)
		}
		w.cols = append(w.cols, c)
	}
	w.conf = map[string]string{"net_collector_ip": fc.IP, "net_collector_udp_port": strconv.Itoa(w.cols[0].Port), "send_queue_size": strconv.Itoa(queue)}
	cfg.Set(w.conf)
	if c := channelfactory.GetUDPChannel(); cap(c) != queue {
		t.Fatalf("the send queue holds %d, configured %d", cap(c), queue)
	}
	w.b = bubble.New(t)
	if err := w.b.Run(func() { w.s = udpsender.GetInstance() }); err != nil {
		t.Fatal(err)
	}
	return w
}

// settle lets everything queued be sent, in fake time.
func settle() {
	synctest.Wait()
	time.Sleep(2 * time.Second)
	synctest.Wait()
}

func shard() int { n, _ := strconv.Atoi(os.Getenv("VERIF_SHARD")); return n }

type op12 struct {
	kind   string // burst, direct, list, conc, conf, nap
	items  []item
	gs     [][]item
	lists  [][]item
	limit  int
	col    int // collector, noCol: unusable port
	nap    time.Duration
	pauses []time.Duration
}

func TestC12Sender(t *testing.T) {
	hx.Rule("histories of bursts (up to 2.5 times the queue), concurrent callers, packs and lists sent directly, pauses, and changes of the collector address and port and of the datagram limit; non-trivial: some burst needs several datagrams or overflows the queue, or the configuration changes")
	q := []int{3000, 1, 7, 50, 400, 3000, 20, 1000}[shard()%8]
	w := newWorld(t, q)
	id := 0
	hx.Check(t, 300, 8000, func(rt *rapid.T) {
		var ops []op12
		limit := w.limit
		room := w.cap // of the queue until the next settle
		gen := func(limit int, direct bool) item {
			id++
			it := item{id: id, pack: rapid.Bool().Draw(rt, "pack"), direct: direct}
			if direct {
				it.pack = true
			}
			it.n = rapid.OneOf(rapid.IntRange(9, 60), rapid.IntRange(9, 3000), rapid.Custom(func(t *rapid.T) int {
				return limit*rapid.IntRange(1, 2).Draw(t, "k") + rapid.IntRange(-30, 3).Draw(t, "d")
			}), rapid.Just(9)).Draw(rt, "n")
			it.n = min(max(it.n, 9), 100000)
			return it
		}
		many := func(n, limit int) []item {
			proto := []item{}
			for i := 0; i < min(n, 12); i++ {
				proto = append(proto, gen(limit, false))
			}
			var l []item
			for i := 0; i < n; i++ {
				it := proto[i%len(proto)]
				if m := 3000000 / n; it.n > m {
					it.n = 9 + it.n%(m-8)
				}
				id++
				it.id = id
				l = append(l, it)
			}
			return l
		}
		desc := fmt.Sprintf("queue=%d", w.cap)
		nontriv := false
		for k := rapid.IntRange(1, 6).Draw(rt, "ops"); k > 0; k-- {
			o := op12{kind: rapid.SampledFrom([]string{"burst", "burst", "burst", "stream", "stream", "direct", "list", "conc", "conf", "nap"}).Draw(rt, "kind")}
			switch o.kind {
			case "burst":
				n := rapid.OneOf(rapid.IntRange(1, 12), rapid.IntRange(1, w.cap*5/2), rapid.Custom(func(t *rapid.T) int { return w.cap + rapid.IntRange(-2, 3).Draw(t, "d") })).Draw(rt, "n")
				o.items = many(max(n, 1), limit)
				if n > 1 {
					nontriv = true
				}
			case "stream":
				o.items = many(rapid.IntRange(1, w.cap).Draw(rt, "n"), limit)
				for range o.items {
					p := 0
					if rapid.IntRange(0, 9).Draw(rt, "pausep") == 0 && len(o.pauses) < 200 {
						p = rapid.IntRange(1, 150).Draw(rt, "pause")
					}
					o.pauses = append(o.pauses, time.Duration(p)*time.Millisecond)
					if len(o.pauses) > 200 {
						break
					}
				}
				nontriv = true
			case "direct":
				for i := rapid.IntRange(1, 8).Draw(rt, "n"); i > 0; i-- {
					o.items = append(o.items, gen(limit, true))
				}
			case "list":
				for j := rapid.IntRange(1, 3).Draw(rt, "lists"); j > 0; j-- {
					var l []item
					for i := rapid.IntRange(0, 12).Draw(rt, "n"); i > 0; i-- {
						it := gen(limit, false)
						it.pack = false
						l = append(l, it)
					}
					o.lists = append(o.lists, l)
				}
			case "conc":
				g := rapid.IntRange(2, 6).Draw(rt, "g")
				per := rapid.IntRange(1, max(1, min(room/g, 60))).Draw(rt, "per")
				if per*g > w.cap {
					continue
				}
				for i := 0; i < g; i++ {
					o.gs = append(o.gs, many(per, limit))
				}
				nontriv = true
			case "conf":
				o.limit = rapid.OneOf(rapid.IntRange(20, 2000), rapid.SampledFrom([]int{60000, 100, 1400})).Draw(rt, "limit")
				o.col = rapid.SampledFrom([]int{0, 1, 2, 0, 2, 0, 1, 2, noCol}).Draw(rt, "col")
				if rapid.IntRange(0, 2).Draw(rt, "keep") == 0 { // nothing but the address changes
					o.limit = limit
				}
				limit = o.limit
				nontriv = true
			case "nap":
				o.nap = time.Duration(rapid.IntRange(0, 3000).Draw(rt, "ms")) * time.Millisecond
			}
			ops = append(ops, o)
			desc += fmt.Sprintf(" %s", o.kind)
			switch o.kind {
			case "burst", "direct", "stream":
				desc += fmt.Sprintf("(%d", len(o.items))
				for i, it := range o.items {
					if i < 12 {
						desc += fmt.Sprintf(" %v:%d", it.pack, it.n)
					}
				}
				desc += ")"
			case "conf":
				desc += fmt.Sprintf("(limit=%d to=%d)", o.limit, o.col)
			case "conc":
				desc += fmt.Sprintf("(%dx%d)", len(o.gs), len(o.gs[0]))
			case "list":
				for _, l := range o.lists {
					desc += fmt.Sprintf("(%d)", len(l))
				}
			case "nap":
				desc += fmt.Sprint(o.nap)
			}
		}
		hx.Journal(desc)
		for _, o := range ops {
			for _, c := range w.cols {
				c.Take()
			}
			drops := func() (d [3]int) {
				for i, c := range w.cols {
					d[i] = c.Drops()
				}
				return d
			}
			d0 := drops()
			var moved time.Duration
			err := w.b.Run(func() {
				t0 := time.Now()
				switch o.kind {
				case "burst", "direct":
					for _, it := range o.items {
						it.put(w.s)
					}
					moved = time.Since(t0)
				case "stream":
					for i, it := range o.items {
						if i < len(o.pauses) && o.pauses[i] > 0 {
							time.Sleep(o.pauses[i])
						}
						it.put(w.s)
					}
				case "list":
					for _, l := range o.lists {
						li := list.New()
						for _, it := range l {
							li.PushBack(selfBuf(it.id, it.n))
						}
						w.s.SendDirect(li)
					}
					moved = time.Since(t0)
				case "conc":
					var wg sync.WaitGroup
					for _, l := range o.gs {
						wg.Add(1)
						go func() {
							defer wg.Done()
							for _, it := range l {
								it.put(w.s)
							}
						}()
					}
					wg.Wait()
				case "conf":
					w.conf["udp_max_bytes"] = strconv.Itoa(o.limit)
					w.limit, w.at = o.limit, o.col
					port := 70000
					if o.col < noCol {
						port = w.cols[o.col].Port
						w.conf["net_collector_ip"] = w.cols[o.col].IP
					}
					w.conf["net_collector_udp_port"] = strconv.Itoa(port)
					cfg.Set(w.conf)
				case "nap":
					time.Sleep(o.nap)
				}
				settle()
			})
			if err != nil {
				rt.Fatalf("%v\n%s", err, desc)
			}
			if moved != 0 {
				rt.Fatalf("the caller of %s was held up for %v\n%s", o.kind, moved, desc)
			}
			for _, c := range w.cols {
				if err := c.Sync(); err != nil {
					hx.Inconclusive("%v", err)
				}
			}
			if d0 != drops() {
				hx.Discard()
				continue
			}
			for i, c := range w.cols {
				grams := c.Take()
				if i != w.at {
					if len(grams) > 0 {
						rt.Fatalf("%d datagrams went to a collector that is not configured\n%s", len(grams), desc)
					}
					continue
				}
				for _, g := range grams {
					if len(g.B) > w.limit+header {
						rt.Fatalf("a datagram of %d bytes, the limit is %d\n%s", len(g.B), w.limit, desc)
					}
				}
				ids, err := arrived(grams)
				if err == nil {
					err = judge12(o, ids, w.cap)
				}
				if err != nil {
					rt.Fatalf("%v\n%s", err, desc)
				}
			}
		}
		hx.Case(desc, nontriv)
	})
}

func judge12(o op12, ids []int, capacity int) error {
	got := map[int]int{}
	for i, x := range ids {
		if _, dup := got[x]; dup {
			return fmt.Errorf("buffer %d arrived twice", x)
		}
		got[x] = i
	}
	ordered := func(l []item, need int) error {
		last, n := -1, 0
		for _, it := range l {
			p, ok := got[it.id]
			if !ok {
				continue
			}
			if p < last {
				return fmt.Errorf("buffer %d arrived before one queued earlier", it.id)
			}
			last = p
			n++
			delete(got, it.id)
		}
		if n < need {
			return fmt.Errorf("%d of %d queued buffers arrived, at least %d were due", n, len(l), need)
		}
		return nil
	}
	switch o.kind {
	case "burst", "stream":
		if err := ordered(o.items, min(len(o.items), capacity)); err != nil {
			return err
		}
	case "conc":
		for _, l := range o.gs {
			if err := ordered(l, len(l)); err != nil {
				return err
			}
		}
	case "direct":
		for _, it := range o.items {
			if _, ok := got[it.id]; !ok {
				return fmt.Errorf("a pack sent directly did not arrive")
			}
			delete(got, it.id)
		}
	case "list":
		for _, l := range o.lists {
			for _, it := range l {
				if _, ok := got[it.id]; !ok {
					return fmt.Errorf("a buffer of a list sent directly did not arrive")
				}
				delete(got, it.id)
			}
		}
	}
	if len(got) > 0 {
		return fmt.Errorf("%d buffers arrived that were not sent now", len(got))
	}
	return nil
}

func crc(s string) int32 { return int32(crc32.ChecksumIEEE([]byte(s))) }
