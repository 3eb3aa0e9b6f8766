package structs

import (
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/structure/cachemap"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/structure/cachemap2"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/structure/cacheset"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/structure/lra"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

type kv struct {
	k, v any
}

// cache is the common face of the four structures.
type cache struct {
	kind     string
	max      int
	add      func(k, v any)
	get      func(k any) any // nil: not supported
	contains func(k any) bool
	remove   func(k any)
	size     func() int
	empty    func() bool
	clear    func()
	values   func() []any
	str      func() string
	replaces bool
	evicted  *[]kv
}

var kinds = []string{"lra", "lra+cb", "cachemap", "cachemap2", "cacheset"}

func newCache(kind string, max int) *cache {
	c := &cache{kind: kind, max: max}
	switch kind {
	case "lra", "lra+cb":
		l := lra.New(max)
		c.add = func(k, v any) { l.Add(k, v) }
		c.get = func(k any) any { return l.Get(k) }
		c.contains, c.size, c.empty, c.clear, c.replaces = l.Contains, l.Size, l.Empty, l.Clear, true
		c.remove = func(k any) { l.Remove(k) }
		c.values = l.GetValues
		if kind == "lra+cb" {
			c.evicted = &[]kv{}
			l.OnEvicted = func(k lra.Key, v interface{}) { *c.evicted = append(*c.evicted, kv{k, v}) }
		}
	case "cachemap":
		m := cachemap.New(max)
		c.add, c.get, c.contains, c.remove, c.size, c.empty, c.clear, c.values, c.str = m.Add, m.Get, m.Contains, m.Remove, m.Size, m.Empty, m.Clear, m.GetValues, m.String
	case "cachemap2":
		m := cachemap2.New(max)
		c.add, c.get, c.contains, c.remove, c.size, c.empty, c.clear, c.values, c.str = m.Add, m.Get, m.Contains, m.Remove, m.Size, m.Empty, m.Clear, m.GetValues, m.String
	case "cacheset":
		s := cacheset.New(max)
		c.add = func(k, v any) { s.Add(k) }
		c.contains, c.size, c.empty, c.clear, c.str = s.Contains, s.Size, s.Empty, s.Clear, s.String
	}
	return c
}

// model is a bounded insertion-ordered map.
type model struct {
	max      int
	replaces bool
	order    []any
	m        map[any]any
	left     []kv
}

func (m *model) add(k, v any) {
	if _, ok := m.m[k]; ok {
		if m.replaces {
			m.m[k] = v
		}
		return
	}
	m.order = append(m.order, k)
	m.m[k] = v
	if len(m.order) > m.max {
		m.drop(m.order[0])
	}
}

func (m *model) drop(k any) {
	v, ok := m.m[k]
	if !ok {
		return
	}
	m.left = append(m.left, kv{k, v})
	delete(m.m, k)
	for i, x := range m.order {
		if x == k {
			m.order = append(append([]any(nil), m.order[:i]...), m.order[i+1:]...)
			break
		}
	}
}

type skey struct {
	a int
	b string
}

func keyOf(i int) any {
	switch i % 5 {
	case 0:
		return i
	case 1:
		return fmt.Sprint(i)
	case 2:
		return int64(i - 2)
	case 3:
		return skey{i, "k"}
	}
	return int32(i - 4)
}

func sorted(l []any) string {
	var s []string
	for _, x := range l {
		s = append(s, fmt.Sprintf("%T:%v", x, x))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// notNil leaves out nils: nothing says whether a nil is listed as a value.
func notNil(l []any) []any {
	var r []any
	for _, x := range l {
		if x != nil {
			r = append(r, x)
		}
	}
	return r
}

func sortedKV(l []kv) string {
	var s []any
	for _, x := range l {
		s = append(s, fmt.Sprintf("%T:%v=%v", x.k, x.k, x.v))
	}
	return sorted(s)
}

func TestC08Model(t *testing.T) {
	hx.Rule("history: 1..120 random operations (add, add-present, get, contains, remove, clear, size, empty, values) on one to three caches used in alternation, of the four structures (the registry cache with and without eviction callback), maximum 1..12, keys of five types from a pool of about twice the maximum; after every operation size, emptiness, membership and value of every key, the multiset of values and the callbacks are compared with a model; non-trivial = at least one eviction and one removal or re-add")
	hx.Check(t, 800, 30000, func(rt *rapid.T) {
		nc := rapid.IntRange(1, 3).Draw(rt, "caches")
		var cs []*cache
		var ms []*model
		for i := 0; i < nc; i++ {
			c := newCache(rapid.SampledFrom(kinds).Draw(rt, "kind"), rapid.IntRange(1, 12).Draw(rt, "max"))
			cs = append(cs, c)
			ms = append(ms, &model{max: c.max, replaces: c.replaces, m: map[any]any{}})
			hx.Label("cache " + c.kind)
		}
		pool := 0
		for _, c := range cs {
			pool = max(pool, c.max)
		}
		pool = 2*pool + 2
		var log strings.Builder
		evictions, others := 0, 0
		serial := 0
		check := func(c *cache, m *model) {
			if c.size() != len(m.order) || c.empty() != (len(m.order) == 0) {
				rt.Fatalf("%s: size %d empty %v, want %d after %s", c.kind, c.size(), c.empty(), len(m.order), log.String())
			}
			if c.str != nil && !strings.Contains(c.str(), fmt.Sprintf("[%d]", len(m.order))) {
				rt.Fatalf("%s: String %s with %d entries after %s", c.kind, c.str(), len(m.order), log.String())
			}
			for i := 0; i < pool; i++ {
				k := keyOf(i)
				v, ok := m.m[k]
				if c.contains(k) != ok {
					rt.Fatalf("%s (max %d): contains %v = %v, want %v after %s", c.kind, c.max, k, !ok, ok, log.String())
				}
				if c.get != nil {
					if g := c.get(k); g != v {
						rt.Fatalf("%s (max %d): get %v = %v, want %v after %s", c.kind, c.max, k, g, v, log.String())
					}
				}
			}
			if c.values != nil {
				var w []any
				for _, v := range m.m {
					w = append(w, v)
				}
				w = notNil(w)
				if g := sorted(notNil(c.values())); g != sorted(w) {
					rt.Fatalf("%s: values %s want %s after %s", c.kind, g, sorted(w), log.String())
				}
			}
			if c.evicted != nil {
				if g, w := sortedKV(*c.evicted), sortedKV(m.left); g != w {
					rt.Fatalf("%s: callback saw %s want %s after %s", c.kind, g, w, log.String())
				}
				*c.evicted = nil
			}
			m.left = nil
		}
		for n := rapid.IntRange(1, 120).Draw(rt, "ops"); n > 0; n-- {
			w := 0
			if nc > 1 {
				w = rapid.IntRange(0, nc-1).Draw(rt, "which")
			}
			c, m := cs[w], ms[w]
			k := keyOf(rapid.IntRange(0, pool-1).Draw(rt, "key"))
			switch op := rapid.IntRange(0, 19).Draw(rt, "op"); {
			case op < 13:
				serial++
				v := any(fmt.Sprintf("v%d", serial))
				switch rapid.IntRange(0, 9).Draw(rt, "value") {
				case 0:
					if m.replaces { // the maps of the other caches do not hold nil
						v = nil
					}
				case 1:
					v = "same"
				case 2:
					v = 0
				}
				fmt.Fprintf(&log, " %d.add(%v,%v)", w, k, v)
				if _, ok := m.m[k]; ok {
					others++
				} else if len(m.order) == m.max {
					evictions++
				}
				c.add(k, v)
				m.add(k, v)
			case op < 18 && c.remove != nil:
				fmt.Fprintf(&log, " %d.remove(%v)", w, k)
				others++
				c.remove(k)
				m.drop(k)
			case op == 19 && rapid.IntRange(0, 3).Draw(rt, "really") == 0:
				fmt.Fprintf(&log, " %d.clear", w)
				c.clear()
				for len(m.order) > 0 {
					m.drop(m.order[0])
				}
			}
			for i := range cs {
				check(cs[i], ms[i])
			}
		}
		hx.Case(fmt.Sprintf("%s max %d:%s", cs[0].kind, cs[0].max, log.String()), evictions > 0 && others > 0)
	})
}

func TestC08Large(t *testing.T) {
	hx.Rule("large: the sizes the agent uses (100 and 10000): fill beyond the maximum with removals interleaved, and compare membership of every key ever used at the end; AddKey behaves as an add; non-trivial = all")
	hx.Check(t, 6, 100, func(rt *rapid.T) {
		kind := rapid.SampledFrom(kinds).Draw(rt, "kind")
		mx := rapid.SampledFrom([]int{100, 1000, 10000}).Draw(rt, "max")
		if kind == "cachemap2" || kind == "cachemap" {
			mx = min(mx, 1000)
		}
		seed := rapid.Int64().Draw(rt, "seed")
		hx.Case(fmt.Sprint(kind, mx, seed), true)
		r := rand.New(rand.NewSource(seed))
		c := newCache(kind, mx)
		next := 0
		in := map[int]bool{}
		var order []int
		steps := mx*2 + r.Intn(mx)
		for i := 0; i < steps; i++ {
			if c.remove != nil && r.Intn(5) == 0 && next > 0 {
				k := r.Intn(next)
				c.remove(k)
				delete(in, k)
				continue
			}
			c.add(next, "x")
			in[next] = true
			order = append(order, next)
			next++
			if len(in) > mx {
				for !in[order[0]] {
					order = order[1:]
				}
				delete(in, order[0])
				order = order[1:]
			}
		}
		if c.size() != len(in) {
			rt.Fatalf("%s max %d: size %d want %d", kind, mx, c.size(), len(in))
		}
		for k := 0; k < next; k++ {
			if c.contains(k) != in[k] {
				rt.Fatalf("%s max %d after %d steps: contains %d = %v want %v", kind, mx, steps, k, !in[k], in[k])
			}
		}
		l := lra.New(3)
		l.AddKey("a")
		l.AddKey("b")
		l.AddKey("a")
		l.AddKey("c")
		l.AddKey("d")
		if l.Contains("a") || !l.Contains("b") || !l.Contains("d") || l.Size() != 3 {
			rt.Fatalf("AddKey: %v", l.GetValues())
		}
	})
}

// ---- C09 ------------------------------------------------------------------------------------

type cval struct {
	key int
	n   int64
}

func TestC09Concurrent(t *testing.T) {
	hx.Rule("concurrent: 2..16 goroutines run 200..3000 random operations each (a drawn mixture, possibly dominated by one kind) on one cache of maximum 1..40, beside a second cache of any kind in use; readers check each obtained value belongs to its key and that size and value count never exceed the maximum; afterwards size, membership, lookups and values must agree, and adding max fresh keys must displace all others; run also under the race detector; non-trivial = at least 2 goroutines with adds and another operation")
	hx.Check(t, hx.Pick(60, 60), 1500, func(rt *rapid.T) {
		kind := rapid.SampledFrom(kinds).Draw(rt, "kind")
		if kind == "lra+cb" {
			kind = "lra"
		}
		mx := rapid.IntRange(1, 40).Draw(rt, "max")
		g := rapid.IntRange(2, 16).Draw(rt, "goroutines")
		n := rapid.IntRange(200, 3000).Draw(rt, "ops")
		pool := rapid.IntRange(2, 2*mx+4).Draw(rt, "keys")
		seed := rapid.Int64().Draw(rt, "seed")
		procs := rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(rt, "procs")
		weights := rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 1, 5, 20}), 8, 8).Draw(rt, "weights")
		weights[0] += 2
		if rapid.Bool().Draw(rt, "noclear") {
			weights[7] = 0
		}
		other := newCache(rapid.SampledFrom(kinds).Draw(rt, "other"), 5)
		useOther := rapid.Bool().Draw(rt, "useother")
		c := newCache(kind, mx)
		key := fmt.Sprintf("%s max %d, %d goroutines x %d ops over %d keys, mixture %v, %d procs, seed %d, other=%v", kind, mx, g, n, pool, weights, procs, seed, useOther)
		hx.Journal(key)
		hx.Label("concurrent " + kind)
		tot := 0
		for _, w := range weights[1:] {
			tot += w
		}
		hx.Case(key, tot > 0)
		old := runtime.GOMAXPROCS(procs)
		defer runtime.GOMAXPROCS(old)
		var bad atomic.Pointer[string]
		fail := func(f string, a ...any) {
			s := fmt.Sprintf(f, a...)
			bad.CompareAndSwap(nil, &s)
		}
		var serial atomic.Int64
		ok, stacks := hx.Finishes(key, func() {
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i := 0; i < g; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					r := rand.New(rand.NewSource(seed + int64(i)))
					sum := 0
					for _, w := range weights {
						sum += w
					}
					<-start
					for j := 0; j < n; j++ {
						x := r.Intn(sum)
						op := 0
						for x >= weights[op] {
							x -= weights[op]
							op++
						}
						k := r.Intn(pool)
						switch op {
						case 0:
							c.add(k, cval{k, serial.Add(1)})
							if useOther && i == 0 && other.evicted == nil {
								other.add(k, cval{k, 0})
							}
						case 1:
							if c.get != nil {
								v := c.get(k)
								if v != nil {
									if cv, ok := v.(cval); !ok || cv.key != k {
										fail("get(%d) returned %v", k, v)
									}
								}
							}
						case 2:
							c.contains(k)
						case 3:
							if c.remove != nil {
								c.remove(k)
							}
						case 4:
							if s := c.size(); s > mx || s < 0 {
								fail("size %d with maximum %d", s, mx)
							}
						case 5:
							c.empty()
							if c.str != nil && j%16 == 0 {
								_ = c.str()
							}
						case 6:
							if c.values != nil {
								vs := c.values()
								if len(vs) > mx {
									fail("%d values with maximum %d", len(vs), mx)
								}
								for _, v := range vs {
									if cv, ok := v.(cval); !ok || cv.key < 0 || cv.key >= pool {
										fail("value %v was never stored", v)
									}
								}
							}
						case 7:
							if r.Intn(8) == 0 {
								c.clear()
							}
						}
					}
				}()
			}
			close(start)
			wg.Wait()
		})
		if !ok {
			hx.Violation("operations blocked for good: %s\n%s", key, stacks)
		}
		if b := bad.Load(); b != nil {
			rt.Fatalf("%s: %s", key, *b)
		}
		// at rest
		count := 0
		for k := 0; k < pool; k++ {
			in := c.contains(k)
			if in {
				count++
			}
			if c.get != nil {
				v := c.get(k)
				if (v != nil) != in {
					rt.Fatalf("%s: contains(%d)=%v but get=%v", key, k, in, v)
				}
				if v != nil && v.(cval).key != k {
					rt.Fatalf("%s: get(%d)=%v", key, k, v)
				}
			}
		}
		if count > mx || c.size() != count || c.empty() != (count == 0) {
			rt.Fatalf("%s: %d members, size %d, empty %v", key, count, c.size(), c.empty())
		}
		if c.values != nil {
			if vs := c.values(); len(vs) != count {
				rt.Fatalf("%s: %d members, %d values", key, count, len(vs))
			}
		}
		for i := 0; i < mx; i++ {
			c.add(1000+i, cval{1000 + i, 0})
			if c.size() > mx {
				rt.Fatalf("%s: size %d above the maximum after it", key, c.size())
			}
		}
		for k := 0; k < pool; k++ {
			if c.contains(k) {
				rt.Fatalf("%s: key %d still present after %d newer ones", key, k, mx)
			}
		}
		for i := 0; i < mx; i++ {
			if !c.contains(1000 + i) {
				rt.Fatalf("%s: fresh key %d of %d missing", key, i, mx)
			}
		}
		if c.size() != mx {
			rt.Fatalf("%s: size %d, want %d", key, c.size(), mx)
		}
	})
}
