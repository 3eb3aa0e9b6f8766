package meter

import (
	"fmt"
	"math"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/counter"
	"pgregory.net/rapid"
	"verif/harness/bubble"
	"verif/harness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

var (
	bub     *bubble.B
	bubOnce sync.Once
)

func inBubble(t *testing.T, f func()) error {
	bubOnce.Do(func() { bub = bubble.New(t) })
	return bub.Run(f)
}

// op is a step of a metering history: wait, record or ask.
type op struct {
	kind    int // 0 wait, 1 record, 2 ask
	wait    time.Duration
	elapsed int
	err     bool
	value   float64
	n       int // repeat of a record; period of an ask
}

func (o op) String() string {
	switch o.kind {
	case 0:
		return fmt.Sprintf("+%v", o.wait)
	case 1:
		return fmt.Sprintf("add(%d,%v,%g)x%d", o.elapsed, o.err, o.value, o.n)
	}
	return fmt.Sprintf("ask(%d)", o.n)
}

func genWait(rt *rapid.T) time.Duration {
	ms := rapid.OneOf(
		rapid.IntRange(1, 999),
		rapid.Custom(func(t *rapid.T) int { return 1000 * rapid.IntRange(1, 40).Draw(t, "s") }),
		rapid.IntRange(1000, 40000),
		rapid.Custom(func(t *rapid.T) int {
			return 1000*rapid.IntRange(295, 306).Draw(t, "s") + rapid.SampledFrom([]int{-1, 0, 1, 500}).Draw(t, "f")
		}),
		rapid.Custom(func(t *rapid.T) int {
			return 1000*(301*rapid.IntRange(1, 4).Draw(t, "k")+rapid.IntRange(-2, 2).Draw(t, "s")) + rapid.SampledFrom([]int{0, 0, 250}).Draw(t, "f")
		}),
		rapid.IntRange(40000, 4000000),
	).Draw(rt, "ms")
	return time.Duration(ms) * time.Millisecond
}

func genHistory(rt *rapid.T) []op {
	period := rapid.OneOf(rapid.IntRange(1, 300), rapid.SampledFrom([]int{1, 2, 29, 30, 31, 299, 300}))
	n := rapid.IntRange(1, 60).Draw(rt, "n")
	var ops []op
	for i := 0; i < n; i++ {
		var o op
		switch k := rapid.IntRange(0, 9).Draw(rt, "k"); {
		case k < 3:
			o = op{kind: 0, wait: genWait(rt)}
		case k < 7:
			o = op{kind: 1, n: rapid.SampledFrom([]int{1, 1, 1, 2, 7, 100}).Draw(rt, "rep"), err: rapid.Bool().Draw(rt, "err"),
				elapsed: rapid.OneOf(rapid.IntRange(0, 20), rapid.IntRange(-50, 5000), rapid.IntRange(0, math.MaxInt32), rapid.SampledFrom([]int{-1, 0, math.MinInt32, 1000})).Draw(rt, "ms"),
				value:   float64(rapid.IntRange(-1000000, 1000000).Draw(rt, "v")) / 4}
		default:
			o = op{kind: 2, n: period.Draw(rt, "period")}
		}
		ops = append(ops, o)
	}
	ops = append(ops, op{kind: 2, n: period.Draw(rt, "period")}, op{kind: 2, n: 300})
	return ops
}

type sample struct {
	sec   int64
	el    int
	err   bool
	value float64
}

func near(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-6*math.Max(math.Abs(a), math.Abs(b))
}

func TestC10Window(t *testing.T) {
	hx.Rule("history of waits (sub-second to >1 h, dense around 300/301 s and its multiples), records and questions on a fake clock; non-trivial: at least 3 records in different seconds of which one answer includes some and excludes some")
	counter.GetServiceMeter() // created at another time than it is first used
	hx.Check(t, 1500, 40000, func(rt *rapid.T) {
		ops := genHistory(rt)
		var fail string
		var key strings.Builder
		nontrivial := false
		err := inBubble(t, func() {
			sm := counter.GetServiceMeter()
			time.Sleep(400*time.Second + 137*time.Millisecond) // leave earlier cases behind
			vm := counter.NewValueMeter()
			var hist []sample
			for i, o := range ops {
				key.WriteString(o.String() + " ")
				now := time.Now().Unix()
				switch o.kind {
				case 0:
					time.Sleep(o.wait)
				case 1:
					for k := 0; k < o.n; k++ {
						sm.Add(o.elapsed, o.err)
						vm.Add(o.value)
						e := o.elapsed
						if e < 0 {
							e = 0
						}
						hist = append(hist, sample{now, e, o.err, o.value})
					}
				case 2:
					cnt, el, errs, sum, out := 0, 0, 0, 0.0, 0
					secs := map[int64]bool{}
					for _, s := range hist {
						if now-s.sec < int64(o.n) {
							cnt++
							el += s.el
							sum += s.value
							if s.err {
								errs++
							}
							secs[s.sec] = true
						} else {
							out++
						}
					}
					if out > 0 && len(secs) > 1 && cnt > 2 {
						nontrivial = true
					}
					wt, we, wr, wa := float64(cnt)/float64(o.n), 0, 0.0, 0.0
					if cnt > 0 {
						we, wr, wa = el/cnt, 100*float64(errs)/float64(cnt), sum/float64(cnt)
					}
					g := sm.GetAllCounter(o.n)
					if !near(float64(g.Tps), wt) || g.Elapsed != we || !near(float64(g.ErrorRate), wr) {
						fail = fmt.Sprintf("step %d ask(%d): service meter says tps=%v elapsed=%v error=%v, the window holds %d samples in %d s: tps=%v elapsed=%v error=%v",
							i, o.n, g.Tps, g.Elapsed, g.ErrorRate, cnt, o.n, wt, we, wr)
						return
					}
					v := vm.GetAllCounter(o.n)
					if !near(v.Sum, sum) || !near(v.Avg, wa) {
						fail = fmt.Sprintf("step %d ask(%d): value meter says sum=%v avg=%v, the window holds %d samples: sum=%v avg=%v", i, o.n, v.Sum, v.Avg, cnt, sum, wa)
						return
					}
				}
			}
		})
		hx.Case(key.String(), nontrivial)
		if err != nil {
			rt.Fatalf("%v\nhistory: %s", err, key.String())
		}
		if fail != "" {
			rt.Fatalf("%s\nhistory: %s", fail, key.String())
		}
	})
}

// Concurrent recording loses and invents nothing: all samples fall into the last 300 s of the real clock.
func TestC10Concurrent(t *testing.T) {
	hx.Rule("k goroutines record on the real clock while others ask; answers never decrease or exceed what was recorded, and end exact")
	total, errors := 0, 0
	t0 := time.Now()
	hx.Check(t, 15, 60, func(rt *rapid.T) {
		g := rapid.IntRange(2, 8).Draw(rt, "goroutines")
		per := rapid.IntRange(50, 1500).Draw(rt, "each")
		ask := rapid.IntRange(1, 3).Draw(rt, "readers")
		sm := counter.GetServiceMeter()
		vm := counter.NewValueMeter()
		var wg, rg sync.WaitGroup
		var stop atomic.Bool
		var bad atomic.Value
		if total == 0 {
			c := sm.GetAllCounter(300)
			if c.Tps != 0 {
				rt.Fatalf("HARNESS-ERROR: meter in use")
			}
		}
		before := total
		for i := 0; i < ask; i++ {
			rg.Add(1)
			go func() {
				defer rg.Done()
				last := 0.0
				for !stop.Load() {
					s := vm.GetAllCounter(300).Sum
					c := sm.GetAllCounter(300)
					n := float64(c.Tps) * 300
					if s < last || s > float64(g*per) || n < float64(before)-0.5 || n > float64(before+g*per)*1.0001+0.5 || c.ErrorRate < 0 || c.ErrorRate > 100 {
						bad.Store(fmt.Sprintf("asked during recording: sum=%v after %v, of at most %d; count %v", s, last, g*per, n))
						return
					}
					last = s
				}
			}()
		}
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < per; k++ {
					sm.Add(3, (i+k)%2 == 0)
					vm.Add(1)
				}
			}()
		}
		wg.Wait()
		stop.Store(true)
		rg.Wait()
		for i := 0; i < g; i++ {
			for k := 0; k < per; k++ {
				if (i+k)%2 == 0 {
					errors++
				}
			}
		}
		total += g * per
		hx.Case(fmt.Sprintf("goroutines=%d each=%d readers=%d", g, per, ask), g*per > 200)
		if time.Since(t0) > 240*time.Second {
			hx.Discard() // the window no longer holds every sample
			return
		}
		if b := bad.Load(); b != nil {
			rt.Fatalf("%v", b)
		}
		c, v := sm.GetAllCounter(300), vm.GetAllCounter(300)
		if !near(float64(c.Tps)*300, float64(total)) || !near(float64(c.ErrorRate), 100*float64(errors)/float64(total)) || c.Elapsed != 3 || v.Sum != float64(g*per) {
			rt.Fatalf("after %d samples (%d errors): tps*300=%v error=%v elapsed=%v; %d values: %v", total, errors, c.Tps*300, c.ErrorRate, c.Elapsed, g*per, v.Sum)
		}
	})
}
