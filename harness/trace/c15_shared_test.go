package trace

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"pgregory.net/rapid"
	"verif/harness/hx"
	"verif/harness/refwire"
)

func TestC14Shared(t *testing.T) { sharedService(t, false) }
func TestC15Shared(t *testing.T) { sharedService(t, true) }

// sharedService lets several goroutines of the host use one service's context at the same time.
func sharedService(t *testing.T, profile bool) {
	hx.Rule("services whose context is used by 2 to 6 goroutines at once to add messages, method and API-call steps; non-trivial: at least 100 steps")
	w := newWorld(t)
	hx.Check(t, 40, 600, func(rt *rapid.T) {
		g := rapid.IntRange(2, 6).Draw(rt, "goroutines")
		n := rapid.IntRange(1, 400).Draw(rt, "rounds")
		keep := rapid.SampledFrom([]int{1, 2, 5, 64, 2048}).Draw(rt, "keep")
		max := rapid.SampledFrom([]int{1, 7, 1024}).Draw(rt, "max")
		kinds := rapid.SliceOfN(rapid.IntRange(0, 3), g, g).Draw(rt, "kinds")
		if keep*max < 50 {
			n = min(n, 60)
		}
		desc := fmt.Sprintf("%d goroutines, %d rounds, kinds %v, keep %d, max %d", g, n, kinds, keep, max)
		hx.Journal(desc)
		w.configure(map[string]string{"profile_step_max_keep_in_memory_count": fmt.Sprint(keep), "profile_step_max_count": fmt.Sprint(max)})
		w.col.Take()
		d0 := w.col.Drops()
		var txid int64
		if err := w.b.Run(func() {
			ctx := strace.StartService(context.Background(), "shared", "1.2.3.4")
			txid = tctxmanager.GetTraceContext(ctx).Txid
			var wg sync.WaitGroup
			var ready atomic.Int32
			for k := 0; k < g; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					ready.Add(1)
					for spin := 0; ready.Load() < int32(g); spin++ {
						if spin%1000 == 999 {
							runtime.Gosched()
						}
					}
					for i := 0; i < n; i++ {
						switch kinds[k] {
						case 0:
							strace.AddMessageStep(ctx, fmt.Sprintf("m %d %d", k, i))
						case 1:
							m := strace.StartCustomMethod(ctx, fmt.Sprintf("method %d", k))
							strace.EndMethod(ctx, m)
						case 2:
							a := strace.StartApiCall(ctx, fmt.Sprintf("api %d", k), "")
							strace.EndApiCall(ctx, a, nil)
						case 3:
							strace.AddPMessageStep(ctx, netdata.PMSG_INFO, fmt.Sprintf("p %d", k), int32(i))
						}
					}
				}()
			}
			wg.Wait()
			strace.EndService(ctx)
			settle()
		}); err != nil {
			rt.Fatalf("%v\n%s", err, desc)
		}
		got, err := w.collect(d0)
		if errors.Is(err, errDropped) {
			hx.Discard()
			return
		}
		if err == nil && len(got.xlogs[txid]) != 1 {
			err = fmt.Errorf("%d xlogs", len(got.xlogs[txid]))
		}
		seen := map[string]int{}
		index := map[int32]bool{}
		count, api := 0, 0
		for _, p := range got.profiles[txid] {
			l, e := refwire.Steps(p.Steps)
			if e != nil && err == nil {
				err = e
			}
			count += len(l)
			for _, s := range l {
				if profile && index[s.Index] && err == nil {
					err = fmt.Errorf("two steps have index %d", s.Index)
				}
				index[s.Index] = true
				switch s.T {
				case refwire.SMessage:
					seen[s.Msg]++
				case refwire.SParam:
					seen[fmt.Sprint(s.Hash, " ", s.Elapsed)]++
				case refwire.SMethod, refwire.SApi:
					seen[fmt.Sprint(s.Hash)]++
				}
			}
		}
		want := map[string]int{}
		for k := 0; k < g; k++ {
			for i := 0; i < n; i++ {
				switch kinds[k] {
				case 0:
					want[fmt.Sprintf("m %d %d", k, i)]++
				case 1:
					want[fmt.Sprint(crc(fmt.Sprintf("method %d", k)))]++
				case 2:
					want[fmt.Sprint(crc(fmt.Sprintf("api %d", k)))]++
					api++
				case 3:
					want[fmt.Sprint(crc(fmt.Sprintf("p %d", k)), " ", i)]++
				}
			}
		}
		for k, v := range want {
			if profile && err == nil && seen[k] != v {
				err = fmt.Errorf("step %q was added %d times and arrived %d times (of %d steps %d arrived)", k, v, seen[k], g*n+1, count)
			}
		}
		if profile && err == nil && count != g*n+1 {
			err = fmt.Errorf("%d steps were added and %d arrived", g*n+1, count)
		}
		if err == nil {
			x := got.xlogs[txid][0]
			if profile && int(x.ProfileCount) != count {
				err = fmt.Errorf("the xlog counts %d steps, %d arrived", x.ProfileCount, count)
			}
			if !profile && int(x.ApicallCount) != api {
				err = fmt.Errorf("the xlog counts %d API calls, there were %d", x.ApicallCount, api)
			}
		}
		if err != nil {
			rt.Fatalf("%v\n%s", err, strings.TrimSpace(desc))
		}
		hx.Case(desc, g*n >= 100)
	})
}
