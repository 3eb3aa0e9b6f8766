package tcp

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/dump"
	"pgregory.net/rapid"
	"verif/harness/bubble"
	"verif/harness/cfg"
	"verif/harness/hx"
)

const here = "verif/harness/tcp."

// ---- what a profile can show

// spin passes d of real time, whatever the bubble's clock says.
func spin(d time.Duration) {
	if d <= 0 {
		return
	}
	var a, b syscall.Timeval
	syscall.Gettimeofday(&a)
	for {
		syscall.Gettimeofday(&b)
		if e := b.Nano() - a.Nano(); e >= d.Nanoseconds() || e < 0 {
			return
		}
	}
}

//go:noinline
func blockRecv(c chan int) { <-c }

//go:noinline
func blockSend(c chan int) { c <- 1 }

//go:noinline
func blockSelect(c chan int) {
	select {
	case <-c:
	case c <- 1:
	}
}

var blockers = []struct {
	name    string
	wait    func(chan int)
	release func(chan int)
}{
	{here + "blockRecv", blockRecv, func(c chan int) { c <- 1 }},
	{here + "blockSend", blockSend, func(c chan int) { <-c }},
	{here + "blockSelect", blockSelect, func(c chan int) { c <- 1 }},
}

// block has n goroutines block once each for at least d; settled waits until they do.
func block(k, n int, d time.Duration, settled func()) {
	b := blockers[k]
	c := make(chan int)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); b.wait(c) }()
		if k == 2 { // selects would serve one another
			settled()
			spin(d)
			b.release(c)
			wg.Wait()
		}
	}
	if k != 2 {
		settled()
		spin(d)
		for i := 0; i < n; i++ {
			b.release(c)
		}
	}
	wg.Wait()
}

//go:noinline
func unlockA(m *sync.Mutex) { m.Unlock() }

//go:noinline
func unlockB(m *sync.Mutex) { m.Unlock() }

var unlockers = []struct {
	name string
	f    func(*sync.Mutex)
}{{here + "unlockA", unlockA}, {here + "unlockB", unlockB}}

//go:noinline
func contender(m *sync.Mutex) {
	m.Lock()
	//lint:ignore SA2001 only to wait
	m.Unlock()
}

// contend has an unlock release a waiter n times.
func contend(k, n int) {
	buf := make([]byte, 1<<20)
	for i := 0; i < n; i++ {
		var m sync.Mutex
		done := make(chan struct{})
		m.Lock()
		go func() { contender(&m); close(done) }()
		for {
			s := string(buf[:runtime.Stack(buf, true)])
			if j := strings.Index(s, "tcp.contender("); j > 0 {
				h := s[strings.LastIndex(s[:j], "\ngoroutine "):j]
				if strings.Contains(h, "[sync.Mutex.Lock") {
					break
				}
			}
			runtime.Gosched()
		}
		spin(20 * time.Microsecond)
		unlockers[k].f(&m)
		<-done
	}
}

var sink int

//go:noinline
func burnA(until int64) { burn(until) }

//go:noinline
func burnB(until int64) { burn(until) }

var burners = []struct {
	name string
	f    func(int64)
}{{here + "burnA", burnA}, {here + "burnB", burnB}}

func threadCPU() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(1 /* RUSAGE_THREAD */, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

//go:noinline
func burn(until int64) {
	for threadCPU() < until {
		for i := 0; i < 200000; i++ {
			sink += i ^ sink
		}
	}
}

func burnFor(k int, d time.Duration) {
	runtime.LockOSThread()
	burners[k].f(threadCPU() + d.Nanoseconds())
	runtime.UnlockOSThread()
}

// ---- the periods

type ask struct {
	at, sec int
	kind    string // block, mutex
	binary  bool
	rate    int
}

func (a ask) String() string {
	f := "text"
	if a.binary {
		f = "binary"
	}
	return fmt.Sprintf("%ds: %s %s for %ds rate %d", a.at, f, a.kind, a.sec, a.rate)
}

type burst struct {
	at   int // half a second later
	kind string
	fn   int
	n    int
}

func listing() map[string]bool {
	m := map[string]bool{}
	for _, d := range []string{dumpDir(), binDir()} {
		es, _ := os.ReadDir(d)
		for _, e := range es {
			m[filepath.Join(d, e.Name())] = true
		}
	}
	return m
}

// counted are the events recorded so far in this process, as they should be.
var counted = map[string]int64{}

func TestC28Periods(t *testing.T) {
	hx.Rule("up to 5 profiles of blocking and mutex contention with generated periods, sequential and overlapping, with bursts of events inside and outside the periods, on a simulated clock; the file of each is judged when its period is over: complete, and with exactly the events of the periods so far; non-trivial: at least 2 profiles, with a burst inside and one outside a period")
	// the runtime measures its ticks at first use, for which it would sleep in the bubble
	runtime.SetBlockProfileRate(2)
	runtime.SetBlockProfileRate(0)
	b := bubble.New(t)
	hx.Check(t, 60, 1500, func(rt *rapid.T) {
		var asks []ask
		mutexRate := rapid.SampledFrom([]int{1, 1, 1, 5, 10}).Draw(rt, "mutexRate")
		blockRate := rapid.SampledFrom([]int{1, 1, 1, 1000, 1000000}).Draw(rt, "blockRate")
		initial := rapid.SampledFrom([]int{0, 0, 0, 7}).Draw(rt, "initialFraction")
		starts, ends := map[int]bool{}, map[int]bool{}
		now := 0
		for i := rapid.IntRange(1, 5).Draw(rt, "profiles"); i > 0; i-- {
			a := ask{sec: rapid.OneOf(rapid.IntRange(1, 12), rapid.SampledFrom([]int{30, 1, 2, 300})).Draw(rt, "seconds")}
			if rapid.Bool().Draw(rt, "later") {
				now += rapid.IntRange(1, 40).Draw(rt, "pause")
			} else {
				now++
			}
			a.at = now
			a.kind = rapid.SampledFrom([]string{"block", "block", "mutex", "mutex"}).Draw(rt, "kind")
			a.binary = rapid.Bool().Draw(rt, "binary")
			switch a.kind {
			case "block":
				a.rate = blockRate
			case "mutex":
				a.rate = mutexRate
			}
			for ends[a.at+a.sec] {
				a.sec++
			}
			if starts[a.at] {
				continue
			}
			starts[a.at], ends[a.at+a.sec] = true, true
			asks = append(asks, a)
		}
		if len(asks) == 0 {
			return
		}
		last := 0
		for _, a := range asks {
			last = max(last, a.at+a.sec)
		}
		var bursts []burst
		inside, outside := 0, 0
		on := func(kind string, at int) bool {
			for _, a := range asks {
				if a.kind == kind && a.at <= at && at < a.at+a.sec {
					return true
				}
			}
			return false
		}
		for i := rapid.IntRange(1, 8).Draw(rt, "bursts"); i > 0; i-- {
			u := burst{kind: rapid.SampledFrom([]string{"block", "block", "mutex"}).Draw(rt, "burstKind"), n: rapid.IntRange(1, 5).Draw(rt, "events")}
			switch rapid.IntRange(0, 3).Draw(rt, "when") {
			case 0:
				u.at = rapid.IntRange(0, last+2).Draw(rt, "at")
			default: // near a boundary
				a := rapid.SampledFrom(asks).Draw(rt, "of")
				u.kind = a.kind
				u.at = max(0, rapid.SampledFrom([]int{a.at - 1, a.at, a.at + a.sec - 1, a.at + a.sec, a.at + a.sec/2}).Draw(rt, "at"))
			}
			u.fn = rapid.IntRange(0, 1).Draw(rt, "fn")
			if u.kind == "block" && rapid.IntRange(0, 2).Draw(rt, "fn2") == 0 {
				u.fn = 2
			}
			if on(u.kind, u.at) {
				inside++
			} else {
				outside++
			}
			bursts = append(bursts, u)
		}
		desc := fmt.Sprintf("mutex fraction %d; %v; bursts %v", initial, asks, bursts)
		hx.Journal(desc)
		var verr error
		fail := func(f string, a ...any) {
			if verr == nil {
				verr = fmt.Errorf(f, a...)
			}
		}
		for _, d := range []string{dumpDir(), binDir()} {
			os.RemoveAll(d)
		}
		runtime.SetBlockProfileRate(0)
		runtime.SetMutexProfileFraction(initial)
		if err := resync(); err != nil {
			rt.Fatalf("%v", err)
		}
		err := b.Run(func() {
			begin := time.Now().Truncate(time.Second).Add(time.Second)
			time.Sleep(time.Until(begin))
			known := listing()
			for s := 0; s <= last+3; s++ {
				time.Sleep(time.Until(begin.Add(time.Duration(s) * time.Second)))
				// on the second: requests
				for _, a := range asks {
					if a.at != s {
						continue
					}
					switch {
					case a.kind == "block" && a.binary:
						dump.ProfileBlockBinaryDump(a.sec, a.rate)
					case a.kind == "block":
						dump.ProfileBlock(a.sec, a.rate, 1)
					case a.binary:
						dump.ProfileMutexBinaryDump(a.sec, a.rate)
					default:
						dump.ProfileMutex(a.sec, a.rate, 1)
					}
				}
				// a quarter later: what has ended
				time.Sleep(250 * time.Millisecond)
				synctest.Wait()
				fr := runtime.SetMutexProfileFraction(-1)
				if want := map[bool]int{true: mutexRate, false: initial}[on("mutex", s)]; fr != want {
					fail("%d s: the mutex profile fraction is %d, should be %d", s, fr, want)
				}
				for _, a := range asks {
					if a.at+a.sec != s {
						continue
					}
					dir := dumpDir()
					if a.binary {
						dir = binDir()
					}
					var news []string
					for p := range listing() {
						if !known[p] && filepath.Dir(p) == dir && strings.Contains(filepath.Base(p), a.kind) {
							news = append(news, p)
						}
					}
					if len(news) != 1 {
						fail("%v: %d files when it is over: %v", a, len(news), news)
						continue
					}
					known[news[0]] = true
					if a.binary != strings.HasSuffix(news[0], "pprof") {
						fail("%v: its file is %s", a, news[0])
					}
					raw, err := os.ReadFile(news[0])
					if err != nil {
						fail("%v: %v", a, err)
						continue
					}
					var p *profile
					if a.binary {
						p, err = parseBinary(raw, a.kind)
					} else {
						p, err = parseText(string(raw), map[string]string{"block": "contention", "mutex": "mutex"}[a.kind])
					}
					if err != nil {
						fail("%v: %s: %v", a, filepath.Base(news[0]), err)
						continue
					}
					switch a.kind {
					case "block":
						for _, u := range blockers {
							if p.events[u.name] != counted[u.name] {
								fail("%v: %s has %d events, should have %d", a, u.name, p.events[u.name], counted[u.name])
							}
						}
					case "mutex":
						for _, u := range unlockers {
							if mutexRate == 1 && initial == 0 && p.events[u.name] != counted[u.name] {
								fail("%v: %s has %d events, should have %d", a, u.name, p.events[u.name], counted[u.name])
							}
							// with other rates, what is recorded is random
							counted[u.name] = p.events[u.name]
						}
					}
				}
				// half past: bursts
				time.Sleep(250 * time.Millisecond)
				for _, u := range bursts {
					if u.at != s {
						continue
					}
					switch u.kind {
					case "block":
						d := time.Duration(0)
						if blockRate > 1 {
							d = time.Duration(blockRate)*time.Nanosecond*12/10 + 50*time.Microsecond
						}
						block(u.fn, u.n, d, synctest.Wait)
						if on("block", s) {
							counted[blockers[u.fn].name] += int64(u.n)
						}
					case "mutex":
						if initial != 0 && !on("mutex", s) {
							break
						}
						contend(u.fn, u.n)
						if on("mutex", s) && mutexRate == 1 {
							counted[unlockers[u.fn].name] += int64(u.n)
						}
					}
				}
			}
		})
		runtime.SetMutexProfileFraction(0)
		if err == nil {
			err = verr
		}
		if p, e := ownProfile("block", "contention"); e != nil {
			rt.Fatalf("HARNESS-ERROR %v", e)
		} else if err == nil {
			for _, u := range blockers {
				if p.events[u.name] != counted[u.name] {
					err = fmt.Errorf("%s has %d events after the profiles, should have %d", u.name, p.events[u.name], counted[u.name])
				}
			}
		}
		if err != nil {
			rt.Fatalf("%v\n%s", err, desc)
		}
		for _, a := range asks {
			hx.Label(a.kind)
		}
		hx.Case(desc, len(asks) > 1 && inside > 0 && outside > 0)
	})
}

// resync takes over what the runtime has recorded.
func resync() error {
	for kind, header := range map[string]string{"mutex": "mutex", "block": "contention"} {
		p, err := ownProfile(kind, header)
		if err != nil {
			return fmt.Errorf("HARNESS-ERROR %v", err)
		}
		for _, u := range unlockers {
			if kind == "mutex" {
				counted[u.name] = p.events[u.name]
			}
		}
		for _, u := range blockers {
			if kind == "block" {
				counted[u.name] = p.events[u.name]
			}
		}
	}
	return nil
}

func TestC28Cpu(t *testing.T) {
	hx.Rule("a profile of processor use of 1 to 3 s in real time, with bursts of computing before, at the beginning, just before the end and after its period; the file is judged when it is over: complete, and showing what ran in its period only; non-trivial: something computed inside and something outside")
	hx.Check(t, 6, 100, func(rt *rapid.T) {
		sec := rapid.IntRange(1, 3).Draw(rt, "sec")
		before := rapid.IntRange(-1, 1).Draw(rt, "before")
		inside := rapid.SliceOfN(rapid.IntRange(0, 1), 0, 3).Draw(rt, "inside")
		late := rapid.IntRange(-1, 1).Draw(rt, "late")
		after := rapid.IntRange(-1, 1).Draw(rt, "after")
		desc := fmt.Sprintf("%d s, computing %d before, %v inside, %d just before the end, %d after", sec, before, inside, late, after)
		hx.Journal(desc)
		os.RemoveAll(binDir())
		if before >= 0 {
			burnFor(before, 60*time.Millisecond)
		}
		at := time.Now()
		end := at.Add(time.Duration(sec) * time.Second)
		dump.ProfileBinaryCpu(sec)
		if d := time.Since(at); d > 900*time.Millisecond {
			rt.Fatalf("the request took %v", d)
		}
		time.Sleep(50 * time.Millisecond)
		want := map[string]bool{}
		for _, k := range inside {
			burnFor(k, 120*time.Millisecond)
		}
		for _, k := range inside {
			want[burners[k].name] = true
		}
		if late >= 0 {
			time.Sleep(time.Until(end.Add(-150 * time.Millisecond)))
			burnFor(late, 100*time.Millisecond)
			want[burners[late].name] = true
		}
		if time.Now().After(end.Add(-10 * time.Millisecond)) { // a busy machine
			hx.Discard()
			time.Sleep(time.Until(end.Add(time.Second)))
			return
		}
		if after >= 0 { // well after the end, on a machine which ran the agent when its time came
			for last := time.Now(); last.Before(end.Add(time.Second)); last = time.Now() {
				time.Sleep(20 * time.Millisecond)
				if time.Since(last) > 300*time.Millisecond {
					after = -1
					break
				}
			}
		}
		var p *profile
		for {
			var l []string
			for f := range listing() {
				l = append(l, f)
			}
			err := fmt.Errorf("the files %v", l)
			if len(l) == 1 && strings.HasSuffix(l[0], "pprof") && filepath.Dir(l[0]) == binDir() {
				var raw []byte
				if raw, err = os.ReadFile(l[0]); err == nil {
					p, err = parseBinary(raw, "cpu")
				}
			}
			if after >= 0 {
				// the period is over; a profile that still runs would show this
				burnFor(after, 60*time.Millisecond)
				after = -1
				if err == nil {
					continue
				}
			}
			if err == nil {
				break
			}
			if time.Since(at) > patience {
				rt.Fatalf("%v after the request: %v\n%s", time.Since(at), err, desc)
			}
			time.Sleep(20 * time.Millisecond)
		}
		if d := time.Now(); d.Before(end) {
			rt.Fatalf("the profile of %d s is there after %v", sec, d.Sub(at))
		}
		for _, u := range burners {
			if want[u.name] != (p.events[u.name] > 0) {
				rt.Fatalf("%s ran in the profile: %v, and has %d samples of %d\n%s", u.name, want[u.name], p.events[u.name], p.total, desc)
			}
		}
		hx.Label("cpu")
		hx.Case(desc, len(want) > 0 && before >= 0)
	})
}

// ---- the commands, in real time

func TestC28Commands(t *testing.T) {
	w := newWorld(t)
	hx.Rule("the five profile commands in a generated order over the command connection while the process blocks, contends and computes, in real time; each file is listed, delivered and judged after its half minute; non-trivial: all")
	hx.Check(t, 1, 12, func(rt *rapid.T) {
		cmds := rapid.Permutation([]string{"OBJECT_CALL_CPU_PROFILE", "OBJECT_CALL_BLOCK_PROFILE", "OBJECT_CALL_MUTEX_PROFILE", "TRIGGER_BLOCK_PROFILE", "TRIGGER_MUTEX_PROFILE"}).Draw(rt, "commands")
		for _, d := range []string{dumpDir(), binDir()} {
			os.RemoveAll(d)
		}
		cfg.Set(w.conf)
		s, err := w.connect()
		if err != nil {
			rt.Fatalf("%v", err)
		}
		defer s.drop()
		for _, c := range cmds {
			at := time.Now()
			rs, err := s.ask(c, mapParam(), false)
			if err != nil {
				rt.Fatalf("%v", err)
			}
			if d := time.Since(at); d > 20*time.Second {
				rt.Fatalf("%s is answered after %v", c, d)
			}
			if len(rs) > 0 {
				if m, err := one(rs); err != nil || !truthy(m["success"]) {
					rt.Fatalf("%s is answered with %v %v", c, m, err)
				}
			} else if strings.HasPrefix(c, "OBJECT") {
				rt.Fatalf("%s is not answered", c)
			}
		}
		began := time.Now()
		time.Sleep(300 * time.Millisecond) // a profile may need a moment to start
		if f := runtime.SetMutexProfileFraction(-1); f <= 0 {
			rt.Fatalf("the mutex profile fraction is %d during the profiles", f)
		}
		burnt, contended := 0, 0
		for i := 0; time.Since(began) < 27*time.Second; i++ {
			if i < 300 {
				contend(0, 1)
			} else if contended < 300 && time.Since(began) > 15*time.Second {
				contended += 3
				contend(1, 3)
			}
			late := time.Since(began) > 15*time.Second // one of each kind only early, the others only late
			for k := range blockers {
				if (k > 0) == late {
					block(k, 1, 3*time.Millisecond, func() { time.Sleep(time.Millisecond) })
				}
			}
			if i < 10 {
				burnFor(0, 60*time.Millisecond)
			}
			if late && burnt < 10 {
				burnt++
				burnFor(1, 60*time.Millisecond)
			}
			if i >= 300 && (!late || contended >= 300) {
				time.Sleep(50 * time.Millisecond)
			}
			if i%50 == 0 {
				if rs, err := s.ask("KEEP_ALIVE", mapParam(), false); err != nil || len(rs) > 0 {
					rt.Fatalf("KEEP_ALIVE is answered with %v %v", rs, err)
				}
			}
		}
		check := func() error {
			text, err := s.askMap("OBJECT_DUMP_FILE_LIST")
			if err != nil {
				return err
			}
			bin, err := s.askMap("OBJECT_LIST_HEAP_DUMP")
			if err != nil {
				return err
			}
			tn, _ := list(text["name"])
			bn, _ := list(bin["name"])
			sort.Strings(tn)
			sort.Strings(bn)
			if len(tn) != 2 || len(bn) != 3 {
				return fmt.Errorf("the files %v and %v are listed", tn, bn)
			}
			for i, n := range append(append([]string(nil), tn...), bn...) {
				var raw []record
				var p *profile
				if i < 2 {
					raw, err = s.ask("OBJECT_DUMP_FILE_DETAIL", mapParam("name", n), true)
				} else {
					raw, err = s.ask("OBJECT_DOWNLOAD_HEAP_DUMP", mapParam("fileName", n), true)
				}
				if err != nil {
					return err
				}
				kind := ""
				for _, k := range []string{"block", "mutex", "cpu"} {
					if strings.Contains(n, k) {
						kind = k
					}
				}
				if i < 2 {
					p, err = parseText(string(join(raw)), map[string]string{"block": "contention", "mutex": "mutex"}[kind])
				} else {
					p, err = parseBinary(join(raw), kind)
				}
				if err != nil {
					return fmt.Errorf("%s: %v", n, err)
				}
				var want []string
				switch kind {
				case "block":
					for _, u := range blockers {
						want = append(want, u.name)
					}
				case "mutex":
					for _, u := range unlockers {
						want = append(want, u.name)
					}
				case "cpu":
					for _, u := range burners {
						want = append(want, u.name)
					}
				default:
					return fmt.Errorf("a file %s", n)
				}
				for _, f := range want {
					if p.events[f] == 0 {
						return fmt.Errorf("%s does not show %s", n, f)
					}
				}
			}
			return nil
		}
		for {
			err := check()
			over := time.Since(began) > 30*time.Second+patience
			if err == nil {
				break
			}
			if isReset(err) || over {
				rt.Fatalf("%v after the profiles were requested: %v", time.Since(began), err)
			}
			time.Sleep(200 * time.Millisecond)
		}
		if d := time.Since(began); d < 25*time.Second {
			rt.Fatalf("the profiles are there after %v", d)
		}
		if f := runtime.SetMutexProfileFraction(-1); f != 0 {
			rt.Fatalf("the mutex profile fraction is %d after the profiles", f)
		}
		if err := s.close(); err != nil {
			rt.Fatalf("%v", err)
		}
		hx.Case(fmt.Sprint(cmds), true)
	})
}
