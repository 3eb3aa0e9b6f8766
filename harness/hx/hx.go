// Package hx is the shared scaffolding of the checks: case counting, tier scaling, journalling of the
// case being executed, and a watchdog that turns runaway memory or a hang inside one case into evidence.
package hx

import (
	"bufio"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

type stats struct {
	Evaluations int            `json:"evaluations"`
	Distinct    int            `json:"distinct_nontrivial"`
	Rules       []string       `json:"rules"`
	Samples     []string       `json:"samples"`
	Labels      map[string]int `json:"labels"`
	Discarded   int            `json:"discarded"`
}

var (
	mu      sync.Mutex
	st      = stats{Labels: map[string]int{}}
	seen    = map[[16]byte]struct{}{}
	keysOut *bufio.Writer
)

// Thorough reports whether the thorough tier is running.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Prop is the property id the runner asked for ("" outside the runner).
func Prop() string { return os.Getenv("VERIF_PROP") }

// Pick returns q in the quick tier and th in the thorough tier.
func Pick(q, th int) int {
	if Thorough() {
		return th
	}
	return q
}

// Rule documents how cases are made and what makes one non-trivial.
func Rule(s string) {
	mu.Lock()
	defer mu.Unlock()
	for _, r := range st.Rules {
		if r == s {
			return
		}
	}
	st.Rules = append(st.Rules, s)
}

// Case counts one executed case. key identifies the case for distinctness.
func Case(key string, nontrivial bool) {
	h := sha256.Sum256([]byte(key))
	var k [16]byte
	copy(k[:], h[:])
	mu.Lock()
	defer mu.Unlock()
	st.Evaluations++
	if nontrivial {
		if _, ok := seen[k]; !ok {
			seen[k] = struct{}{}
			st.Distinct++
			n := st.Distinct
			if len(st.Samples) < 3 || (len(st.Samples) < 8 && n&(n-1) == 0) {
				s := key
				if len(s) > 700 {
					s = s[:700] + "...(" + strconv.Itoa(len(key)) + " chars)"
				}
				st.Samples = append(st.Samples, strings.ToValidUTF8(s, "?"))
			}
		}
	}
}

// Label classifies cases, so that the distribution is visible in the evidence.
func Label(l string) {
	mu.Lock()
	st.Labels[l]++
	mu.Unlock()
}

// Discard counts a case that could not be judged (for example because the kernel dropped datagrams).
func Discard() {
	mu.Lock()
	st.Discarded++
	mu.Unlock()
}

// Flush writes the statistics file.
func Flush() {
	p := os.Getenv("VERIF_STATS")
	if p == "" {
		return
	}
	mu.Lock()
	b, _ := json.Marshal(st)
	mu.Unlock()
	os.WriteFile(p+".tmp", b, 0644)
	os.Rename(p+".tmp", p)
}

// Main is called from TestMain.
func Main(m *testing.M) {
	flag.Parse()
	stop := make(chan struct{})
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(2 * time.Second):
				Flush()
			}
		}
	}()
	go watchdog()
	go stuck()
	code := m.Run()
	close(stop)
	Flush()
	os.Exit(code)
}

// Check runs prop on quick or thorough many generated cases. VERIF_SCALE (percent) scales both.
func Check(t *testing.T, quick, thorough int, prop func(rt *rapid.T)) {
	t.Helper()
	n := Pick(quick, thorough)
	if s, err := strconv.Atoi(os.Getenv("VERIF_SCALE")); err == nil && s > 0 {
		n = n * s / 100
	}
	if n < 1 {
		n = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	var failed time.Time // when a case first failed
	again := 0
	rapid.Check(t, func(rt *rapid.T) {
		if !failed.IsZero() {
			// cases which fail by waiting make shrinking slow: what was not tried after a while counts as passing.
			// The first two attempts are the failure and its repetition.
			if again++; again > 1 && time.Since(failed) > shrinkBudget {
				return
			}
		}
		caseStart.Store(time.Now().UnixNano())
		caseCPU.Store(int64(CPU()))
		ok := false
		defer func() {
			caseStart.Store(0)
			if !ok && rt.Failed() && failed.IsZero() {
				failed = time.Now()
			}
		}()
		prop(rt)
		ok = true
	})
}

const shrinkBudget = 60 * time.Second

// Journal notes the case about to be executed, for failures that end the process.
func Journal(s string) {
	if p := os.Getenv("VERIF_JOURNAL"); p != "" {
		os.WriteFile(p, []byte(s), 0644)
	}
}

// Violation reports a violation that cannot go through the test framework and ends the process.
func Violation(format string, a ...any) {
	fmt.Printf("\nVERIF-VIOLATION %s\n", strings.ReplaceAll(fmt.Sprintf(format, a...), "\n", " | "))
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	os.Stdout.Write(buf[:n])
	Flush()
	os.Exit(1)
}

// endInconclusive ends the process with the given line, the stacks, and no verdict.
func endInconclusive(line string) {
	fmt.Printf("\n%s\n", line)
	buf := make([]byte, 1<<20)
	os.Stdout.Write(buf[:runtime.Stack(buf, true)])
	Flush()
	os.Exit(4)
}

// Inconclusive ends the process with an outcome that is neither a pass nor a violation.
func Inconclusive(format string, a ...any) {
	fmt.Printf("\nVERIF-INCONCLUSIVE %s\n", fmt.Sprintf(format, a...))
	Flush()
	os.Exit(4)
}

// ---- watchdog -------------------------------------------------------------------------------

type guardInfo struct {
	what   string
	heap   uint64
	cpu    time.Duration
	start  time.Time
	cpu0   time.Duration
	active bool
}

var (
	gmu sync.Mutex
	gi  guardInfo
	gon atomic.Bool
)

// CPU returns the processor time this process has used.
func CPU() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// Guard runs f; if f makes the heap grow beyond heap bytes, or burns more than cpu processor time
// without finishing, the process ends with a violation. Wall time plays no part.
func Guard(what string, heap uint64, cpu time.Duration, f func()) {
	gmu.Lock()
	gi = guardInfo{what: what, heap: heap, cpu: cpu, start: time.Now(), cpu0: CPU(), active: true}
	gmu.Unlock()
	gon.Store(true)
	defer func() {
		gmu.Lock()
		gi.active = false
		gmu.Unlock()
		gon.Store(false)
	}()
	f()
}

func watchdog() {
	for {
		time.Sleep(20 * time.Millisecond)
		if !gon.Load() {
			continue
		}
		gmu.Lock()
		g := gi
		gmu.Unlock()
		if !g.active {
			continue
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if g.heap > 0 && ms.HeapAlloc > g.heap {
			Violation("%s: heap grew to %d bytes", g.what, ms.HeapAlloc)
		}
		if g.cpu > 0 && CPU()-g.cpu0 > g.cpu {
			gmu.Lock()
			same := gi.active && gi.start.Equal(g.start)
			gmu.Unlock()
			if same {
				Violation("%s: used %v of processor time without finishing", g.what, CPU()-g.cpu0)
			}
		}
	}
}

// caseLimit is far beyond the longest case of any check: all but a few take less than a second, the
// longest, which wait in real time, under a minute.
const caseLimit = 200 * time.Second

var caseStart, caseCPU atomic.Int64 // of the case being executed; 0 between cases

// Preparing has what follows watched like a case, until the returned function is called.
func Preparing() (done func()) {
	caseCPU.Store(int64(CPU()))
	caseStart.Store(time.Now().UnixNano())
	return func() { caseStart.Store(0) }
}

// stuck ends the process when a case does not come to its end. It is a violation when the agent is what
// keeps it: a goroutine in the agent that stays blocked on a lock, or one that runs on while this process
// does get processor time. Otherwise there is no verdict.
func stuck() {
	for {
		time.Sleep(time.Second)
		s := caseStart.Load()
		if s == 0 || time.Since(time.Unix(0, s)) < caseLimit {
			continue
		}
		busy := false
		blocked := map[string]int{}
		const rounds = 20
		wall, cpu := time.Now(), CPU()
		nbusy := 0
		buf := make([]byte, 8<<20)
		for i := 0; i < rounds; i++ {
			for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
				hd, body, _ := strings.Cut(g, "\n")
				if !strings.Contains(body, "scouter-agent-golang/scouterx") {
					continue
				}
				id, state, _ := strings.Cut(hd, " [")
				switch {
				case strings.HasPrefix(state, "running"), strings.HasPrefix(state, "runnable"):
					busy = true
				case strings.HasPrefix(state, "sync.Mutex"), strings.HasPrefix(state, "sync.RWMutex"), strings.HasPrefix(state, "semacquire"):
					blocked[id]++
				}
			}
			if busy {
				nbusy++
			}
			busy = false
			time.Sleep(500 * time.Millisecond)
		}
		if caseStart.Load() != s {
			continue // it has finished after all
		}
		for id, n := range blocked {
			if n == rounds {
				Violation("a case does not come to its end: %s stays blocked in the agent", id)
			}
		}
		used := float64(CPU()-cpu) / float64(time.Since(wall))
		all := float64(CPU()-time.Duration(caseCPU.Load())) / float64(time.Since(time.Unix(0, s)))
		if used > 0.15 && all > 0.15 && nbusy > rounds/4 { // half a minute of processor time, where a case takes a second or two
			Violation("a case does not come to its end: the agent runs on and on")
		}
		if time.Since(time.Unix(0, s)) > 2*caseLimit {
			endInconclusive("VERIF-INCONCLUSIVE a case does not come to its end")
		}
	}
}

// Finishes runs f in a goroutine and reports whether it finished. It gives up only when the goroutines
// running agent code stay blocked: no goroutine whose stack contains "scouterx" is runnable over many
// consecutive samples and f has still not returned. A slow machine therefore never looks like a hang.
func Finishes(what string, f func()) (ok bool, stacks string) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	blocked := 0
	for {
		select {
		case <-done:
			return true, ""
		case <-time.After(100 * time.Millisecond):
		}
		buf := make([]byte, 4<<20)
		s := string(buf[:runtime.Stack(buf, true)])
		all := true
		waiting := false
		for _, g := range strings.Split(s, "\n\n") {
			hd, _, _ := strings.Cut(g, "\n")
			if !strings.Contains(g, "scouter-agent-golang/scouterx") && !strings.Contains(g, "harness/hx.Finishes.func1") {
				continue
			}
			if strings.Contains(g, "harness/hx.Finishes(") {
				continue
			}
			if strings.Contains(hd, "sync.") || strings.Contains(hd, "semacquire") || strings.Contains(hd, "chan ") || strings.Contains(hd, "select") {
				if strings.Contains(g, "harness/") {
					waiting = true
				}
				continue
			}
			if strings.Contains(hd, "sleep") || strings.Contains(hd, "IO wait") {
				continue // the agent's own background loops
			}
			all = false
		}
		if all && waiting {
			blocked++
		} else {
			blocked = 0
		}
		if blocked >= 80 {
			select {
			case <-done:
				return true, ""
			default:
			}
			return false, s
		}
	}
}

// Goid is the number of the calling goroutine.
func Goid() int64 {
	var buf [64]byte
	f := strings.Fields(string(buf[:runtime.Stack(buf[:], false)]))
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n
}
