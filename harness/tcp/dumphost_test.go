package tcp

import (
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/dump"
)

// crowd is a set of goroutines that wait, each at a chosen depth of calls.
type crowd struct {
	release chan struct{}
	wg      sync.WaitGroup
	ready   sync.WaitGroup // all are at their depth
	mu      sync.Mutex
	depth   map[int]int // goroutine id -> depth
	before  int         // goroutines there were before it
}

func goid() int {
	var b [64]byte
	f := strings.Fields(string(b[:runtime.Stack(b[:], false)]))
	n, _ := strconv.Atoi(f[1])
	return n
}

//go:noinline
func waitHere(c *crowd, depth int) int {
	if depth > 0 {
		n := waitHere(c, depth-1)
		return n + 1
	}
	c.ready.Done()
	<-c.release
	return 0
}

func gather(depths []int) *crowd {
	c := &crowd{release: make(chan struct{}), depth: map[int]int{}, before: runtime.NumGoroutine()}
	for _, d := range depths {
		c.wg.Add(1)
		c.ready.Add(1)
		go func() {
			defer c.wg.Done()
			id := goid()
			c.mu.Lock()
			c.depth[id] = d
			c.mu.Unlock()
			waitHere(c, d)
		}()
	}
	c.ready.Wait()
	return c
}

func (c *crowd) dissolve() {
	close(c.release)
	c.wg.Wait()
	// they have still to return, which a loaded machine may put off
	for i := 0; i < 200 && runtime.NumGoroutine() > c.before; i++ {
		time.Sleep(time.Duration(1+i/10) * 100 * time.Microsecond)
	}
}

// A host plan: rounds of crowds, each dumped once.
type hostPlan struct {
	Rounds [][]int
	Limit  []int64 // limit of a file's size during a round; 0: none
}

type hostRound struct {
	Name     string
	Text     string
	Err      string
	Depth    map[int]int
	Number   int
	Released []int
}

// dumpHost is a small process that dumps its goroutines.
func dumpHost() {
	var p hostPlan
	if err := json.NewDecoder(os.Stdin).Decode(&p); err != nil {
		fmt.Println("HARNESS-ERROR", err)
		os.Exit(3)
	}
	signal.Ignore(syscall.SIGXFSZ)
	var out []hostRound
	var gone []int
	for i, ds := range p.Rounds {
		c := gather(ds)
		var old syscall.Rlimit
		syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
		settle()
		r := hostRound{Depth: c.depth, Number: runtime.NumGoroutine(), Released: gone}
		if p.Limit[i] > 0 {
			syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(p.Limit[i]), Max: old.Max})
		}
		pack, _ := dump.HeavyAllStackTrace().(*netdata.MapPack)
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
		if pack == nil {
			r.Err = "no pack"
		} else if r.Name = pack.GetString("name"); r.Name != "" {
			b, err := os.ReadFile(r.Name)
			if r.Text = string(b); err != nil {
				r.Err = err.Error()
			}
		}
		out = append(out, r)
		for id := range c.depth {
			gone = append(gone, id)
		}
		c.dissolve()
	}
	json.NewEncoder(os.NewFile(3, "result")).Encode(out)
}

// settle waits until goroutines that were told to end have ended.
func settle() {
	n := runtime.NumGoroutine()
	for i := 0; i < 50; i++ {
		time.Sleep(200 * time.Microsecond)
		m := runtime.NumGoroutine()
		if m == n && i > 2 {
			return
		}
		n = m
	}
}
