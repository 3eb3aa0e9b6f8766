// Package foot measures what a process holds: descriptors, goroutines of the agent, heap.
package foot

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
)

const frames = "scouter-agent-golang/scouterx"

// Files lists the process's descriptors: what each is, with how many there are. Sockets and pipes are counted
// by kind only.
func Files() map[string]int {
	m := map[string]int{}
	ds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	for _, d := range ds {
		l, err := os.Readlink("/proc/self/fd/" + d.Name())
		if err != nil {
			continue // the directory itself
		}
		if i := strings.Index(l, ":["); i > 0 {
			l = l[:i]
		}
		if strings.HasSuffix(l, "/fd") {
			continue
		}
		m[l]++
	}
	return m
}

// Goroutines counts the goroutines which the agent started or which run in it, by the function they began in.
func Goroutines() map[string]int {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	m := map[string]int{}
	for _, g := range strings.Split(string(buf), "\n\n") {
		i := strings.LastIndex(g, "created by ")
		if i < 0 || !strings.Contains(g[i:], frames) {
			continue
		}
		l := strings.Fields(g[i+len("created by "):])[0]
		m[l[strings.LastIndex(l, "/")+1:]]++
	}
	return m
}

// Heap is what is reachable.
func Heap() int64 {
	var ms runtime.MemStats
	for range 3 { // two empty the pools
		runtime.GC()
	}
	runtime.ReadMemStats(&ms)
	return int64(ms.HeapAlloc)
}

// More lists what there is more of than before.
func More(before, after map[string]int) string {
	var l []string
	for k, n := range after {
		if n > before[k] {
			l = append(l, fmt.Sprintf("%d of %s (%d before)", n, k, before[k]))
		}
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}
