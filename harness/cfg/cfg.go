// Package cfg writes the agent's configuration file and has the agent read it.
package cfg

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
)

var (
	mu    sync.Mutex
	mtime = time.Now().Add(48 * time.Hour)
)

func esc(v string) string {
	v = strings.ReplaceAll(v, `\`, `\\`)
	if strings.HasPrefix(v, " ") {
		v = `\` + v
	}
	return v
}

// Set makes the file hold exactly the given settings and applies it. The agent's own refresher may apply it
// a moment earlier: the file appears atomically, so both see the same.
func Set(m map[string]string) {
	mu.Lock()
	defer mu.Unlock()
	path := os.Getenv("SCOUTER_CONFIG")
	if path == "" {
		panic("HARNESS-ERROR SCOUTER_CONFIG is not set")
	}
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b strings.Builder
	for _, k := range keys {
		fmt.Fprintf(&b, "%s=%s\n", k, esc(m[k]))
	}
	mtime = mtime.Add(2 * time.Second)
	if err := os.WriteFile(path+".new", []byte(b.String()), 0644); err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	os.Chtimes(path+".new", mtime, mtime)
	if err := os.Rename(path+".new", path); err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	conf.GetInstance().Refresh()
}
