package confset

import (
	"fmt"
	"hash/crc32"
	"os"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
	"pgregory.net/rapid"
	"verif/harness/bubble"
	"verif/harness/hx"
	"verif/harness/settings"
)

func TestMain(m *testing.M) { hx.Main(m) }

type world struct {
	file    string // "" missing
	malf    bool
	mtime   time.Time
	present bool
}

// A listener notes what it sees of the agent when it is told.
type runner struct {
	mu   sync.Mutex
	n    int
	see  func() string
	seen string
}

func (r *runner) Run() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.n++
	r.seen = r.see()
}
func (r *runner) take() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := r.n
	r.n = 0
	return n
}

var (
	obs1, obs2, objObs runner
	setup              sync.Once
	clock              = time.Now().Add(24 * time.Hour).Truncate(time.Second)
	lastLoaded         time.Time
)

func objHash(s string) string { return fmt.Sprint(int32(crc32.ChecksumIEEE([]byte(s)))) }

func TestC20Settings(t *testing.T) {
	hx.Rule("history of environment changes and file states (new, older, same time, malformed, missing, unreadable) with reloads; every setting, name, hash and listener call compared with a model; non-trivial: a reload with values from both file and environment, and a changed setting")
	path := os.Getenv("SCOUTER_CONFIG")
	host, err := os.Hostname()
	if err != nil {
		host = "unknown"
	}
	// The agent's own periodic reload runs on a clock that only moves while the test waits for it.
	clk := bubble.New(t)
	var c *conf.Configure
	if err := clk.Run(func() { c = conf.GetInstance() }); err != nil {
		t.Fatal(err)
	}
	name := func() string { return fmt.Sprintf("name %q, hash %d", c.ObjName, c.ObjHash) }
	all := func() string {
		var sb strings.Builder
		for _, s := range settings.All {
			fmt.Fprintf(&sb, "%s=%q ", s.Key, s.Got(c))
		}
		return sb.String() + name()
	}
	setup.Do(func() {
		obs1.see, obs2.see, objObs.see = all, all, name
		conf.AddToConfObserver("verif1", &obs1)
		conf.AddToConfObserver("verif2", &obs2)
		conf.AddObjChangedObserver(&objObs)
	})
	hx.Check(t, 800, 15000, func(rt *rapid.T) {
		// a clean start
		for _, s := range settings.All {
			os.Unsetenv(s.Key)
		}
		clock = clock.Add(time.Second)
		settings.Place(rt, path, "# nothing\n", clock)
		c.Refresh()
		lastLoaded = clock
		cur := map[string]string{}
		for _, s := range settings.All {
			cur[s.Key] = s.Def
		}
		env, file := map[string]string{}, map[string]string{}
		fileState := "empty"
		var trace []string
		nontriv := false
		check := func(what string, reloads, names int, exact bool) {
			for _, s := range settings.All {
				if g := s.Got(c); g != cur[s.Key] {
					rt.Fatalf("%s: %s is %q, should be %q\n%s", what, s.Key, g, cur[s.Key], strings.Join(trace, "\n"))
				}
			}
			name := "/" + host + "/" + cur["obj_name"]
			if c.ObjName != name || fmt.Sprint(c.ObjHash) != objHash(name) {
				rt.Fatalf("%s: agent name %q hash %d, should be %q %s\n%s", what, c.ObjName, c.ObjHash, name, objHash(name), strings.Join(trace, "\n"))
			}
			a, b, o := obs1.take(), obs2.take(), objObs.take()
			if exact && (a != reloads || b != reloads) || a < reloads || b < reloads {
				rt.Fatalf("%s: %d reloads, listeners told %d and %d times\n%s", what, reloads, a, b, strings.Join(trace, "\n"))
			}
			for _, r := range []*runner{&obs1, &obs2, &objObs} {
				r.mu.Lock()
				see, seen := r.see(), r.seen
				r.seen = ""
				r.mu.Unlock()
				if seen != "" && seen != see {
					rt.Fatalf("%s: a listener was told while the agent's settings were\n%s\nand they are now\n%s\n%s", what, seen, see, strings.Join(trace, "\n"))
				}
			}
			if o != names {
				rt.Fatalf("%s: the name changed %d times, listener told %d times\n%s", what, names, o, strings.Join(trace, "\n"))
			}
		}
		load := func() int { // the model's reload; returns name changes
			old := cur["obj_name"]
			fromF, fromE, diff := 0, 0, 0
			for _, s := range settings.All {
				raw := env[s.Key]
				if raw != "" {
					fromE++
				}
				if f := file[s.Key]; f != "" {
					raw = f
					fromF++
				}
				w := s.Want(raw)
				if w != cur[s.Key] {
					diff++
				}
				cur[s.Key] = w
			}
			if fromF > 0 && fromE > 0 && diff > 0 {
				nontriv = true
			}
			if cur["obj_name"] != old {
				return 1
			}
			return 0
		}
		obs1.take()
		obs2.take()
		objObs.take()
		check("clean start", 0, 0, true)
		n := rapid.IntRange(1, 6).Draw(rt, "steps")
		for i := 0; i < n; i++ {
			pick := rapid.SliceOfNDistinct(rapid.SampledFrom(settings.All), 0, 12, func(s settings.Setting) string { return s.Key })
			// environment
			for _, s := range pick.Draw(rt, "envkeys") {
				v := settings.GenValue(rt, s)
				v = strings.ReplaceAll(v, "\x00", "")
				env[s.Key] = v
				os.Setenv(s.Key, v)
				trace = append(trace, fmt.Sprintf("env %s=%q", s.Key, v))
			}
			if fileState == "missing" {
				// a missing file is reloaded every time
				c.Refresh()
				nm := load()
				check("environment change without a file", 1, nm, true)
			}
			switch k := rapid.IntRange(0, 11).Draw(rt, "file"); {
			case k <= 6 || k == 7 && fileState == "missing": // new content, newer, older or same age
				var lines []string
				next := map[string]string{}
				for _, s := range pick.Draw(rt, "filekeys") {
					if rapid.IntRange(0, 5).Draw(rt, "noise") == 0 {
						lines = append(lines, rapid.SampledFrom([]string{"# comment = x", "! bang", "", "   ", "unrelated_key=zzz", "#obj_name=commented"}).Draw(rt, "comment"))
					}
					if rapid.IntRange(0, 9).Draw(rt, "dup") == 0 {
						lines = append(lines, settings.Line(rt, s.Key, settings.GenValue(rt, s)))
					}
					v := settings.GenValue(rt, s)
					next[s.Key] = v
					lines = append(lines, settings.Line(rt, s.Key, v))
				}
				text := strings.Join(lines, "\n")
				if rapid.Bool().Draw(rt, "eol") {
					text += "\n"
				}
				age := rapid.SampledFrom([]string{"newer", "newer", "newer", "older", "same"}).Draw(rt, "age")
				mt := lastLoaded
				switch age {
				case "newer":
					clock = clock.Add(time.Duration(rapid.SampledFrom([]int{1, 1000, 1000000}).Draw(rt, "dt")) * time.Microsecond)
					if !clock.After(lastLoaded) {
						clock = lastLoaded.Add(time.Microsecond)
					}
					mt = clock
				case "older":
					mt = lastLoaded.Add(-time.Duration(rapid.IntRange(1, 1000000).Draw(rt, "dt")) * time.Microsecond)
				}
				settings.Place(rt, path, text, mt)
				fileState = "present"
				trace = append(trace, fmt.Sprintf("file(%s) %q", age, text))
				if rapid.IntRange(0, 3).Draw(rt, "unasked") == 0 {
					trace = append(trace, "waiting for the periodic reload")
					clk.Run(func() { time.Sleep(30 * time.Second); synctest.Wait() })
				} else {
					c.Refresh()
				}
				if age == "newer" {
					file = next
					lastLoaded = mt
					check("reload", 1, load(), true)
				} else {
					check("no reload of a file not newer", 0, 0, true)
				}
				c.Refresh()
				check("no second reload", 0, 0, true)
			case k <= 8: // malformed
				bad := rapid.SampledFrom([]string{"obj_name=${abc\n", "obj_name=${obj_name}\n", "a=${b}\nb=${a}\nobj_name=zz\n", "=novalue\nobj_name=x\n", "obj_name=x\\u12g4\n", "obj_name=qq\nudp_max_bytes=5\\", ":\n"}).Draw(rt, "bad")
				clock = clock.Add(time.Second)
				settings.Place(rt, path, bad, clock)
				fileState = "malformed"
				trace = append(trace, fmt.Sprintf("malformed file %q", bad))
				c.Refresh()
				check("malformed file", 0, 0, true)
			case k == 9: // a directory in its place
				clock = clock.Add(time.Second)
				os.Remove(path)
				os.Mkdir(path, 0755)
				os.Chtimes(path, clock, clock)
				trace = append(trace, "unreadable file")
				c.Refresh()
				check("unreadable file", 0, 0, true)
				os.Remove(path)
				fileState = "missing"
				c.Refresh()
				file = map[string]string{}
				trace = append(trace, "file removed")
				check("missing file", 1, load(), true)
			default:
				os.Remove(path)
				fileState = "missing"
				trace = append(trace, "file removed")
				c.Refresh()
				file = map[string]string{}
				check("missing file", 1, load(), true)
			}
		}
		hx.Case(strings.Join(trace, "; "), nontriv)
	})
}
