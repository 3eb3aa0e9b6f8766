package tcp

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/dump"
	"pgregory.net/rapid"
	"verif/harness/cfg"
	"verif/harness/hx"
)

var (
	headLine  = regexp.MustCompile(`^goroutine (\d+) (gp=\S+ m=\S+ (mp=\S+ )?)?\[.*\]:$`)
	placeLine = regexp.MustCompile(`^\t.+:\d+( \+0x[0-9a-f]+)?$`)
)

// parseDump splits a dump into the stacks by goroutine and insists that each is complete.
func parseDump(text string) (map[int][]string, error) {
	m := map[int][]string{}
	if !strings.HasSuffix(text, "\n") {
		return nil, fmt.Errorf("the dump of %d bytes ends in %q", len(text), text[max(0, len(text)-40):])
	}
	for _, blk := range strings.Split(strings.TrimRight(text, "\n"), "\n\n") {
		ls := strings.Split(strings.Trim(blk, "\n"), "\n")
		h := headLine.FindStringSubmatch(ls[0])
		if h == nil {
			return nil, fmt.Errorf("a stack begins with %q", ls[0])
		}
		id, _ := strconv.Atoi(h[1])
		if _, dup := m[id]; dup {
			return nil, fmt.Errorf("goroutine %d appears twice", id)
		}
		if len(ls) < 3 || len(ls)%2 != 1 {
			return nil, fmt.Errorf("the stack of goroutine %d is cut off: %q", id, ls[len(ls)-1])
		}
		for i := 1; i < len(ls); i += 2 {
			if strings.HasPrefix(ls[i], "\t") || !placeLine.MatchString(ls[i+1]) {
				return nil, fmt.Errorf("the stack of goroutine %d is damaged at %q %q", id, ls[i], ls[i+1])
			}
		}
		m[id] = ls
	}
	return m, nil
}

// judgeDump compares a dump with the goroutines that waited while it was made.
func judgeDump(text string, depth map[int]int, released []int, total int) error {
	m, err := parseDump(text)
	if err != nil {
		return err
	}
	for id, d := range depth {
		ls, ok := m[id]
		if !ok {
			return fmt.Errorf("goroutine %d is missing (%d of %d are there)", id, len(m), len(depth))
		}
		n := 0
		for _, l := range ls {
			if strings.Contains(l, "tcp.waitHere(") {
				n++
			}
		}
		if n != d+1 {
			return fmt.Errorf("the stack of goroutine %d has %d calls of %d", id, n, d+1)
		}
		if !strings.HasPrefix(ls[len(ls)-2], "created by ") {
			return fmt.Errorf("the stack of goroutine %d ends in %q", id, ls[len(ls)-2])
		}
	}
	for _, id := range released {
		if _, ok := m[id]; ok {
			return fmt.Errorf("goroutine %d, which had ended, is there", id)
		}
	}
	if total > 0 && len(m) != total {
		return fmt.Errorf("%d goroutines are there, the process had %d", len(m), total)
	}
	return nil
}

func genDepths(rt *rapid.T, most int) []int {
	n := rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(0, most), rapid.SampledFrom([]int{0, 1, most})).Draw(rt, "goroutines")
	deep := rapid.SampledFrom([]int{0, 1, 5, 20, 40}).Draw(rt, "depth")
	ds := make([]int, n)
	for i := range ds {
		ds[i] = i % (deep + 1)
	}
	return ds
}

func TestC25Small(t *testing.T) {
	hx.Rule("a process of its own with a generated number of waiting goroutines at generated depths dumps up to 3 times, the crowd changing in between, sometimes with a limit on the file's size; non-trivial: at least one dump of the case was named and judged")
	exe, err := os.Executable()
	if err != nil {
		t.Fatalf("HARNESS-ERROR %v", err)
	}
	os.MkdirAll(home(), 0755)
	hx.Check(t, 90, 2500, func(rt *rapid.T) {
		var p hostPlan
		for i := rapid.IntRange(1, 3).Draw(rt, "rounds"); i > 0; i-- {
			p.Rounds = append(p.Rounds, genDepths(rt, 150))
			var l int64
			if rapid.IntRange(0, 3).Draw(rt, "limited") == 0 {
				l = rapid.OneOf(rapid.Int64Range(1, 12000), rapid.Int64Range(1, 300000), rapid.SampledFrom([]int64{4096, 8192})).Draw(rt, "limit")
			}
			p.Limit = append(p.Limit, l)
		}
		d, err := os.MkdirTemp(home(), "host")
		if err != nil {
			rt.Fatalf("HARNESS-ERROR %v", err)
		}
		defer os.RemoveAll(d)
		in, _ := json.Marshal(p)
		hx.Journal(string(in))
		r, w, err := os.Pipe()
		if err != nil {
			rt.Fatalf("HARNESS-ERROR %v", err)
		}
		var errs bytes.Buffer
		cmd := exec.Command(exe, "dumphost")
		cmd.Env = append(os.Environ(), "SCOUTER_AGENT_HOME="+d)
		cmd.Stdin, cmd.Stdout, cmd.Stderr, cmd.ExtraFiles = bytes.NewReader(in), &errs, &errs, []*os.File{w}
		if err := cmd.Start(); err != nil {
			rt.Fatalf("HARNESS-ERROR %v", err)
		}
		w.Close()
		kill := time.AfterFunc(2*patience, func() { cmd.Process.Kill() })
		b, _ := io.ReadAll(r)
		r.Close()
		err = cmd.Wait()
		kill.Stop()
		var rs []hostRound
		if err != nil || json.Unmarshal(b, &rs) != nil || len(rs) != len(p.Rounds) {
			rt.Fatalf("the process ended with %v:\n%s", err, errs.String())
		}
		judged := 0
		key := ""
		for i, r := range rs {
			key += fmt.Sprintf("%d goroutines, limit %d, %d bytes; ", len(p.Rounds[i]), p.Limit[i], len(r.Text))
			if r.Err != "" {
				rt.Fatalf("dump %d: %s", i+1, r.Err)
			}
			if r.Name == "" {
				if p.Limit[i] > 0 {
					hx.Label("not written, not named")
					continue
				}
				rt.Fatalf("dump %d is not named", i+1)
			}
			if filepath.Dir(r.Name) != filepath.Join(d, "dump") {
				rt.Fatalf("dump %d is %s", i+1, r.Name)
			}
			if err := judgeDump(r.Text, r.Depth, r.Released, r.Number); err != nil {
				rt.Fatalf("dump %d of %d goroutines (limit %d): %v", i+1, r.Number, p.Limit[i], err)
			}
			judged++
			if len(r.Text) < 4096 {
				hx.Label("dump below 4 kB")
			}
		}
		hx.Case(key, judged > 0)
	})
}

func TestC25Dump(t *testing.T) {
	w := newWorld(t)
	hx.Rule("a process with up to thousands of waiting goroutines is asked for dumps over the command connection and directly, and sometimes cannot write them; each named file is judged, and as it is listed and delivered; non-trivial: at least 2 dumps")
	hx.Check(t, 40, 700, func(rt *rapid.T) {
		os.RemoveAll(dumpDir())
		cfg.Set(w.conf)
		s, err := w.connect()
		if err != nil {
			rt.Fatalf("%v", err)
		}
		defer s.drop()
		key, judged := "", 0
		var gone []int
		for i := rapid.IntRange(1, 3).Draw(rt, "rounds"); i > 0; i-- {
			ds := genDepths(rt, hx.Pick(4000, 12000))
			if rapid.IntRange(0, 79).Draw(rt, "huge") == 77 {
				// about 40 MB
				ds = make([]int, 9000)
				for i := range ds {
					ds[i] = i % 81
				}
				hx.Label("dump of tens of megabytes")
			}
			direct := rapid.Bool().Draw(rt, "direct")
			blocked := rapid.IntRange(0, 7).Draw(rt, "blocked") == 0
			key += fmt.Sprintf("%d goroutines, direct %v, blocked %v; ", len(ds), direct, blocked)
			hx.Journal(key)
			if blocked {
				os.RemoveAll(dumpDir())
				os.WriteFile(dumpDir(), nil, 0644)
			}
			c := gather(ds)
			var name string
			if direct {
				if p, ok := dump.HeavyAllStackTrace().(*netdata.MapPack); ok {
					name = p.GetString("name")
				} else {
					err = errors.New("no pack")
				}
			} else {
				m, e := s.askMap("TRIGGER_THREAD_DUMP")
				name, err = m["name"].S, e
			}
			c.dissolve()
			if err != nil {
				rt.Fatalf("%v\n%s", err, key)
			}
			if blocked {
				os.Remove(dumpDir())
				if name != "" {
					rt.Fatalf("a dump that cannot be written is named %s\n%s", name, key)
				}
				continue
			}
			if filepath.Dir(name) != dumpDir() {
				rt.Fatalf("the dump is named %q\n%s", name, key)
			}
			b, err := os.ReadFile(name)
			if err == nil {
				err = judgeDump(string(b), c.depth, gone, 0)
			}
			if err != nil {
				rt.Fatalf("%v\n%s", err, key)
			}
			judged++
			rs, err := s.ask("OBJECT_DUMP_FILE_DETAIL", mapParam("name", filepath.Base(name)), true)
			if err == nil && !bytes.Equal(join(rs), b) {
				err = errors.New("the dump is delivered otherwise")
			}
			if err != nil {
				rt.Fatalf("%v\n%s", err, key)
			}
			for id := range c.depth {
				gone = append(gone, id)
			}
		}
		if err := s.close(); err != nil {
			rt.Fatalf("%v\n%s", err, key)
		}
		hx.Case(key, judged > 1)
	})
}

// ---- the stack trace text

type traced struct {
	n      int
	text   string
	frames []runtime.Frame
}

//go:noinline
func stLeaf(x *traced) int {
	pc := make([]uintptr, 1000)
	pc = pc[:runtime.Callers(1, pc)]
	x.text = dump.StackTrace(x.n)
	fs := runtime.CallersFrames(pc)
	for {
		f, more := fs.Next()
		x.frames = append(x.frames, f)
		if !more {
			return 0
		}
	}
}

type stChain struct{ x *traced }

//go:noinline
func stA(seq []int, x *traced) int {
	r := stNext(seq, x)
	return r + 1
}

//go:noinline
func stB(seq []int, x *traced) int {
	if len(seq)%2 == 0 {
		r := stNext(seq, x)
		return r + 2
	}
	r := stNext(seq, x)
	return r + 3
}

//go:noinline
func (c stChain) method(seq []int) int {
	r := stNext(seq, c.x)
	return r + 4
}

//go:noinline
func stNext(seq []int, x *traced) int {
	if len(seq) == 0 {
		r := stLeaf(x)
		return r + 5
	}
	switch seq[0] {
	case 0:
		r := stA(seq[1:], x)
		return r + 6
	case 1:
		r := stB(seq[1:], x)
		return r + 7
	case 2:
		r := stChain{x}.method(seq[1:])
		return r + 8
	}
	f := func() int {
		r := stNext(seq[1:], x)
		return r + 9
	}
	return f()
}

var stLine = regexp.MustCompile(`^(\S+) (\S+):(\d+)$`)

func TestC25Trace(t *testing.T) {
	hx.Rule("the stack trace text of a generated length under a generated chain of calls, against the runtime's own frames; non-trivial: a chain of at least 3 calls and at least 3 lines")
	hx.Check(t, 3000, 100000, func(rt *rapid.T) {
		seq := rapid.SliceOfN(rapid.IntRange(0, 2), 0, rapid.SampledFrom([]int{3, 20, 100}).Draw(rt, "most")).Draw(rt, "chain")
		x := &traced{n: rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(0, 300)).Draw(rt, "count")}
		stNext(seq, x)
		var ls []string
		if x.text != "" {
			ls = strings.Split(x.text, "\n")
		}
		own := 2 + 2*len(seq) // calls of the chain, which are never inlined
		for i, f := range x.frames[:own] {
			if !strings.HasPrefix(f.Function, "verif/harness/tcp.") {
				rt.Fatalf("HARNESS-ERROR frame %d of %d is %s", i, own, f.Function)
			}
		}
		// the text may begin with the functions that make it
		skip, itself := 0, 0
		for skip < len(ls) && !strings.HasPrefix(ls[skip], "verif/harness/tcp.") {
			if !strings.Contains(ls[skip], "/scouterx/") {
				rt.Fatalf("line %d is %q\n%s", skip+1, ls[skip], x.text)
			}
			if strings.Contains(ls[skip], "scouterx/dump.StackTrace ") {
				itself++
			}
			skip++
		}
		if itself > 1 || skip > 3 {
			rt.Fatalf("StackTrace is there %d times\n%s", skip, x.text)
		}
		want := min(max(x.n, 1), len(x.frames)+1)
		if len(ls) < want-1 || len(ls) > min(max(x.n, 1), len(x.frames)+max(skip, 1)) {
			rt.Fatalf("%d lines where %d of %d are asked for\n%s", len(ls), x.n, len(x.frames), x.text)
		}
		for i, l := range ls[skip:] {
			f := x.frames[i]
			m := stLine.FindStringSubmatch(l)
			if i >= own {
				if i < len(x.frames) && m == nil && !strings.Contains(l, " ") {
					rt.Fatalf("line %d is %q", i+1, l)
				}
				continue
			}
			if m == nil {
				rt.Fatalf("line %d is %q", i+1, l)
			}
			n, _ := strconv.Atoi(m[3])
			if m[1] != f.Function || m[2] != filepath.Base(f.File) || n < f.Line || n > f.Line+2 {
				rt.Fatalf("line %d is %q, the call is %s %s:%d\n%s", i+1, l, f.Function, filepath.Base(f.File), f.Line, x.text)
			}
		}
		hx.Case(fmt.Sprint(seq, x.n), len(seq) > 0 && len(ls) > 2)
	})
}
