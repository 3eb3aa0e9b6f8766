package tcp

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/cfg"
	"verif/harness/hx"
	"verif/harness/refwire"
)

// outside are files that are none of the agent's dumps, at every level around its directories.
var outside = []string{"../x.pprof", "../x.log", "../scouter.conf", "../other/x.pprof", "../../x.pprof", "../../x.log",
	"../../../x.pprof", "../../../y.log", "../dump.pprof", "../binary_dump.pprof", "../dumpx/x.pprof", "../binary_dumpx/x.pprof"}

// tree reads every file below root.
func tree(root string) map[string]string {
	m := map[string]string{}
	filepath.WalkDir(root, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			m[p] = "directory"
			return nil
		}
		b, _ := os.ReadFile(p)
		m[p] = "file " + string(b)
		return nil
	})
	return m
}

func differ(before, after map[string]string) string {
	var l []string
	for p, b := range before {
		if a, ok := after[p]; !ok {
			l = append(l, "gone: "+p)
		} else if a != b {
			l = append(l, "changed: "+p)
		}
	}
	for p := range after {
		if _, ok := before[p]; !ok {
			l = append(l, "new: "+p)
		}
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

func plain(n string) bool {
	return n != "" && n != "." && n != ".." && !strings.ContainsAny(n, "/\x00") && len(n) < 256
}

// genName draws a name a collector may ask for in dir.
func genName(rt *rapid.T, dir string, names, foreign []string) string {
	k := rapid.IntRange(0, 17).Draw(rt, "nameKind")
	if k >= 15 && len(foreign) > 0 { // there, but no dump
		return rapid.SampledFrom(foreign).Draw(rt, "foreign")
	}
	if k < 6 && len(names) > 0 {
		return rapid.SampledFrom(names).Draw(rt, "listed")
	}
	out := rapid.SampledFrom(outside).Draw(rt, "outside")
	switch k {
	case 0, 6:
		return rapid.SampledFrom([]string{"", ".", "..", "none.pprof", "none.log", "pprof", "/", "//", "./", "../", "x\x00.pprof", "\\..\\x.pprof", "..pprof", "...pprof", "%2e%2e%2fx.pprof",
			strings.Repeat("l", 300) + ".pprof", "d.pprof", "sub", "../dump", "../binary_dump", "../dump/../x.pprof"}).Draw(rt, "odd")
	case 1, 7:
		return filepath.Join(dir, out) // absolute
	case 2, 8:
		return rapid.SampledFrom([]string{"./", "sub/", "d.pprof/", "nosuch/", "./././", "sub/../"}).Draw(rt, "prefix") + out
	case 3, 9:
		return strings.ReplaceAll(out, "/", "//")
	case 4, 10:
		return "sub/../" + out
	case 5, 11: // the other directory's
		return "../" + rapid.SampledFrom([]string{"dump", "binary_dump"}).Draw(rt, "other") + "/" + rapid.SampledFrom([]string{"a.log", "h.pprof", "y.pprof"}).Draw(rt, "name")
	case 12:
		if len(names) > 0 {
			return "./" + rapid.SampledFrom(names).Draw(rt, "listed")
		}
	case 13:
		if len(names) > 0 {
			return rapid.SampledFrom(names).Draw(rt, "listed") + rapid.SampledFrom([]string{" ", "/", "x", ".pprof", "/../../x.pprof"}).Draw(rt, "suffix")
		}
	}
	return out
}

func TestC24Dumps(t *testing.T) {
	w := newWorld(t)
	hx.Rule("a history of up to 10 dump commands (list, fetch, download, delete) with plain and hostile names while files of generated sizes are added, changed and removed, sometimes while others come and go during the command; non-trivial: at least one file delivered or deleted and one hostile name, or files coming and going")
	scratch := os.Getenv("VERIF_SCRATCH")
	if scratch == "" {
		scratch = t.TempDir()
	}
	root := filepath.Join(scratch, "world")
	agent := filepath.Join(root, "a", "b", "agent")
	os.Setenv("SCOUTER_AGENT_HOME", agent)
	hx.Check(t, 400, 12000, func(rt *rapid.T) {
		os.RemoveAll(root)
		fs := files{}
		if err := os.MkdirAll(agent, 0755); err != nil {
			rt.Fatalf("HARNESS-ERROR %v", err)
		}
		if err := makeFiles(rt, fs); err != nil {
			rt.Fatalf("HARNESS-ERROR %v", err)
		}
		secrets := []string{}
		for i, o := range outside {
			p := filepath.Join(dumpDir(), o)
			s := fmt.Sprintf("secret-%d-%s", i, filepath.Base(p))
			secrets = append(secrets, s)
			os.MkdirAll(filepath.Dir(p), 0755)
			if err := os.WriteFile(p, []byte(s), 0644); err != nil {
				rt.Fatalf("HARNESS-ERROR %v", err)
			}
		}
		inDumps := func(p string) bool {
			return strings.HasPrefix(p, dumpDir()+"/") || strings.HasPrefix(p, binDir()+"/")
		}
		surroundings := func() map[string]string {
			m := tree(root)
			for p := range m {
				if inDumps(p) || p == dumpDir() || p == binDir() {
					delete(m, p)
				}
			}
			return m
		}
		names := func(dir string) []string {
			var l []string
			for p := range fs {
				if filepath.Dir(p) == dir && (dir == dumpDir() || strings.HasSuffix(p, "pprof")) {
					l = append(l, filepath.Base(p))
				}
			}
			sort.Strings(l)
			return l
		}
		subdirs := rapid.Bool().Draw(rt, "subdirs")
		if subdirs {
			for _, d := range []string{filepath.Join(dumpDir(), "sub"), filepath.Join(binDir(), "sub"), filepath.Join(binDir(), "d.pprof")} {
				os.Mkdir(d, 0755)
			}
		}
		around := surroundings()
		cfg.Set(w.conf)
		s, err := w.connect()
		if err != nil {
			rt.Fatalf("%v", err)
		}
		defer s.drop()
		var desc strings.Builder
		fail := func(f string, a ...any) { rt.Fatalf("%s\nafter %s", fmt.Sprintf(f, a...), desc.String()) }
		served, hostile, churned := 0, 0, 0
		for i := rapid.IntRange(1, 10).Draw(rt, "ops"); i > 0; i-- {
			op := rapid.SampledFrom([]string{"list", "listbin", "fetch", "fetch", "download", "download", "delete", "delete", "write", "remove", "nodirs"}).Draw(rt, "op")
			size := rapid.OneOf(rapid.IntRange(0, 1300), rapid.SampledFrom([]int{0, 300, 600, 3000, 4096, 8192, 12288, 65535, 65536, 70001, 300000, 1 << 20, 3<<20 + 1})).Draw(rt, "size")
			ms := rapid.Int64Range(1, 4000000000).Draw(rt, "mtime")*1000 + 7
			var stop func()
			if rapid.IntRange(0, 3).Draw(rt, "churn") == 0 {
				churned++
				desc.WriteString("[files come and go:] ")
				stop = churn()
			} else {
				stop = func() {}
			}
			var dir, name string
			switch op {
			case "fetch":
				dir = dumpDir()
			case "download", "delete":
				dir = binDir()
			}
			if dir != "" {
				var foreign []string
				for p := range fs {
					if filepath.Dir(p) == dir && !slices.Contains(names(dir), filepath.Base(p)) {
						foreign = append(foreign, filepath.Base(p))
					}
				}
				sort.Strings(foreign)
				name = genName(rt, dir, names(dir), foreign)
				fmt.Fprintf(&desc, "%s %.90q; ", op, name)
				if !plain(name) {
					hostile++
				}
			} else {
				fmt.Fprintf(&desc, "%s; ", op)
			}
			hx.Journal(desc.String())
			full := filepath.Join(dir, name)
			content0 := fs[full]
			_, exists := fs[full]
			if strings.HasSuffix(name, "/") || strings.Contains(name, "\x00") {
				exists = false
			}
			suffix := strings.HasSuffix(name, "pprof")
			switch op {
			case "list", "listbin":
				cmd, d := "OBJECT_DUMP_FILE_LIST", dumpDir()
				if op == "listbin" {
					cmd, d = "OBJECT_LIST_HEAP_DUMP", binDir()
				}
				ns := names(d)
				huge := map[string]int64{}
				if rapid.IntRange(0, 3).Draw(rt, "huge") == 0 {
					z := rapid.SampledFrom([]int64{1<<31 - 1, 1 << 31, 1 << 32}).Draw(rt, "hugeSize") + rapid.Int64Range(0, 1<<31).Draw(rt, "more")
					if sparse(filepath.Join(d, "huge.pprof"), z) {
						huge["huge.pprof"] = z
						ns = append(ns, "huge.pprof")
						fmt.Fprintf(&desc, "with a file of %d bytes; ", z)
					}
				}
				m, err := s.askMap(cmd)
				if err == nil {
					err = judgeListingHuge(m, ns, d, fs, huge, true)
				}
				if err == nil && op == "list" {
					err = judgeTimes(m, d, ns)
				}
				os.Remove(filepath.Join(d, "huge.pprof"))
				if err != nil {
					stop()
					fail("%v", err)
				}
			case "fetch", "download":
				cmd, key := "OBJECT_DUMP_FILE_DETAIL", "name"
				if op == "download" {
					cmd, key = "OBJECT_DOWNLOAD_HEAP_DUMP", "fileName"
				}
				rs, err := s.ask(cmd, mapParam(key, name), true)
				if err != nil {
					stop()
					fail("%v", err)
				}
				got := join(rs)
				for _, sec := range secrets {
					if bytes.Contains(got, []byte(sec)) {
						stop()
						fail("a file outside the dump directories is revealed: %s", sec)
					}
				}
				allowed := exists && (op == "fetch" || suffix)
				if allowed && plain(name) {
					served++
				}
				switch {
				case allowed && bytes.Equal(got, content0):
				case len(got) == 0 && !(allowed && plain(name)):
				default:
					stop()
					fail("%q of %d bytes (exists: %v) comes as %d other bytes", name, len(content0), exists, len(got))
				}
			case "delete":
				m, err := s.askMap("OBJECT_DELETE_HEAP_DUMP", "delfileName", name)
				stop()
				if err != nil {
					fail("%v", err)
				}
				ok := truthy(m["success"])
				_, serr := os.Stat(full)
				switch {
				case exists && suffix && plain(name):
					if !ok {
						fail("deleting %q is refused: %v", name, m)
					}
					if serr == nil {
						fail("%q is still there after its deletion", name)
					}
					served++
					delete(fs, full)
				case exists && suffix && inDumps(full):
					if ok != (serr != nil) {
						fail("deleting %q: success %v, yet it is there: %v", name, ok, serr == nil)
					}
					if ok {
						delete(fs, full)
					}
				case !exists && inDumps(full) && plain(name) && subdirs && (name == "d.pprof"):
					// an empty directory there may go
				default:
					if ok {
						fail("deleting %q (exists: %v) reports success", name, exists)
					}
				}
			case "write":
				p := filepath.Join(dumpDir(), "a.log")
				if size%2 == 1 {
					p = filepath.Join(binDir(), "h.pprof")
				}
				os.MkdirAll(filepath.Dir(p), 0755)
				fs[p] = content(i, size)
				if err := os.WriteFile(p, fs[p], 0644); err != nil {
					rt.Fatalf("HARNESS-ERROR %v", err)
				}
				at := time.UnixMilli(ms)
				os.Chtimes(p, at, at)
			case "remove":
				for _, d := range []string{dumpDir(), binDir()} {
					if l := names(d); len(l) > 0 {
						p := filepath.Join(d, l[i%len(l)])
						os.Remove(p)
						delete(fs, p)
					}
				}
			case "nodirs":
				stop()
				stop = func() {}
				os.RemoveAll(dumpDir())
				os.RemoveAll(binDir())
				for p := range fs {
					delete(fs, p)
				}
			}
			stop()
			if d := differ(around, surroundings()); d != "" {
				fail("outside the dump directories: %s", d)
			}
			for p, b := range fs {
				got, err := os.ReadFile(p)
				if err != nil || !bytes.Equal(got, b) {
					fail("the dump file %s is no more what it was: %v", p, err)
				}
			}
		}
		if err := s.close(); err != nil {
			fail("%v", err)
		}
		hx.Case(desc.String(), served > 0 && hostile > 0 || churned > 0)
	})
}

// sparse makes a file of z bytes which takes no space, if the file system and the directory allow it.
func sparse(p string, z int64) bool {
	f, err := os.Create(p)
	if err != nil {
		return false
	}
	defer f.Close()
	if f.Truncate(z) != nil {
		os.Remove(p)
		return false
	}
	return true
}

// judgeTimes compares the times of a listing.
func judgeTimes(m map[string]refwire.V, dir string, names []string) error {
	ns, err := list(m["name"])
	if err != nil {
		return err
	}
	ts, err := list(m["last_modified"])
	if err != nil {
		return err
	}
	if len(ts) != len(ns) {
		return fmt.Errorf("%d names and %d times", len(ns), len(ts))
	}
	for i, n := range ns {
		if !contains(names, n) {
			continue
		}
		fi, err := os.Stat(filepath.Join(dir, n))
		if err != nil {
			return fmt.Errorf("HARNESS-ERROR %v", err)
		}
		if want := fmt.Sprint(fi.ModTime().UnixMilli()); ts[i] != want {
			return fmt.Errorf("%s is listed as of %s, it is of %s", n, ts[i], want)
		}
	}
	return nil
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// churn creates and removes files in both directories until it is stopped; none remains.
func churn() func() {
	done := make(chan struct{})
	var wg sync.WaitGroup
	for _, d := range []string{dumpDir(), binDir()} {
		wg.Add(1)
		go func(d string) {
			defer wg.Done()
			var l [12]string
			for i := range l {
				l[i] = filepath.Join(d, fmt.Sprintf("go_%d.pprof", i))
			}
			defer func() {
				for _, p := range l {
					os.Remove(p)
				}
			}()
			for i := 0; ; i++ {
				select {
				case <-done:
					return
				default:
				}
				if p := l[i%len(l)]; i/len(l)%2 == 0 {
					os.WriteFile(p, nil, 0644)
				} else {
					os.Remove(p)
				}
			}
		}(d)
	}
	var once sync.Once
	return func() { once.Do(func() { close(done); wg.Wait() }) }
}

// TestC24Large serves files as large as dumps and profiles of large processes get.
func TestC24Large(t *testing.T) {
	hx.Rule("one to three dump files of 5 to 72 MB (binary ones to 40 MB), listed and delivered over one connection; non-trivial: every case")
	scratch := os.Getenv("VERIF_SCRATCH")
	if scratch == "" {
		scratch = t.TempDir()
	}
	agent := filepath.Join(scratch, "large")
	os.Setenv("SCOUTER_AGENT_HOME", agent)
	hx.Check(t, 3, 40, func(rt *rapid.T) {
		os.RemoveAll(agent)
		desc := ""
		type large struct {
			bin  bool
			name string
			b    []byte
		}
		var l []large
		for i := rapid.IntRange(1, 3).Draw(rt, "files"); i > 0; i-- {
			f := large{bin: rapid.Bool().Draw(rt, "binary")}
			base := rapid.SampledFrom([]int{5, 8, 16, 17, 32, 33, 40, 64, 65, 71}).Draw(rt, "mb")
			if f.bin {
				base = min(base, 39)
			}
			size := base<<20 + rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 1<<20)).Draw(rt, "more")
			f.name = fmt.Sprintf("large%d.log", i)
			if f.bin {
				f.name = fmt.Sprintf("large%d.pprof", i)
			}
			f.b = content(i+size, size)
			l = append(l, f)
			desc += fmt.Sprintf("%s %d; ", f.name, size)
		}
		hx.Journal(desc)
		w := newWorld(t)
		defer w.udp.Close()
		defer w.ln.Close()
		for _, f := range l {
			d := dumpDir()
			if f.bin {
				d = binDir()
			}
			os.MkdirAll(d, 0755)
			if err := os.WriteFile(filepath.Join(d, f.name), f.b, 0644); err != nil {
				rt.Fatalf("HARNESS-ERROR %v", err)
			}
		}
		s, err := w.connect()
		if err != nil {
			rt.Fatalf("%v\n%s", err, desc)
		}
		for _, f := range l {
			cmd, key := "OBJECT_DUMP_FILE_DETAIL", "name"
			if f.bin {
				cmd, key = "OBJECT_DOWNLOAD_HEAP_DUMP", "fileName"
			}
			rs, err := s.ask(cmd, mapParam(key, f.name), true)
			if err != nil {
				s.drop()
				rt.Fatalf("%s of %d bytes: %v\n%s", f.name, len(f.b), err, desc)
			}
			if got := join(rs); !bytes.Equal(got, f.b) {
				s.drop()
				rt.Fatalf("%s of %d bytes comes as %d other bytes\n%s", f.name, len(f.b), len(got), desc)
			}
		}
		if err := s.close(); err != nil {
			rt.Fatalf("%v\n%s", err, desc)
		}
		os.RemoveAll(agent)
		hx.Case(desc, true)
	})
}
