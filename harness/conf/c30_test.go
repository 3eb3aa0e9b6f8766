package conf

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/logger"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/dump"
	"pgregory.net/rapid"
	"verif/harness/hx"
	"verif/harness/settings"
)

// placed is what the child is to do, and report is what it tells of it.
type placed struct {
	Acts []string
	Save string
}

type report struct {
	Settings map[string]string // at the start
	Text     string            // of the configuration, as the agent gives it
	Saved    bool
	Text2    string
	After    map[string]string // once saved and loaded again
	Dump     string            // named by the agent
	Dumps    []string
	Binaries []string
	Fetched  string
}

func listed(p netdata.Pack) (l []string) {
	lv, ok := p.(*netdata.MapPack).Table["name"].(*netdata.ListValue)
	if !ok {
		return nil
	}
	for i := 0; i < lv.Size(); i++ {
		l = append(l, lv.GetString(i))
	}
	sort.Strings(l)
	return l
}

func values() map[string]string {
	m := map[string]string{}
	c := conf.GetInstance()
	for _, s := range settings.All {
		m[s.Key] = s.Got(c)
	}
	return m
}

// TestC30Child is the host application.
func TestC30Child(t *testing.T) {
	pf := os.Getenv("VERIF_PLAN")
	if pf == "" {
		t.Skip()
	}
	var p placed
	b, err := os.ReadFile(pf)
	if err != nil || json.Unmarshal(b, &p) != nil {
		t.Fatalf("HARNESS-ERROR %v", err)
	}
	var r report
	conf.GetInstance()
	r.Settings = values()
	r.Text = conf.LoadConfigText()
	for _, a := range p.Acts {
		switch a {
		case "log":
			logger.Trace.Println("marker-trace")
			logger.Info.Println("marker-info")
			logger.Warning.Println("marker-warning")
			logger.Error.Println("marker-error")
		case "dump":
			r.Dump = dump.HeavyAllStackTrace().(*netdata.MapPack).GetString("name")
		case "profiles":
			dump.ProfileBlock(0, 1000, 1)
			dump.ProfileMutex(0, 5, 1)
			dump.ProfileBlockBinaryDump(0, 1000)
			dump.ProfileMutexBinaryDump(0, 5)
			dump.ProfileBinaryCpu(0)
			time.Sleep(30 * time.Millisecond)
			for i := 0; i < 4000; i++ { // they work in the background
				if !bytes.Contains(allStacks(), []byte("/scouterx/dump.")) {
					break
				}
				time.Sleep(5 * time.Millisecond)
			}
		case "list":
			r.Dumps, r.Binaries = listed(dump.ListDumpFiles()), listed(dump.ListBinaryDumpFiles())
		case "fetch":
			out := netdata.NewDataOutputX(nil)
			m := netdata.NewMapPack()
			m.Put("name", "there.log")
			dump.StreamDumpFileContents(m, out)
			dump.DownloadBinaryDumpFiles(out, "there.pprof")
			r.Fetched = string(out.Bytes())
		case "delete":
			dump.DeleteBinaryDumpFiles("there.pprof")
		case "save":
			r.Saved = conf.SaveConfigText(p.Save)
			r.Text2 = conf.LoadConfigText()
			conf.GetInstance().Refresh()
			r.After = values()
		}
	}
	b, _ = json.Marshal(r)
	if err := os.WriteFile(os.Getenv("VERIF_REPORT"), b, 0644); err != nil {
		t.Fatalf("HARNESS-ERROR %v", err)
	}
	fmt.Println("CHILD-DONE")
	os.Exit(0)
}

func allStacks() []byte {
	b := make([]byte, 1<<20)
	return b[:runtime.Stack(b, true)]
}

// entry is what stands at a path of the tree before the run.
type entry struct {
	dir  bool
	text string
}

func scan(root string) map[string]entry {
	m := map[string]entry{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		if fi.IsDir() {
			m[rel] = entry{dir: true}
		} else {
			b, _ := os.ReadFile(p)
			m[rel] = entry{text: string(b)}
		}
		return nil
	})
	return m
}

// genConfig draws a configuration text with the settings in it; a malformed one has none.
func genConfig(rt *rapid.T, mark string) (string, map[string]string, bool) {
	m := map[string]string{"obj_name": mark}
	for i := rapid.IntRange(0, 4).Draw(rt, "settings"); i > 0; i-- {
		s := rapid.SampledFrom(settings.All).Draw(rt, "key")
		if s.Key == "obj_name" {
			continue
		}
		m[s.Key] = plainValue(rt, s)
	}
	var b strings.Builder
	b.WriteString("# " + mark + "\n")
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%s\n", k, m[k])
	}
	if rapid.IntRange(0, 6).Draw(rt, "malformed") == 0 {
		b.WriteString("obj_type=${obj_type}\n")
		return b.String(), nil, false
	}
	return b.String(), m, true
}

func plainValue(rt *rapid.T, s settings.Setting) string {
	switch s.Kind {
	case 'i', 'z':
		return fmt.Sprint(rapid.IntRange(1, 50000).Draw(rt, "number"))
	case 'b':
		return rapid.SampledFrom([]string{"true", "false"}).Draw(rt, "truth")
	}
	return rapid.StringMatching(`[a-z/.*]{1,12}`).Draw(rt, "text")
}

func TestC30Places(t *testing.T) {
	runC30(t, "a host process with a generated working directory, SCOUTER_AGENT_HOME, SCOUTER_CONFIG and scouter.config (absent, empty, relative, missing, in the way of one another) and files there, which logs, dumps, profiles, lists, fetches, deletes and saves its configuration; judged: every file of its world before and after, and what it reports; non-trivial: a home or a configuration named by the environment, and at least three acts", false)
}

func TestC20Start(t *testing.T) {
	runC30(t, "a host process whose first configuration is a file, missing, a directory, malformed or unreachable, with settings in its environment; judged: every setting at the start and after a saved configuration; non-trivial: settings in the environment and a configuration that is not an ordinary file", true)
}

func runC30(t *testing.T, rule string, startOnly bool) {
	hx.Rule(rule)
	exe, _ := os.Executable()
	base := os.Getenv("VERIF_SCRATCH")
	n := 0
	hx.Check(t, 60, 2000, func(rt *rapid.T) {
		n++
		dir := filepath.Join(base, fmt.Sprintf("p%d", n))
		tree := filepath.Join(dir, "tree")
		cwd := filepath.Join(tree, rapid.SampledFrom([]string{"work", "work dir", "작업", "a/b"}).Draw(rt, "cwd"))
		defer os.RemoveAll(dir)
		mk := func(p string) {
			if err := os.MkdirAll(p, 0755); err != nil {
				rt.Fatalf("HARNESS-ERROR %v", err)
			}
		}
		put := func(p, text string) {
			mk(filepath.Dir(p))
			if err := os.WriteFile(p, []byte(text), 0644); err != nil {
				rt.Fatalf("HARNESS-ERROR %v", err)
			}
			old := time.Now().Add(-time.Hour)
			os.Chtimes(p, old, old)
		}
		mk(cwd)
		mk(filepath.Join(tree, "tmp"))
		mk(filepath.Join(tree, "user"))
		env := []string{"PATH=/usr/bin:/bin", "HOME=" + filepath.Join(tree, "user"), "TMPDIR=" + filepath.Join(tree, "tmp")}

		// where the home is
		homeKind := rapid.SampledFrom([]string{"absent", "absent", "empty", "there", "there", "missing", "relative", "dotted", "file", "below a file", "linked", "gone"}).Draw(rt, "home")
		home, homeOK := filepath.Join(cwd, "scouter"), true
		real := "" // what home leads to
		switch homeKind {
		case "empty":
			env = append(env, "SCOUTER_AGENT_HOME=")
		case "there":
			home = filepath.Join(tree, "opt", "ho me")
			mk(home)
			env = append(env, "SCOUTER_AGENT_HOME="+home)
		case "missing":
			home = filepath.Join(tree, "opt", "not", "yet")
			env = append(env, "SCOUTER_AGENT_HOME="+home)
		case "relative":
			home = filepath.Join(cwd, "rel", "home")
			env = append(env, "SCOUTER_AGENT_HOME=rel/home")
		case "dotted":
			home = filepath.Join(tree, "opt", "dotted")
			mk(filepath.Join(tree, "opt", "x"))
			env = append(env, "SCOUTER_AGENT_HOME="+filepath.Join(tree, "opt")+"/x/../dotted/")
		case "gone":
			home = filepath.Join(tree, "tmp", "scouter")
		case "file":
			home, homeOK = filepath.Join(tree, "afile"), false
			put(home, "")
			env = append(env, "SCOUTER_AGENT_HOME="+home)
		case "below a file":
			home, homeOK = filepath.Join(tree, "afile", "below"), false
			put(filepath.Join(tree, "afile"), "")
			env = append(env, "SCOUTER_AGENT_HOME="+home)
		case "linked":
			real = filepath.Join(tree, "real")
			mk(real)
			home = filepath.Join(tree, "link")
			os.Symlink(real, home)
			env = append(env, "SCOUTER_AGENT_HOME="+home)
			home = real
		}
		if homeKind == "absent" && rapid.IntRange(0, 5).Draw(rt, "in the way") == 0 {
			put(home, "in the way")
			homeOK = false
			homeKind += ", a file in its way"
		}
		// where the configuration is
		type cand struct {
			how, path, text string
			m               map[string]string
			file, ok, save  bool
		}
		genCand := func(label, dflt string) cand {
			c := cand{how: rapid.SampledFrom([]string{"file", "file", "file", "missing", "directory", "no directory", "below a file", "relative"}).Draw(rt, label), path: dflt}
			if startOnly && c.how == "file" {
				c.how = rapid.SampledFrom([]string{"file", "directory", "below a file"}).Draw(rt, label+" instead")
			}
			if c.how == "relative" && homeKind == "gone" {
				c.how = "missing"
			}
			if c.how == "relative" && dflt == "" {
				c.path = filepath.Join(cwd, "conf", label+".properties")
			} else if dflt == "" {
				c.path = filepath.Join(tree, "etc", label+".conf")
			}
			switch c.how {
			case "file", "relative":
				c.text, c.m, c.ok = genConfig(rt, label)
				c.file, c.save = true, true
			case "missing":
				mk(filepath.Dir(c.path))
				c.save = true
			case "directory":
				mk(c.path)
			case "no directory":
				if dflt == "" {
					c.path = filepath.Join(tree, "etc", "nowhere", label)
				}
			case "below a file":
				if dflt == "" {
					c.path = filepath.Join(tree, "etc", "afile"+label, "c")
				}
				put(filepath.Dir(c.path), "in the way")
			}
			if c.file {
				put(c.path, c.text)
			}
			return c
		}
		var eff cand
		named := ""
		for _, v := range []struct{ name, label string }{{"SCOUTER_CONFIG", "upper"}, {"scouter.config", "lower"}} {
			switch rapid.SampledFrom([]string{"absent", "absent", "empty", "named", "named"}).Draw(rt, v.label) {
			case "empty":
				env = append(env, v.name+"=")
			case "named":
				c := genCand(v.label, "")
				p := c.path
				if c.how == "relative" {
					p, _ = filepath.Rel(cwd, p)
				}
				env = append(env, v.name+"="+p)
				if named == "" {
					named, eff = v.name, c
				}
			}
		}
		if named == "" {
			eff.path = filepath.Join(home, "conf", "scouter.conf")
			if homeOK {
				eff = genCand("home", eff.path)
				if eff.how == "no directory" || eff.how == "missing" { // it is made
					eff.save = true
				}
			} else {
				eff.how = "no home"
			}
		} else if homeOK && rapid.Bool().Draw(rt, "decoy") { // not to be looked at
			text, _, _ := genConfig(rt, "decoy")
			put(filepath.Join(home, "conf", "scouter.conf"), text)
		}
		if rapid.IntRange(0, 3).Draw(rt, "other decoys") == 0 {
			for _, d := range []string{filepath.Join(cwd, "conf", "scouter.conf"), filepath.Join(cwd, "scouter.conf"), filepath.Join(tree, "user", "scouter.conf")} {
				if !strings.HasPrefix(d, home+string(filepath.Separator)) && d != eff.path {
					if homeKind != "gone" || !strings.HasPrefix(d, cwd) {
						put(d, "obj_name=decoy\n")
					}
				}
			}
		}
		// settings in the environment
		envm := map[string]string{}
		for i := rapid.IntRange(0, 3).Draw(rt, "environment"); i > 0; i-- {
			s := rapid.SampledFrom(settings.All).Draw(rt, "key")
			if s.Key == "obj_name" || envm[s.Key] != "" {
				continue
			}
			envm[s.Key] = plainValue(rt, s)
			env = append(env, s.Key+"="+envm[s.Key])
		}
		// what the agent finds in its home
		oldLog, there, thereBin := "", "", ""
		if homeOK {
			if rapid.Bool().Draw(rt, "log there") {
				oldLog = "an earlier line\n"
				put(filepath.Join(home, "logs", "scouter.log"), oldLog)
			}
			if rapid.Bool().Draw(rt, "dumps there") {
				there, thereBin = "earlier dump", "earlier profile"
				put(filepath.Join(home, "dump", "there.log"), there)
				put(filepath.Join(home, "binary_dump", "there.pprof"), thereBin)
			}
		}
		blocked := map[string]bool{} // directories with a file in their way
		if homeOK && there == "" {
			for _, d := range []string{"dump", "binary_dump", "logs"} {
				if rapid.IntRange(0, 8).Draw(rt, "blocked") == 0 && !(d == "logs" && oldLog != "") {
					put(filepath.Join(home, d), "in the way")
					blocked[d] = true
				}
			}
		}
		p := placed{}
		if startOnly {
			p.Acts = []string{"save"}
		} else {
			p.Acts = rapid.Permutation([]string{"log", "dump", "profiles", "list", "fetch", "delete", "save"}).Draw(rt, "acts")[:rapid.IntRange(1, 7).Draw(rt, "n")]
		}
		saved := map[string]string{"obj_name": "saved"}
		p.Save = "obj_name=saved\n"
		did := map[string]bool{}
		for _, a := range p.Acts {
			did[a] = true
		}
		b, _ := json.Marshal(p)
		put(filepath.Join(dir, "plan.json"), string(b))
		rep := filepath.Join(dir, "report.json")
		desc := fmt.Sprintf("in %s, home %s (%s), blocked %v, configuration %q %s: %q, environment %v, acts %v", cwd, home, homeKind, blocked, named, eff.how, eff.text, envm, p.Acts)
		desc = strings.ReplaceAll(desc, tree, "")
		hx.Journal(desc)
		before := scan(tree)
		if homeKind == "gone" {
			delete(before, strings.TrimPrefix(cwd, tree+"/"))
		}
		cmd := exec.Command(exe, "-test.run", "^TestC30Child$", "-test.timeout", "0")
		if homeKind == "gone" { // the working directory, that is
			cmd = exec.Command("python3", "-Sc", "import os,sys; os.rmdir(sys.argv[1]); os.execv(sys.argv[2], sys.argv[2:])", cwd, exe, "-test.run", "^TestC30Child$", "-test.timeout", "0")
		}
		cmd.Dir = cwd
		cmd.Env = append(env, "VERIF_PLAN="+filepath.Join(dir, "plan.json"), "VERIF_REPORT="+rep)
		var stdout, stderr bytes.Buffer
		cmd.Stdout, cmd.Stderr = &stdout, &stderr
		if err := cmd.Start(); err != nil {
			rt.Fatalf("HARNESS-ERROR %v", err)
		}
		timer := time.AfterFunc(2*time.Minute, func() { cmd.Process.Signal(syscall.SIGQUIT) })
		err := cmd.Wait()
		late := !timer.Stop()
		fail := func(f string, a ...any) {
			rt.Fatalf("%s\n%s\n%s", strings.ReplaceAll(fmt.Sprintf(f, a...), tree, ""), desc, headOf(stderr.String()))
		}
		if strings.Contains(stdout.String()+stderr.String(), "HARNESS-ERROR") || err != nil && strings.Contains(err.Error(), "signal: killed") {
			hx.Inconclusive("%v %s", err, tailOf(stdout.String()))
		}
		if late || !strings.Contains(stdout.String(), "CHILD-DONE") {
			fail("the host application died or hangs: %v\n%s", err, tailOf(stdout.String()))
		}
		var r report
		b, err = os.ReadFile(rep)
		if err != nil || json.Unmarshal(b, &r) != nil {
			rt.Fatalf("HARNESS-ERROR %v", err)
		}
		after := scan(tree)

		// the settings
		want := func(m map[string]string) map[string]string {
			w := map[string]string{}
			for _, s := range settings.All {
				raw := m[s.Key]
				if raw == "" {
					raw = envm[s.Key]
				}
				w[s.Key] = s.Want(raw)
			}
			return w
		}
		differ := func(got, want map[string]string) string {
			for _, s := range settings.All {
				if got[s.Key] != want[s.Key] {
					return fmt.Sprintf("%s is %q, should be %q", s.Key, got[s.Key], want[s.Key])
				}
			}
			return ""
		}
		if d := differ(r.Settings, want(eff.m)); d != "" {
			fail("at the start %s", d)
		}
		if r.Text != eff.text {
			fail("the configuration's text is %q", r.Text)
		}
		if did["save"] {
			if r.Saved != eff.save {
				fail("the configuration was saved: %v", r.Saved)
			}
			if eff.save {
				if r.Text2 != p.Save {
					fail("a configuration saved as %q is %q", p.Save, r.Text2)
				}
				if d := differ(r.After, want(saved)); d != "" {
					fail("after the configuration was saved %s", d)
				}
			} else if r.Text2 != eff.text {
				fail("the configuration which was not saved is %q", r.Text2)
			} else if d := differ(r.After, want(eff.m)); d != "" {
				fail("after the configuration was not saved %s", d)
			}
		}
		if startOnly {
			hx.Case(desc, len(envm) > 0 && eff.how != "file")
			return
		}

		// the output streams
		if did["log"] {
			for _, m := range []string{"trace", "info", "warning"} {
				if !strings.Contains(stdout.String(), "marker-"+m) {
					fail("what is logged as %s is not on the standard output", m)
				}
			}
			if !strings.Contains(stderr.String(), "marker-error") {
				fail("an error logged is not on the standard error output")
			}
		}
		// every path of the tree
		rel := func(p ...string) string {
			s, _ := filepath.Rel(tree, filepath.Join(p...))
			return s
		}
		mayMake := map[string]bool{} // directories
		logFile, dumpAt, binAt := "", "", ""
		if homeOK {
			for h := rel(home); h != "."; h = filepath.Dir(h) {
				mayMake[h] = true
			}
			for _, d := range []string{"logs", "dump", "binary_dump"} {
				mayMake[rel(home, d)] = true
			}
			if named == "" {
				mayMake[rel(home, "conf")] = true
			}
			if !blocked["logs"] {
				logFile = rel(home, "logs", "scouter.log")
			}
			if !blocked["dump"] {
				dumpAt = rel(home, "dump")
			}
			if !blocked["binary_dump"] {
				binAt = rel(home, "binary_dump")
			}
		}
		var fresh, freshBin []string
		for p, e := range after {
			old, was := before[p]
			switch {
			case was && old == e:
			case e.dir && !was && mayMake[p]:
			case p == logFile && logFile != "":
				if !strings.HasPrefix(e.text, oldLog) {
					fail("the log file, %q before, is %q", oldLog, e.text)
				}
			case did["save"] && eff.save && p == rel(eff.path):
				if e.text != "obj_name=saved\n" {
					fail("the saved configuration is %q", e.text)
				}
			case !was && dumpAt != "" && filepath.Dir(p) == dumpAt && strings.HasPrefix(filepath.Base(p), "go_") && strings.HasSuffix(p, ".log"):
				fresh = append(fresh, filepath.Base(p))
			case !was && binAt != "" && filepath.Dir(p) == binAt && strings.HasPrefix(filepath.Base(p), "go_") && strings.HasSuffix(p, ".pprof"):
				freshBin = append(freshBin, filepath.Base(p))
			default:
				fail("%s (a directory: %v) was made or changed: %q before, %q now", p, e.dir, short(old.text), short(e.text))
			}
		}
		gone := rel(home, "binary_dump", "there.pprof")
		for p := range before {
			if _, ok := after[p]; !ok && !(p == gone && did["delete"]) {
				fail("%s has gone", p)
			}
		}
		if _, ok := after[gone]; ok && did["delete"] && thereBin != "" {
			fail("a profile that was deleted is still there")
		}
		if logFile != "" && did["log"] {
			text := after[logFile].text
			for _, m := range []string{"trace", "info", "warning", "error"} {
				if !strings.Contains(text, "marker-"+m) {
					fail("what is logged as %s is not in the log file %s: %q", m, logFile, text)
				}
			}
		}
		count := func(l []string, kind string) (n int) {
			for _, f := range l {
				if strings.HasPrefix(f, "go_"+kind+"_") {
					n++
				}
			}
			return
		}
		expect := func(l []string, at, kind string, want bool) {
			if got := count(l, kind) == 1; got != (want && at != "") || count(l, kind) > 1 {
				fail("%d files of kind %s in %q: %v", count(l, kind), kind, at, l)
			}
		}
		expect(fresh, dumpAt, "dump", did["dump"])
		expect(fresh, dumpAt, "block", did["profiles"])
		expect(fresh, dumpAt, "mutex", did["profiles"])
		expect(freshBin, binAt, "block", did["profiles"])
		expect(freshBin, binAt, "mutex", did["profiles"])
		expect(freshBin, binAt, "cpu", did["profiles"])
		if did["dump"] {
			if dumpAt == "" && r.Dump != "" {
				fail("a dump %s is named which could not be written", r.Dump)
			}
			if dumpAt != "" && (len(fresh) == 0 || count([]string{filepath.Base(r.Dump)}, "dump") != 1 || after[filepath.Join(dumpAt, filepath.Base(r.Dump))].text == "") {
				fail("the dump named %s is not among %v, or empty", r.Dump, fresh)
			}
		}
		if did["fetch"] {
			if there != "" && !strings.Contains(r.Fetched, there) {
				fail("a dump comes as %q", r.Fetched)
			}
			deletedFirst := false
			for _, a := range p.Acts {
				if a == "delete" {
					deletedFirst = true
				}
				if a == "fetch" {
					break
				}
			}
			if thereBin != "" && strings.Contains(r.Fetched, thereBin) == deletedFirst {
				fail("a profile (deleted: %v) comes as %q", deletedFirst, r.Fetched)
			}
		}
		if did["list"] {
			for _, l := range []struct {
				got     []string
				at, old string
				later   []string
			}{{r.Dumps, dumpAt, "there.log", fresh}, {r.Binaries, binAt, "there.pprof", freshBin}} {
				seen := map[string]bool{}
				for _, f := range l.got {
					seen[f] = true
					_, is := before[filepath.Join(l.at, f)]
					for _, x := range l.later {
						is = is || x == f
					}
					if l.at == "" && !blocked["dump"] && !blocked["binary_dump"] || l.at != "" && !is {
						fail("%s is listed among %v and is not in %q", f, l.got, l.at)
					}
				}
				if _, is := before[filepath.Join(l.at, l.old)]; is && l.at != "" && !seen[l.old] && !(l.old == "there.pprof" && did["delete"]) {
					fail("%s is not listed among %v", l.old, l.got)
				}
			}
		}
		hx.Label("home " + homeKind)
		hx.Label("configuration " + named + " " + eff.how)
		hx.Case(desc, (named != "" || homeKind != "absent") && len(p.Acts) >= 3)
	})
}

func short(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}
