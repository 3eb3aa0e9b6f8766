package conf

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"hash/crc32"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/factory/channelfactory"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/task/agenttask"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/task/countertask"
	"pgregory.net/rapid"
	"verif/harness/fc"
	"verif/harness/hx"
	"verif/harness/refwire"
	"verif/harness/settings"
)

type stage struct {
	Kind string // file, missing, dir
	Text []byte
}

type plan struct {
	Home   string
	Stages []stage
	Final  []byte
	Env    []string
}

func (p plan) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "home=%s env=%q", p.Home, p.Env)
	for _, s := range p.Stages {
		t := string(s.Text)
		if len(t) > 300 {
			t = t[:300] + fmt.Sprintf("...(%d)", len(t))
		}
		fmt.Fprintf(&b, " | %s %q", s.Kind, t)
	}
	return b.String()
}

func workload(i int, name string) {
	ctx := context.Background()
	req, _ := http.NewRequest("GET", "http://h/"+name+"?q=1", nil)
	req.URL.Path = name
	req.RemoteAddr = "10.1.2.3:99"
	req.Header.Set("X-A", "v")
	c := strace.StartHttpService(ctx, req)
	for k := 0; k < 6; k++ {
		m := strace.StartCustomMethod(c, "m")
		strace.AddMessageStep(c, "hello")
		time.Sleep(time.Millisecond)
		strace.EndMethod(c, m)
	}
	a := strace.StartApiCallWithPropagation(c, req, "api", "addr")
	strace.EndApiCall(c, a, nil)
	done := make(chan bool)
	strace.GoWithTrace(c, name+"/go", func(g context.Context) {
		strace.AddHashedMessageStep(g, "x", 1, 2)
		close(done)
	})
	<-done
	if i%2 == 1 {
		strace.MarkAsError(c, "failed")
	}
	strace.EndHttpService(c, req, &http.Response{StatusCode: 200})
	s := strace.StartService(ctx, name+"/app", "1.2.3.4")
	a = strace.StartApiCall(s, "api2", "")
	strace.EndApiCall(s, a, errors.New("e"))
	strace.EndService(s)
}

// TestC21Child is the host application: it runs the agent through the planned configurations.
func TestC21Child(t *testing.T) {
	pf := os.Getenv("VERIF_PLAN")
	if pf == "" {
		t.Skip()
	}
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30})
	var p plan
	b, err := os.ReadFile(pf)
	if err != nil || json.Unmarshal(b, &p) != nil {
		t.Fatalf("HARNESS-ERROR %v", err)
	}
	path := os.Getenv("SCOUTER_CONFIG")
	mt := time.Now().Add(24 * time.Hour)
	common.RegisterSendPanicF(netio.SendPanic)
	conf.GetInstance()
	channelfactory.GetUDPChannel()
	synctest.Test(t, func(t *testing.T) {
		strace.StartTracingMode()
		agenttask.SendObjPack()
		agenttask.Start()
		countertask.Start()
		workload(0, "/first")
		for i, s := range p.Stages[1:] {
			mt = mt.Add(time.Second)
			apply(t, path, s, mt)
			conf.GetInstance().Refresh()
			for k := 0; k < 3; k++ {
				workload(k, fmt.Sprintf("/stage/%d/%d", i, k))
			}
			time.Sleep(11 * time.Second)
			workload(9, "/late")
		}
		os.RemoveAll(path)
		mt = mt.Add(time.Second)
		apply(t, path, stage{"file", p.Final}, mt)
		conf.GetInstance().Refresh()
		time.Sleep(11 * time.Second)
		workload(0, "/final")
		time.Sleep(time.Second)
		synctest.Wait()
		fmt.Println("CHILD-DONE")
		os.Exit(0)
	})
}

func apply(t *testing.T, path string, s stage, mt time.Time) {
	switch s.Kind {
	case "file":
		if fi, err := os.Stat(path); err == nil && fi.IsDir() {
			os.Remove(path)
		}
		settings.Place(t, path, string(s.Text), mt)
	case "missing":
		os.RemoveAll(path)
	case "dir":
		os.RemoveAll(path)
		os.Mkdir(path, 0755)
		os.Chtimes(path, mt, mt)
	}
}

func genOdd(rt *rapid.T, s settings.Setting) string {
	switch s.Kind {
	case 'i', 'z':
		return rapid.SampledFrom([]string{"0", "-1", "1", "2", "-99999", "65536", "99999", "2147483647", "-2147483648", "4294967296", "9223372036854775807",
			"-9223372036854775808", "99999999999999999999", "1e9", "NaN", "abc", "", "0x7f", "1000000000", "5000000000000"}).Draw(rt, "num")
	case 'b':
		return rapid.SampledFrom([]string{"true", "false", "maybe", "", "1", "2", "TRUE"}).Draw(rt, "bool")
	}
	if s.Key == "net_collector_ip" {
		return rapid.SampledFrom([]string{"", "256.1.1.1", "::1", "[::1]", "bad_host!", "a b", "127.0.0.1:80", "0.0.0.0", "127.0.0.1", "%s%n", "localhost", "...", "-"}).Draw(rt, "ip")
	}
	return rapid.OneOf(
		rapid.SampledFrom([]string{"*", "**", "***", "*a*b*c*", ",", ",,", "*,", ",*", "/", "..", "%s%d%n", "\\", "/*x*/*y", "x,*", " ", "${HOME}", "한", "*/", "X-A", "x-a, X-B,,"}),
		rapid.StringOfN(rapid.SampledFrom([]rune("*,/ab :%")), 1, 12, -1),
		rapid.Map(rapid.SampledFrom([]int{300, 40000, 70000, 300000}), func(n int) string { return strings.Repeat("n,*", n/3) }),
	).Draw(rt, "str")
}

func genStage(rt *rapid.T, port int) stage {
	kind := rapid.SampledFrom([]string{"keys", "keys", "keys", "keys", "keys", "garbage", "broken", "missing", "dir"}).Draw(rt, "kind")
	switch kind {
	case "missing", "dir":
		return stage{Kind: kind}
	case "garbage":
		return stage{"file", rapid.SliceOfN(rapid.Byte(), 0, 400).Draw(rt, "garbage")}
	}
	var l []string
	if rapid.Bool().Draw(rt, "portset") {
		l = append(l, "net_collector_ip="+fc.IP, fmt.Sprintf("net_collector_udp_port=%d", port))
	}
	ks := rapid.SliceOfNDistinct(rapid.SampledFrom(settings.All), 1, 8, func(s settings.Setting) string { return s.Key }).Draw(rt, "keys")
	if rapid.Bool().Draw(rt, "sizes") {
		for _, s := range settings.All {
			if s.Kind == 'z' && rapid.Bool().Draw(rt, "size") {
				ks = append(ks, s)
			}
		}
	}
	for _, s := range ks {
		l = append(l, s.Key+"="+strings.ReplaceAll(genOdd(rt, s), "\\", "\\\\"))
	}
	if kind == "broken" {
		k := rapid.SampledFrom(settings.All).Draw(rt, "k").Key
		o := rapid.SampledFrom(settings.All).Draw(rt, "o").Key
		l = append(l, rapid.SampledFrom([]string{k + "=${" + k + "}", k + "=${" + o + "}\n" + o + "=${" + k + "}", k + "=${unterminated", k + "=${}", "=x", k + "=\\u00zz",
			k + "=${VA}", k + "=${VB}", "VA=${VB}\n" + k + "=${VA}", "VB=\n" + k + "=${VA}${VB}", k + "=x\\"}).Draw(rt, "broken"))
	}
	return stage{"file", []byte(strings.Join(l, "\n"))}
}

func TestC21Config(t *testing.T) {
	hx.Rule("a host process started with a generated environment and 2-6 successive odd configuration files, tracing all the while, then a valid file; non-trivial: it went through at least two different odd stages; judged: the process survived, every call returned, and services traced under the valid file arrived")
	col, err := fc.NewUDP(0)
	if err != nil {
		t.Fatalf("HARNESS-ERROR %v", err)
	}
	exe, _ := os.Executable()
	base := os.Getenv("VERIF_SCRATCH")
	n := 0
	hx.Check(t, 80, 1500, func(rt *rapid.T) {
		var p plan
		k := rapid.IntRange(2, 6).Draw(rt, "stages")
		for i := 0; i < k; i++ {
			p.Stages = append(p.Stages, genStage(rt, col.Port))
		}
		p.Home = rapid.SampledFrom([]string{"home", "home", "home", "new/deeper", "afile", "afile/below"}).Draw(rt, "home")
		for i := rapid.IntRange(0, 4).Draw(rt, "envs"); i > 0; i-- {
			s := rapid.SampledFrom(settings.All).Draw(rt, "envkey")
			p.Env = append(p.Env, rapid.SampledFrom([]string{
				s.Key + "=" + genOdd(rt, s),
				s.Key + "=${" + s.Key + "}", s.Key + "=${VA}", "NOEQUALS", "=", "=C:=C:\\x", "VA=${VB}", "VB=${VA}", "VA=x=${VB", "VB=1", s.Key,
			}).Draw(rt, "env"))
		}
		for i := range p.Env {
			if len(p.Env[i]) > 100000 {
				p.Env[i] = p.Env[i][:100000]
			}
		}
		p.Final = []byte(fmt.Sprintf("obj_name=valid\nnet_collector_ip=%s\nnet_collector_udp_port=%d\nudp_max_bytes=60000\nsend_queue_size=3000\nprofile_step_max_count=1024\nprofile_step_max_keep_in_memory_count=2048\nxlog_sampling_enabled=false\nxlog_patterned_sampling_enabled=false\nxlog_patterned2_sampling_enabled=false\nxlog_patterned3_sampling_enabled=false\nxlog_discard_service_patterns=/nothing/of/the/kind\nstuck_service_base_time_ms=300000\n", col.IP, col.Port))
		n++
		dir := filepath.Join(base, fmt.Sprintf("c%d", n))
		os.MkdirAll(filepath.Join(dir, "home"), 0755)
		defer os.RemoveAll(dir)
		os.WriteFile(filepath.Join(dir, "afile"), nil, 0644)
		path := filepath.Join(dir, "scouter.conf")
		apply(t, path, p.Stages[0], time.Now())
		b, _ := json.Marshal(p)
		os.WriteFile(filepath.Join(dir, "plan.json"), b, 0644)
		hx.Journal(p.String())
		cmd := exec.Command(exe, "-test.run", "^TestC21Child$", "-test.timeout", "0")
		cmd.Dir = dir
		cmd.Env = append([]string{"PATH=/usr/bin:/bin", "TMPDIR=" + dir, "VERIF_PLAN=" + filepath.Join(dir, "plan.json"), "SCOUTER_CONFIG=" + path,
			"SCOUTER_AGENT_HOME=" + filepath.Join(dir, p.Home)}, p.Env...)
		outf, _ := os.Create(filepath.Join(dir, "out"))
		cmd.Stdout, cmd.Stderr = outf, outf
		col.Take()
		d0 := col.Drops()
		if err := cmd.Start(); err != nil {
			rt.Fatalf("HARNESS-ERROR %v", err)
		}
		timer := time.AfterFunc(4*time.Minute, func() { cmd.Process.Signal(syscall.SIGQUIT) })
		err := cmd.Wait()
		late := !timer.Stop()
		outf.Close()
		ob, _ := os.ReadFile(filepath.Join(dir, "out"))
		out := string(ob)
		hx.Case(p.String(), len(p.Stages) >= 3 && p.Stages[0].Kind != "")
		if strings.Contains(out, "[scouter][panic]") {
			hx.Label("the agent recovered a panic of its own")
		}
		if late || !strings.Contains(out, "CHILD-DONE") {
			if strings.Contains(out, "HARNESS-ERROR") || err != nil && strings.Contains(err.Error(), "signal: killed") {
				hx.Inconclusive("%v %s", err, tailOf(out))
			}
			what := "the host application died"
			if late {
				what = "the host application hangs"
			}
			rt.Fatalf("%s: %v\n%s\n%s", what, err, p, headOf(out))
		}
		if err := col.Sync(); err != nil {
			hx.Inconclusive("%v", err)
		}
		grams := col.Take()
		if col.Drops() != d0 {
			hx.Discard()
			return
		}
		want := map[string]bool{"/final<GET>": false, "/final/go": false, "/final/app": false}
		var got []string
		for _, g := range grams {
			// fragments come from odd datagram limits only; they are C11's subject
			u, err := refwire.ParseFrame(g.B)
			if err != nil || u.Kind == "CAFM" {
				continue
			}
			d := refwire.NewDec(u.Body)
			for i := 0; i < max(u.Count, 1) && d.Err == nil; i++ {
				pk := d.Pack()
				got = append(got, fmt.Sprintf("%T %v", pk, d.Err))
				if x, ok := pk.(*refwire.Xlog); ok {
					for k := range want {
						if x.Service == int32(crc32.ChecksumIEEE([]byte(k))) {
							want[k] = true
						}
					}
				}
			}
		}
		for k, ok := range want {
			if !ok {
				rt.Fatalf("service %q, traced after a valid configuration was restored, did not arrive\n%s\n%s\nreceived %d datagrams: %s", k, p, tailOf(out), len(grams), tailOf(strings.Join(got, "; ")))
			}
		}
	})
}

func tailOf(s string) string {
	if len(s) > 3000 {
		return s[len(s)-3000:]
	}
	return s
}

func headOf(s string) string {
	if i := strings.Index(s, "panic: "); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "fatal error: "); i >= 0 {
		s = s[i:]
	}
	if len(s) > 4000 {
		return s[:4000]
	}
	return s
}

func TestMain(m *testing.M) { hx.Main(m) }
