package tcp

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/dump"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/tcpclient"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"pgregory.net/rapid"
	"verif/harness/cfg"
	"verif/harness/foot"
	"verif/harness/hx"
)

// wireVisit is one connection of a history, or something else that opens a file or a connection.
type wireVisit struct {
	kind string
	cmds [][]byte
	says []string
	end  string
	bad  []byte
	n    int
}

func (v wireVisit) String() string {
	s := v.kind
	if v.kind == "connection" {
		s = fmt.Sprintf("connection %v %s", v.says, v.end)
		if len(v.bad) > 0 {
			s += fmt.Sprintf(" %x", v.bad[:min(len(v.bad), 30)])
		}
	}
	return fmt.Sprintf("%s(%d)", s, v.n)
}

func TestC31Wire(t *testing.T) {
	hx.Rule("a history of up to 6 connections (commands on files and services, then a close, reset, timeout, malformed request, change of name, or an answer not read), refused connections and failing profiles is repeated; judged: no descriptors or goroutines more than before, and a heap that does not grow with the repetitions; non-trivial: a connection that ends otherwise than by a close, or a command that opens a file")
	w := newWorld(t)
	debug.SetMemoryLimit(4 << 30)
	strace.StartService(context.Background(), "/listed", "10.0.0.1")
	hx.Check(t, 12, 400, func(rt *rapid.T) {
		fs := files{}
		if err := makeFiles(rt, fs); err != nil {
			rt.Fatalf("HARNESS-ERROR %v", err)
		}
		var names []string
		for p := range fs {
			names = append(names, filepath.Base(p))
		}
		names = append(names, "none.pprof", "none.log", "big.log", "x.pprof")
		big := map[string]int64{filepath.Join(dumpDir(), "big.log"): 24 << 20, filepath.Join(binDir(), "x.pprof"): 3 << 20}
		for _, d := range []string{filepath.Join(dumpDir(), "dir.log"), filepath.Join(binDir(), "dir.pprof")} {
			if err := os.Mkdir(d, 0755); err != nil {
				rt.Fatalf("HARNESS-ERROR %v", err)
			}
		}
		names = append(names, "dir.log", "dir.pprof")
		files := func() { // deleted ones come back
			for p, b := range fs {
				if err := os.WriteFile(p, b, 0644); err != nil {
					rt.Fatalf("HARNESS-ERROR %v", err)
				}
			}
			for p, n := range big {
				f, err := os.Create(p)
				if err == nil {
					err = f.Truncate(n)
					f.Close()
				}
				if err != nil {
					rt.Fatalf("HARNESS-ERROR %v", err)
				}
			}
		}
		var visits []wireVisit
		odd := false
		timeout := rapid.IntRange(40, 120).Draw(rt, "timeout")
		for i := rapid.IntRange(1, 6).Draw(rt, "visits"); i > 0; i-- {
			v := wireVisit{kind: rapid.SampledFrom([]string{"connection", "connection", "connection", "connection", "refused", "cpu", "unwritable", "dumps"}).Draw(rt, "visit"), n: rapid.IntRange(0, 9).Draw(rt, "n")}
			if v.kind != "connection" {
				odd = true
				visits = append(visits, v)
				continue
			}
			for j := rapid.IntRange(0, 4).Draw(rt, "commands"); j > 0; j-- {
				c := rapid.SampledFrom([]string{"KEEP_ALIVE", "OBJECT_DUMP_FILE_LIST", "OBJECT_DUMP_FILE_DETAIL", "OBJECT_DUMP_FILE_DETAIL", "OBJECT_LIST_HEAP_DUMP", "OBJECT_DOWNLOAD_HEAP_DUMP", "OBJECT_DOWNLOAD_HEAP_DUMP", "OBJECT_DELETE_HEAP_DUMP",
					"TRIGGER_THREAD_DUMP", "OBJECT_ACTIVE_SERVICE_LIST", "GET_CONFIGURE_WAS", "LIST_CONFIGURE_WAS", "CONFIGURE_DESC", "OBJECT_RESET_CACHE", "NO_SUCH"}).Draw(rt, "command")
				n := ""
				switch c {
				case "OBJECT_DUMP_FILE_DETAIL", "OBJECT_DOWNLOAD_HEAP_DUMP", "OBJECT_DELETE_HEAP_DUMP":
					n = rapid.SampledFrom(names).Draw(rt, "file")
					if n == "big.log" { // only as an answer which is not read
						n = "none.log"
					}
					odd = true
				case "TRIGGER_THREAD_DUMP":
					odd = true
				}
				v.cmds = append(v.cmds, request(c, mapParam("name", n, "fileName", n, "delfileName", n)))
				v.says = append(v.says, strings.TrimSpace(c+" "+n))
			}
			v.end = rapid.SampledFrom([]string{"close", "close", "reset", "malformed", "silence", "stall", "midway", "midway", "renamed", "half"}).Draw(rt, "end")
			if v.end == "malformed" {
				v.bad, _ = genMalformed(rt)
			}
			odd = odd || v.end != "close"
			visits = append(visits, v)
		}
		desc := fmt.Sprintf("timeout %d ms, files %v: %v", timeout, names, visits)
		hx.Journal(desc)
		plain := w.with(map[string]string{})
		short := w.with(map[string]string{"net_collector_tcp_so_timeout_ms": fmt.Sprint(timeout)})
		fail := func(f string, a ...any) { rt.Fatalf("%s\n%s", fmt.Sprintf(f, a...), desc) }
		visit := func(v wireVisit) {
			switch v.kind {
			case "refused":
				cfg.Set(w.with(map[string]string{"net_collector_tcp_port": "9"}))
				if (&tcpclient.TCPClient{}).Prepare() {
					fail("HARNESS-ERROR a connection to port 9")
				}
				return
			case "cpu": // one of them at most can run
				for i := 0; i < 2+v.n%2; i++ {
					dump.ProfileBinaryCpu(0)
				}
				return
			case "unwritable":
				d := dumpDir()
				hidden := d + ".aside"
				if err := os.Rename(d, hidden); err != nil {
					fail("HARNESS-ERROR %v", err)
				}
				os.WriteFile(d, nil, 0644)
				dump.HeavyAllStackTrace()
				dump.ListDumpFiles()
				dump.ProfileBlock(0, 1000, v.n%3)
				dump.ProfileMutex(0, 5, v.n%3)
				time.Sleep(5 * time.Millisecond)
				os.Remove(d)
				if err := os.Rename(hidden, d); err != nil {
					fail("HARNESS-ERROR %v", err)
				}
				return
			case "dumps":
				dump.HeavyAllStackTrace()
				dump.ProfileBlock(0, 1000, v.n%3)
				dump.ProfileMutex(0, 5, v.n%3)
				dump.ProfileBlockBinaryDump(0, 1000)
				dump.ProfileMutexBinaryDump(0, 5)
				return
			}
			if v.end == "silence" || v.end == "stall" {
				cfg.Set(short)
			} else {
				cfg.Set(plain)
			}
			s, err := w.connect()
			if err != nil {
				fail("%v", err)
			}
			defer s.drop()
			gone := func() {
				select {
				case <-s.done:
				case <-time.After(patience):
					fail("the agent still works on a connection that has ended")
				}
			}
			for i, c := range v.cmds {
				s.send(c, nil, 0)
				f := strings.Fields(v.says[i])[0]
				if _, err := s.answer(f == "OBJECT_DUMP_FILE_DETAIL" || f == "OBJECT_DOWNLOAD_HEAP_DUMP"); err != nil {
					if v.end == "silence" || v.end == "stall" { // it may have given up early on a slow machine
						s.drop()
						gone()
						return
					}
					fail("command %s: %v", v.says[i], err)
				}
			}
			switch v.end {
			case "close", "half":
				if v.end == "half" {
					b := request("KEEP_ALIVE", mapParam("a", "b"))
					s.send(b[:1+v.n], nil, 0)
				}
				s.c.CloseWrite()
				if _, err := s.ended(); err != nil {
					fail("%v", err)
				}
			case "reset":
				s.drop()
				gone()
			case "malformed":
				s.send(v.bad, nil, 0)
				s.c.CloseWrite()
				if _, err := s.ended(); err != nil {
					fail("%v", err)
				}
			case "silence":
				if _, err := s.ended(); err != nil {
					fail("%v", err)
				}
			case "stall", "midway":
				files()
				s.c.SetReadBuffer(4096)
				what := []struct{ c, p, f string }{{"OBJECT_DUMP_FILE_DETAIL", "name", "big.log"}, {"OBJECT_DOWNLOAD_HEAP_DUMP", "fileName", "x.pprof"}}[v.n%2]
				s.send(request(what.c, mapParam(what.p, what.f)), nil, 0)
				if v.end == "midway" {
					s.read(v.n * 1000)
					s.drop()
				}
				gone()
			case "renamed":
				cfg.Set(w.with(map[string]string{"obj_name": "renamed"}))
				s.send(request("KEEP_ALIVE", mapParam()), nil, 0)
				s.c.CloseWrite()
				if _, err := s.ended(); err != nil && !errors.Is(err, os.ErrClosed) {
					fail("%v", err)
				}
			}
		}
		run := func(n int) {
			for ; n > 0; n-- {
				files()
				for _, v := range visits {
					visit(v)
				}
				for _, d := range []string{dumpDir(), binDir()} {
					ds, _ := os.ReadDir(d)
					for _, e := range ds {
						if strings.HasPrefix(e.Name(), "go_") {
							os.Remove(filepath.Join(d, e.Name()))
						}
					}
				}
				w.udp.Take()
			}
			// profiles under way end
			for at := time.Now(); time.Since(at) < 10*time.Second; time.Sleep(time.Millisecond) {
				l := ""
				for g := range foot.Goroutines() {
					if strings.Contains(g, "dump.") {
						l = g
					}
				}
				if l == "" {
					break
				}
			}
		}
		run(1)
		old := debug.SetGCPercent(-1) // what is forgotten stays open
		f0, g0 := foot.Files(), foot.Goroutines()
		run(5)
		var fl, gl string
		for at := time.Now(); ; time.Sleep(2 * time.Millisecond) {
			fl, gl = foot.More(f0, foot.Files()), foot.More(g0, foot.Goroutines())
			if fl == "" && gl == "" || time.Since(at) > 6*time.Second {
				break
			}
		}
		debug.SetGCPercent(old)
		if fl != "" {
			fail("after five repetitions the process has open %s", fl)
		}
		if gl != "" {
			fail("after five repetitions the agent has goroutines %s", gl)
		}
		// The runtime's own profiling keeps more and more.
		var rest []wireVisit
		for _, v := range visits {
			if v.kind == "connection" || v.kind == "refused" {
				rest = append(rest, v)
			}
		}
		all := visits
		visits = rest
		run(3)
		h := []int64{foot.Heap()}
		for len(h) < 7 && len(rest) > 0 {
			run(20)
			h = append(h, foot.Heap())
			if h[len(h)-1]-h[len(h)-2] < 12<<10 {
				break
			}
		}
		if len(h) == 7 && h[6]-h[5] >= 12<<10 {
			fail("each of six times twenty repetitions left the heap larger: %v", h)
		}
		for _, v := range all {
			hx.Label(v.kind + " " + v.end)
		}
		hx.Case(desc, odd)
	})
}
