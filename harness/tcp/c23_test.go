package tcp

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"pgregory.net/rapid"
	"verif/harness/cfg"
	"verif/harness/fc"
	"verif/harness/hx"
	"verif/harness/refwire"
	"verif/harness/settings"
)

func home() string { return os.Getenv("SCOUTER_AGENT_HOME") }

func dumpDir() string { return filepath.Join(home(), "dump") }
func binDir() string  { return filepath.Join(home(), "binary_dump") }

func content(seed, n int) []byte {
	b := make([]byte, n)
	x := uint32(seed)*2654435761 + 12345
	for i := range b {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b[i] = byte(x)
	}
	return b
}

func join(rs []record) []byte {
	var b []byte
	for _, r := range rs {
		b = append(b, r.blob...)
	}
	return b
}

// command is one command with what its answer must be.
type command struct {
	name   string
	param  []byte
	desc   string
	stream bool
	judge  func([]record) error
}

func (c command) String() string {
	n := c.name
	if len(n) > 40 {
		n = fmt.Sprintf("%.40q..(%d)", n, len(n))
	}
	return n + c.desc
}

func nothing(rs []record) error {
	if len(rs) != 0 {
		return fmt.Errorf("an answer of %d records where none is due", len(rs))
	}
	return nil
}

// genParam draws any map.
func genParam(rt *rapid.T) refwire.V {
	m := map[string]refwire.V{}
	var gen func(depth int) refwire.V
	gen = func(depth int) refwire.V {
		k := rapid.IntRange(0, 8).Draw(rt, "type")
		if depth > 3 && k > 6 {
			k = 3
		}
		switch k {
		case 0:
			return refwire.V{}
		case 1:
			return refwire.Bool(rapid.Bool().Draw(rt, "b"))
		case 2:
			return refwire.V{T: refwire.TFloat, F: uint64(rapid.Uint32().Draw(rt, "f"))}
		case 3, 4:
			return refwire.Dec64(rapid.Int64().Draw(rt, "i"))
		case 5:
			return refwire.Text(strings.Repeat("y", rapid.SampledFrom([]int{252, 253, 254, 255, 256, 65535, 65536}).Draw(rt, "len")))
		case 6:
			return refwire.Text(rapid.StringN(0, 20, -1).Draw(rt, "s"))
		case 7:
			v := refwire.V{T: refwire.TList}
			for i := rapid.IntRange(0, 4).Draw(rt, "n"); i > 0; i-- {
				v.L = append(v.L, gen(depth+1))
			}
			return v
		}
		v := refwire.V{T: refwire.TMap, M: map[string]refwire.V{}}
		for i := rapid.IntRange(0, 3).Draw(rt, "n"); i > 0; i-- {
			v.M[rapid.StringN(0, 6, -1).Draw(rt, "k")] = gen(depth + 1)
		}
		return v
	}
	for i := rapid.IntRange(0, 5).Draw(rt, "n"); i > 0; i-- {
		k := rapid.OneOf(rapid.SampledFrom([]string{"name", "fileName", "txid", "setConfig ", "delfileName ", "x"}), rapid.StringN(0, 8, -1)).Draw(rt, "key")
		m[k] = gen(0)
	}
	return refwire.V{T: refwire.TMap, M: m}
}

// files are what the dump directories hold during a case.
type files map[string][]byte // path -> content

var sortedKeys = func() []string {
	var l []string
	for _, s := range settings.All {
		l = append(l, s.Key)
	}
	sort.Strings(l)
	return l
}()

func sameSet(got, want []string) bool {
	g := append([]string(nil), got...)
	sort.Strings(g)
	return fmt.Sprint(g) == fmt.Sprint(want)
}

// bigCommand has a parameter of n bytes, which comes back. It is sent alone: nobody reads while it is sent.
func bigCommand(n int) command {
	b := strings.Repeat("0123456789abcde", n/15+1)[:n]
	return command{"OBJECT_RESET_CACHE", mapParam("big", refwire.V{T: refwire.TBlob, S: b}), fmt.Sprintf(" %d bytes", n), false, func(rs []record) error {
		m, err := one(rs)
		if err == nil && (len(m) != 1 || m["big"].S != b) {
			err = fmt.Errorf("a parameter of %d bytes comes back as %d values, %d bytes", n, len(m), len(m["big"].S))
		}
		return err
	}}
}

func genCommand(rt *rapid.T, fs files, live map[int64]string) command {
	var dumps, bins []string
	for p := range fs {
		if strings.HasPrefix(p, dumpDir()) {
			dumps = append(dumps, filepath.Base(p))
		} else if strings.HasSuffix(p, "pprof") {
			bins = append(bins, filepath.Base(p))
		}
	}
	sort.Strings(dumps)
	sort.Strings(bins)
	any := refwire.MapPack(genParam(rt).M)
	switch k := rapid.SampledFrom([]string{"keep", "unknown", "unknown", "reset", "get", "list", "types", "descs", "files", "detail", "detail", "bins", "bin", "bin", "active", "thread", "dump", "profile", "odd"}).Draw(rt, "cmd"); k {
	case "keep":
		return command{"KEEP_ALIVE", any, "", false, nothing}
	case "unknown":
		n := rapid.OneOf(rapid.StringN(0, 30, -1), rapid.SampledFrom([]string{"keep_alive", "GET_CONFIGURE", "OBJECT_RESET_CACHE ", "", "OBJECT_INFO", "OBJECT_THREAD_LIST"}),
			rapid.Map(rapid.IntRange(200, 300), func(n int) string { return strings.Repeat("C", n) }), rapid.Just(strings.Repeat("D", 70000))).Draw(rt, "name")
		return command{n, any, " (unknown)", false, nothing}
	case "odd": // a parameter of another kind
		p := rapid.SampledFrom([][]byte{
			(&refwire.Enc{}).U8(50).Str("service").I32(7).Str("x").B,
			(&refwire.Enc{}).U8(60).I64(1).Str("o").U8(1).Value(refwire.V{T: refwire.TMap}).B,
			(&refwire.Enc{}).U8(70).I64(1).U8(2).Str("t").I32(3).Str("a").Str("b").Value(refwire.V{T: refwire.TMap}).B,
		}).Draw(rt, "param")
		c := rapid.SampledFrom([]string{"KEEP_ALIVE", "OBJECT_DUMP_FILE_DETAIL", "OBJECT_DOWNLOAD_HEAP_DUMP", "OBJECT_DELETE_HEAP_DUMP", "NONE"}).Draw(rt, "name")
		return command{c, p, fmt.Sprintf("(pack %d)", p[0]), false, nothing}
	case "reset":
		v := genParam(rt)
		return command{"OBJECT_RESET_CACHE", refwire.MapPack(v.M), "", false, func(rs []record) error {
			m, err := one(rs)
			if err == nil && !refwire.Equal(refwire.V{T: refwire.TMap, M: m}, v) {
				err = fmt.Errorf("its parameter comes back as %v, was %v", m, v)
			}
			return err
		}}
	case "get":
		return command{"GET_CONFIGURE_WAS", any, "", false, func(rs []record) error {
			m, err := one(rs)
			if err != nil {
				return err
			}
			b, err := os.ReadFile(os.Getenv("SCOUTER_CONFIG"))
			if err != nil {
				return fmt.Errorf("HARNESS-ERROR %v", err)
			}
			if m["agentConfig"].S != string(b) {
				return fmt.Errorf("the configuration comes as %s, the file holds %s", short(m["agentConfig"].S), short(string(b)))
			}
			return nil
		}}
	case "list":
		return command{"LIST_CONFIGURE_WAS", any, "", false, func(rs []record) error {
			m, err := one(rs)
			if err != nil {
				return err
			}
			ks, err := list(m["key"])
			if err == nil && !sameSet(ks, sortedKeys) {
				err = fmt.Errorf("the settings %v are listed", ks)
			}
			return err
		}}
	case "types", "descs":
		return command{map[string]string{"types": "CONFIGURE_VALUE_TYPE", "descs": "CONFIGURE_DESC"}[k], any, "", false, func(rs []record) error {
			m, err := one(rs)
			if err == nil && !sameSet(refwire.SortedKeys(m), sortedKeys) {
				err = fmt.Errorf("the settings %v are listed", refwire.SortedKeys(m))
			}
			return err
		}}
	case "files", "bins":
		names, dir, cmd := dumps, dumpDir(), "OBJECT_DUMP_FILE_LIST"
		if k == "bins" {
			names, dir, cmd = bins, binDir(), "OBJECT_LIST_HEAP_DUMP"
		}
		return command{cmd, any, "", false, func(rs []record) error {
			m, err := one(rs)
			if err != nil {
				return err
			}
			return judgeListing(m, names, dir, fs, true)
		}}
	case "detail":
		n := "none.log"
		if len(dumps) > 0 && rapid.IntRange(0, 5).Draw(rt, "missing") > 0 {
			n = rapid.SampledFrom(dumps).Draw(rt, "file")
		}
		return command{"OBJECT_DUMP_FILE_DETAIL", mapParam("name", n), " " + n, true, func(rs []record) error {
			if got := join(rs); !bytes.Equal(got, fs[filepath.Join(dumpDir(), n)]) {
				return fmt.Errorf("the file %s of %d bytes comes as %d other bytes", n, len(fs[filepath.Join(dumpDir(), n)]), len(got))
			}
			return nil
		}}
	case "bin":
		n := "none.pprof"
		if len(bins) > 0 && rapid.IntRange(0, 5).Draw(rt, "missing") > 0 {
			n = rapid.SampledFrom(bins).Draw(rt, "file")
		}
		return command{"OBJECT_DOWNLOAD_HEAP_DUMP", mapParam("fileName", n), " " + n, true, func(rs []record) error {
			if got := join(rs); !bytes.Equal(got, fs[filepath.Join(binDir(), n)]) {
				return fmt.Errorf("the file %s of %d bytes comes as %d other bytes", n, len(fs[filepath.Join(binDir(), n)]), len(got))
			}
			return nil
		}}
	case "active":
		return command{"OBJECT_ACTIVE_SERVICE_LIST", any, "", false, func(rs []record) error {
			m, err := one(rs)
			if err != nil {
				return err
			}
			l, err := list(m["service"])
			if err != nil {
				return err
			}
			var want []string
			for _, n := range live {
				want = append(want, n)
			}
			sort.Strings(want)
			if !sameSet(l, want) {
				return fmt.Errorf("the services %q are listed, %q run", l, want)
			}
			return nil
		}}
	case "thread":
		id := int64(12345)
		for i := range live {
			if rapid.IntRange(0, 2).Draw(rt, "which") > 0 {
				id = i
			}
			break
		}
		return command{"OBJECT_THREAD_DETAIL", mapParam("txid", id), "", false, func(rs []record) error {
			m, err := one(rs)
			if err != nil {
				return err
			}
			if m["Service Name"].S != live[id] {
				return fmt.Errorf("the service %d is %q in it, expected %q", id, m["Service Name"].S, live[id])
			}
			return nil
		}}
	case "dump":
		return command{"TRIGGER_THREAD_DUMP", any, "", false, func(rs []record) error {
			m, err := one(rs)
			if err != nil {
				return err
			}
			if m["name"].S == "" {
				return errors.New("no dump file is named")
			}
			fs[filepath.Join(dumpDir(), filepath.Base(m["name"].S))] = nil // contents judged elsewhere
			return nil
		}}
	}
	// profiles take half a minute; they are asked for rarely
	if rapid.IntRange(0, 20).Draw(rt, "rarely") != 0 {
		return command{"KEEP_ALIVE", any, "", false, nothing}
	}
	n := rapid.SampledFrom([]string{"OBJECT_CALL_CPU_PROFILE", "OBJECT_CALL_BLOCK_PROFILE", "OBJECT_CALL_MUTEX_PROFILE", "TRIGGER_BLOCK_PROFILE", "TRIGGER_MUTEX_PROFILE"}).Draw(rt, "profile")
	return command{n, any, "", false, func(rs []record) error {
		if len(rs) == 0 && strings.HasPrefix(n, "TRIGGER") {
			return nil
		}
		m, err := one(rs)
		if err == nil && !truthy(m["success"]) {
			err = fmt.Errorf("no success: %v", m)
		}
		return err
	}}
}

// judgeListing compares a listing with the files there are. Files of profiles under way may be there too.
func judgeListing(m map[string]refwire.V, names []string, dir string, fs files, lax bool) error {
	return judgeListingHuge(m, names, dir, fs, nil, lax)
}

// judgeListingHuge compares a listing with the files; huge has the sizes of those without contents.
func judgeListingHuge(m map[string]refwire.V, names []string, dir string, fs files, huge map[string]int64, lax bool) error {
	ns, err := list(m["name"])
	if err != nil {
		return err
	}
	sizes, err := list(m["size"])
	if err != nil {
		return err
	}
	if len(ns) != len(sizes) {
		return fmt.Errorf("%d names and %d sizes", len(ns), len(sizes))
	}
	got := map[string]string{}
	for i, n := range ns {
		if _, dup := got[n]; dup {
			return fmt.Errorf("%s is listed twice", n)
		}
		got[n] = sizes[i]
	}
	for _, n := range names {
		s, ok := got[n]
		if !ok {
			return fmt.Errorf("the file %s is missing from the listing %v", n, ns)
		}
		want := int64(len(fs[filepath.Join(dir, n)]))
		if h, ok := huge[n]; ok {
			want = h
		} else if fs[filepath.Join(dir, n)] == nil {
			want = -1
		}
		if want >= 0 && s != fmt.Sprint(want) {
			return fmt.Errorf("the file %s of %d bytes is listed with %s", n, want, s)
		}
		delete(got, n)
	}
	for n := range got {
		if lax && strings.HasPrefix(n, "go_") {
			continue
		}
		return fmt.Errorf("%s is listed and should not be: %v", n, names)
	}
	return nil
}

// makeFiles fills the dump directories.
func makeFiles(rt *rapid.T, fs files) error {
	for _, d := range []string{dumpDir(), binDir()} {
		os.RemoveAll(d)
		if err := os.MkdirAll(d, 0755); err != nil {
			return err
		}
	}
	size := rapid.OneOf(rapid.IntRange(0, 700), rapid.SampledFrom([]int{0, 1, 252, 253, 254, 255, 299, 300, 301, 600, 900, 4095, 4096, 4097, 8192, 65535, 65536, 70000, 300000}))
	for i := rapid.IntRange(0, 6).Draw(rt, "files"); i > 0; i-- {
		var p string
		switch rapid.IntRange(0, 2).Draw(rt, "dir") {
		case 0:
			p = filepath.Join(dumpDir(), rapid.SampledFrom([]string{"a.log", "b c.log", "x", "덤프.log", "y.pprof", ".hidden"}).Draw(rt, "name"))
		case 1:
			p = filepath.Join(binDir(), rapid.SampledFrom([]string{"h.pprof", "heap 2.pprof", ".pprof", "힙.pprof", "pprof"}).Draw(rt, "name"))
		default:
			p = filepath.Join(binDir(), rapid.SampledFrom([]string{"h.log", "h.pprof.gz", "pprof.h", "h.pprof~", "H.PPROF"}).Draw(rt, "name"))
		}
		fs[p] = content(i, size.Draw(rt, "size"))
	}
	for p, b := range fs {
		if err := os.WriteFile(p, b, 0644); err != nil {
			return err
		}
	}
	return nil
}

// genMalformed draws bytes that are not a request.
func genMalformed(rt *rapid.T) ([]byte, string) {
	good := request("KEEP_ALIVE", mapParam("a", "b"))
	switch k := rapid.IntRange(0, 7).Draw(rt, "malformed"); k {
	case 0:
		return rapid.SliceOfN(rapid.Byte(), 1, 60).Draw(rt, "garbage"), "garbage"
	case 1:
		return good[:rapid.IntRange(1, len(good)-1).Draw(rt, "at")], "cut off"
	case 2:
		n := rapid.SampledFrom([]uint32{0x7fffffff, 0x80000000, 0xffffffff, 0x40000000, 0xfffffff0, 0x10000000, 0}).Draw(rt, "length")
		return append(binary.BigEndian.AppendUint32(nil, n), rapid.SliceOfN(rapid.Byte(), 0, 50).Draw(rt, "rest")...), fmt.Sprintf("length %#x", n)
	case 3: // a body that is cut, with the length to go with it
		body := good[4 : 4+rapid.IntRange(0, len(good)-5).Draw(rt, "at")]
		return append(binary.BigEndian.AppendUint32(nil, uint32(len(body))), body...), "short body"
	case 4:
		return request("KEEP_ALIVE", append([]byte{rapid.SampledFrom([]byte{0, 1, 21, 26, 99, 255, 128}).Draw(rt, "type")}, rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(rt, "rest")...)), "unknown pack"
	case 5:
		b := append([]byte(nil), good...)
		b[rapid.IntRange(4, len(b)-1).Draw(rt, "at")] = rapid.Byte().Draw(rt, "byte")
		return b, "corrupted"
	case 6: // deep nesting
		e := &refwire.Enc{}
		e.U8(10).Decimal(1).Str("k")
		for i := rapid.SampledFrom([]int{10, 1000, 1500, 40000}).Draw(rt, "depth"); i > 0; i-- {
			e.U8(70).Decimal(1)
		}
		e.U8(0)
		return request("KEEP_ALIVE", e.B), "deep"
	}
	b := request(rapid.StringN(0, 10, -1).Draw(rt, "cmd"), rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(rt, "pack"))
	return b, "random pack"
}

func TestC23Connection(t *testing.T) {
	w := newWorld(t)
	hx.Rule("a connection with up to 12 commands (known, unknown, odd parameters), pipelined and cut into generated segments, ended by the collector, a reset, a malformed request, silence, or a change of name or address; non-trivial: at least 2 commands with a reply, or an end that is not an ordinary close")
	other, err := net.ListenTCP("tcp4", &net.TCPAddr{IP: net.ParseIP(fc.IP)})
	if err != nil {
		t.Fatalf("HARNESS-ERROR %v", err)
	}
	hx.Check(t, 250, 8000, func(rt *rapid.T) {
		fs := files{}
		if err := makeFiles(rt, fs); err != nil {
			rt.Fatalf("HARNESS-ERROR %v", err)
		}
		live := map[int64]string{}
		var ctxs []context.Context
		for i := rapid.IntRange(0, 3).Draw(rt, "services"); i > 0; i-- {
			n := fmt.Sprintf("/service%d", i)
			ctx := strace.StartService(context.Background(), n, "10.0.0.1:80")
			ctxs = append(ctxs, ctx)
			live[tctxmanager.GetTraceContext(ctx).Txid] = n
		}
		defer func() {
			for _, c := range ctxs {
				strace.EndService(c)
			}
		}()
		var groups [][]command
		total, replies := 0, 0
		for i := rapid.IntRange(0, 5).Draw(rt, "groups"); i > 0; i-- {
			var g []command
			for j := rapid.SampledFrom([]int{1, 1, 2, 3, 5}).Draw(rt, "pipelined"); j > 0 && total < 12; j-- {
				g = append(g, genCommand(rt, fs, live))
				total++
			}
			if len(g) == 1 && rapid.IntRange(0, 19).Draw(rt, "bigp") == 0 {
				g[0] = bigCommand(rapid.IntRange(200_000, 6_000_000).Draw(rt, "big"))
			}
			groups = append(groups, g)
		}
		end := rapid.SampledFrom([]string{"close", "close", "close", "reset", "midreset", "malformed", "malformed", "malformed", "silence", "stall", "name", "address", "early"}).Draw(rt, "end")
		if end == "early" {
			groups = nil
		}
		conf := map[string]string{}
		timeout := 0
		if end == "silence" || end == "stall" {
			timeout = rapid.IntRange(30, 250).Draw(rt, "timeout")
			conf["net_collector_tcp_so_timeout_ms"] = fmt.Sprint(timeout)
		}
		name := rapid.SampledFrom([]string{"vt", "vt", "wörker", "a b"}).Draw(rt, "name")
		conf["obj_name"] = name
		pause := time.Duration(rapid.SampledFrom([]int{0, 0, 0, 200}).Draw(rt, "pause")) * time.Microsecond
		var desc strings.Builder
		fmt.Fprintf(&desc, "%s: %v, then %s %v", name, groups, end, conf["net_collector_tcp_so_timeout_ms"])
		cuts := make([][]int, len(groups))
		for i := range cuts {
			cuts[i] = genCuts(rt)
		}
		bad, badKind := []byte(nil), ""
		if end == "malformed" {
			bad, badKind = genMalformed(rt)
			fmt.Fprintf(&desc, " %s %x", badKind, bad[:min(len(bad), 60)])
		}
		partial := rapid.IntRange(0, 20).Draw(rt, "partial")
		endCuts := genCuts(rt)
		again := rapid.SampledFrom([]map[string]string{{"obj_name": "renamed"}, {"obj_name": name, "net_collector_tcp_port": fmt.Sprint(other.Addr().(*net.TCPAddr).Port)}, {"obj_name": name, "net_collector_ip": "127.0.0.2"}}).Draw(rt, "change")
		hx.Journal(desc.String())
		fail := func(err error) { rt.Fatalf("%v\n%s", err, desc.String()) }
		cfg.Set(w.with(conf))
		var between func()
		if end == "early" { // the change comes while the agent connects
			between = func() { cfg.Set(w.with(again)) }
		}
		s, err := w.connectThen(between)
		if err != nil {
			fail(err)
		}
		defer s.drop()
		if s.hash != crc(agentName(name)) {
			fail(fmt.Errorf("the agent identifies itself with %d, its name's hash is %d", s.hash, crc(agentName(name))))
		}
		gaveUp := false
		for gi, g := range groups {
			var b []byte
			for _, c := range g {
				b = append(b, request(c.name, c.param)...)
			}
			at := time.Now()
			werr := s.send(b, cuts[gi], pause)
			for i, c := range g {
				rs, err := s.answer(c.stream)
				if err != nil || werr != nil {
					if timeout > 0 && (isReset(werr) || isReset(err)) {
						// a slow machine: the agent may have given up meanwhile, though not early
						if d := time.Since(s.lastCmd); d < time.Duration(timeout)*time.Millisecond {
							fail(fmt.Errorf("the agent gave up after %v, its timeout is %d ms", d, timeout))
						}
						gaveUp = true
						break
					}
					if err == nil {
						err = werr
					}
					fail(fmt.Errorf("command %d.%d %v: %w", gi+1, i+1, c, err))
				}
				if err := c.judge(rs); err != nil {
					fail(fmt.Errorf("command %d.%d %v: %w", gi+1, i+1, c, err))
				}
				if len(rs) > 0 {
					replies++
				}
				s.lastCmd = at
			}
			if gaveUp {
				break
			}
		}
		if gaveUp {
			hx.Discard()
			return
		}
		switch end {
		case "close":
			if err := s.close(); err != nil {
				fail(err)
			}
		case "reset", "midreset":
			if end == "midreset" { // in the middle of a request or of its answer
				b := append(request("GET_CONFIGURE_WAS", mapParam()), request("LIST_CONFIGURE_WAS", mapParam("x", "y"))...)
				s.send(b[:min(len(b), partial*4+1)], nil, 0)
			}
			s.drop()
			select {
			case <-s.done:
			case <-time.After(patience):
				fail(errors.New("the agent still works on a connection that was reset"))
			}
		case "malformed":
			hx.Guard("a malformed request", 2<<30, 60*time.Second, func() {
				s.send(bad, endCuts, pause)
				s.c.CloseWrite()
				if _, err := s.ended(); err != nil {
					fail(fmt.Errorf("after a malformed request (%s) and the end of the stream: %v", badKind, err))
				}
			})
			s.c.Close()
		case "silence":
			if partial > 0 {
				b := request("KEEP_ALIVE", mapParam())
				s.send(b[:min(partial, len(b)-1)], nil, 0)
			}
			if _, err := s.ended(); err != nil {
				fail(fmt.Errorf("after silence with a timeout of %d ms: %v", timeout, err))
			}
			if d := time.Since(s.lastCmd); d < time.Duration(timeout)*time.Millisecond {
				fail(fmt.Errorf("the agent gave up after %v, its timeout is %d ms", d, timeout))
			}
		case "stall": // asks for much and does not read it
			f, err := os.Create(filepath.Join(dumpDir(), "big.log"))
			if err == nil {
				err = f.Truncate(24 << 20)
				f.Close()
			}
			if err != nil {
				fail(fmt.Errorf("HARNESS-ERROR %v", err))
			}
			s.c.SetReadBuffer(4096)
			at := time.Now()
			s.send(request("OBJECT_DUMP_FILE_DETAIL", mapParam("name", "big.log")), nil, 0)
			select {
			case <-s.done:
			case <-time.After(patience):
				fail(fmt.Errorf("the agent waits for a collector that does not read, its timeout is %d ms", timeout))
			}
			if d := time.Since(at); d < time.Duration(timeout)*time.Millisecond {
				// it may have given up before it saw the command
				if time.Since(s.lastCmd) < time.Duration(timeout)*time.Millisecond {
					fail(fmt.Errorf("the agent gave up after %v, its timeout is %d ms", d, timeout))
				}
			}
			s.drop()
		case "name", "address", "early":
			if end == "name" {
				again = map[string]string{"obj_name": "renamed2"}
			}
			if end != "early" {
				cfg.Set(w.with(again))
			}
			if err := s.send(request("KEEP_ALIVE", mapParam()), nil, 0); err != nil {
				break // ended already
			}
			b, err := s.ended()
			if err != nil {
				fail(fmt.Errorf("after a change to %v: %v", again, err))
			}
			if len(b) > 1 {
				fail(fmt.Errorf("after a change to %v it was sent %x", again, b))
			}
		}
		hx.Label("end: " + end)
		hx.Case(desc.String(), replies >= 2 || end != "close")
	})
}
