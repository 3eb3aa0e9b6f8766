package e2e

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	_ "github.com/scouter-contrib/scouter-agent-golang/scouterx"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"pgregory.net/rapid"
	"verif/harness/fc"
	"verif/harness/hx"
	"verif/harness/refwire"
)

func TestMain(m *testing.M) {
	if len(os.Args) > 1 && os.Args[1] == "agenthost" {
		agentHost()
		return
	}
	hx.Main(m)
}

// agentHost is a process that imports the agent and does as told on standard input.
func agentHost() {
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		l := in.Text()
		switch {
		case l == "quit":
			os.Exit(0)
		case strings.HasPrefix(l, "svc "):
			ctx := strace.StartService(context.Background(), l[4:], "10.1.2.3")
			strace.AddMessageStep(ctx, "m")
			strace.EndService(ctx)
			fmt.Println("\nDONE " + l[4:])
		}
	}
	os.Exit(3)
}

func crc(s string) int32 {
	if s == "" {
		return 0
	}
	return int32(crc32.ChecksumIEEE([]byte(s)))
}

func objName(simple string) string {
	h, err := os.Hostname()
	if err != nil {
		h = "unknown"
	}
	return "/" + h + "/" + simple
}

// patience is how long the agent may take to be in order again: it needs about 5 s for a change of the
// configuration, 4 s to connect again and 3 s to give up a silent connection.
const patience = 75 * time.Second

// ---- collector --------------------------------------------------------------------------------

type cconn struct {
	c      *net.TCPConn
	hash   int32
	lastOK time.Time // when the last answered command was sent
	ended  bool
	quiet  bool // no more commands are sent
	mute   bool // ended by this side
}

type collector struct {
	ip   string
	port int

	mu    sync.Mutex
	ln    *net.TCPListener
	udp   *fc.UDP
	conns []*cconn
	flap  int
	bad   error
	packs []any
	at    []time.Time
}

func (c *collector) failf(f string, a ...any) {
	c.mu.Lock()
	if c.bad == nil {
		c.bad = fmt.Errorf(f, a...)
	}
	c.mu.Unlock()
}

func (c *collector) listen() error {
	ln, err := net.ListenTCP("tcp4", &net.TCPAddr{IP: net.ParseIP(c.ip), Port: c.port})
	if err != nil {
		return err
	}
	c.mu.Lock()
	c.ln = ln
	c.mu.Unlock()
	go func() {
		for {
			k, err := ln.AcceptTCP()
			if err != nil {
				return
			}
			c.mu.Lock()
			drop := c.flap > 0
			if drop {
				c.flap--
			}
			c.mu.Unlock()
			if drop {
				k.Close()
				continue
			}
			go c.serve(k)
		}
	}()
	return nil
}

func (c *collector) refuse() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.ln != nil {
		c.ln.Close()
		c.ln = nil
	}
	for _, k := range c.conns {
		k.quiet, k.mute = true, true
		k.c.Close()
	}
}

func (c *collector) udpUp() error {
	u, err := fc.NewUDPAt(c.ip, c.port)
	if err != nil {
		return err
	}
	c.mu.Lock()
	c.udp = u
	c.mu.Unlock()
	return nil
}

func (c *collector) udpDown() {
	c.gather()
	c.mu.Lock()
	if c.udp != nil {
		c.udp.Close()
		c.udp = nil
	}
	c.mu.Unlock()
}

// gather decodes what has come.
func (c *collector) gather() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.udp == nil {
		return
	}
	// unfragmented datagrams only: the records of this test are small
	for _, g := range c.udp.Take() {
		ps, err := fc.Packs([]fc.Gram{g})
		if err != nil {
			if c.bad == nil {
				c.bad = fmt.Errorf("the collector received %x: %v", g.B, err)
			}
			return
		}
		for _, p := range ps {
			c.packs = append(c.packs, p)
			c.at = append(c.at, g.At)
		}
	}
}

var keepAlive = func() []byte {
	b := (&refwire.Enc{}).Str("KEEP_ALIVE").Raw(refwire.MapPack(map[string]refwire.V{})).B
	return (&refwire.Enc{}).I32(int32(len(b))).Raw(b).B
}()

// serve is a collector's side of a connection: a command every half second, until told to be quiet.
func (c *collector) serve(t *net.TCPConn) {
	k := &cconn{c: t}
	b := make([]byte, 8)
	t.SetReadDeadline(time.Now().Add(patience))
	if n, err := io.ReadFull(t, b); err != nil {
		if n != 0 || !errors.Is(err, io.EOF) {
			var ne net.Error
			if errors.As(err, &ne) && ne.Timeout() || n != 0 {
				c.failf("the agent connected and sent %x, then %v", b[:n], err)
			}
		}
		t.Close()
		return
	}
	if binary.BigEndian.Uint32(b) != 0xCAFE1002 {
		c.failf("the agent began a connection with %x", b)
		t.Close()
		return
	}
	k.hash = int32(binary.BigEndian.Uint32(b[4:]))
	c.mu.Lock()
	c.conns = append(c.conns, k)
	c.mu.Unlock()
	for {
		c.mu.Lock()
		q := k.quiet
		c.mu.Unlock()
		if q {
			break
		}
		at := time.Now()
		t.SetDeadline(at.Add(patience))
		if _, err := t.Write(keepAlive); err != nil {
			break
		}
		if _, err := io.ReadFull(t, b[:1]); err != nil {
			var ne net.Error
			if errors.As(err, &ne) && ne.Timeout() {
				c.failf("a command was not answered")
			}
			break
		}
		if b[0] != 4 {
			c.failf("the answer to a command that has none began with %d", b[0])
			break
		}
		c.mu.Lock()
		k.lastOK = at
		c.mu.Unlock()
		time.Sleep(500 * time.Millisecond)
	}
	c.mu.Lock()
	q := k.quiet && !k.mute
	c.mu.Unlock()
	if q { // the agent has to end it
		t.SetReadDeadline(time.Now().Add(patience))
		if _, err := io.Copy(io.Discard, t); err != nil {
			var ne net.Error
			if errors.As(err, &ne) && ne.Timeout() {
				c.mu.Lock()
				m := k.mute
				c.mu.Unlock()
				if !m {
					c.failf("the agent kept a silent connection for %v", patience)
				}
			}
		}
	}
	t.Close()
	c.mu.Lock()
	k.ended = true
	c.mu.Unlock()
}

// ---- plan ----------------------------------------------------------------------------------------

type step struct {
	k    string
	n    int
	s    string
	junk []byte
}

func (s step) String() string {
	return strings.TrimSpace(fmt.Sprintf("%s %d %s %x", s.k, s.n, s.s, s.junk))
}

type plan struct {
	name, otype string
	tcpLate     int // ms the command port is absent at the start, 0: present
	udpLate     int
	late        int  // ms the configuration file is absent
	other       int  // the second collector differs by 0: address, 1: port, 2: both
	trace       bool // tracing of the agent's own doings
	steps       []step
}

func (p plan) String() string {
	return fmt.Sprintf("name %q type %q tcp after %d ms, udp after %d ms, file after %d ms, second collector %d, trace %v: %v", p.name, p.otype, p.tcpLate, p.udpLate, p.late, p.other, p.trace, p.steps)
}

func genPlan(rt *rapid.T) plan {
	name := rapid.OneOf(rapid.SampledFrom([]string{"go1", "svc-a", "주문", "a b", "x/y"}), rapid.StringMatching(`[a-zA-Z0-9_-]{1,12}`))
	typ := rapid.SampledFrom([]string{"golang", "batch", "유형"})
	some := func(l string) int {
		if rapid.IntRange(0, 3).Draw(rt, l) > 0 {
			return 0
		}
		return rapid.IntRange(500, 8000).Draw(rt, l+"Ms")
	}
	p := plan{name: name.Draw(rt, "name"), otype: typ.Draw(rt, "type"), tcpLate: some("tcpLate"), udpLate: some("udpLate"), late: some("fileLate"),
		other: rapid.IntRange(0, 2).Draw(rt, "other"), trace: rapid.IntRange(0, 3).Draw(rt, "trace") == 0}
	n := rapid.IntRange(1, 4).Draw(rt, "steps")
	for i := 0; i < n; i++ {
		s := step{k: rapid.SampledFrom([]string{"close", "reset", "garbage", "half", "silence", "refuse", "flap", "udpdown", "rename", "retype", "move", "move+rename", "gone", "service"}).Draw(rt, "step")}
		switch s.k {
		case "garbage":
			s.junk = rapid.SliceOfN(rapid.Byte(), 1, 60).Draw(rt, "junk")
			if rapid.Bool().Draw(rt, "sized") {
				s.junk = (&refwire.Enc{}).I32(int32(len(s.junk))).Raw(s.junk).B
			}
		case "half":
			s.junk = keepAlive[:rapid.IntRange(1, len(keepAlive)-1).Draw(rt, "cut")]
		case "refuse", "udpdown", "gone":
			s.n = rapid.IntRange(100, 9000).Draw(rt, "ms")
		case "flap":
			s.n = rapid.IntRange(1, 3).Draw(rt, "times")
		case "rename":
			s.s = name.Draw(rt, "newname")
		case "retype":
			s.s = typ.Draw(rt, "newtype")
		case "move+rename":
			s.s = name.Draw(rt, "newname")
		}
		p.steps = append(p.steps, s)
	}
	return p
}

// ---- one host ------------------------------------------------------------------------------------

type lines struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lines) Write(b []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(b)
}

func (l *lines) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

type host struct {
	p     plan
	dir   string
	conf  map[string]string
	mtime time.Time
	cols  [2]*collector
	cur   int
	out   lines
	in    io.WriteCloser
	cmd   *exec.Cmd
	exit  chan error
	seq   int
}

func (h *host) configure() {
	var keys []string
	for k := range h.conf {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b strings.Builder
	for _, k := range keys {
		fmt.Fprintf(&b, "%s=%s\n", k, h.conf[k])
	}
	path := filepath.Join(h.dir, "scouter.conf")
	h.mtime = h.mtime.Add(2 * time.Second)
	if err := os.WriteFile(path+".new", []byte(b.String()), 0644); err != nil {
		hx.Inconclusive("%v", err)
	}
	os.Chtimes(path+".new", h.mtime, h.mtime)
	if err := os.Rename(path+".new", path); err != nil {
		hx.Inconclusive("%v", err)
	}
}

func (h *host) point() {
	h.conf["net_collector_ip"] = h.cols[h.cur].ip
	h.conf["net_collector_tcp_port"] = strconv.Itoa(h.cols[h.cur].port)
	h.conf["net_collector_udp_port"] = strconv.Itoa(h.cols[h.cur].port)
}

func (h *host) alive() error {
	select {
	case err := <-h.exit:
		h.exit <- err
		return fmt.Errorf("the process ended: %v; output: %s", err, last(h.out.String()))
	default:
	}
	for _, c := range h.cols {
		c.mu.Lock()
		err := c.bad
		c.mu.Unlock()
		if err != nil {
			return err
		}
	}
	return nil
}

func last(s string) string {
	if len(s) > 6000 {
		s = s[len(s)-6000:]
	}
	return s
}

// wait until f says "" or patience is over.
func (h *host) wait(what string, f func() string) error {
	end := time.Now().Add(patience)
	for {
		why := f()
		if err := h.alive(); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if why == "" {
			return nil
		}
		if time.Now().After(end) {
			return fmt.Errorf("%s: after %v %s; output: %s", what, patience, why, last(h.out.String()))
		}
		time.Sleep(50 * time.Millisecond)
	}
}

// healthy waits until the agent is registered under its name at its collector, sends counters, and has one
// command connection, which is at its collector, carries its hash and works.
func (h *host) healthy(what string, since time.Time) error {
	name, typ := objName(h.conf["obj_name"]), h.conf["obj_type"]
	return h.wait(what, func() string {
		live := 0
		ok := false
		for i, c := range h.cols {
			c.gather()
			c.mu.Lock()
			for _, k := range c.conns {
				if !k.ended {
					live++
					if i == h.cur && k.hash == crc(name) && k.lastOK.After(since) {
						ok = true
					}
				}
			}
			c.mu.Unlock()
		}
		c := h.cols[h.cur]
		c.mu.Lock()
		defer c.mu.Unlock()
		reg, perf := false, false
		for i, p := range c.packs {
			if !c.at[i].After(since) {
				continue
			}
			switch p := p.(type) {
			case *refwire.Object:
				if p.ObjName == name && p.ObjHash == crc(name) && p.ObjType == typ && p.Version != "" {
					reg = true
				}
			case *refwire.Perf:
				if p.ObjName == name && p.Timetype == 1 {
					perf = true
				}
			}
		}
		switch {
		case !ok:
			return fmt.Sprintf("no working command connection with the hash of %s (%d connections)", name, live)
		case live != 1:
			return fmt.Sprintf("%d command connections", live)
		case !reg:
			return fmt.Sprintf("not registered as %s of type %s", name, typ)
		case !perf:
			return fmt.Sprintf("no counter record of %s", name)
		}
		return ""
	})
}

// service runs one service in the host. visible says that its xlog must be seen.
func (h *host) service(what string, visible bool) error {
	h.seq++
	n := fmt.Sprintf("service-%d", h.seq)
	if _, err := io.WriteString(h.in, "svc "+n+"\n"); err != nil {
		if e := h.alive(); e != nil {
			return e
		}
		hx.Inconclusive("%v", err)
	}
	if err := h.wait(what, func() string {
		if strings.Contains(h.out.String(), "\nDONE "+n+"\n") {
			return ""
		}
		return "a service has not ended"
	}); err != nil {
		return err
	}
	if !visible {
		return nil
	}
	return h.wait(what, func() string {
		h.cols[h.cur].gather()
		c := h.cols[h.cur]
		c.mu.Lock()
		defer c.mu.Unlock()
		text := false
		for _, p := range c.packs {
			if t, ok := p.(*refwire.TextRec); ok && t.Type == "service" && t.Text == n && t.Hash == crc(n) {
				text = true
			}
		}
		for _, p := range c.packs {
			if x, ok := p.(*refwire.Xlog); ok && x.Service == crc(n) && x.ObjHash == crc(objName(h.conf["obj_name"])) {
				if !text {
					return "the name of a service has not been announced"
				}
				return ""
			}
		}
		return "the xlog of a service has not come"
	})
}

func (h *host) start() {
	exe, err := os.Executable()
	if err != nil {
		hx.Inconclusive("%v", err)
	}
	h.cmd = exec.Command(exe, "agenthost")
	home := filepath.Join(h.dir, "home")
	os.MkdirAll(home, 0755)
	h.cmd.Dir = h.dir
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "SCOUTER_") && !strings.HasPrefix(e, "VERIF_") {
			h.cmd.Env = append(h.cmd.Env, e)
		}
	}
	h.cmd.Env = append(h.cmd.Env, "SCOUTER_AGENT_HOME="+home, "SCOUTER_CONFIG="+filepath.Join(h.dir, "scouter.conf"))
	h.cmd.Stdout, h.cmd.Stderr = &h.out, &h.out
	if h.in, err = h.cmd.StdinPipe(); err != nil {
		hx.Inconclusive("%v", err)
	}
	if err := h.cmd.Start(); err != nil {
		hx.Inconclusive("%v", err)
	}
	h.exit = make(chan error, 1)
	go func() { h.exit <- h.cmd.Wait() }()
}

var trouble = regexp.MustCompile(`(?m)^(panic: |fatal error: |WARNING: DATA RACE)|\[scouter\]\[panic\]`)

// run plays one plan.
func (h *host) run() (err error) {
	p := h.p
	h.mtime = time.Now().Add(48 * time.Hour)
	h.conf = map[string]string{"obj_name": p.name, "obj_type": p.otype, "net_collector_tcp_so_timeout_ms": "3000", "trace_obj_send": fmt.Sprint(p.trace)}
	h.point()
	if p.late == 0 {
		h.configure()
	}
	c := h.cols[0]
	up := func(f func() error) {
		if e := f(); e != nil {
			hx.Inconclusive("port %d: %v", c.port, e)
		}
	}
	if p.tcpLate == 0 {
		up(c.listen)
	}
	if p.udpLate == 0 {
		up(c.udpUp)
	}
	h.start()
	defer func() {
		h.cmd.Process.Kill()
		for _, c := range h.cols {
			c.refuse()
			c.udpDown()
		}
		os.RemoveAll(h.dir)
	}()
	// at the start
	began := time.Now()
	type ev struct {
		ms int
		f  func()
	}
	evs := []ev{}
	if p.late > 0 {
		evs = append(evs, ev{p.late, h.configure})
	}
	if p.tcpLate > 0 {
		evs = append(evs, ev{p.tcpLate, func() { up(c.listen) }})
	}
	if p.udpLate > 0 {
		evs = append(evs, ev{p.udpLate, func() { up(c.udpUp) }})
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].ms < evs[j].ms })
	if err := h.service("starting", false); err != nil {
		return err
	}
	for _, e := range evs {
		time.Sleep(time.Until(began.Add(time.Duration(e.ms) * time.Millisecond)))
		e.f()
	}
	if err := h.healthy("starting", began); err != nil {
		return err
	}
	for i, s := range p.steps {
		what := fmt.Sprintf("step %d (%v)", i+1, s)
		c := h.cols[h.cur]
		conns := func(f func(k *cconn)) {
			c.mu.Lock()
			defer c.mu.Unlock()
			for _, k := range c.conns {
				if !k.ended {
					f(k)
				}
			}
		}
		switch s.k {
		case "close":
			conns(func(k *cconn) { k.quiet, k.mute = true, true; k.c.Close() })
		case "reset":
			conns(func(k *cconn) { k.quiet, k.mute = true, true; k.c.SetLinger(0); k.c.Close() })
		case "garbage", "half":
			conns(func(k *cconn) { k.quiet = true })
			time.Sleep(600 * time.Millisecond)
			conns(func(k *cconn) { k.c.SetWriteDeadline(time.Now().Add(time.Second)); k.c.Write(s.junk) })
		case "silence":
			conns(func(k *cconn) { k.quiet = true })
		case "refuse":
			c.refuse()
			if err := h.service(what, true); err != nil {
				return err
			}
			time.Sleep(time.Duration(s.n) * time.Millisecond)
			up(c.listen)
		case "gone":
			c.refuse()
			c.udpDown()
			if err := h.service(what, false); err != nil {
				return err
			}
			time.Sleep(time.Duration(s.n) * time.Millisecond)
			up(c.listen)
			up(c.udpUp)
		case "flap":
			c.mu.Lock()
			c.flap = s.n
			c.mu.Unlock()
			conns(func(k *cconn) { k.quiet, k.mute = true, true; k.c.Close() })
		case "udpdown":
			c.udpDown()
			if err := h.service(what, false); err != nil {
				return err
			}
			time.Sleep(time.Duration(s.n) * time.Millisecond)
			up(c.udpUp)
		case "rename":
			h.conf["obj_name"] = s.s
			h.configure()
		case "retype":
			h.conf["obj_type"] = s.s
			h.configure()
		case "move", "move+rename":
			if s.s != "" {
				h.conf["obj_name"] = s.s
			}
			h.cur = 1 - h.cur
			c = h.cols[h.cur]
			if c.ln == nil {
				up(c.listen)
			}
			if c.udp == nil {
				up(c.udpUp)
			}
			h.point()
			h.configure()
		case "service":
			if err := h.service(what, true); err != nil {
				return err
			}
		}
		if err := h.healthy("after "+what, time.Now()); err != nil {
			return err
		}
		if err := h.service("after "+what, true); err != nil {
			return err
		}
	}
	if _, err := io.WriteString(h.in, "quit\n"); err == nil {
		select {
		case e := <-h.exit:
			h.exit <- e
			if e != nil {
				return fmt.Errorf("the process ended: %v; output: %s", e, last(h.out.String()))
			}
		case <-time.After(patience):
			return fmt.Errorf("the process did not end when told to")
		}
	}
	if m := trouble.FindStringIndex(h.out.String()); m != nil {
		s := h.out.String()[m[0]:]
		if len(s) > 3000 {
			s = s[:3000]
		}
		return fmt.Errorf("the agent panicked: %s", s)
	}
	for _, c := range h.cols {
		for _, x := range c.packs {
			if a, ok := x.(*refwire.Alert); ok {
				return fmt.Errorf("the agent sent an alert: %+v", a)
			}
		}
	}
	return nil
}

// nextPort: below the ports the system gives out; nothing else uses this process' addresses.
var nextPort = 10000

func TestC27Reconnect(t *testing.T) {
	hx.Rule("C27 reconnect: a case is one host process that imports the agent and its collector(s), in real time: command port, datagram port or configuration file absent at the start or not, then 1-4 steps out of: connection closed, reset, sent garbage, sent half a command, left silent; port refusing for up to 9 s; accepting and closing up to three times; datagram port gone for a while; both gone; object renamed; type changed; collector moved (address, port or both); both moved and renamed; a service. After each the agent has to have exactly one working command connection with the right hash, be registered, send counters and deliver a service's xlog; at the end it stops normally and has not panicked. Non-trivial: all.")
	hx.Check(t, 1, 20, func(rt *rapid.T) {
		n := rapid.IntRange(hx.Pick(12, 12), 14).Draw(rt, "hosts")
		var hs []*host
		for i := 0; i < n; i++ {
			p := genPlan(rt)
			nextPort += 2
			b := nextPort
			dir := filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("h%d-%d", b, i))
			os.MkdirAll(dir, 0755)
			h := &host{p: p, dir: dir}
			h.cols[0] = &collector{ip: fc.IP, port: b}
			h.cols[1] = []*collector{{ip: fc.IP2, port: b}, {ip: fc.IP, port: b + 1}, {ip: fc.IP2, port: b + 1}}[p.other]
			hs = append(hs, h)
		}
		errs := make([]error, n)
		var wg sync.WaitGroup
		for i, h := range hs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs[i] = h.run()
			}()
		}
		wg.Wait()
		for _, h := range hs {
			hx.Case(h.p.String(), true)
			for _, s := range h.p.steps {
				hx.Label("step " + s.k)
			}
		}
		for i, e := range errs {
			if e != nil {
				rt.Fatalf("host %d (%v): %v", i, hs[i].p, e)
			}
		}
	})
}
