package trace

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"pgregory.net/rapid"
	"verif/harness/cfg"
	"verif/harness/fc"
	"verif/harness/hx"
)

type custom struct{ A, B int }

// goroutineCase is what a host application's goroutine does.
type goroutineCase struct {
	ctx   int // 0 nil, 1 untraced, 2 traced, 3 ended service, 4 goroutine of a goroutine
	value int
	where int // 0 the function panics, 1 a deferred call of it panics, 2 the host recovers itself, 3 recovers and panics with something else
	calls int // tracing calls before
	noRep bool
}

var panicTexts = []string{
	"panic: boom text", "panic: an error of the host", "panic: (trace.custom)", "panic: assignment to entry in nil map",
	"panic: 42", "panic: runtime error: index out of range [5] with length 0", "panic: runtime error: invalid memory address or nil pointer dereference",
}

func doPanic(i int) {
	switch i {
	case 0:
		panic("boom text")
	case 1:
		panic(errors.New("an error of the host"))
	case 2:
		panic(custom{7, 8})
	case 3:
		var m map[string]int
		m["x"] = 1
	case 4:
		panic(42)
	case 5:
		var l []int
		l[len(os.Args)*0+5] = 1
	case 6:
		var p *custom
		p.A = 1
	}
}

func hostFunction(c goroutineCase, ctx context.Context) {
	for i := 0; i < c.calls; i++ {
		m := strace.StartMethod(ctx)
		a := strace.StartApiCall(ctx, "api", "")
		if i%2 == 0 {
			strace.EndApiCall(ctx, a, nil)
			strace.EndMethod(ctx, m)
		}
		strace.AddMessageStep(ctx, "m")
	}
	switch c.where {
	case 0:
		doPanic(c.value)
	case 1:
		defer doPanic(c.value)
	case 2:
		func() {
			defer func() {
				fmt.Fprintf(os.Stderr, "RECOVERED %v\n", recover() != nil)
				os.Stderr.Sync()
			}()
			doPanic(c.value)
		}()
	case 3:
		defer func() {
			recover()
			panic("second " + strconv.Itoa(c.value))
		}()
		doPanic(c.value)
	}
}

// TestHelperPanic is the host application.
func TestHelperPanic(t *testing.T) {
	var c goroutineCase
	if n, _ := fmt.Sscan(os.Getenv("VERIF_PANIC_CASE"), &c.ctx, &c.value, &c.where, &c.calls, &c.noRep); n != 5 {
		t.Skip("helper")
	}
	u, err := fc.NewUDP(0) // a port of its own: what it sends must not reach the collector of another test
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR", err)
		os.Exit(5)
	}
	cfg.Set(map[string]string{"net_collector_ip": fc.IP, "net_collector_udp_port": strconv.Itoa(u.Port), "net_collector_tcp_port": strconv.Itoa(closedPort())})
	if !c.noRep {
		common.RegisterSendPanicF(netio.SendPanic)
	}
	ctx := base()
	switch c.ctx {
	case 0:
		ctx = nil
	case 2, 3, 4:
		ctx = strace.StartService(ctx, "svc", "")
		if c.ctx == 3 {
			strace.EndService(ctx)
		}
	}
	back := make(chan bool, 1)
	if c.ctx == 4 {
		strace.GoWithTrace(ctx, "outer", func(ctx context.Context) {
			strace.GoWithTrace(ctx, "inner", func(ctx context.Context) { hostFunction(c, ctx); back <- true })
		})
	} else {
		strace.GoWithTrace(ctx, "bg", func(ctx context.Context) { hostFunction(c, ctx); back <- true })
	}
	select {
	case <-back:
		fmt.Fprintln(os.Stderr, "RETURNED")
	case <-time.After(20 * time.Second):
		fmt.Fprintln(os.Stderr, "SURVIVED")
	}
	os.Exit(0)
}

func TestC18Panic(t *testing.T) {
	hx.Rule("host processes whose goroutine functions panic (several values, directly, in a deferred call, recovered by the host itself, replaced by the host) with nil, untraced, traced, ended and nested contexts; non-trivial: the context is traced")
	exe, err := os.Executable()
	if err != nil {
		t.Fatalf("HARNESS-ERROR %v", err)
	}
	hx.Check(t, 25, 300, func(rt *rapid.T) {
		c := goroutineCase{rapid.IntRange(0, 4).Draw(rt, "ctx"), rapid.IntRange(0, len(panicTexts)-1).Draw(rt, "value"),
			rapid.IntRange(0, 3).Draw(rt, "where"), rapid.IntRange(0, 3).Draw(rt, "calls"), rapid.Bool().Draw(rt, "noreporter")}
		desc := fmt.Sprintf("%+v", c)
		hx.Journal(desc)
		cmd := exec.Command(exe, "-test.run=^TestHelperPanic$")
		cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_PANIC_CASE=%d %d %d %d %v", c.ctx, c.value, c.where, c.calls, c.noRep), "VERIF_STATS=", "VERIF_JOURNAL=", "GOTRACEBACK=all")
		var out bytes.Buffer
		cmd.Stderr = &out
		cmd.Run()
		s := out.String()
		code := cmd.ProcessState.ExitCode()
		bad := func(f string, a ...any) {
			rt.Fatalf("%s\n%s\nthe host process ended with %d and said:\n%.3000s", fmt.Sprintf(f, a...), desc, code, s)
		}
		first := ""
		for _, l := range strings.Split(s, "\n") {
			if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") {
				first = l
				break
			}
		}
		switch c.where {
		case 2:
			if code != 0 || !strings.Contains(s, "RECOVERED true") || !strings.Contains(s, "RETURNED") {
				bad("a panic recovered by the host's own function was not seen there, or ended the process")
			}
		case 3:
			// the runtime may also print the first, recovered panic
			if code != 2 || !strings.Contains(s, "panic: second "+strconv.Itoa(c.value)) || strings.Contains(s, "SURVIVED") {
				bad("the host's panic in a goroutine was swallowed or replaced")
			}
		default:
			if code != 2 || !strings.HasPrefix(first, panicTexts[c.value]) || !strings.Contains(s, "trace.doPanic") {
				bad("the host's panic in a goroutine was swallowed or replaced (%q)", first)
			}
		}
		hx.Case(desc, c.ctx >= 2)
	})
}
