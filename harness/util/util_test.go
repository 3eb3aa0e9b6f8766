package util

import (
	"bufio"
	"bytes"
	"fmt"
	"hash/crc32"
	"math"
	"math/big"
	"net/netip"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util/keygen"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

func TestMain(m *testing.M) {
	if s := os.Getenv("VERIF_CHILD_IDS"); s != "" {
		n, _ := strconv.Atoi(s)
		w := bufio.NewWriter(os.Stdout)
		for i := 0; i < n; i++ {
			fmt.Fprintln(w, keygen.Next())
		}
		w.Flush()
		os.Exit(0)
	}
	hx.Main(m)
}

var i64s = rapid.OneOf(rapid.SampledFrom([]int64{0, 1, -1, 31, 32, 33, -31, -32, -33, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, math.MaxInt32, math.MinInt32, 1 << 40, -(1 << 40)}), rapid.Int64(), rapid.Int64Range(-2000, 2000))

// ---- C05 ------------------------------------------------------------------------------------

func TestC05Hash(t *testing.T) {
	hx.Rule("hash: random byte strings of 0..5000 bytes, single-byte changes of them, compared with CRC-32/IEEE as a signed number; non-trivial = at least 2 bytes")
	hx.Check(t, 6000, 300000, func(rt *rapid.T) {
		var b []byte
		if rapid.IntRange(0, 9).Draw(rt, "long") == 0 {
			b = bytes.Repeat(rapid.SliceOfN(rapid.Byte(), 1, 7).Draw(rt, "p"), rapid.IntRange(1, 700).Draw(rt, "n"))
		} else {
			b = rapid.SliceOfN(rapid.Byte(), 0, 80).Draw(rt, "b")
		}
		in := append([]byte(nil), b...)
		want := int32(crc32.ChecksumIEEE(b))
		hx.Case(fmt.Sprintf("hash %q", b), len(b) >= 2)
		if h := util.Hash(b); h != want {
			rt.Fatalf("Hash(%q)=%d want %d", b, h, want)
		}
		if h := util.HashString(string(b)); h != want {
			rt.Fatalf("HashString(%q)=%d want %d", b, h, want)
		}
		if !bytes.Equal(in, b) {
			rt.Fatalf("Hash changed its argument")
		}
	})
}

func TestC05IDText(t *testing.T) {
	hx.Rule("id text: random and boundary 64-bit ids rendered and parsed back exactly; pairs of ids render differently exactly when they differ; non-trivial = an id of more than one digit")
	hx.Check(t, 6000, 300000, func(rt *rapid.T) {
		id := i64s.Draw(rt, "id")
		s := util.IntToXlogString32(id)
		hx.Case(fmt.Sprintf("id %d %s", id, s), id > 31 || id < -31)
		if len(s) < 2 || (s[0] != 'x' && s[0] != 'z') || (s[0] == 'z') != (id < 0) {
			rt.Fatalf("text of %d is %q", id, s)
		}
		m, ok := new(big.Int).SetString(s[1:], 32)
		if !ok || m.Sign() < 0 || strings.ContainsAny(s[1:], "+-_") || s[1:] != m.Text(32) {
			rt.Fatalf("text of %d is %q: not a base-32 magnitude", id, s)
		}
		if id < 0 {
			m.Neg(m)
		}
		if m.Cmp(big.NewInt(id)) != 0 {
			rt.Fatalf("text of %d is %q, which means %v", id, s, m)
		}
		o := i64s.Draw(rt, "other")
		if (util.IntToXlogString32(o) == s) != (o == id) {
			rt.Fatalf("texts of %d and %d: %q, %q", id, o, s, util.IntToXlogString32(o))
		}
	})
}

func refIP(s string) [4]byte {
	var r [4]byte
	p := strings.Split(s, ".")
	if len(p) != 4 {
		return r
	}
	for i, x := range p {
		if x == "" {
			return [4]byte{}
		}
		n := 0
		for _, c := range []byte(x) {
			if c < '0' || c > '9' {
				return [4]byte{}
			}
			n = n*10 + int(c-'0')
			if n > 255 {
				return [4]byte{}
			}
		}
		r[i] = byte(n)
	}
	return r
}

func leadingZero(s string) bool {
	for _, x := range strings.Split(s, ".") {
		if len(x) > 1 && x[0] == '0' && strings.Trim(x, "0123456789") == "" {
			return true
		}
	}
	return false
}

func TestC05Address(t *testing.T) {
	hx.Rule("address: dotted IPv4 addresses, near misses (octets out of range, signs, spaces, hex, missing, extra or empty parts, IPv6) and random text, compared with a reference parser; results of earlier calls must stay unchanged; non-trivial = contains a dot")
	prev := map[string][]byte{}
	hx.Check(t, 6000, 300000, func(rt *rapid.T) {
		var s string
		switch rapid.IntRange(0, 4).Draw(rt, "kind") {
		case 0, 1:
			b := rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(rt, "b")
			s = netip.AddrFrom4([4]byte(b)).String()
		case 2:
			n := rapid.OneOf(rapid.Just(4), rapid.IntRange(1, 6)).Draw(rt, "parts")
			var ps []string
			for i := 0; i < n; i++ {
				ps = append(ps, rapid.SampledFrom([]string{"0", "1", "10", "127", "255", "256", "300", "999", "-1", "+1", "", " 1", "1 ", "a", "0x1", "0b1", "0o7", "1_0", "012", "007", "09", "00", "1e1", "99999999999999999999", "192", "168"}).Draw(rt, "part"))
			}
			s = strings.Join(ps, ".")
		case 3:
			s = rapid.SampledFrom([]string{"", "::1", "fe80::1", "localhost", "1.2.3.4:80", "1,2,3,4", "....", "...", "1.2.3.4.", ".1.2.3.4", "1.2.3.4\n"}).Draw(rt, "odd")
		default:
			s = rapid.StringOfN(rapid.SampledFrom([]rune("0123456789.. :-")), 0, 20, -1).Draw(rt, "text")
		}
		want := refIP(s)
		if strings.Contains(s, "+") { // the statement does not say whether "+1" is an octet
			return
		}
		hx.Case("ip "+s, strings.Contains(s, "."))
		got := util.IpToBytes(s)
		if leadingZero(s) {
			// nor whether "010" is one; if it is, then ten
			if !bytes.Equal(got, want[:]) && !bytes.Equal(got, make([]byte, 4)) {
				rt.Fatalf("IpToBytes(%q)=%v want %v or 0.0.0.0", s, got, want)
			}
			return
		}
		if !bytes.Equal(got, want[:]) {
			rt.Fatalf("IpToBytes(%q)=%v want %v", s, got, want)
		}
		prev[s] = got
		if len(prev) > 200 {
			for k, v := range prev {
				w := refIP(k)
				if !bytes.Equal(v, w[:]) {
					rt.Fatalf("the bytes returned for %q became %v", k, v)
				}
			}
			clear(prev)
		}
	})
}

func TestC05Duration(t *testing.T) {
	hx.Rule("duration: non-negative seconds up to 10^12, boundaries of days/hours/minutes emphasised, parsed back and summed; non-trivial = at least an hour")
	hx.Check(t, 4000, 100000, func(rt *rapid.T) {
		n := rapid.OneOf(rapid.Int64Range(0, 200000), rapid.Int64Range(0, 1000000000000), rapid.Custom(func(t *rapid.T) int64 {
			return max(0, rapid.Int64Range(0, 400).Draw(t, "d")*86400+rapid.Int64Range(0, 23).Draw(t, "h")*3600+rapid.Int64Range(0, 59).Draw(t, "m")*60+rapid.SampledFrom([]int64{-1, 0, 1, 59}).Draw(t, "s"))
		})).Draw(rt, "seconds")
		s := util.GetDuration(n)
		hx.Case("duration "+strconv.FormatInt(n, 10), n >= 3600)
		var d, h, m, sec int64
		if c, err := fmt.Sscanf(s, "%dD %dH %dM %dS", &d, &h, &m, &sec); c != 4 || err != nil || s != fmt.Sprintf("%dD %dH %dM %dS", d, h, m, sec) {
			rt.Fatalf("%d seconds rendered as %q", n, s)
		}
		if h < 0 || h > 23 || m < 0 || m > 59 || sec < 0 || sec > 59 || d < 0 || d*86400+h*3600+m*60+sec != n {
			rt.Fatalf("%d seconds rendered as %q", n, s)
		}
	})
}

// ---- C06 ------------------------------------------------------------------------------------

// idSet is a hash set of non-negative ids, emptied when it gets full.
type idSet struct {
	table []int64 // id+1
	n     int
}

func newIDSet(bits int) *idSet { return &idSet{table: make([]int64, 1<<bits)} }

func (s *idSet) add(id int64) bool {
	if s.n > len(s.table)*3/4 {
		clear(s.table)
		s.n = 0
	}
	key := int64(uint64(id) + 1)
	for h := uint64(id) * 0x9E3779B97F4A7C15 >> 20; ; h++ {
		p := &s.table[h&uint64(len(s.table)-1)]
		if *p == key {
			return false
		}
		if *p == 0 {
			*p = key
			s.n++
			return true
		}
	}
}

func TestC06Within(t *testing.T) {
	hx.Rule("within a process: 1..32 goroutines draw 1000..200000 ids each at once; all non-negative and distinct over the whole run; non-trivial = at least two goroutines")
	seen := newIDSet(hx.Pick(25, 27))
	hx.Check(t, 16, 120, func(rt *rapid.T) {
		g := rapid.SampledFrom([]int{1, 2, 2, 3, 4, 8, 8, 16, 32}).Draw(rt, "goroutines")
		n := rapid.OneOf(rapid.IntRange(1000, 200000), rapid.IntRange(100000, 200000)).Draw(rt, "ids")
		if g*n > 1600000 {
			n = 1600000 / g
		}
		procs := rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(rt, "procs")
		hx.Case(fmt.Sprintf("%d goroutines x %d ids on %d processors", g, n, procs), g >= 2)
		old := runtime.GOMAXPROCS(procs)
		defer runtime.GOMAXPROCS(old)
		out := make([][]int64, g)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := range out {
			wg.Add(1)
			go func() {
				defer wg.Done()
				ids := make([]int64, 0, n)
				<-start
				for j := 0; j < n; j++ {
					ids = append(ids, keygen.Next())
				}
				out[i] = ids
			}()
		}
		close(start)
		wg.Wait()
		for _, ids := range out {
			for _, id := range ids {
				if id < 0 {
					rt.Fatalf("id %d is negative", id)
				}
				if !seen.add(id) {
					rt.Fatalf("id %d was generated twice (%d goroutines)", id, g)
				}
			}
		}
	})
}

func TestC06Across(t *testing.T) {
	hx.Rule("across processes: 2..16 agent processes started together draw 500 ids each; no id occurs twice over all processes of the run; non-trivial = all")
	self, err := os.Executable()
	if err != nil {
		t.Fatalf("HARNESS-ERROR %v", err)
	}
	owner := map[int64]string{}
	round := 0
	hx.Check(t, 12, 60, func(rt *rapid.T) {
		p := rapid.IntRange(2, 16).Draw(rt, "processes")
		round++
		hx.Case(fmt.Sprintf("round %d: %d processes", round, p), true)
		outs := make([]bytes.Buffer, p)
		cmds := make([]*exec.Cmd, p)
		for i := range cmds {
			cmds[i] = exec.Command(self)
			cmds[i].Env = append(os.Environ(), "VERIF_CHILD_IDS=500")
			cmds[i].Stdout = &outs[i]
		}
		for _, c := range cmds {
			if err := c.Start(); err != nil {
				hx.Inconclusive("start: %v", err)
			}
		}
		for _, c := range cmds {
			if err := c.Wait(); err != nil {
				hx.Inconclusive("child: %v", err)
			}
		}
		for i := range outs {
			me := fmt.Sprintf("process %d of round %d", i, round)
			for _, l := range strings.Fields(outs[i].String()) {
				id, err := strconv.ParseInt(l, 10, 64)
				if err != nil {
					hx.Inconclusive("child output %q", l)
				}
				if id < 0 {
					rt.Fatalf("id %d is negative", id)
				}
				if o, dup := owner[id]; dup {
					rt.Fatalf("id %d was generated by %s and by %s", id, o, me)
				}
				owner[id] = me
			}
		}
	})
}

// ---- C07 ------------------------------------------------------------------------------------

// refMatch: '*' is any run, everything else itself.
func refMatch(p, s string) bool {
	// dynamic programming over bytes
	row := make([]bool, len(s)+1)
	row[0] = true
	for i := 0; i < len(p); i++ {
		if p[i] == '*' {
			for j := 1; j <= len(s); j++ {
				row[j] = row[j] || row[j-1]
			}
			continue
		}
		for j := len(s); j >= 1; j-- {
			row[j] = row[j-1] && s[j-1] == p[i]
		}
		row[0] = false
	}
	return row[len(s)]
}

func refList(list, s string) bool {
	if s == "" {
		return false
	}
	for _, p := range strings.Split(list, ",") {
		if p != "" && refMatch(p, s) {
			return true
		}
	}
	return false
}

var word = rapid.OneOf(rapid.StringOfN(rapid.SampledFrom([]rune("ab")), 1, 3, -1), rapid.StringOfN(rapid.SampledFrom([]rune("ab/")), 1, 5, -1), rapid.SampledFrom([]string{"/api", "/order", "GET", "<GET>", "/", "..", "한글", " ", "a b", "?", "[a]", "\\", "svc"}))

func genPattern(t *rapid.T) (string, []string, string) {
	x, y := word.Draw(t, "x"), word.Draw(t, "y")
	if rapid.IntRange(0, 3).Draw(t, "same") == 0 {
		y = x
	}
	shape := rapid.SampledFrom([]string{"x", "x*", "*x", "*x*", "x*y", "*x*y", "x*y*", "*x*y*", "*", "**"}).Draw(t, "shape")
	p := strings.NewReplacer("x", x, "y", y).Replace(shape)
	return p, []string{x, y}, shape
}

func TestC07Lists(t *testing.T) {
	hx.Rule("pattern list: 0..5 entries of the ten supported shapes over a small alphabet (so that overlaps, repeats and partial matches are common) and realistic names, some entries empty; names assembled from the entries' own parts, their prefixes, overlaps and random text; compared with a byte-wise reference matcher; non-trivial = a non-empty name and an entry with a wildcard")
	hx.Check(t, 20000, 1000000, func(rt *rapid.T) {
		n := rapid.IntRange(0, 5).Draw(rt, "entries")
		var ps []string
		parts := []string{"a", "b", "x"}
		wild := false
		for i := 0; i < n; i++ {
			if rapid.IntRange(0, 9).Draw(rt, "empty") == 0 {
				ps = append(ps, "")
				continue
			}
			p, xs, shape := genPattern(rt)
			hx.Label("shape " + shape)
			wild = wild || strings.Contains(p, "*")
			ps = append(ps, p)
			parts = append(parts, xs...)
			for _, x := range xs {
				if len(x) > 1 {
					parts = append(parts, x[1:], x[:len(x)-1])
				}
			}
		}
		list := strings.Join(ps, ",")
		m := util.NewCommaSeparatedChainedStrMatcher(list)
		for k := 0; k < 6; k++ {
			var s string
			switch rapid.IntRange(0, 4).Draw(rt, "name") {
			case 0:
				s = word.Draw(rt, "w")
			case 1:
				if n > 0 {
					s = strings.ReplaceAll(ps[rapid.IntRange(0, n-1).Draw(rt, "of")], "*", rapid.SampledFrom([]string{"", "", "a", "ab", "zz", "*"}).Draw(rt, "fill"))
				}
			default:
				s = strings.Join(rapid.SliceOfN(rapid.SampledFrom(parts), 0, 5).Draw(rt, "parts"), "")
			}
			want := refList(list, s)
			hx.Case(fmt.Sprintf("%q ~ %q = %v", list, s, want), s != "" && wild)
			if want {
				hx.Label("match")
			} else {
				hx.Label("no match")
			}
			if got := m.IsMatch(s); got != want {
				rt.Fatalf("list %q, name %q: match=%v want %v", list, s, got, want)
			}
			if n == 1 {
				// a list of one entry twice, or with an empty entry, means the same
				for _, l2 := range []string{list + "," + list, "," + list, list + ","} {
					m2 := util.NewCommaSeparatedChainedStrMatcher(l2)
					if m2.IsMatch(s) != want {
						rt.Fatalf("list %q, name %q: match=%v want %v", l2, s, !want, want)
					}
				}
			}
		}
	})
}
