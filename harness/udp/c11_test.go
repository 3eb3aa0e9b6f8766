package udp

import (
	"bytes"
	"container/list"
	"encoding/binary"
	"fmt"
	"sync"
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/udpclient"
	"pgregory.net/rapid"
	"verif/harness/fc"
	"verif/harness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

// fill makes a buffer of n bytes that differs from every other buffer of the case.
func fill(id, n int) []byte {
	b := make([]byte, n)
	x := uint32(id)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	if n >= 8 {
		binary.BigEndian.PutUint32(b, uint32(id))
		binary.BigEndian.PutUint32(b[4:], uint32(n))
	}
	return b
}

func genSize(rt *rapid.T, max int) int {
	n := rapid.OneOf(
		rapid.IntRange(1, 40),
		rapid.Custom(func(t *rapid.T) int { return max + rapid.IntRange(-8, 8).Draw(t, "d") }),
		rapid.Custom(func(t *rapid.T) int {
			return max/rapid.IntRange(2, 5).Draw(t, "q") + rapid.IntRange(-2, 2).Draw(t, "d")
		}),
		rapid.Custom(func(t *rapid.T) int {
			return max*rapid.IntRange(1, 6).Draw(t, "k") + rapid.IntRange(-2, 2).Draw(t, "d")
		}),
		rapid.IntRange(1, 200000),
		rapid.IntRange(1, 3000),
	).Draw(rt, "size")
	if n > 32767*max {
		n = 32767 * max
	}
	if n < 1 {
		n = 1
	}
	return n
}

func genLimit(rt *rapid.T) int {
	return rapid.OneOf(rapid.IntRange(1, 60), rapid.IntRange(60, 3000), rapid.SampledFrom([]int{1, 2, 7, 8, 255, 256, 1400, 1472, 60000, 65000}), rapid.IntRange(3000, 65000)).Draw(rt, "limit")
}

const header = 32 // the frame headers are at most 25 bytes

// checkUnits verifies that units are exactly bufs: large ones fragmented, small ones in order.
func checkUnits(units []fc.Unit, bufs [][]byte, limit int) error {
	var small [][]byte
	large := map[string]int{}
	nl := 0
	for _, b := range bufs {
		if len(b) > limit {
			large[string(b)]++
			nl++
		} else {
			small = append(small, b)
		}
	}
	for _, u := range units {
		if u.Frag > 0 {
			if large[string(u.Body)] == 0 {
				return fmt.Errorf("fragments concatenate to %d bytes that were not sent (or not as often)", len(u.Body))
			}
			large[string(u.Body)]--
			nl--
			continue
		}
		if u.Count < 1 || u.Count > len(small) {
			return fmt.Errorf("frame of %d buffers, %d left to come", u.Count, len(small))
		}
		if want := bytes.Join(small[:u.Count], nil); !bytes.Equal(want, u.Body) {
			return fmt.Errorf("frame of %d buffers has %d bytes that differ from the next %d buffers (%d bytes)", u.Count, len(u.Body), u.Count, len(want))
		}
		small = small[u.Count:]
	}
	if len(small) > 0 || nl > 0 {
		return fmt.Errorf("%d buffers within the limit and %d beyond it did not arrive", len(small), nl)
	}
	return nil
}

// checkWriters verifies that units are exactly what several writers wrote at once, each in its own order.
func checkWriters(units []fc.Unit, writers [][][]byte, limit int) error {
	small := make([][][]byte, len(writers))
	var large [][]byte
	for w, bufs := range writers {
		for _, b := range bufs {
			if len(b) > limit {
				large = append(large, b)
			} else {
				small[w] = append(small[w], b)
			}
		}
	}
next:
	for _, u := range units {
		if u.Frag > 0 {
			for i, b := range large {
				if bytes.Equal(b, u.Body) {
					large = append(large[:i], large[i+1:]...)
					continue next
				}
			}
			return fmt.Errorf("fragments concatenate to %d bytes that were not sent (or not as often)", len(u.Body))
		}
		for w, l := range small {
			if u.Count >= 1 && u.Count <= len(l) && bytes.Equal(bytes.Join(l[:u.Count], nil), u.Body) {
				small[w] = l[u.Count:]
				continue next
			}
		}
		return fmt.Errorf("a frame of %d buffers has %d bytes that no writer is about to send", u.Count, len(u.Body))
	}
	for w, l := range small {
		if len(l) > 0 {
			return fmt.Errorf("%d buffers within the limit of writer %d did not arrive", len(l), w)
		}
	}
	if len(large) > 0 {
		return fmt.Errorf("%d buffers beyond the limit did not arrive", len(large))
	}
	return nil
}

func TestC11Framing(t *testing.T) {
	hx.Rule("limit and a sequence of single buffers and buffer lists, also from several writers at once, of sizes around the limit, its fractions and multiples; non-trivial: some buffer is fragmented or some list spans several frames")
	col, err := fc.NewUDP(0)
	if err != nil {
		t.Fatalf("HARNESS-ERROR %v", err)
	}
	cl := udpclient.New(fc.IP, col.Port)
	pkids := map[int64]bool{} // of all buffers so far
	hx.Check(t, 600, 20000, func(rt *rapid.T) {
		limit := genLimit(rt)
		cl.SetUDPMaxBytes(limit)
		id := 0
		nontriv := false
		desc := fmt.Sprintf("limit=%d", limit)
		for k := rapid.IntRange(1, 4).Draw(rt, "ops"); k > 0; k-- {
			col.Take()
			d0 := col.Drops()
			var bufs [][]byte
			add := func(n int) {
				id++
				bufs = append(bufs, fill(id, n))
			}
			var writers [][][]byte
			single := rapid.Bool().Draw(rt, "single")
			if rapid.IntRange(0, 5).Draw(rt, "atOnce") == 5 {
				single = false
				desc += " at once("
				sum := 0
				for w := rapid.IntRange(2, 6).Draw(rt, "writers"); w > 0; w-- {
					var own [][]byte
					for n := rapid.IntRange(1, 4).Draw(rt, "own"); n > 0 && sum < 1000000 && sum/limit < 20000; n-- {
						z := max(8, min(300000, genSize(rt, limit)))
						z = min(z, 32767*limit)
						sum += z
						desc += fmt.Sprintf(" %d", z)
						id++
						own = append(own, fill(id, z))
					}
					desc += ";"
					writers = append(writers, own)
				}
				desc += ")"
				asList := rapid.Bool().Draw(rt, "asList")
				start := make(chan int)
				var wg sync.WaitGroup
				for _, own := range writers {
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-start
						if asList {
							l := list.New()
							for _, b := range own {
								l.PushBack(append([]byte(nil), b...))
							}
							cl.WriteBufferList(l)
						} else {
							for _, b := range own {
								cl.WriteBuffer(append([]byte(nil), b...))
							}
						}
					}()
				}
				close(start)
				wg.Wait()
			} else if single {
				add(genSize(rt, limit))
				desc += fmt.Sprintf(" one(%d)", len(bufs[0]))
				cl.WriteBuffer(append([]byte(nil), bufs[0]...))
			} else {
				n := rapid.SampledFrom([]int{1, 2, 3, 5, 20, 300, 300, 3000, 40000}).Draw(rt, "n")
				most := limit/3 + 2
				if n >= 300 { // many in a frame as well as many frames
					most = rapid.SampledFrom([]int{1, 3, 20, 300, most}).Draw(rt, "most")
				}
				sum := 0
				desc += " list("
				for i := 0; i < n && sum < 1500000 && sum/limit < 30000; i++ {
					var z int
					if n >= 300 {
						z = 2 + int(uint32(i+n)*2654435761>>8)%most
					} else {
						z = genSize(rt, limit)
					}
					add(z)
					sum += z
					if i < 20 {
						desc += fmt.Sprintf(" %d", z)
					}
				}
				desc += fmt.Sprintf(")x%d", len(bufs))
				l := list.New()
				for _, b := range bufs {
					l.PushBack(append([]byte(nil), b...))
				}
				cl.WriteBufferList(l)
			}
			if err := col.Sync(); err != nil {
				hx.Inconclusive("%v", err)
			}
			grams := col.Take()
			if col.Drops() != d0 {
				hx.Discard()
				continue
			}
			if len(grams) > 1 {
				nontriv = true
			}
			for _, g := range grams {
				if len(g.B) > limit+header {
					rt.Fatalf("a datagram of %d bytes, the limit is %d\n%s", len(g.B), limit, desc)
				}
			}
			units, err := fc.Reassemble(grams)
			for _, u := range units {
				if u.Frag > 0 && pkids[u.Pkid] {
					err = fmt.Errorf("the fragments of a buffer have the packet id %d of an earlier one", u.Pkid)
				}
				if u.Frag > 0 {
					pkids[u.Pkid] = true
				}
			}
			if err == nil && writers != nil {
				nontriv = true
				err = checkWriters(units, writers, limit)
			} else if err == nil {
				err = checkUnits(units, bufs, limit)
			}
			if err == nil && single && len(grams) > 1 && len(bufs[0]) <= limit {
				err = fmt.Errorf("a buffer within the limit came in %d datagrams", len(grams))
			}
			if err != nil {
				rt.Fatalf("%v\n%s", err, desc)
			}
		}
		hx.Case(desc, nontriv)
	})
}
