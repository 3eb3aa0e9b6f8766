// Package fc is a fake collector: it receives the agent's datagrams, puts fragments together and decodes
// the packs with the independent decoder.
package fc

import (
	"encoding/hex"
	"errors"
	"fmt"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/harness/refwire"
)

// UDP receives datagrams on a loopback port.
type UDP struct {
	IP   string
	Port int
	conn *net.UDPConn

	mu     sync.Mutex
	grams  []Gram
	syncs  map[string]chan struct{}
	seq    int
	closed bool
}

// Gram is one datagram as received.
type Gram struct {
	B  []byte
	At time.Time
}

const syncMagic = "VSYN"

// NewUDP starts receiving on a free loopback port (or the given one).
func NewUDP(port int) (*UDP, error) { return NewUDPAt(IP, port) }

// IP and IP2 are loopback addresses for the collectors of this process: nothing that another process sends
// to a port of 127.0.0.1 which has changed hands can reach them.
var IP, IP2 = pidIP(64), pidIP(192)

func pidIP(base int) string {
	p := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d", base+p>>16&62, p>>8&255, p&255)
}

// NewUDPAt is NewUDP at another loopback address.
func NewUDPAt(ip string, port int) (*UDP, error) {
	c, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.ParseIP(ip), Port: port})
	if err != nil {
		return nil, err
	}
	if rc, err := c.SyscallConn(); err == nil {
		rc.Control(func(fd uintptr) {
			if syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, 33 /* SO_RCVBUFFORCE */, 256<<20) != nil {
				syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 4<<20)
			}
		})
	}
	u := &UDP{conn: c, IP: ip, Port: c.LocalAddr().(*net.UDPAddr).Port, syncs: map[string]chan struct{}{}}
	go u.read()
	return u, nil
}

func (u *UDP) read() {
	buf := make([]byte, 70000)
	for {
		n, _, err := u.conn.ReadFromUDP(buf)
		if err != nil {
			if errors.Is(err, net.ErrClosed) {
				return
			}
			continue // an ICMP error of some earlier exchange
		}
		b := append([]byte(nil), buf[:n]...)
		u.mu.Lock()
		if len(b) > 4 && string(b[:4]) == syncMagic {
			if c := u.syncs[string(b)]; c != nil {
				close(c)
				delete(u.syncs, string(b))
			}
		} else {
			u.grams = append(u.grams, Gram{b, time.Now()})
		}
		u.mu.Unlock()
	}
}

// Close stops receiving.
func (u *UDP) Close() { u.conn.Close() }

// Sync returns once everything sent to the port before the call has been received.
func (u *UDP) Sync() error {
	for try := 0; try < 5; try++ {
		u.mu.Lock()
		u.seq++
		k := fmt.Sprintf("%s%d", syncMagic, u.seq)
		c := make(chan struct{})
		u.syncs[k] = c
		u.mu.Unlock()
		s, err := net.DialUDP("udp4", nil, &net.UDPAddr{IP: net.ParseIP(u.IP), Port: u.Port})
		if err != nil {
			return err
		}
		s.Write([]byte(k))
		s.Close()
		select {
		case <-c:
			return nil
		case <-time.After(20 * time.Second):
		}
	}
	return errors.New("collector does not receive")
}

// Drops is how many datagrams the kernel has dropped at this port.
func (u *UDP) Drops() int {
	b, err := os.ReadFile("/proc/net/udp")
	if err != nil {
		return 0
	}
	ip := net.ParseIP(u.IP).To4()
	want := fmt.Sprintf("%02X%02X%02X%02X:%04X", ip[3], ip[2], ip[1], ip[0], u.Port)
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 13 && f[1] == want {
			n, _ := strconv.Atoi(f[12])
			return n
		}
	}
	return 0
}

// Take returns and forgets the datagrams received so far.
func (u *UDP) Take() []Gram {
	u.mu.Lock()
	defer u.mu.Unlock()
	g := u.grams
	u.grams = nil
	return g
}

// Peek returns the datagrams received so far.
func (u *UDP) Peek() []Gram {
	u.mu.Lock()
	defer u.mu.Unlock()
	return append([]Gram(nil), u.grams...)
}

// Unit is what one frame carried: the bytes of one buffer, or of several one after the other.
type Unit struct {
	Body  []byte
	Count int // buffers in Body: 1, or the batch's count
	Frag  int // fragments it came in, 0 if unfragmented
	Pkid  int64 // the packet id of the fragments
}

// Reassemble parses datagrams and joins fragments. Every fragment must arrive exactly once.
// Units come in the order in which they became complete.
func Reassemble(grams []Gram) ([]Unit, error) {
	type part struct {
		total int
		got   map[int][]byte
	}
	parts := map[int64]*part{}
	var order []int64
	var out []Unit
	for i, g := range grams {
		f, err := refwire.ParseFrame(g.B)
		if err != nil {
			return nil, fmt.Errorf("datagram %d (%d bytes, %s..): %v", i, len(g.B), hex.EncodeToString(g.B[:min(len(g.B), 24)]), err)
		}
		switch f.Kind {
		case "CAFE":
			out = append(out, Unit{Body: f.Body, Count: 1})
		case "CAFN":
			out = append(out, Unit{Body: f.Body, Count: f.Count})
		case "CAFM":
			p := parts[f.Pkid]
			if p == nil {
				p = &part{total: f.Total, got: map[int][]byte{}}
				parts[f.Pkid] = p
				order = append(order, f.Pkid)
			}
			if p.total != f.Total || f.Num < 0 || f.Num >= f.Total {
				return nil, fmt.Errorf("fragment %d of %d of packet %d, which has %d", f.Num, f.Total, f.Pkid, p.total)
			}
			if _, dup := p.got[f.Num]; dup {
				return nil, fmt.Errorf("fragment %d of packet %d arrived twice", f.Num, f.Pkid)
			}
			p.got[f.Num] = f.Body
			if len(p.got) == p.total {
				var b []byte
				for k := 0; k < p.total; k++ {
					b = append(b, p.got[k]...)
				}
				out = append(out, Unit{Body: b, Count: 1, Frag: p.total, Pkid: f.Pkid})
				delete(parts, f.Pkid)
			}
		}
	}
	for _, id := range order {
		if p := parts[id]; p != nil {
			return out, fmt.Errorf("packet %d incomplete: %d of %d fragments", id, len(p.got), p.total)
		}
	}
	return out, nil
}

// Packs decodes every pack of the datagrams.
func Packs(grams []Gram) ([]any, error) {
	units, err := Reassemble(grams)
	if err != nil {
		return nil, err
	}
	var out []any
	for _, u := range units {
		d := refwire.NewDec(u.Body)
		for k := 0; k < u.Count; k++ {
			p := d.Pack()
			if d.Err != nil {
				return out, fmt.Errorf("pack %d of %d in %d bytes (%s..): %v", k+1, u.Count, len(u.Body), hex.EncodeToString(u.Body[:min(len(u.Body), 40)]), d.Err)
			}
			out = append(out, p)
		}
		if err := d.End(); err != nil {
			return out, fmt.Errorf("after %d packs: %v", u.Count, err)
		}
	}
	return out, nil
}
