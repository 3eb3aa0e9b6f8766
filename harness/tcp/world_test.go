package tcp

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/tcpclient"
	"pgregory.net/rapid"
	"verif/harness/cfg"
	"verif/harness/fc"
	"verif/harness/hx"
	"verif/harness/refwire"
)

func TestMain(m *testing.M) {
	if len(os.Args) > 1 && os.Args[1] == "dumphost" {
		dumpHost()
		return
	}
	hx.Main(m)
}

func crc(s string) int32 {
	if s == "" {
		return 0
	}
	return int32(crc32.ChecksumIEEE([]byte(s)))
}

func agentName(simple string) string {
	h, err := os.Hostname()
	if err != nil {
		h = "unknown"
	}
	return "/" + h + "/" + simple
}

// patience is how long an agent may take for what it should do at once.
const patience = 25 * time.Second

// world is a collector: its command port and its datagram port.
type world struct {
	ln   *net.TCPListener
	udp  *fc.UDP
	conf map[string]string
}

func newWorld(t *testing.T) *world {
	ln, err := net.ListenTCP("tcp4", &net.TCPAddr{IP: net.ParseIP(fc.IP)})
	if err != nil {
		t.Fatalf("HARNESS-ERROR %v", err)
	}
	u, err := fc.NewUDP(0)
	if err != nil {
		t.Fatalf("HARNESS-ERROR %v", err)
	}
	w := &world{ln: ln, udp: u}
	w.conf = map[string]string{"net_collector_ip": fc.IP, "net_collector_udp_port": strconv.Itoa(u.Port),
		"net_collector_tcp_port": strconv.Itoa(ln.Addr().(*net.TCPAddr).Port), "obj_name": "vt"}
	cfg.Set(w.conf)
	return w
}

func (w *world) with(m map[string]string) map[string]string {
	c := map[string]string{}
	for k, v := range w.conf {
		c[k] = v
	}
	for k, v := range m {
		c[k] = v
	}
	return c
}

// session is one connection of the agent.
type session struct {
	c       *net.TCPConn
	done    chan error // what Process returned
	began   time.Time
	hash    int32
	lastCmd time.Time // when the last answered command was sent
}

// connect has the agent connect and identify itself.
func (w *world) connect() (*session, error) { return w.connectThen(nil) }

// connectThen is connect with something happening after the agent has connected and before it works on the connection.
func (w *world) connectThen(between func()) (*session, error) {
	s := &session{done: make(chan error, 1), began: time.Now()}
	prepared := make(chan bool, 1)
	go func() {
		a := &tcpclient.TCPClient{}
		ok := a.Prepare()
		prepared <- ok
		if ok {
			if between != nil {
				between()
			}
			s.done <- a.Process()
		}
	}()
	w.ln.SetDeadline(time.Now().Add(patience))
	c, err := w.ln.AcceptTCP()
	if err != nil {
		select {
		case ok := <-prepared:
			return nil, fmt.Errorf("the agent did not connect (prepared: %v)", ok)
		default:
			return nil, errors.New("the agent did not connect")
		}
	}
	s.c = c
	b, err := s.read(8)
	if err != nil {
		c.Close()
		return nil, fmt.Errorf("the agent did not identify itself: %v (%x)", err, b)
	}
	if m := binary.BigEndian.Uint32(b); m != 0xCAFE1002 {
		c.Close()
		return nil, fmt.Errorf("the agent began with %x", b)
	}
	s.hash = int32(binary.BigEndian.Uint32(b[4:]))
	s.lastCmd = s.began
	return s, nil
}

func (s *session) read(n int) ([]byte, error) {
	b := make([]byte, n)
	s.c.SetReadDeadline(time.Now().Add(patience))
	k, err := io.ReadFull(s.c, b)
	return b[:k], err
}

// record is one continuation record of an answer: a pack or a blob.
type record struct {
	pack any
	blob []byte
}

// answer reads one answer. stream says that its records are blobs.
func (s *session) answer(stream bool) ([]record, error) {
	var rs []record
	for {
		b, err := s.read(1)
		if err != nil {
			return rs, fmt.Errorf("no end marker after %d records: %w", len(rs), err)
		}
		switch b[0] {
		case 4:
			return rs, nil
		case 3:
		default:
			return rs, fmt.Errorf("a record starting with %d after %d records", b[0], len(rs))
		}
		var n uint32
		if !stream {
			if b, err = s.read(4); err != nil {
				return rs, err
			}
			n = binary.BigEndian.Uint32(b)
		} else {
			if b, err = s.read(1); err != nil {
				return rs, err
			}
			switch b[0] {
			case 255:
				if b, err = s.read(2); err != nil {
					return rs, err
				}
				n = uint32(binary.BigEndian.Uint16(b))
			case 254:
				if b, err = s.read(4); err != nil {
					return rs, err
				}
				n = binary.BigEndian.Uint32(b)
			default:
				n = uint32(b[0])
			}
		}
		if n > 64<<20 {
			return rs, fmt.Errorf("a record of %d bytes", n)
		}
		if b, err = s.read(int(n)); err != nil {
			return rs, err
		}
		if stream {
			rs = append(rs, record{blob: b})
			continue
		}
		p, err := refwire.OnePack(b)
		if err != nil {
			return rs, fmt.Errorf("record %d: %v", len(rs)+1, err)
		}
		rs = append(rs, record{pack: p})
	}
}

// one expects an answer of exactly one map pack.
func one(rs []record) (map[string]refwire.V, error) {
	if len(rs) != 1 {
		return nil, fmt.Errorf("an answer of %d records", len(rs))
	}
	m, ok := rs[0].pack.(*refwire.Map)
	if !ok {
		return nil, fmt.Errorf("the answer is a %T", rs[0].pack)
	}
	return m.M.M, nil
}

// request encodes a command.
func request(cmd string, param []byte) []byte {
	body := (&refwire.Enc{}).Str(cmd).Raw(param).B
	return (&refwire.Enc{}).I32(int32(len(body))).Raw(body).B
}

func mapParam(kv ...any) []byte {
	m := map[string]refwire.V{}
	for i := 0; i < len(kv); i += 2 {
		switch v := kv[i+1].(type) {
		case string:
			m[kv[i].(string)] = refwire.Text(v)
		case int64:
			m[kv[i].(string)] = refwire.Dec64(v)
		case refwire.V:
			m[kv[i].(string)] = v
		default:
			panic("HARNESS-ERROR parameter type")
		}
	}
	return refwire.MapPack(m)
}

// send writes b in the given pieces.
func (s *session) send(b []byte, cuts []int, pause time.Duration) error {
	s.c.SetWriteDeadline(time.Now().Add(patience))
	for _, n := range cuts {
		if n >= len(b) {
			break
		}
		if _, err := s.c.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
		if pause > 0 {
			time.Sleep(pause)
		}
	}
	_, err := s.c.Write(b)
	return err
}

// ask sends a command and returns its answer.
func (s *session) ask(cmd string, param []byte, stream bool) ([]record, error) {
	at := time.Now()
	if err := s.send(request(cmd, param), nil, 0); err != nil {
		return nil, fmt.Errorf("%s: %w", cmd, err)
	}
	rs, err := s.answer(stream)
	if err != nil {
		return rs, fmt.Errorf("%s: %w", cmd, err)
	}
	s.lastCmd = at
	return rs, nil
}

func (s *session) askMap(cmd string, kv ...any) (map[string]refwire.V, error) {
	rs, err := s.ask(cmd, mapParam(kv...), false)
	if err != nil {
		return nil, err
	}
	m, err := one(rs)
	if err != nil {
		err = fmt.Errorf("%s: %v", cmd, err)
	}
	return m, err
}

// ended waits for the agent to end the connection and returns what it still sent.
func (s *session) ended() ([]byte, error) {
	s.c.SetReadDeadline(time.Now().Add(patience))
	b, err := io.ReadAll(s.c)
	var ne net.Error
	if errors.As(err, &ne) && ne.Timeout() {
		return b, errors.New("the agent keeps the connection")
	}
	select {
	case <-s.done:
		return b, nil
	case <-time.After(patience):
		return b, errors.New("the agent closed the connection and still works on it")
	}
}

// close ends the session from this side; nothing more may come.
func (s *session) close() error {
	s.c.CloseWrite()
	b, err := s.ended()
	s.c.Close()
	if err == nil && len(b) > 0 {
		err = fmt.Errorf("%d bytes after the last answer: %x", len(b), b[:min(len(b), 40)])
	}
	return err
}

// drop closes whatever the state.
func (s *session) drop() {
	if s != nil && s.c != nil {
		s.c.SetLinger(0)
		s.c.Close()
	}
}

func isReset(err error) bool {
	return errors.Is(err, syscall.ECONNRESET) || errors.Is(err, syscall.EPIPE) || errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF)
}

func genCuts(rt *rapid.T) []int {
	switch rapid.IntRange(0, 3).Draw(rt, "cut") {
	case 0:
		return nil
	case 1:
		return rapid.SliceOfN(rapid.IntRange(1, 40), 1, 12).Draw(rt, "cuts")
	case 2:
		n := rapid.IntRange(5, 60).Draw(rt, "single")
		c := make([]int, n)
		for i := range c {
			c[i] = 1
		}
		return c
	}
	return rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 4, 5, 8, 100, 1000, 1460, 4096}), 1, 8).Draw(rt, "cuts")
}

func list(v refwire.V) ([]string, error) {
	if v.T != refwire.TList {
		return nil, fmt.Errorf("not a list: %v", v)
	}
	var l []string
	for _, x := range v.L {
		switch x.T {
		case refwire.TText:
			l = append(l, x.S)
		case refwire.TDec:
			l = append(l, strconv.FormatInt(x.I, 10))
		default:
			return nil, fmt.Errorf("a list element %v", x)
		}
	}
	return l, nil
}

func short(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%.60q...(%d)", s, len(s))
	}
	return strconv.Quote(s)
}

func hasNothing(b []byte) bool { return len(bytes.TrimSpace(b)) == 0 }

func truthy(v refwire.V) bool {
	return v.T == refwire.TBool && v.I == 1 || v.T == refwire.TText && strings.EqualFold(v.S, "true")
}
