package tcp

import (
	"fmt"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"pgregory.net/rapid"
	"verif/harness/fc"
	"verif/harness/hx"
	"verif/harness/refwire"
	"verif/harness/settings"
)

// settable are the settings changed here: not those of the connection under test itself.
var settable = func() []settings.Setting {
	var l []settings.Setting
	for _, s := range settings.All {
		if !strings.HasPrefix(s.Key, "net_collector") {
			l = append(l, s)
		}
	}
	return l
}()

var announcers = []struct {
	cat string
	f   func(string) int32
}{{"service", netio.SendServiceName}, {"object", netio.SendObjName}, {"referer", netio.SendReferer}, {"ua", netio.SendUserAgent}, {"method", netio.SendMethod},
	{"apicall", netio.SendApicall}, {"error", netio.SendError}, {"login", netio.SendLogin}, {"desc", netio.SendDesc}, {"stackelem", netio.SendStackElement}, {"hmsg", netio.SendHashedMessage}}

type c22op struct {
	k      string
	text   string
	raw    map[string]string // settings the text gives; nil if the text is malformed
	n      int
	future time.Duration
}

func (o c22op) String() string {
	s := o.k
	if o.k == "set" || o.k == "write" {
		s += " " + short(o.text)
		if o.raw == nil {
			s += "(malformed)"
		}
		if o.future != 0 {
			s += fmt.Sprintf(" %+v", o.future)
		}
	}
	if o.k == "use" {
		s += fmt.Sprint(o.n)
	}
	return s
}

func genText(rt *rapid.T) (string, map[string]string) {
	if rapid.IntRange(0, 7).Draw(rt, "bad") == 0 {
		return rapid.SampledFrom([]string{"obj_name=${abc\n", "obj_name=${obj_name}\n", "a=${b}\nb=${a}\nobj_name=zz\n", "=novalue\nobj_name=x\n", "obj_name=x\\u12g4\n"}).Draw(rt, "malformed"), nil
	}
	raw := map[string]string{}
	var lines []string
	ss := rapid.SliceOfNDistinct(rapid.SampledFrom(settable), 0, 8, func(s settings.Setting) string { return s.Key }).Draw(rt, "keys")
	for _, s := range ss {
		if rapid.IntRange(0, 4).Draw(rt, "noise") == 0 {
			lines = append(lines, rapid.SampledFrom([]string{"# comment = x", "! bang", "", "   ", "unrelated_key=zzz", "#obj_name=commented", "# 한글 주석", "#\t\x01\x7f"}).Draw(rt, "comment"))
		}
		v := settings.GenValue(rt, s)
		raw[s.Key] = v
		lines = append(lines, settings.Line(rt, s.Key, v))
	}
	if rapid.IntRange(0, 9).Draw(rt, "long") == 0 {
		n := rapid.SampledFrom([]int{250, 253, 254, 255, 256, 65535, 65536, 90000}).Draw(rt, "len")
		lines = append(lines, "#"+strings.Repeat("c", n))
	}
	text := strings.Join(lines, rapid.SampledFrom([]string{"\n", "\n", "\r\n"}).Draw(rt, "eol"))
	if rapid.Bool().Draw(rt, "lasteol") {
		text += "\n"
	}
	return text, raw
}

func TestC22Configuration(t *testing.T) {
	w := newWorld(t)
	hx.Rule("histories of up to 10 commands that set (in quick succession, malformed, over unwritable files, against file times in the past and future), read and list the configuration, with file edits and text cache resets in between; non-trivial: at least two settings texts of which the last differs from the first, and a listing or reading after one")
	path := os.Getenv("SCOUTER_CONFIG")
	base := map[string]string{}
	for k, v := range w.conf {
		if strings.HasPrefix(k, "net_collector") {
			base[k] = v
			os.Setenv(k, v)
		}
	}
	c := conf.GetInstance()
	n := 0
	edit := time.Now().Add(100 * time.Hour)
	hx.Check(t, 220, 6000, func(rt *rapid.T) {
		var ops []c22op
		for i := rapid.IntRange(1, 10).Draw(rt, "n"); i > 0; i-- {
			o := c22op{k: rapid.SampledFrom([]string{"set", "set", "set", "get", "list", "list", "types", "descs", "write", "block", "reset", "use"}).Draw(rt, "op")}
			switch o.k {
			case "set", "write":
				o.text, o.raw = genText(rt)
				if o.k == "write" {
					o.future = time.Duration(rapid.SampledFrom([]int{0, 0, 3600, 1000000}).Draw(rt, "future")) * time.Second
				}
			case "use":
				o.n = rapid.IntRange(0, len(announcers)-1).Draw(rt, "cat")
			}
			ops = append(ops, o)
		}
		n++
		text := fmt.Sprintf("text %d %d", os.Getpid(), n)
		desc := fmt.Sprint(ops)
		hx.Journal(desc)
		fail := func(f string, a ...any) { rt.Fatalf("%s\n%s", fmt.Sprintf(f, a...), desc) }
		edit = edit.Add(time.Hour)
		place := func(text string, mt time.Time) {
			if err := os.WriteFile(path+".new", []byte(text), 0644); err != nil {
				fail("HARNESS-ERROR %v", err)
			}
			os.Chtimes(path+".new", mt, mt)
			os.RemoveAll(path)
			if err := os.Rename(path+".new", path); err != nil {
				fail("HARNESS-ERROR %v", err)
			}
		}
		place("# start\n", edit)
		c.Refresh()
		file := "# start\n"
		values := map[string]string{}
		apply := func(raw map[string]string) {
			for _, s := range settings.All {
				v := base[s.Key]
				if r := raw[s.Key]; r != "" {
					v = r
				}
				values[s.Key] = s.Want(v)
			}
		}
		apply(nil)
		inForce := func(what string) {
			for _, s := range settings.All {
				if g := s.Got(c); g != values[s.Key] {
					fail("%s: %s is %q, expected %q", what, s.Key, g, values[s.Key])
				}
			}
		}
		inForce("at the start")
		s, err := w.connect()
		if err != nil {
			fail("%v", err)
		}
		defer func() { s.drop() }()
		used := map[string]bool{} // categories in which the text has been announced since the last reset
		announced := map[string]int{}
		sets, seen := 0, false
		var first, last string
		waits := false
		for i, o := range ops {
			what := fmt.Sprintf("operation %d %v", i+1, o)
			switch o.k {
			case "set":
				name := values["obj_name"]
				m, err := s.askMap("SET_CONFIGURE_WAS", "setConfig", o.text)
				if err != nil {
					fail("%s: %v", what, err)
				}
				if !truthy(m["result"]) {
					fail("%s: it reports %v", what, m)
				}
				b, err := os.ReadFile(path)
				if err != nil || string(b) != o.text {
					fail("%s: the file holds %s (%v)", what, short(string(b)), err)
				}
				file = o.text
				if o.raw != nil {
					apply(o.raw)
				}
				inForce(what)
				if sets == 0 {
					first = o.text
				}
				sets++
				last = o.text
				if values["obj_name"] != name { // under the old name the connection ends
					if b, err := s.ended(); err != nil || len(b) > 0 {
						fail("%s: renamed from %q: %v, and %x", what, name, err, b)
					}
					s.drop()
					if s, err = w.connect(); err != nil {
						fail("%s: %v", what, err)
					}
					if s.hash != crc(agentName(values["obj_name"])) {
						fail("%s: the agent comes back with %d", what, s.hash)
					}
				}
			case "write": // someone edits the file
				name := values["obj_name"]
				edit = edit.Add(time.Second)
				place(o.text, edit.Add(o.future))
				edit = edit.Add(o.future)
				c.Refresh()
				file = o.text
				if o.raw != nil {
					apply(o.raw)
				}
				inForce(what)
				if values["obj_name"] != name {
					s.drop()
					if s, err = w.connect(); err != nil {
						fail("%s: %v", what, err)
					}
				}
			case "block": // the file cannot be written
				os.RemoveAll(path)
				if err := os.Mkdir(path, 0755); err != nil {
					fail("HARNESS-ERROR %v", err)
				}
				m, err := s.askMap("SET_CONFIGURE_WAS", "setConfig", "obj_name=never\n")
				if err != nil {
					fail("%s: %v", what, err)
				}
				if truthy(m["result"]) {
					fail("%s: success is reported: %v", what, m)
				}
				if c.ObjNameSimple == "never" {
					fail("%s: it has been applied", what)
				}
				edit = edit.Add(time.Second)
				name := values["obj_name"]
				place("# again\n", edit)
				c.Refresh()
				file = "# again\n"
				apply(nil)
				if values["obj_name"] != name {
					s.drop()
					if s, err = w.connect(); err != nil {
						fail("%s: %v", what, err)
					}
				}
			case "get":
				m, err := s.askMap("GET_CONFIGURE_WAS")
				if err != nil {
					fail("%s: %v", what, err)
				}
				if v := m["agentConfig"]; v.T != refwire.TText || v.S != file {
					fail("%s: it returns %s, the file holds %s", what, short(v.S), short(file))
				}
				ks, err := list(m["configKey"])
				if err != nil || !sameSet(ks, sortedKeys) {
					fail("%s: the keys %v (%v)", what, ks, err)
				}
				seen = seen || sets > 0
			case "list":
				m, err := s.askMap("LIST_CONFIGURE_WAS")
				if err != nil {
					fail("%s: %v", what, err)
				}
				ks, e1 := list(m["key"])
				vs, e2 := list(m["value"])
				ds, e3 := list(m["default"])
				if e1 != nil || e2 != nil || e3 != nil || len(ks) != len(vs) || len(ks) != len(ds) || !sameSet(ks, sortedKeys) {
					fail("%s: %d keys, %d values, %d defaults (%v %v %v)", what, len(ks), len(vs), len(ds), e1, e2, e3)
				}
				at := map[string]int{}
				for j, k := range ks {
					at[k] = j
				}
				for _, st := range settings.All {
					j := at[st.Key]
					if vs[j] != values[st.Key] || ds[j] != st.Def {
						fail("%s: %s is listed with %q, default %q; expected %q, %q", what, st.Key, vs[j], ds[j], values[st.Key], st.Def)
					}
				}
				inForce(what)
				seen = seen || sets > 0
			case "types", "descs":
				cmd := map[string]string{"types": "CONFIGURE_VALUE_TYPE", "descs": "CONFIGURE_DESC"}[o.k]
				m, err := s.askMap(cmd)
				if err != nil {
					fail("%s: %v", what, err)
				}
				if !sameSet(refwire.SortedKeys(m), sortedKeys) {
					fail("%s: keys %v", what, refwire.SortedKeys(m))
				}
				if o.k == "types" {
					for _, st := range settings.All {
						v := m[st.Key]
						ok := v.T == refwire.TDec
						switch st.Kind {
						case 'b':
							ok = ok && v.I == 3
						case 'i', 'z':
							ok = ok && v.I == 2
						default:
							ok = ok && (v.I == 1 || v.I == 4 || v.I == 5)
						}
						if !ok {
							fail("%s: %s has type %v", what, st.Key, v)
						}
					}
				}
			case "reset":
				if _, err := s.askMap("OBJECT_RESET_CACHE", "x", "y"); err != nil {
					fail("%s: %v", what, err)
				}
				used = map[string]bool{}
			case "use":
				a := announcers[o.n]
				if h := a.f(text); h != crc(text) {
					fail("%s: hash %d", what, h)
				}
				if !used[a.cat] {
					announced[a.cat]++
				}
				used[a.cat] = true
				waits = waits || len(announced) > 0
			}
		}
		if err := s.close(); err != nil {
			fail("%v", err)
		}
		if waits {
			if err := w.checkAnnounced(text, announced); err != nil {
				fail("%v", err)
			}
		}
		hx.Case(desc, sets >= 2 && first != last && seen)
	})
}

// checkAnnounced waits for everything queued so far and counts how often the text was announced.
func (w *world) checkAnnounced(text string, want map[string]int) error {
	mark := text + " end"
	d0 := w.udp.Drops()
	netio.SendServiceName(mark)
	deadline := time.Now().Add(patience)
	for {
		ps, err := fc.Packs(w.udp.Peek())
		got := map[string]int{}
		done := false
		for _, p := range ps {
			if r, ok := p.(*refwire.TextRec); ok {
				if r.Text == text && r.Hash == crc(text) {
					got[r.Type]++
				}
				done = done || r.Text == mark
			}
		}
		if done {
			w.udp.Take()
			if w.udp.Drops() != d0 {
				hx.Discard()
				return nil
			}
			for _, a := range announcers {
				if got[a.cat] != want[a.cat] {
					return fmt.Errorf("the text %q was announced %d times as %s, expected %d", text, got[a.cat], a.cat, want[a.cat])
				}
			}
			return nil
		}
		if time.Now().After(deadline) {
			return fmt.Errorf("the queued texts were not sent (%v, %d packs)", err, len(ps))
		}
		time.Sleep(10 * time.Millisecond)
	}
}
