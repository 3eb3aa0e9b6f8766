package tcp

import (
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"runtime"
	"runtime/pprof"
	"strconv"
	"strings"
)

// profile is what a profile file says: for each function the number of events of the samples it is in.
type profile struct {
	events map[string]int64
	total  int
}

type pbuf struct {
	b   []byte
	err error
}

func (p *pbuf) varint() uint64 {
	var v uint64
	for i := 0; i < 10; i++ {
		if len(p.b) == 0 {
			p.err = io.ErrUnexpectedEOF
			return 0
		}
		c := p.b[0]
		p.b = p.b[1:]
		v |= uint64(c&127) << (7 * i)
		if c < 128 {
			return v
		}
	}
	p.err = errors.New("a varint of more than 10 bytes")
	return 0
}

// fields calls f for each field of a message; n holds numbers, b length-delimited contents.
func fields(b []byte, f func(num int, n uint64, b []byte)) error {
	p := &pbuf{b: b}
	for len(p.b) > 0 && p.err == nil {
		k := p.varint()
		switch k & 7 {
		case 0:
			n := p.varint()
			if p.err == nil {
				f(int(k>>3), n, nil)
			}
		case 2:
			n := p.varint()
			if p.err != nil || n > uint64(len(p.b)) {
				return errors.New("a message is cut off")
			}
			f(int(k>>3), 0, p.b[:n])
			p.b = p.b[n:]
		default:
			return fmt.Errorf("wire type %d", k&7)
		}
	}
	return p.err
}

func numbers(n uint64, b []byte) ([]uint64, error) {
	if b == nil {
		return []uint64{n}, nil
	}
	p := &pbuf{b: b}
	var l []uint64
	for len(p.b) > 0 && p.err == nil {
		l = append(l, p.varint())
	}
	return l, p.err
}

// internal tells the contention of the runtime's own locks, which go's profile of mutexes has too:
// an unlock can be on the stack of such an event as well.
func internal(kind, leaf string) bool { return kind == "mutex" && strings.HasPrefix(leaf, "runtime.") }

// parseBinary reads a profile in the pprof format.
func parseBinary(b []byte, kind string) (*profile, error) {
	z, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, fmt.Errorf("a profile of %d bytes: %v", len(b), err)
	}
	raw, err := io.ReadAll(z)
	if err != nil {
		return nil, fmt.Errorf("a profile of %d bytes: %v", len(b), err)
	}
	if len(raw) == 0 {
		return nil, errors.New("an empty profile")
	}
	var strs []string
	fn := map[uint64]uint64{}    // function -> name
	loc := map[uint64][]uint64{} // location -> functions
	type sample struct{ locs, vals []uint64 }
	var samples []sample
	var bad error
	note := func(err error) {
		if bad == nil {
			bad = err
		}
	}
	note(fields(raw, func(num int, _ uint64, b []byte) {
		switch num {
		case 2:
			var s sample
			note(fields(b, func(num int, n uint64, b []byte) {
				l, err := numbers(n, b)
				note(err)
				switch num {
				case 1:
					s.locs = append(s.locs, l...)
				case 2:
					s.vals = append(s.vals, l...)
				}
			}))
			samples = append(samples, s)
		case 4:
			var id uint64
			var fs []uint64
			note(fields(b, func(num int, n uint64, b []byte) {
				switch num {
				case 1:
					id = n
				case 4:
					note(fields(b, func(num int, n uint64, _ []byte) {
						if num == 1 {
							fs = append(fs, n)
						}
					}))
				}
			}))
			loc[id] = fs
		case 5:
			var id, name uint64
			note(fields(b, func(num int, n uint64, _ []byte) {
				switch num {
				case 1:
					id = n
				case 2:
					name = n
				}
			}))
			fn[id] = name
		case 6:
			strs = append(strs, string(b))
		}
	}))
	if bad != nil {
		return nil, bad
	}
	p := &profile{events: map[string]int64{}, total: len(samples)}
	for _, s := range samples {
		if len(s.vals) == 0 {
			return nil, errors.New("a sample without values")
		}
		seen := map[string]bool{}
		if len(s.locs) > 0 && len(loc[s.locs[0]]) > 0 {
			if f := loc[s.locs[0]][0]; fn[f] < uint64(len(strs)) && internal(kind, strs[fn[f]]) {
				continue
			}
		}
		for _, l := range s.locs {
			for _, f := range loc[l] {
				if fn[f] >= uint64(len(strs)) {
					return nil, errors.New("a function without a name")
				}
				if n := strs[fn[f]]; !seen[n] {
					seen[n] = true
					p.events[n] += int64(s.vals[0])
				}
			}
		}
	}
	return p, nil
}

// parseText reads a profile in the text format of blocking and contention.
func parseText(text, kind string) (*profile, error) {
	if !strings.HasPrefix(text, "--- "+kind+":\n") {
		return nil, fmt.Errorf("a text profile of %d bytes begins with %.40q", len(text), text)
	}
	if !strings.HasSuffix(text, "\n") {
		return nil, fmt.Errorf("a text profile of %d bytes ends with %q", len(text), text[max(0, len(text)-40):])
	}
	p := &profile{events: map[string]int64{}}
	var n int64
	seen := map[string]bool{}
	for _, l := range strings.Split(text, "\n")[1:] {
		f := strings.Fields(l)
		switch {
		case len(f) >= 3 && f[2] == "@":
			var err error
			if n, err = strconv.ParseInt(f[1], 10, 64); err != nil {
				return nil, fmt.Errorf("the line %q", l)
			}
			if len(f) > 3 {
				if pc, err := strconv.ParseUint(strings.TrimPrefix(f[3], "0x"), 16, 64); err == nil {
					fr, _ := runtime.CallersFrames([]uintptr{uintptr(pc)}).Next()
					if internal(kind, fr.Function) {
						n = 0
					}
				}
			}
			seen = map[string]bool{}
			p.total++
		case len(f) >= 3 && f[0] == "#" && strings.HasPrefix(f[1], "0x"):
			name, _, ok := strings.Cut(f[2], "+0x")
			if ok && !seen[name] {
				seen[name] = true
				p.events[name] += n
			}
		case strings.HasPrefix(l, "cycles/second="), strings.HasPrefix(l, "sampling period="), l == "", l[0] == '#':
		default:
			return nil, fmt.Errorf("the line %q", l)
		}
	}
	return p, nil
}

// ownProfile reads a profile of the runtime.
func ownProfile(kind, header string) (*profile, error) {
	var b bytes.Buffer
	if err := pprof.Lookup(kind).WriteTo(&b, 1); err != nil {
		return nil, err
	}
	return parseText(b.String(), header)
}
