// Package refwire is a reference decoder and encoder for the collector's wire format, written from the
// format itself and sharing no code with the agent. It is strict: decimals must be in their shortest
// form, length prefixes must be the shortest that fits, and nothing may be left over.
package refwire

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// Dec reads from b; the first error sticks.
type Dec struct {
	B   []byte
	Off int
	Err error
}

func NewDec(b []byte) *Dec { return &Dec{B: b} }

func (d *Dec) fail(f string, a ...any) {
	if d.Err == nil {
		d.Err = fmt.Errorf("offset %d: %s", d.Off, fmt.Sprintf(f, a...))
	}
}

func (d *Dec) Left() int { return len(d.B) - d.Off }

func (d *Dec) Take(n int) []byte {
	if d.Err != nil {
		return make([]byte, min(n, 8))
	}
	if n < 0 || d.Left() < n {
		d.fail("need %d bytes, have %d", n, d.Left())
		return make([]byte, min(max(n, 0), 8))
	}
	r := d.B[d.Off : d.Off+n]
	d.Off += n
	return r
}

func (d *Dec) U8() byte     { return d.Take(1)[0] }
func (d *Dec) I8() int8     { return int8(d.U8()) }
func (d *Dec) I16() int16   { return int16(binary.BigEndian.Uint16(d.Take(2))) }
func (d *Dec) I32() int32   { return int32(binary.BigEndian.Uint32(d.Take(4))) }
func (d *Dec) I64() int64   { return int64(binary.BigEndian.Uint64(d.Take(8))) }
func (d *Dec) F32() float32 { return math.Float32frombits(binary.BigEndian.Uint32(d.Take(4))) }
func (d *Dec) F64() float64 { return math.Float64frombits(binary.BigEndian.Uint64(d.Take(8))) }

func (d *Dec) Bool() bool {
	b := d.U8()
	if b > 1 {
		d.fail("boolean byte %d", b)
	}
	return b == 1
}

// Decimal reads a length byte (0,1,2,4,8) and that many bytes; the form must be the shortest.
func (d *Dec) Decimal() int64 {
	n := d.U8()
	var v int64
	switch n {
	case 0:
		return 0
	case 1:
		v = int64(d.I8())
	case 2:
		v = int64(d.I16())
	case 4:
		v = int64(d.I32())
	case 8:
		v = d.I64()
	default:
		d.fail("decimal length byte %d", n)
		return 0
	}
	if DecimalLen(v) != int(n) {
		d.fail("decimal %d in %d bytes, shortest is %d", v, n, DecimalLen(v))
	}
	return v
}

func (d *Dec) Decimal32() int32 {
	v := d.Decimal()
	if int64(int32(v)) != v {
		d.fail("decimal %d does not fit 32 bits", v)
	}
	return int32(v)
}

func DecimalLen(v int64) int {
	switch {
	case v == 0:
		return 0
	case v >= -128 && v <= 127:
		return 1
	case v >= -32768 && v <= 32767:
		return 2
	case v >= math.MinInt32 && v <= math.MaxInt32:
		return 4
	}
	return 8
}

func (d *Dec) Blob() []byte {
	n := int(d.U8())
	switch n {
	case 0:
		return []byte{}
	case 255:
		n = int(binary.BigEndian.Uint16(d.Take(2)))
		if n <= 253 {
			d.fail("blob of %d bytes with a 2-byte length", n)
		}
	case 254:
		n = int(d.I32())
		if n <= 65535 {
			d.fail("blob of %d bytes with a 4-byte length", n)
		}
	}
	if n < 0 || n > d.Left() {
		d.fail("blob of %d bytes, have %d", n, d.Left())
		return []byte{}
	}
	return d.Take(n)
}

func (d *Dec) Str() string { return string(d.Blob()) }

// End fails unless everything was consumed.
func (d *Dec) End() error {
	if d.Err == nil && d.Left() != 0 {
		d.fail("%d bytes left over", d.Left())
	}
	return d.Err
}

// ---- values ---------------------------------------------------------------------------------

const (
	TNull  = 0
	TBool  = 10
	TDec   = 20
	TFloat = 30
	TDbl   = 40
	TText  = 50
	THash  = 51
	TBlob  = 60
	TIP4   = 61
	TList  = 70
	TMap   = 80
)

// V is a value of the wire format.
type V struct {
	T    byte
	I    int64
	F    uint64 // float bits (32 or 64)
	S    string // text, blob and address bytes
	L    []V
	Keys []string // map keys, sorted
	M    map[string]V
}

func (d *Dec) Value() V { return d.value(0) }

func (d *Dec) value(depth int) V {
	v := V{T: d.U8()}
	if d.Err != nil {
		return v
	}
	if depth > 200 {
		d.fail("nesting too deep")
		return v
	}
	switch v.T {
	case TNull:
	case TBool:
		if d.Bool() {
			v.I = 1
		}
	case TDec:
		v.I = d.Decimal()
	case TFloat:
		v.F = uint64(math.Float32bits(d.F32()))
	case TDbl:
		v.F = math.Float64bits(d.F64())
	case TText:
		v.S = d.Str()
	case THash:
		v.I = int64(d.I32())
	case TBlob:
		v.S = string(d.Blob())
	case TIP4:
		v.S = string(d.Take(4))
	case TList:
		n := d.Decimal()
		for i := int64(0); i < n && d.Err == nil; i++ {
			v.L = append(v.L, d.value(depth+1))
		}
	case TMap:
		v.M = d.table(depth + 1)
	default:
		d.fail("value type %d", v.T)
	}
	return v
}

func (d *Dec) table(depth int) map[string]V {
	n := d.Decimal()
	m := map[string]V{}
	for i := int64(0); i < n && d.Err == nil; i++ {
		k := d.Str()
		if _, dup := m[k]; dup {
			d.fail("duplicate key %q", k)
		}
		m[k] = d.value(depth)
	}
	return m
}

// Enc builds reference encodings.
type Enc struct{ B []byte }

func (e *Enc) U8(v byte) *Enc    { e.B = append(e.B, v); return e }
func (e *Enc) I16(v int16) *Enc  { e.B = binary.BigEndian.AppendUint16(e.B, uint16(v)); return e }
func (e *Enc) I32(v int32) *Enc  { e.B = binary.BigEndian.AppendUint32(e.B, uint32(v)); return e }
func (e *Enc) I64(v int64) *Enc  { e.B = binary.BigEndian.AppendUint64(e.B, uint64(v)); return e }
func (e *Enc) Raw(b []byte) *Enc { e.B = append(e.B, b...); return e }
func (e *Enc) Decimal(v int64) *Enc {
	n := DecimalLen(v)
	e.U8(byte(n))
	switch n {
	case 1:
		e.U8(byte(v))
	case 2:
		e.I16(int16(v))
	case 4:
		e.I32(int32(v))
	case 8:
		e.I64(v)
	}
	return e
}
func (e *Enc) Blob(b []byte) *Enc {
	switch {
	case len(b) <= 253:
		e.U8(byte(len(b)))
	case len(b) <= 65535:
		e.U8(255).I16(int16(uint16(len(b))))
	default:
		e.U8(254).I32(int32(len(b)))
	}
	return e.Raw(b)
}
func (e *Enc) Str(s string) *Enc { return e.Blob([]byte(s)) }
func (e *Enc) Value(v V) *Enc {
	e.U8(v.T)
	switch v.T {
	case TBool:
		e.U8(byte(v.I))
	case TDec:
		e.Decimal(v.I)
	case TFloat:
		e.I32(int32(uint32(v.F)))
	case TDbl:
		e.I64(int64(v.F))
	case TText, TBlob:
		e.Str(v.S)
	case THash:
		e.I32(int32(v.I))
	case TIP4:
		e.Raw([]byte(v.S))
	case TList:
		e.Decimal(int64(len(v.L)))
		for _, x := range v.L {
			e.Value(x)
		}
	case TMap:
		e.Table(v.M)
	}
	return e
}
func (e *Enc) Table(m map[string]V) *Enc {
	e.Decimal(int64(len(m)))
	for _, k := range SortedKeys(m) {
		e.Str(k)
		e.Value(m[k])
	}
	return e
}

// MapPack encodes a MAP pack with its type byte.
func MapPack(m map[string]V) []byte {
	e := &Enc{}
	e.U8(10).Table(m)
	return e.B
}

func SortedKeys(m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func Text(s string) V { return V{T: TText, S: s} }
func Dec64(i int64) V { return V{T: TDec, I: i} }
func Bool(b bool) V {
	if b {
		return V{T: TBool, I: 1}
	}
	return V{T: TBool}
}

// Equal compares two values (floats by bits).
func Equal(a, b V) bool {
	if a.T != b.T || a.I != b.I || a.F != b.F || a.S != b.S || len(a.L) != len(b.L) || len(a.M) != len(b.M) {
		return false
	}
	for i := range a.L {
		if !Equal(a.L[i], b.L[i]) {
			return false
		}
	}
	for k, x := range a.M {
		y, ok := b.M[k]
		if !ok || !Equal(x, y) {
			return false
		}
	}
	return true
}

func (v V) String() string {
	switch v.T {
	case TNull:
		return "null"
	case TBool:
		return strconv.FormatBool(v.I != 0)
	case TDec:
		return strconv.FormatInt(v.I, 10)
	case TFloat:
		return fmt.Sprintf("f32(%v)", math.Float32frombits(uint32(v.F)))
	case TDbl:
		return fmt.Sprintf("f64(%v)", math.Float64frombits(v.F))
	case TText, TBlob, TIP4:
		s := v.S
		if len(s) > 40 {
			return fmt.Sprintf("%s[%d]%q..", map[byte]string{TText: "text", TBlob: "blob", TIP4: "ip"}[v.T], len(s), s[:20])
		}
		return fmt.Sprintf("%s%q", map[byte]string{TText: "text", TBlob: "blob", TIP4: "ip"}[v.T], s)
	case THash:
		return fmt.Sprintf("hash(%d)", v.I)
	case TList:
		var p []string
		for _, x := range v.L {
			p = append(p, x.String())
		}
		return "[" + strings.Join(p, " ") + "]"
	case TMap:
		var p []string
		for _, k := range SortedKeys(v.M) {
			kk := k
			if len(kk) > 20 {
				kk = fmt.Sprintf("%s..(%d)", kk[:20], len(k))
			}
			p = append(p, fmt.Sprintf("%q:%s", kk, v.M[k]))
		}
		return "{" + strings.Join(p, " ") + "}"
	}
	return fmt.Sprintf("type%d", v.T)
}

// ---- packs ----------------------------------------------------------------------------------

const (
	PMap     = 10
	PXlog    = 21
	PProfile = 26
	PText    = 50
	PPerf    = 60
	PK8s     = 65
	PAlert   = 70
	PObject  = 80
)

type Xlog struct {
	EndTime                                                     int64
	ObjHash, Service                                            int32
	Txid, Caller, Gxid                                          int64
	Elapsed, Error, Cpu, SqlCount, SqlTime                      int32
	Ipaddr                                                      string
	Kbytes, Status                                              int32
	Userid                                                      int64
	UserAgent, Referer, Group, ApicallCount, ApicallTime        int32
	CountryCode                                                 string
	City                                                        int32
	XType                                                       byte
	Login, Desc, WebHash, WebTime                               int32
	HasDump                                                     byte
	ThreadNameHash                                              int32
	Text1, Text2                                                string
	QueuingHostHash, QueuingTime, Queuing2ndHostHash, Queuing2T int32
	Text3, Text4, Text5                                         string
	ProfileCount                                                int32
	B3Mode                                                      bool
	ProfileSize                                                 int32
	DiscardType                                                 byte
	IgnoreGlobalConsequentSampling                              bool
}

type Profile struct {
	Time             int64
	ObjHash, Service int32
	Txid             int64
	Steps            []byte
}

type TextRec struct {
	Type string
	Hash int32
	Text string
}

type Alert struct {
	Time           int64
	Level          byte
	ObjType        string
	ObjHash        int32
	Title, Message string
	Tags           V
}

type Object struct {
	ObjType                   string
	ObjHash                   int32
	ObjName, Address, Version string
	Alive                     bool
	Wakeup                    int64
	Tags                      V
}

// Object2 is the object record of the other layout (site id first, family before the tags).
type Object2 struct {
	SiteID, ObjType           string
	ObjHash                   int32
	ObjName, Address, Version string
	Alive                     bool
	Wakeup                    int64
	Family                    int8
	Tags                      V
}

type Perf struct {
	Time     int64
	ObjName  string
	Timetype int8
	Data     V
}

type K8s struct {
	Time                                                             int64
	SiteID, Cluster, Namespace, Node, Daemon, Deploy, Pod, Container string
	ObjName                                                          string
	Timetype, Level                                                  int8
	Data                                                             V
}

type Map struct{ M V }

// Pack reads one pack including its type byte. Object packs are read in the layout the agent sends.
func (d *Dec) Pack() any {
	t := d.U8()
	if d.Err != nil {
		return nil
	}
	switch t {
	case PXlog:
		b := d.Blob()
		if d.Err != nil {
			return nil
		}
		i := NewDec(b)
		x := &Xlog{}
		x.EndTime = i.Decimal()
		x.ObjHash = i.Decimal32()
		x.Service = i.Decimal32()
		x.Txid = i.I64()
		x.Caller = i.I64()
		x.Gxid = i.I64()
		x.Elapsed = i.Decimal32()
		x.Error = i.Decimal32()
		x.Cpu = i.Decimal32()
		x.SqlCount = i.Decimal32()
		x.SqlTime = i.Decimal32()
		x.Ipaddr = string(i.Blob())
		x.Kbytes = i.Decimal32()
		x.Status = i.Decimal32()
		x.Userid = i.Decimal()
		x.UserAgent = i.Decimal32()
		x.Referer = i.Decimal32()
		x.Group = i.Decimal32()
		x.ApicallCount = i.Decimal32()
		x.ApicallTime = i.Decimal32()
		x.CountryCode = i.Str()
		x.City = i.Decimal32()
		x.XType = i.U8()
		x.Login = i.Decimal32()
		x.Desc = i.Decimal32()
		x.WebHash = i.Decimal32()
		x.WebTime = i.Decimal32()
		x.HasDump = i.U8()
		x.ThreadNameHash = i.Decimal32()
		x.Text1 = i.Str()
		x.Text2 = i.Str()
		x.QueuingHostHash = i.Decimal32()
		x.QueuingTime = i.Decimal32()
		x.Queuing2ndHostHash = i.Decimal32()
		x.Queuing2T = i.Decimal32()
		x.Text3 = i.Str()
		x.Text4 = i.Str()
		x.Text5 = i.Str()
		x.ProfileCount = i.Decimal32()
		x.B3Mode = i.Bool()
		x.ProfileSize = i.Decimal32()
		x.DiscardType = i.U8()
		x.IgnoreGlobalConsequentSampling = i.Bool()
		if err := i.End(); err != nil {
			d.fail("xlog: %v", err)
		}
		return x
	case PProfile:
		p := &Profile{Time: d.Decimal(), ObjHash: d.Decimal32(), Service: d.Decimal32(), Txid: d.I64()}
		p.Steps = d.Blob()
		return p
	case PText:
		r := &TextRec{}
		r.Type = d.Str()
		r.Hash = d.I32()
		r.Text = d.Str()
		return r
	case PAlert:
		a := &Alert{}
		a.Time = d.I64()
		a.Level = d.U8()
		a.ObjType = d.Str()
		a.ObjHash = d.I32()
		a.Title = d.Str()
		a.Message = d.Str()
		a.Tags = d.mapValue()
		return a
	case PObject:
		o := &Object{}
		o.ObjType = d.Str()
		o.ObjHash = d.Decimal32()
		o.ObjName = d.Str()
		o.Address = d.Str()
		o.Version = d.Str()
		o.Alive = d.Bool()
		o.Wakeup = d.Decimal()
		o.Tags = d.mapValue()
		return o
	case PPerf:
		p := &Perf{}
		p.Time = d.I64()
		p.ObjName = d.Str()
		p.Timetype = d.I8()
		p.Data = d.mapValue()
		return p
	case PK8s:
		k := &K8s{}
		k.Time = d.I64()
		k.SiteID = d.Str()
		k.Cluster = d.Str()
		k.Namespace = d.Str()
		k.Node = d.Str()
		k.Daemon = d.Str()
		k.Deploy = d.Str()
		k.Pod = d.Str()
		k.Container = d.Str()
		k.ObjName = d.Str()
		k.Timetype = d.I8()
		k.Level = d.I8()
		k.Data = d.mapValue()
		return k
	case PMap:
		return &Map{V{T: TMap, M: d.table(1)}}
	}
	d.fail("pack type %d", t)
	return nil
}

// ObjectPack2 reads an object pack of the second layout including its type byte.
func (d *Dec) ObjectPack2() *Object2 {
	if t := d.U8(); t != PObject {
		d.fail("pack type %d", t)
	}
	o := &Object2{}
	o.SiteID = d.Str()
	o.ObjType = d.Str()
	o.ObjHash = d.Decimal32()
	o.ObjName = d.Str()
	o.Address = d.Str()
	o.Version = d.Str()
	o.Alive = d.Bool()
	o.Wakeup = d.Decimal()
	o.Family = d.I8()
	o.Tags = d.mapValue()
	return o
}

func (d *Dec) mapValue() V {
	v := d.Value()
	if d.Err == nil && v.T != TMap {
		d.fail("value type %d where a map is due", v.T)
	}
	return v
}

// OnePack reads exactly one pack from b.
func OnePack(b []byte) (any, error) {
	d := NewDec(b)
	p := d.Pack()
	if err := d.End(); err != nil {
		return nil, err
	}
	return p, nil
}

// ---- steps ----------------------------------------------------------------------------------

const (
	SMethod  = 1
	SMessage = 3
	SApi     = 6
	SHashed  = 9
	SDump    = 12
	SAsync   = 14
	SParam   = 17
)

// Step is any profile step; unused fields are zero.
type Step struct {
	T                    byte
	Parent, Index, Start int32
	Cpu0                 int32
	Hash                 int32
	Elapsed, Cpu, Error  int32
	Txid                 int64
	Opt                  byte
	Addr                 string
	Msg                  string
	Time, Value          int32
	Level                int32
	Params               string
	Stacks               []int32
	ThreadID, LockOwner  int64
	Names                [4]string
}

// Step reads one step including its type byte.
func (d *Dec) Step() Step {
	s := Step{T: d.U8()}
	s.Parent = d.Decimal32()
	s.Index = d.Decimal32()
	s.Start = d.Decimal32()
	s.Cpu0 = d.Decimal32()
	switch s.T {
	case SMethod:
		s.Hash = d.Decimal32()
		s.Elapsed = d.Decimal32()
		s.Cpu = d.Decimal32()
	case SMessage:
		s.Msg = d.Str()
	case SApi:
		s.Txid = d.Decimal()
		s.Hash = d.Decimal32()
		s.Elapsed = d.Decimal32()
		s.Cpu = d.Decimal32()
		s.Error = d.Decimal32()
		s.Opt = d.U8()
		if s.Opt == 1 {
			s.Addr = d.Str()
		}
	case SHashed:
		s.Hash = d.Decimal32()
		s.Time = d.Decimal32()
		s.Value = d.Decimal32()
	case SAsync:
		s.Txid = d.Decimal()
		s.Hash = d.Decimal32()
		s.Elapsed = d.Decimal32()
		s.Opt = d.U8()
	case SParam:
		s.Hash = d.Decimal32()
		s.Elapsed = d.Decimal32()
		s.Level = d.Decimal32()
		s.Params = d.Str()
	case SDump:
		n := int(d.I16())
		for i := 0; i < n && d.Err == nil; i++ {
			s.Stacks = append(s.Stacks, d.I32())
		}
		s.ThreadID = d.I64()
		s.Names[0] = d.Str()
		s.Names[1] = d.Str()
		s.LockOwner = d.I64()
		s.Names[2] = d.Str()
		s.Names[3] = d.Str()
	default:
		d.fail("step type %d", s.T)
	}
	return s
}

// Steps reads all steps of a profile.
func Steps(b []byte) ([]Step, error) {
	d := NewDec(b)
	var out []Step
	for d.Err == nil && d.Left() > 0 {
		out = append(out, d.Step())
	}
	return out, d.Err
}

// ---- UDP framing ----------------------------------------------------------------------------

// Frame is one datagram, parsed.
type Frame struct {
	Kind  string // CAFE, CAFN, CAFM
	Count int    // CAFN
	Body  []byte // CAFE, CAFN: packs
	Pkid  int64  // CAFM
	Total int
	Num   int
	Size  int // datagram size
}

// ParseFrame parses a datagram.
func ParseFrame(b []byte) (Frame, error) {
	if len(b) < 4 {
		return Frame{}, errors.New("datagram shorter than its magic")
	}
	f := Frame{Kind: string(b[:4]), Size: len(b)}
	d := NewDec(b)
	d.Off = 4
	switch f.Kind {
	case "CAFE":
		f.Body = b[4:]
	case "CAFN":
		f.Count = int(d.I16())
		if d.Err == nil {
			f.Body = b[6:]
		}
	case "CAFM":
		d.I32()
		f.Pkid = d.I64()
		f.Total = int(d.I16())
		f.Num = int(d.I16())
		f.Body = d.Blob()
		d.End()
	default:
		return f, fmt.Errorf("datagram magic %q", f.Kind)
	}
	return f, d.Err
}
