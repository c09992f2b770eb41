package gen

import (
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"net"
	"net/netip"
	"net/url"
	"reflect"
	"time"
	"unsafe"

	"verifharness/zoo"
)

// Vals fills values. Bad is the one-in-n chance, at each opportunity, of a
// part that JSON cannot represent (0: never).
type Vals struct {
	R     *rand.Rand
	Bad   int
	ASCII bool // strings without invalid UTF-8
	// Label makes what a string token stems from visible in its content:
	// ordinary strings start with Mark, byte slices with "BYT", embedded times
	// are in the year EmbYear.
	Label bool
	// NoRaw leaves raw messages out.
	NoRaw bool

	budget *int // what may still be filled before everything is left empty
}

// Mark starts the ordinary strings of labeled values.
const Mark = "§"

// EmbYear is the year of embedded times of labeled values.
const EmbYear = 1777

// LabeledDoc is like Doc, with the strings that are not keys labeled.
func LabeledDoc(r *rand.Rand, depth int) string {
	n := RandNode(r, depth)
	n.label(r)
	return n.Render(func() string { return WS(r) })
}

func (n *Node) label(r *rand.Rand) {
	if n.Kind == '"' {
		n.Raw = "\"" + Mark + n.Raw[1:]
	}
	for _, k := range n.Kids {
		k.label(r)
	}
}

func (v Vals) bad() bool { return v.Bad > 0 && v.R.IntN(v.Bad) == 0 }

func (v Vals) str() string {
	if v.Label {
		return Mark + Str(v.R)
	}
	if v.ASCII {
		return ValidStr(v.R)
	}
	return Str(v.R)
}

// New makes a random value of type t and returns an addressable handle.
func (v Vals) New(t reflect.Type, depth int) reflect.Value {
	p := reflect.New(t).Elem()
	v.budget = new(int)
	*v.budget = 1500
	v.Fill(p, depth)
	return p
}

var (
	tBigInt   = typ[big.Int]()
	tBigFloat = typ[big.Float]()
	tIP       = typ[net.IP]()
	tAddr     = typ[netip.Addr]()
	tURL      = typ[url.URL]()
	tShape    = typ[zoo.Shape]()
	tErr      = typ[error]()
	tStringer = typ[fmt.Stringer]()
	tMarsh    = typ[json.Marshaler]()
	tIsZero   = typ[zoo.IsZeroI]()
	tMJBad    = typ[zoo.MJBad]()
	tMTErr    = typ[zoo.MTErr]()
	tTM       = typ[encoding.TextMarshaler]()
)

// Fill fills an addressable value.
func (v Vals) Fill(x reflect.Value, depth int) {
	r := v.R
	t := x.Type()
	if v.budget != nil {
		if *v.budget--; *v.budget < 0 {
			depth = -9
		}
	}
	switch t {
	case tTime:
		tm := Time(r)
		if v.bad() {
			tm = BadTime(r)
		}
		x.Set(reflect.ValueOf(tm))
		return
	case tNum, typ[zoo.MyNumber]():
		s := NumberTok(r)
		if Chance(r, 6) {
			s = ""
		}
		if v.bad() {
			s = Pick(r, "x", "1 2", "01", "+1", "1.", ".5", "1e", "-", "NaN", "0x10", " 1", "1 ", "--1", "1_0", "null", "\"1\"", "1,2", "1}", "1e5x", "1.5.6", "1\x00", "0123")
		}
		if t != tNum {
			s = v.str()
		}
		x.SetString(s)
		return
	case tRaw:
		if Chance(r, 8) {
			x.Set(reflect.Zero(t))
			return
		}
		if v.NoRaw {
			x.Set(reflect.Zero(t))
			return
		}
		s := Doc(r, 1+r.IntN(3))
		if v.Label {
			s = LabeledDoc(r, 1+r.IntN(3))
		}
		if v.bad() {
			s = Mutate(r, s)
		}
		x.SetBytes([]byte(s))
		return
	case tBigInt:
		x.Set(reflect.ValueOf(*new(big.Int).Mul(big.NewInt(Int(r)), big.NewInt(Int(r)))))
		return
	case tBigFloat:
		x.Set(reflect.ValueOf(*big.NewFloat(Float64(r))))
		return
	case tIP:
		n := Pick(r, 0, 4, 16)
		if v.bad() {
			n = 5
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.IntN(256))
		}
		x.SetBytes(b)
		return
	case tAddr:
		x.Set(reflect.ValueOf(netip.AddrFrom4([4]byte{byte(r.IntN(256)), 1, 2, byte(r.IntN(256))})))
		return
	case tURL:
		x.Set(reflect.ValueOf(url.URL{Scheme: v.str(), Host: v.str(), Path: v.str()}))
		return
	case tMJBad:
		n := int64(7)
		if v.bad() {
			n = int64(r.IntN(8))
		}
		x.Field(0).SetInt(n)
		return
	case tMTErr:
		n := int64(r.IntN(100))
		if v.bad() {
			n = -1
		}
		x.SetInt(n)
		return
	}
	if Chance(r, 12) {
		x.Set(reflect.Zero(t))
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		x.SetBool(Chance(r, 2))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x.SetInt(Int(r) << (64 - t.Bits()) >> (64 - t.Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		x.SetUint(uint64(Int(r)) << (64 - t.Bits()) >> (64 - t.Bits()))
	case reflect.Float32:
		f := float64(Float32(r))
		if v.bad() {
			f = Pick(r, math.NaN(), math.Inf(1), math.Inf(-1))
		}
		x.SetFloat(f)
	case reflect.Float64:
		f := Float64(r)
		if v.bad() {
			f = Pick(r, math.NaN(), math.Inf(1), math.Inf(-1))
		}
		x.SetFloat(f)
	case reflect.String:
		x.SetString(v.str())
	case reflect.Interface:
		v.fillIface(x, depth)
	case reflect.Pointer:
		if depth <= 0 || Chance(r, 4) {
			x.Set(reflect.Zero(t))
			return
		}
		p := reflect.New(t.Elem())
		v.Fill(p.Elem(), depth-1)
		x.Set(p.Convert(t))
	case reflect.Slice:
		n := v.size(depth)
		if t.Elem().Kind() == reflect.Uint8 && Chance(r, 2) {
			n = r.IntN(20)
			if Chance(r, 40) {
				n = Heavy(r, 20, 8000)
			}
		}
		s := reflect.MakeSlice(t, n, n+r.IntN(3))
		for i := 0; i < n; i++ {
			v.Fill(s.Index(i), depth-1)
		}
		if v.Label && t.Elem().Kind() == reflect.Uint8 {
			s = reflect.MakeSlice(t, 3+n, 3+n)
			for i, c := range "BYT" {
				s.Index(i).SetUint(uint64(c))
			}
			for i := 3; i < 3+n; i++ {
				s.Index(i).SetUint(uint64(r.IntN(256)))
			}
		}
		x.Set(s)
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			v.Fill(x.Index(i), depth-1)
		}
	case reflect.Map:
		m := reflect.MakeMap(t)
		seen := map[string]bool{}
		for n := v.size(depth); n > 0; n-- {
			k := reflect.New(t.Key()).Elem()
			v.Fill(k, 1)
			if t.Key().Kind() == reflect.String && Chance(r, 2) {
				k.SetString(Key(r))
			}
			if !k.Comparable() {
				continue
			}
			ks := KeyText(k)
			if seen[ks] {
				continue
			}
			seen[ks] = true
			e := reflect.New(t.Elem()).Elem()
			v.Fill(e, depth-1)
			m.SetMapIndex(k, e)
		}
		x.Set(m)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			fv := x.Field(i)
			if f.PkgPath != "" {
				if !f.Anonymous || f.Name == "_" {
					continue
				}
				ft := f.Type
				if ft.Kind() == reflect.Pointer {
					ft = ft.Elem()
				}
				if ft.Kind() != reflect.Struct {
					continue
				}
				fv = reflect.NewAt(f.Type, unsafe.Pointer(fv.UnsafeAddr())).Elem()
			}
			d := depth - 1
			if f.Anonymous && f.Type.Kind() == reflect.Pointer && (depth == 1 || depth == 2) {
				d += r.IntN(3) // towards pointers embedded far below
			}
			v.Fill(fv, d)
			if v.Label && f.Anonymous {
				labelTime(fv)
			}
		}
	case reflect.Chan:
		if Chance(r, 2) {
			x.Set(reflect.MakeChan(t, 1))
		}
	}
}

// labelTime moves an embedded time to the year EmbYear.
func labelTime(fv reflect.Value) {
	if fv.Kind() == reflect.Pointer && !fv.IsNil() {
		fv = fv.Elem()
	}
	if fv.Type() == tTime {
		tm := fv.Interface().(time.Time)
		fv.Set(reflect.ValueOf(time.Date(EmbYear, 3, 4, tm.Hour(), 1, 2, tm.Nanosecond(), time.UTC)))
	}
}

func (v Vals) size(depth int) int {
	if depth < -2 {
		return 0
	}
	if depth <= 0 {
		return v.R.IntN(2)
	}
	if Chance(v.R, 150) {
		return Heavy(v.R, 13, 300)
	}
	if Chance(v.R, 3000) {
		return Heavy(v.R, 300, 3000)
	}
	return v.R.IntN(Pick(v.R, 2, 3, 4, 5, 13))
}

// KeyText is the text encoding/json would use to sort a map key.
func KeyText(k reflect.Value) (s string) {
	defer func() {
		if recover() != nil {
			s = "panic"
		}
	}()
	if k.Kind() == reflect.String {
		return k.String()
	}
	if tm, ok := k.Interface().(encoding.TextMarshaler); ok {
		if k.Kind() == reflect.Pointer && k.IsNil() {
			return ""
		}
		b, _ := tm.MarshalText()
		return string(b)
	}
	return fmt.Sprint(k.Interface())
}

var anyTypes = []reflect.Type{
	typ[bool](), typ[int](), typ[float64](), typ[string](), typ[map[string]interface{}](), typ[[]interface{}](), tNum, tRaw, tTime, tDur, tBytes,
	typ[zoo.MJ](), typ[zoo.MT](), typ[*zoo.PMJ](), typ[*zoo.PMT](), typ[zoo.PMJ](), typ[zoo.AddrMix](), typ[zoo.PS1](), typ[*int](), typ[**int](), typ[[]int](), typ[map[string]int](), typ[zoo.List](), typ[*zoo.List](),
	typ[zoo.EmbPtr](), typ[zoo.MJHTML](), typ[zoo.MJSpace](), typ[[1]*int](), typ[zoo.PS4](), typ[zoo.AllOmit](), typ[map[int]string](), typ[uint8](), typ[int64](), typ[float32](), typ[zoo.MyString](), typ[json.RawMessage](), typ[map[string]json.RawMessage](), typ[zoo.MTInt](),
	typ[zoo.StdTypes](), typ[zoo.RecIface](), typ[struct{}](), typ[*time.Time](), typ[*json.RawMessage](), typ[zoo.MJPtrShape](), typ[zoo.PS6](), typ[zoo.EmbUnexp](),
}

func (v Vals) fillIface(x reflect.Value, depth int) {
	r := v.R
	t := x.Type()
	if depth <= 0 || Chance(r, 6) {
		x.Set(reflect.Zero(t))
		return
	}
	var val interface{}
	switch t {
	case tShape:
		if Chance(r, 2) {
			val = zoo.Sq{Side: r.IntN(100)}
		} else {
			val = Pick[interface{}](r, &zoo.Ci{R: 5}, (*zoo.Ci)(nil), &zoo.Sq{Side: 3})
		}
	case tErr:
		val = errors.New(v.str())
	case tStringer:
		val = Pick[interface{}](r, time.Duration(Int(r)), reflect.ValueOf(Time(r)).Interface(), big.NewInt(Int(r)))
	case tMarsh:
		val = Pick[interface{}](r, zoo.MJ{S: v.str(), N: 3}, &zoo.PMJ{S: v.str()}, zoo.MJInt(5), (*zoo.PMJ)(nil), json.RawMessage(`{"b":1,"a":[]}`), Time(r), zoo.MJSpace{N: 1}, zoo.MJHTML{})
		if _, ok := val.(time.Time); ok && v.Label {
			// Through a Marshaler interface a time is the output of a Marshaler.
			val = time.Date(EmbYear, 1, 2, 3, 4, 5, 0, time.UTC)
		}
	case tIsZero:
		val = Pick[interface{}](r, zoo.ZeroM{N: Pick(r, 0, 42)}, &zoo.ZeroM{N: Pick(r, 0, 42)}, time.Time{}, Time(r), (*zoo.ZeroM)(nil), (*zoo.ZeroP)(nil), &zoo.ZeroP{N: Pick(r, 0, 42)}, new(zoo.ZeroI), zoo.ZeroS{1, 2}, zoo.ZeroS(nil))
	default:
		if t.NumMethod() != 0 {
			x.Set(reflect.Zero(t))
			return
		}
		p := reflect.New(anyTypes[r.IntN(len(anyTypes))]).Elem()
		v.Fill(p, depth-1)
		if Chance(r, 6) {
			val = p.Addr().Interface()
		} else {
			val = p.Interface()
		}
		if Chance(r, 250) {
			// Deep.
			for i := Heavy(r, 5, 70); i > 0; i-- {
				switch r.IntN(4) {
				case 0:
					val = []interface{}{val}
				case 1:
					val = map[string]interface{}{"k": val}
				case 2:
					val = []interface{}{nil, val, []interface{}{}}
				case 3:
					next := val
					val = &next
				}
			}
		}
	}
	x.Set(reflect.ValueOf(val))
}
