package props

import (
	"encoding/json"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	jc "github.com/neilotoole/jsoncolor"

	"verifharness/gen"
	"verifharness/mon"
	"verifharness/zoo"
)

func init() {
	register(&mon.Prop{ID: "C16",
		Rule: "values of random and hand-written types are encoded, decoded and encoded again, under random flags, indentation and colors (removed before decoding); what encoding/json's own round trip preserves must be preserved; numbers, strings and keys of all kinds must survive exactly in every position; non-trivial: distinct by type and encoding",
		Run:  runC16})
}

// wrapped holds a value of type T in every kind of place.
type wrapped[T any] struct {
	A T
	B *T
	C []T
	D [2]T
	E map[string]T
	F T `json:",omitempty"`
	G interface{}
	H struct{ X T }
	J map[string][]*T
}

func wrap[T any](x T) wrapped[T] {
	y := x
	return wrapped[T]{A: x, B: &y, C: []T{x, x}, D: [2]T{x, x}, E: map[string]T{"k": x}, F: x, H: struct{ X T }{x}, J: map[string][]*T{"j": {&y, nil}}}
}

type quoted[T any] struct {
	A T  `json:",string"`
	B *T `json:"b,string"`
	C T  `json:",omitempty,string"`
}

type intKeys[K comparable] struct{ M map[K]int }

// rt encodes x, decodes it into a new value of its type and compares.
func rt[T any](w *mon.W, x T) {
	b, err := jc.Marshal(x)
	if err != nil {
		w.Fatalf("Marshal(%#v): %v", x, err)
	}
	var y T
	if err := jc.Unmarshal(b, &y); err != nil {
		w.Fatalf("Unmarshal(%s) into %T: %v", q(b), y, err)
	}
	if dx, dy := dump(reflect.ValueOf(&x).Elem()), dump(reflect.ValueOf(&y).Elem()); dx != dy {
		w.Fatalf("%s becomes %s through %s", cut(dx, 1500), cut(dy, 1500), q(b))
	}
	w.Count("exact round trips", 1)
}

func rtAll[T comparable](w *mon.W, x T) {
	rt(w, x)
	// Members with omitempty lose the sign of -0.
	if f := reflect.ValueOf(x); f.CanFloat() && f.Float() == 0 && math.Signbit(f.Float()) {
		rt(w, []T{x})
		rt(w, map[string]*T{"": &x})
		return
	}
	switch w.R.IntN(6) {
	case 0:
		rt(w, wrap(x))
	case 1:
		rt(w, quoted[T]{x, &x, x})
	}
}

func rtInt[T comparable](w *mon.W, x T) {
	rtAll(w, x)
	if gen.Chance(w.R, 4) {
		rt(w, intKeys[T]{map[T]int{x: 1}})
	}
}

func runC16(c *mon.Ctx) {
	ts, zs := decodable(typePool(c, 1400)), decodable(zoo.Types())
	for _, x := range []struct {
		name string
		ts   []reflect.Type
	}{{"pool", ts}, {"zoo", zs}} {
		c.Workload(x.name, c.N(40000, 12), func(w *mon.W) {
			t := pickType(w.R, x.ts)
			v := gen.Vals{R: w.R, ASCII: gen.Chance(w.R, 2)}.New(t, 1+w.R.IntN(4))
			s := randSettings(w)
			s.flags = gen.Pick(w.R, 0, jc.SortMapKeys, jc.EscapeHTML, jc.SortMapKeys|jc.EscapeHTML|jc.TrustRawMessage)
			if s.indented && !wsOnly(s.prefix+s.indent) {
				s.prefix, s.indent = "\t", "  "
			}
			in := v.Addr().Interface()
			note := func() {
				w.Note("type %s value %s", cut(t.String(), 600), shortDump(v))
				w.Note("flags %b indented %v %q %q", s.flags, s.indented, s.prefix, s.indent)
			}
			// What encoding/json makes of it.
			b0, err0 := json.Marshal(in)
			if err0 != nil {
				return
			}
			x0 := reflect.New(t)
			err0 = json.Unmarshal(b0, x0.Interface())
			// What is to be checked.
			raw, err := s.encode(w.R.IntN(2), in, s.clrs)
			if err != nil {
				note()
				w.Fatalf("encoding fails: %v", err)
			}
			b := strip(raw)
			x1 := reflect.New(t)
			err = jc.Unmarshal(b, x1.Interface())
			if (err == nil) != (err0 == nil) {
				if durExt(t, err0) && err == nil || err0 == nil && hasQuoted(t, map[reflect.Type]bool{}) && oddNumber(string(b0)) {
					return
				}
				note()
				w.Fatalf("decoding %s: %v; encoding/json: %v", q(b), err, err0)
			}
			if err != nil {
				w.Count("encodings which do not decode", 1)
				return
			}
			// Raw messages show the indentation.
			raws := false
			if s.indented {
				y := reflect.New(t)
				raws = json.Unmarshal(b, y.Interface()) != nil || same(v, x0.Elem()) && !same(v, y.Elem())
			}
			if !raws && same(v, x0.Elem()) {
				if !same(v, x1.Elem()) {
					note()
					w.Fatalf("decoding %s gives another value: %s", q(b), shortDump(x1.Elem()))
				}
				w.Count("values equal after the round trip", 1)
			}
			b00, err00 := json.Marshal(x0.Interface())
			if err00 == nil && string(b00) == string(b0) {
				b2, err2 := jc.Append(nil, x1.Interface(), jc.SortMapKeys|jc.EscapeHTML, nil, nil)
				b1, err1 := jc.Append(nil, in, jc.SortMapKeys|jc.EscapeHTML, nil, nil)
				if err1 != nil || err2 != nil || !sameEnc(b1, b2) {
					note()
					w.Fatalf("encoded again: %s err=%v, first: %s err=%v", q(b2), err2, q(b1), err1)
				}
				w.Count("encodings equal after the round trip", 1)
			}
			w.Distinct(t.String(), b)
			if w.WantSample() {
				w.Sample("%s: %s", cut(t.String(), 150), cut(string(b), 250))
			}
		})
	}
	bits := func(w *mon.W) uint64 {
		switch w.R.IntN(5) {
		case 0:
			return w.R.Uint64() >> w.R.IntN(64)
		case 1:
			return 1<<w.R.IntN(64) + uint64(w.R.IntN(3)) - 1
		case 2:
			p := uint64(1)
			for k := w.R.IntN(20); k > 0; k-- {
				p *= 10
			}
			return p + uint64(w.R.IntN(3)) - 1
		}
		return w.R.Uint64()
	}
	c.Workload("integers", c.N(10000, 30), func(w *mon.W) {
		for k := 0; k < 20; k++ {
			u := bits(w)
			if gen.Chance(w.R, 2) {
				u = -u
			}
			rtInt(w, int64(u))
			rtInt(w, u)
			rtInt(w, int32(u))
			rtInt(w, uint32(u))
			rtInt(w, int16(u))
			rtInt(w, uint16(u))
			rtInt(w, int8(u))
			rtInt(w, uint8(u))
			rtInt(w, int(u))
			rtInt(w, uint(u))
			rtInt(w, uintptr(u))
			rt(w, time.Duration(u))
			// As a Number the text is preserved.
			var n interface{}
			if _, err := jc.Parse([]byte(strconv.FormatUint(u, 10)), &n, jc.UseNumber); err != nil || n != json.Number(strconv.FormatUint(u, 10)) {
				w.Fatalf("%d as a Number: %v err=%v", u, n, err)
			}
		}
	})
	float := func(w *mon.W, f float64) {
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return
		}
		rtAll(w, f)
		b, _ := jc.Marshal(f)
		var x interface{}
		if err := jc.Unmarshal(b, &x); err != nil {
			w.Fatalf("decoding %s: %v", q(b), err)
		}
		if y := x.(float64); math.Float64bits(y) != math.Float64bits(f) {
			w.Fatalf("%v (%x) becomes %v through %s", f, math.Float64bits(f), y, q(b))
		}
		// All spellings of it are read alike.
		for _, s := range []string{strconv.FormatFloat(f, 'e', -1, 64), strconv.FormatFloat(f, 'f', -1, 64), strconv.FormatFloat(f, 'E', 30, 64)} {
			var y float64
			if err := jc.Unmarshal([]byte(s), &y); err != nil || math.Float64bits(y) != math.Float64bits(f) {
				w.Fatalf("%s is read as %v, err=%v", s, y, err)
			}
		}
	}
	c.Workload("floats", c.N(8000, 40), func(w *mon.W) {
		for k := 0; k < 20; k++ {
			float(w, math.Float64frombits(bits(w)))
			float(w, gen.Float64(w.R))
			f := math.Float32frombits(uint32(bits(w)))
			if f == f && !math.IsInf(float64(f), 0) {
				rtAll(w, f)
			}
			// Around the exponents at which the format changes.
			p := math.Pow(10, float64(gen.Pick(w.R, -7, -6, 20, 21, 22, -5)))
			x := p
			for k := w.R.IntN(4); k > 0; k-- {
				x = math.Nextafter(x, gen.Pick(w.R, math.Inf(1), math.Inf(-1)))
			}
			float(w, x)
			rtAll(w, float32(p))
		}
	})
	c.Workload("strings", c.N(20000, 12), func(w *mon.W) {
		for k := 0; k < 10; k++ {
			s := gen.ValidStr(w.R)
			if gen.Chance(w.R, 3) {
				s = strings.Repeat(string(rune(w.R.IntN(0x800))), w.R.IntN(20)) + s
			}
			if !utf8.ValidString(s) {
				s = strings.ToValidUTF8(s, "?")
			}
			rtAll(w, s)
			rtAll(w, zoo.MyString(s))
			rt(w, map[string]string{s: s})
			rt(w, []byte(s))
			rt(w, interface{}(map[string]interface{}{s: []interface{}{s, nil, true, 1.5}}))
		}
	})
	// Every code point, in text and keys.
	c.Workload("code-points", 0x110000/1024, func(w *mon.W) {
		for r := rune(w.Index * 1024); r < rune(w.Index*1024+1024); r++ {
			if !utf8.ValidRune(r) {
				continue
			}
			s := string(r)
			if r%2 == 0 {
				s = "a" + s + "\\" + s
			}
			b, err := jc.Append(nil, map[string]string{s: s}, jc.AppendFlags(r)&jc.EscapeHTML, nil, nil)
			var m map[string]string
			if err == nil {
				err = jc.Unmarshal(b, &m)
			}
			if err != nil || len(m) != 1 || m[s] != s {
				w.Fatalf("U+%04X: %s becomes %v, err=%v", r, q(b), m, err)
			}
			w.Count("code points", 1)
		}
	})
	c.Workload("times", c.N(20000, 12), func(w *mon.W) {
		t := gen.Time(w.R)
		rt(w, t)
		rt(w, map[string]time.Time{"t": t})
		rt(w, []*time.Time{&t, nil})
		rt(w, struct {
			T time.Time
			U *time.Time `json:",omitempty"`
		}{t, &t})
	})
	c.MustObserve("values equal after the round trip", 15000)
	c.MustObserve("encodings equal after the round trip", 30000)
	c.MustObserve("exact round trips", 3000000)
	c.MustObserve("code points", 1100000)
}
