package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"reflect"
	"runtime"
	"strings"
	"sync/atomic"
	"unsafe"

	jc "github.com/neilotoole/jsoncolor"

	"verifharness/gen"
	"verifharness/mon"
	"verifharness/zoo"
)

func init() {
	register(&mon.Prop{ID: "C15",
		Rule: "inputs, strings, destinations, values and targets placed against inaccessible pages or between canaries; values of every layout used by the instrumented code while garbage collections run and stacks move; each result compared with encoding/json's; builds with checkptr, with the address sanitizer and with a collector that overwrites what it frees; non-trivial: distinct by type and data",
		Run:  runC15})
}

var pagePool = make(chan *pages, 256)

func takePages() *pages {
	select {
	case p := <-pagePool:
		return p
	default:
		return newPages(4)
	}
}

func (p *pages) giveBack() {
	p.rw()
	pagePool <- p
}

// rw makes the pages writable.
func (p *pages) rw() {
	p.protect(p.mid, 3)
}

// room returns writable memory of n bytes at the end or the start of the pages,
// or nil if there is not enough.
func (p *pages) room(n, align int, atStart bool) unsafe.Pointer {
	p.rw()
	for i := range p.mid {
		p.mid[i] = 0
	}
	if n == 0 || n > len(p.mid) {
		return nil
	}
	off := 0
	if !atStart {
		off = (len(p.mid) - n) / align * align
	}
	return unsafe.Pointer(&p.mid[off])
}

// flat makes types without pointers.
func flatType(r *rand.Rand, depth int) reflect.Type {
	scalars := []interface{}{false, int8(0), uint8(0), int16(0), uint16(0), int32(0), uint32(0), float32(0), int64(0), uint64(0), float64(0), 0, uint(0), uintptr(0),
		zoo.MTByte(0), zoo.MTInt(0), zoo.MJByte(0), zoo.MyInt16(0), zoo.MyBool(false), [0]int{}, struct{}{}}
	k := r.IntN(8)
	switch {
	case depth <= 0 || k < 3:
		return reflect.TypeOf(scalars[r.IntN(len(scalars))])
	case k < 5:
		return reflect.ArrayOf(r.IntN(5), flatType(r, depth-1))
	}
	var fs []reflect.StructField
	for n := r.IntN(5); n >= 0; n-- {
		f := reflect.StructField{Name: "F" + string(rune('A'+len(fs))), Type: flatType(r, depth-1)}
		switch k := f.Type.Kind(); {
		case gen.Chance(r, 4):
			f.Tag = `json:",omitempty"`
		case gen.Chance(r, 4) && k != reflect.Struct && k != reflect.Array:
			f.Tag = `json:",string"`
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

// leaves finds the strings and byte slices in an addressable value.
func leaves(v reflect.Value, depth int, f func(reflect.Value)) {
	if depth > 12 || !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.String:
		f(v)
	case reflect.Pointer:
		if !v.IsNil() {
			leaves(v.Elem(), depth+1, f)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			f(v)
			return
		}
		for i := 0; i < v.Len(); i++ {
			leaves(v.Index(i), depth+1, f)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			leaves(v.Index(i), depth+1, f)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			leaves(v.Field(i), depth+1, f)
		}
	case reflect.Interface:
		// Replaced by a copy that can be changed.
		if !v.IsNil() && v.NumMethod() == 0 {
			c := reflect.New(v.Elem().Type()).Elem()
			c.Set(v.Elem())
			leaves(c, depth+1, f)
			v.Set(c)
		}
	case reflect.Map:
		if v.Len() == 0 || v.Type().Key().Kind() != reflect.String {
			return
		}
		m := reflect.MakeMap(v.Type())
		for it := v.MapRange(); it.Next(); {
			k := reflect.New(v.Type().Key()).Elem()
			k.Set(it.Key())
			f(k)
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(it.Value())
			leaves(e, depth+1, f)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	}
}

// Mover disturbs the memory while it is being encoded or decoded.
type Mover struct{ N int }

var disturbed atomic.Int64

func disturb(n int) {
	var pad [512]byte
	if n > 0 {
		disturb(n - 1)
	} else if disturbed.Add(1)%150 == 0 {
		runtime.GC()
	}
	runtime.KeepAlive(&pad)
}

func (m Mover) MarshalJSON() ([]byte, error) {
	disturb(50 + m.N%300)
	return []byte(fmt.Sprintf("[%d]", m.N)), nil
}

func (m *Mover) UnmarshalJSON(b []byte) error {
	disturb(50 + len(b)*37%300)
	var x [1]int
	err := json.Unmarshal(b, &x)
	m.N = x[0]
	return err
}

// MoveKey is a map key that does.
type MoveKey struct{ N int }

func (m MoveKey) MarshalText() ([]byte, error) {
	disturb(60)
	return []byte(fmt.Sprint(m.N)), nil
}

func (m *MoveKey) UnmarshalText(b []byte) error {
	disturb(60)
	_, err := fmt.Sscan(string(b), &m.N)
	return err
}

// moving is decoded and encoded on stacks which move.
type moving struct {
	A  string
	M  Mover
	B  []byte
	P  *Mover
	C  map[string]Mover
	K  map[MoveKey]string
	S  []Mover
	R  json.RawMessage
	I  interface{}
	T  [2]Mover
	Q  *moving `json:",omitempty"`
	O  *Mover  `json:",omitempty"`
	Z  struct{ M *Mover }
	PK map[string]*moving `json:",omitempty"`
}

func movingVal(r *rand.Rand, depth int) moving {
	m := func() Mover { return Mover{r.IntN(1000)} }
	p := m()
	x := moving{A: gen.ValidStr(r), M: m(), B: []byte(gen.Str(r)), P: &p, C: map[string]Mover{"x": m(), "y": m()}, K: map[MoveKey]string{{1}: "a", {2}: "b"},
		S: []Mover{m(), m(), m()}, R: json.RawMessage(`{"raw":[1,2]}`), I: []interface{}{"x", 1.5, map[string]interface{}{"k": "v"}}}
	if depth > 0 {
		y := movingVal(r, depth-1)
		x.Q = &y
		x.PK = map[string]*moving{"z": &y}
	}
	return x
}

func guarded(w *mon.W, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(runtime.Error); ok && strings.Contains(e.Error(), "fault address") || r != nil && strings.Contains(fmt.Sprint(r), "memory address") {
				w.Fatalf("%s touches memory it must not: %v", what, r)
			}
			panic(r)
		}
	}()
	f()
}

func runC15(c *mon.Ctx) {
	ts, zs := decodable(typePool(c, 1400)), decodable(zoo.Types())
	c.Workload("inputs", c.N(60000, 15), func(w *mon.W) {
		t := pickType(w.R, gen.Pick(w.R, ts, zs))
		doc := gen.DocFor(w.R, t, 3, 12)
		switch w.R.IntN(6) {
		case 0:
			doc = gen.Soup(w.R)
		case 1:
			doc = gen.Mutate(w.R, doc)
		case 2, 3:
			doc = doc[:w.R.IntN(len(doc)+1)]
		}
		w.Note("type %s doc %s", cut(t.String(), 500), q([]byte(doc)))
		p := takePages()
		defer p.giveBack()
		b := p.put([]byte(doc), gen.Chance(w.R, 4))
		if b == nil {
			return
		}
		guarded(w, "decoding", func() {
			x := reflect.New(t)
			_, _ = jc.Parse(b, x.Interface(), randCopyFlags(w.R))
			y := reflect.New(t)
			_ = jc.Unmarshal(b, y.Interface())
			_ = dump(y.Elem())
			_, _ = dump(x.Elem()), jc.Valid(b)
			var any interface{}
			_, _ = jc.Parse(b, &any, randCopyFlags(w.R)|jc.UseNumber)
			for t := jc.NewTokenizer(b); t.Next(); {
				useRaw(t.Value)
			}
			var buf bytes.Buffer
			_ = jc.Compact(&buf, b)
			_ = jc.Indent(&buf, b, "", " ")
			jc.HTMLEscape(&buf, b)
			// As a raw message, and from a marshaler.
			for _, fl := range []jc.AppendFlags{0, jc.TrustRawMessage} {
				_, _ = jc.Append(nil, jc.RawMessage(b), fl, jc.DefaultColors(), jc.NewIndenter("", " "))
				_, _ = jc.Append(nil, rawVal{b}, fl|jc.EscapeHTML, nil, nil)
				_, _ = jc.Append(nil, map[string]jc.RawMessage{"": b}, fl, nil, jc.NewIndenter("", " "))
			}
		})
		w.Count("inputs next to an inaccessible page", 1)
		w.Distinct(t.String(), doc)
		if w.WantSample() {
			w.Sample("%s into %s", cut(doc, 200), cut(t.String(), 100))
		}
	})
	c.Workload("strings", c.N(40000, 15), func(w *mon.W) {
		t := pickType(w.R, gen.Pick(w.R, ts, zs))
		v := gen.Vals{R: w.R}.New(t, 3)
		n := 0
		count := func(x reflect.Value) {
			if x.Len() > 0 {
				n++
			}
		}
		leaves(v, 0, count)
		if n == 0 {
			return
		}
		want, werr := json.Marshal(v.Addr().Interface())
		pick, k := w.R.IntN(n), 0
		p := takePages()
		defer p.giveBack()
		rel := false
		leaves(v, 0, func(x reflect.Value) {
			if x.Len() == 0 {
				return
			}
			if k++; k-1 != pick || !x.CanSet() {
				return
			}
			if x.Kind() == reflect.String {
				if b := p.put([]byte(x.String()), gen.Chance(w.R, 4)); b != nil {
					x.SetString(unsafe.String(&b[0], len(b)))
					rel = true
				}
			} else if x.Type().Elem() == reflect.TypeOf(byte(0)) {
				if b := p.put(x.Bytes(), gen.Chance(w.R, 4)); b != nil {
					x.SetBytes(b)
					rel = true
				}
			}
		})
		if !rel {
			return
		}
		var got []byte
		var err error
		guarded(w, "encoding", func() {
			s := randSettings(w)
			_, _ = s.encode(0, v.Addr().Interface(), s.clrs)
			got, err = jc.Marshal(v.Addr().Interface())
		})
		if (err == nil) != (werr == nil) || err == nil && !sameEnc(got, want) {
			w.Note("type %s", cut(t.String(), 500))
			w.Fatalf("got %s err=%v\nwant %s err=%v", q(got), err, q(want), werr)
		}
		w.Count("strings next to an inaccessible page", 1)
	})
	c.Workload("flat-values", c.N(40000, 15), func(w *mon.W) {
		t := flatType(w.R, 3)
		p := takePages()
		defer p.giveBack()
		at := p.room(int(t.Size()), t.Align(), gen.Chance(w.R, 3))
		if at == nil {
			return
		}
		w.Note("type %s", cut(t.String(), 800))
		v := reflect.NewAt(t, at)
		src := gen.Vals{R: w.R}.New(t, 3)
		v.Elem().Set(src)
		want, werr := json.Marshal(src.Addr().Interface())
		guarded(w, "encoding", func() {
			got, err := jc.Marshal(v.Interface())
			if (err == nil) != (werr == nil) || err == nil && !sameEnc(got, want) {
				w.Fatalf("got %s err=%v\nwant %s err=%v", q(got), err, q(want), werr)
			}
			_, _ = jc.Append(nil, v.Interface(), 0, jc.DefaultColors(), jc.NewIndenter("", " "))
		})
		doc := gen.DocFor(w.R, t, 3, 20)
		w.Note("doc %s", q([]byte(doc)))
		x := reflect.New(t)
		x.Elem().Set(src)
		werr = json.Unmarshal([]byte(doc), x.Interface())
		mem := append([]byte{}, p.mid...)
		guarded(w, "decoding", func() {
			err := jc.Unmarshal([]byte(doc), v.Interface())
			if err == nil && werr == nil && !same(x.Elem(), v.Elem()) {
				w.Fatalf("got %s\nwant %s", shortDump(v.Elem()), shortDump(x.Elem()))
			}
		})
		lo := int(uintptr(at) - uintptr(unsafe.Pointer(&p.mid[0])))
		hi := lo + int(t.Size())
		if !bytes.Equal(mem[:lo], p.mid[:lo]) || !bytes.Equal(mem[hi:], p.mid[hi:]) {
			w.Fatalf("memory around the target was written")
		}
		w.Count("values and targets next to an inaccessible page", 1)
		w.Distinct(t.String(), doc)
	})
	const c1, c2 = 0x5a5a5a5a5a5a5a5a, 0xa5a5a5a5a5a5a5a5
	canary := reflect.TypeOf([3]uint64{})
	wrappers := make([]reflect.Type, 0, len(ts)+len(zs))
	for _, t := range append(append([]reflect.Type{}, ts...), zs...) {
		wrappers = append(wrappers, reflect.StructOf([]reflect.StructField{{Name: "Pre", Type: canary}, {Name: "V", Type: t}, {Name: "Post", Type: canary}}))
	}
	c.Workload("canaries", c.N(60000, 15), func(w *mon.W) {
		t := wrappers[w.R.IntN(len(wrappers))]
		vt := t.Field(1).Type
		mk := func() reflect.Value {
			x := reflect.New(t).Elem()
			x.Field(0).Set(reflect.ValueOf([3]uint64{c1, c2, c1}))
			x.Field(2).Set(reflect.ValueOf([3]uint64{c2, c1, c2}))
			return x
		}
		intact := func(x reflect.Value, what string) {
			if x.Field(0).Interface() != [3]uint64{c1, c2, c1} || x.Field(2).Interface() != [3]uint64{c2, c1, c2} {
				w.Fatalf("%s writes outside of the value: %x %x", what, x.Field(0).Interface(), x.Field(2).Interface())
			}
		}
		doc := gen.DocFor(w.R, vt, 3, gen.Pick(w.R, 0, 12))
		w.Note("type %s doc %s", cut(vt.String(), 800), q([]byte(doc)))
		x, y := mk(), mk()
		if gen.Chance(w.R, 4) {
			s1, s2 := w.R.Uint64(), w.R.Uint64()
			for _, z := range []reflect.Value{x, y} {
				z.Field(1).Set(gen.Vals{R: rand.New(rand.NewPCG(s1, s2))}.New(vt, 2))
			}
		}
		werr := json.Unmarshal([]byte(doc), x.Field(1).Addr().Interface())
		err := jc.Unmarshal([]byte(doc), y.Field(1).Addr().Interface())
		intact(y, "decoding")
		if gen.Chance(w.R, 600) {
			runtime.GC()
		}
		if err == nil && werr == nil && !same(x.Field(1), y.Field(1)) {
			w.Fatalf("got %s\nwant %s", shortDump(y.Field(1)), shortDump(x.Field(1)))
		}
		s := randSettings(w)
		_, _ = s.encode(w.R.IntN(2), y.Field(1).Addr().Interface(), s.clrs)
		_, _ = s.encode(w.R.IntN(2), y.Field(1).Interface(), nil)
		intact(y, "encoding")
		w.Count("targets between canaries", 1)
		if err == nil {
			w.Distinct(vt.String(), doc)
		}
	})
	// Elements of an array that do not belong to the slice which is decoded to.
	c.Workload("slices", c.N(30000, 15), func(w *mon.W) {
		t := pickType(w.R, gen.Pick(w.R, ts, zs))
		if t.Size() > 4096 {
			return
		}
		const n = 7
		i := w.R.IntN(n)
		j := i + w.R.IntN(n-i+1)
		k := j + w.R.IntN(n-j+1)
		s1, s2 := w.R.Uint64(), w.R.Uint64()
		mk := func() reflect.Value {
			v := gen.Vals{R: rand.New(rand.NewPCG(s1, s2))}
			a := reflect.New(reflect.ArrayOf(n, t)).Elem()
			for i := 0; i < n; i++ {
				a.Index(i).Set(v.New(t, 2))
			}
			return a
		}
		st := reflect.SliceOf(t)
		doc := gen.DocFor(w.R, st, 3, gen.Pick(w.R, 0, 12))
		w.Note("type %s slice %d:%d:%d doc %s", cut(t.String(), 800), i, j, k, q([]byte(doc)))
		a, b := mk(), mk()
		x, y := reflect.New(st), reflect.New(st)
		x.Elem().Set(a.Slice3(i, j, k))
		y.Elem().Set(b.Slice3(i, j, k))
		werr := json.Unmarshal([]byte(doc), x.Interface())
		err := jc.Unmarshal([]byte(doc), y.Interface())
		// The nth element of the array, byte by byte where there are no pointers.
		orig := mk()
		for e := 0; e < n; e++ {
			if e >= i && e < k {
				continue
			}
			if d0, d1 := dump(orig.Index(e)), dump(b.Index(e)); d0 != d1 {
				w.Fatalf("element %d changed from %s to %s", e, cut(d0, 800), cut(d1, 800))
			}
		}
		if err == nil && werr == nil && !same(x.Elem(), y.Elem()) {
			w.Fatalf("got %s\nwant %s", shortDump(y.Elem()), shortDump(x.Elem()))
		}
		w.Count("slices of larger arrays", 1)
	})
	c.Workload("destinations", c.N(30000, 15), func(w *mon.W) {
		t := pickType(w.R, gen.Pick(w.R, ts, zs))
		v := gen.Vals{R: w.R}.New(t, 3)
		s := randSettings(w)
		var ind *jc.Indenter
		if s.indented {
			ind = jc.NewIndenter(s.prefix, s.indent)
		}
		clrs := s.clrs
		if gen.Chance(w.R, 2) {
			clrs = nil
		}
		want, werr := jc.Append(nil, v.Addr().Interface(), s.flags, clrs, ind)
		want = append([]byte{}, want...)
		p := takePages()
		defer p.giveBack()
		p.rw()
		for i := range p.mid {
			p.mid[i] = byte(i * 7)
		}
		// Room for more or less than what is needed, up to the guard page or not.
		room := gen.Pick(w.R, 0, 1, 3, len(want)-1, len(want), len(want)+1, len(want)/2, w.R.IntN(200))
		room = max(0, min(room, len(p.mid)-200))
		pre, after := w.R.IntN(20), gen.Pick(w.R, 0, 0, 1, 50)
		end := len(p.mid) - after
		start := end - room - pre
		dst := p.mid[start : start+pre : end]
		mem := append([]byte{}, p.mid...)
		w.Note("type %s: prefix %d room %d after %d flags %b", cut(t.String(), 500), pre, room, after, s.flags)
		guarded(w, "Append", func() {
			got, err := jc.Append(dst, v.Addr().Interface(), s.flags, clrs, ind)
			if (err == nil) != (werr == nil) || err == nil && (!bytes.Equal(got[:pre], mem[start:start+pre]) || !bytes.Equal(got[pre:], want)) {
				w.Fatalf("got %s err=%v\nwant %s err=%v", q(got), err, q(want), werr)
			}
		})
		if !bytes.Equal(mem[:start+pre], p.mid[:start+pre]) || !bytes.Equal(mem[end:], p.mid[end:]) {
			w.Fatalf("memory outside of the destination's capacity or before its end was written")
		}
		w.Count("destinations with limited capacity", 1)
	})
	// Stacks move and collections run in the middle of calls.
	c.Workload("moving", c.N(1200, 15), func(w *mon.W) {
		x := movingVal(w.R, w.R.IntN(2))
		want, werr := json.Marshal(x)
		onStack := func() ([]byte, error) {
			y := x
			return jc.Marshal(y)
		}
		onStackPtr := func() ([]byte, error) {
			y := x
			return jc.Append(make([]byte, 0, 32), &y, jc.SortMapKeys|jc.EscapeHTML, nil, nil)
		}
		done := make(chan string)
		go func() { // a new, small stack
			for k, f := range []func() ([]byte, error){onStack, onStackPtr} {
				if got, err := f(); err != nil || werr != nil || !sameEnc(got, want) {
					done <- fmt.Sprintf("encoding %d: %s err=%v\nwant %s err=%v", k, q(got), err, q(want), werr)
					return
				}
			}
			var y moving
			err := jc.Unmarshal(want, &y)
			var z moving
			werr := json.Unmarshal(want, &z)
			if err != nil || werr != nil || !same(reflect.ValueOf(&y).Elem(), reflect.ValueOf(&z).Elem()) {
				done <- fmt.Sprintf("decoding: %s err=%v\nwant %s", shortDump(reflect.ValueOf(&y).Elem()), err, shortDump(reflect.ValueOf(&z).Elem()))
				return
			}
			done <- ""
		}()
		if s := <-done; s != "" {
			w.Fatalf("%s", s)
		}
		w.Count("calls with collections and moving stacks inside", 3)
	})
	// Values decoded while collections run, looked at after more of them.
	var stop atomic.Bool
	ended := make(chan bool)
	go func() {
		defer close(ended)
		for !stop.Load() {
			runtime.GC()
			w := make([][]byte, 0, 64)
			for i := 0; i < 64; i++ {
				w = append(w, bytes.Repeat([]byte{0xee}, 16<<(i%6)))
			}
			runtime.KeepAlive(w)
		}
	}()
	c.Workload("kept-alive", c.N(4000, 15), func(w *mon.W) {
		type kept struct {
			v    reflect.Value
			want string
			t    reflect.Type
			doc  string
		}
		var ks []kept
		for n := 0; n < 6; n++ {
			t := pickType(w.R, gen.Pick(w.R, ts, zs))
			doc := gen.DocFor(w.R, t, 4, 0)
			x := reflect.New(t)
			if json.Unmarshal([]byte(doc), x.Interface()) != nil {
				continue
			}
			y := reflect.New(t)
			if gen.Chance(w.R, 2) {
				d := jc.NewDecoder(&splitReader{r: w.R, b: []byte(doc), max: 7})
				if d.Decode(y.Interface()) != nil {
					continue
				}
			} else if _, err := jc.Parse([]byte(doc), y.Interface(), randCopyFlags(w.R)); err != nil {
				continue
			}
			ks = append(ks, kept{y, dump(x.Elem()), t, doc})
		}
		if gen.Chance(w.R, 10) {
			runtime.GC()
		}
		for _, k := range ks {
			if got := dump(k.v.Elem()); got != k.want {
				w.Note("type %s doc %s", cut(k.t.String(), 500), q([]byte(k.doc)))
				w.Fatalf("holds %s\nwant %s", cut(got, 1500), cut(k.want, 1500))
			}
			b, err := jc.Marshal(k.v.Interface())
			b2, err2 := json.Marshal(k.v.Interface())
			if (err == nil) != (err2 == nil) || err == nil && !sameEnc(b, b2) {
				w.Note("type %s doc %s", cut(k.t.String(), 500), q([]byte(k.doc)))
				w.Fatalf("encodes as %s\nwant %s", q(b), q(b2))
			}
			w.Count("values kept across collections", 1)
		}
	})
	stop.Store(true)
	<-ended
	c.MustObserve("inputs next to an inaccessible page", 50000)
	c.MustObserve("strings next to an inaccessible page", 10000)
	c.MustObserve("values and targets next to an inaccessible page", 30000)
	c.MustObserve("targets between canaries", 50000)
	c.MustObserve("slices of larger arrays", 20000)
	c.MustObserve("destinations with limited capacity", 25000)
	c.MustObserve("calls with collections and moving stacks inside", 2000)
	c.MustObserve("values kept across collections", 15000)
}

// useRaw calls the methods of a token; those for strings panic for others.
func useRaw(v jc.RawValue) {
	_, _, _, _, _ = v.String(), v.Null(), v.True(), v.False(), v.Number()
	if v.String() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(runtime.Error); ok {
					panic(r)
				}
			}
		}()
		_ = v.Unquote()
		_ = v.AppendUnquote(make([]byte, 1, 4))
	}
}
