package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"

	jc "github.com/neilotoole/jsoncolor"

	"verifharness/gen"
	"verifharness/mon"
	"verifharness/zoo"
)

func init() {
	register(&mon.Prop{ID: "C11",
		Rule: "values of random and hand-written types decoded from write-protected input under every combination of zero-copy flags; the input is then overwritten, or dropped and collected by a garbage collector that clobbers what it frees, and every part of the value which the flags do not name must be as before; sequences of values kept while a Decoder reads on; slices extended within their capacity; non-trivial: non-zero decoded values, distinct by type, document and flags",
		Run:  runC11})
}

var (
	numberType = reflect.TypeOf(json.Number(""))
	rawType    = reflect.TypeOf(json.RawMessage(nil))
)

// maskDump spells out a value, leaving out the leaves which may refer to the
// input under the flags f, and tells how many leaves it left out.
func maskDump(v reflect.Value, f jc.ParseFlags) (string, int) {
	var sb strings.Builder
	masked := 0
	var to func(sb *strings.Builder, v reflect.Value, depth int)
	to = func(sb *strings.Builder, v reflect.Value, depth int) {
		if depth > 100 || !v.IsValid() {
			sb.WriteString("?")
			return
		}
		t := v.Type()
		switch {
		case t == numberType:
			if f&jc.DontCopyNumber != 0 {
				sb.WriteString("*")
				masked++
				return
			}
		case t == rawType:
			if f&jc.DontCopyRawMessage != 0 {
				sb.WriteString("*")
				masked++
				return
			}
		case t.Kind() == reflect.String:
			if f&jc.DontCopyString != 0 {
				sb.WriteString("*")
				masked++
				return
			}
		}
		if t == timeType {
			dumpTo(sb, v, depth)
			return
		}
		switch v.Kind() {
		case reflect.Pointer, reflect.Interface:
			if v.IsNil() {
				sb.WriteString("nil")
				return
			}
			fmt.Fprintf(sb, "&%s:", v.Elem().Type())
			to(sb, v.Elem(), depth+1)
		case reflect.Struct:
			sb.WriteString("{")
			for i := 0; i < v.NumField(); i++ {
				to(sb, v.Field(i), depth+1)
				sb.WriteString(" ")
			}
			sb.WriteString("}")
		case reflect.Slice:
			if v.IsNil() {
				sb.WriteString("nil")
				return
			}
			fallthrough
		case reflect.Array:
			fmt.Fprintf(sb, "%d[", v.Len())
			for i := 0; i < v.Len(); i++ {
				to(sb, v.Index(i), depth+1)
				sb.WriteString(",")
			}
			sb.WriteString("]")
		case reflect.Map:
			var es []string
			for it := v.MapRange(); it.Next(); {
				var e strings.Builder
				to(&e, it.Key(), depth+1)
				e.WriteString("=")
				to(&e, it.Value(), depth+1)
				es = append(es, e.String())
			}
			sort.Strings(es)
			fmt.Fprintf(sb, "map%d[%s]", len(es), strings.Join(es, "; "))
		default:
			dumpTo(sb, v, depth)
		}
	}
	to(&sb, v, 0)
	return sb.String(), masked
}

// extendAll appends to every slice in v, within its capacity, and gives up the
// result. It tells how many elements it wrote.
func extendAll(v reflect.Value, depth int) (n int) {
	if depth > 60 || !v.IsValid() {
		return 0
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			return extendAll(v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			n += extendAll(v.Field(i), depth+1)
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			n += extendAll(it.Value(), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			n += extendAll(v.Index(i), depth+1)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			n += extendAll(v.Index(i), depth+1)
		}
		if !v.CanInterface() {
			return n
		}
		if b, ok := v.Interface().([]byte); ok || v.Type().Elem().Kind() == reflect.Uint8 {
			if !ok {
				b = v.Bytes()
			}
			for i := len(b); i < cap(b); i++ {
				b = append(b, 0xAA)
				n++
			}
			return n
		}
		for i := v.Len(); i < v.Cap(); i++ {
			e := v.Slice(0, v.Cap()).Index(i)
			switch e.Kind() {
			case reflect.String:
				e.SetString("\xAA\xAA")
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				e.SetInt(0x55)
			case reflect.Float32, reflect.Float64:
				e.SetFloat(-12345.5)
			case reflect.Bool:
				e.SetBool(!e.Bool())
			default:
				e.Set(reflect.Zero(e.Type()))
			}
			n++
		}
	}
	return n
}

func runC11(c *mon.Ctx) {
	ts, zs := decodable(typePool(c, 1400)), decodable(zoo.Types())
	pool := make(chan *pages, 64)
	getPages := func() *pages {
		select {
		case p := <-pool:
			return p
		default:
			return newPages(4)
		}
	}
	one := func(w *mon.W, t reflect.Type, doc string) {
		f := randCopyFlags(w.R)
		if gen.Chance(w.R, 2) {
			f |= jc.UseNumber
		}
		if gen.Chance(w.R, 3) {
			f = 0
		}
		w.Note("type %s doc %s flags %b", cut(t.String(), 500), q([]byte(doc)), f)
		p := getPages()
		defer func() { pool <- p }()
		b := p.put([]byte(doc), gen.Chance(w.R, 4))
		if b == nil {
			return
		}
		// (Not one whose slices share memory: appending to one of them would
		// rightly show in another.)
		x := reflect.New(t)
		if gen.Chance(w.R, 4) {
			x = gen.Vals{R: w.R}.New(t, 2).Addr()
		}
		_, err := jc.Parse(b, x.Interface(), f)
		errText := ""
		if err != nil {
			errText = err.Error()
		}
		before, n := maskDump(x.Elem(), f)
		p.clobber(gen.Pick(w.R, byte(0xff), 0, '7', 'x', '"'))
		after, _ := maskDump(x.Elem(), f)
		if before != after {
			w.Fatalf("changes when the input is overwritten:\nbefore %s\nafter  %s", cut(before, 1500), cut(after, 1500))
		}
		if err != nil {
			if s := err.Error(); s != errText {
				w.Fatalf("the error %q changes to %q when the input is overwritten", errText, s)
			}
			w.Count("errors kept", 1)
			return
		}
		if f&jc.ZeroCopy == 0 {
			w.Count("values kept while the input is overwritten", 1)
			if m := extendAll(x.Elem(), 0); m > 0 {
				again, _ := maskDump(x.Elem(), 0)
				if again != after {
					w.Fatalf("changes when its slices are appended to:\nbefore %s\nafter  %s", cut(after, 1500), cut(again, 1500))
				}
				w.Count("slice elements appended in place", m)
			}
		} else {
			w.Count("values partly kept while the input is overwritten", 1)
			w.Count("leaves left out because of the flags", n)
		}
		if !x.Elem().IsZero() {
			w.Distinct(t.String(), doc, f)
		}
		if w.WantSample() {
			w.Sample("flags %b, %s into %s: as before after overwriting: %s", f, cut(doc, 150), cut(t.String(), 100), cut(after, 150))
		}
	}
	for _, x := range []struct {
		name string
		n    int
		ts   []reflect.Type
	}{{"pool", 30000, ts}, {"zoo", 40000, zs}} {
		c.Workload(x.name, c.N(x.n, 12), func(w *mon.W) {
			t := pickType(w.R, x.ts)
			one(w, t, gen.DocFor(w.R, t, 1+w.R.IntN(3), gen.Pick(w.R, 0, 0, 0, 15)))
		})
	}
	c.Workload("any-document", c.N(15000, 12), func(w *mon.W) {
		one(w, anyType, gen.Doc(w.R, 1+w.R.IntN(4)))
	})
	c.Workload("errors", c.N(10000, 12), func(w *mon.W) {
		t := pickType(w.R, gen.Pick(w.R, ts, zs))
		one(w, t, gen.Mutate(w.R, gen.DocFor(w.R, t, 1+w.R.IntN(3), 6)))
	})
	// The strings of one letter, keys and empty ones are often shared or kept
	// elsewhere; names of many kinds of values holding text.
	type texts struct {
		A string
		B []string
		C map[string]string
		D interface{}
		E json.Number
		F json.RawMessage
		G []byte
		H map[zoo.MTString]zoo.MTString
		I *string
		J [2]json.RawMessage
		K map[string]json.Number
		L string `json:",string"`
		M []interface{}
		N map[string]interface{}
		O map[string]json.RawMessage
		P map[string][]string
		Q map[string]bool
	}
	textsType := reflect.TypeOf(texts{})
	c.Workload("texts", c.N(20000, 12), func(w *mon.W) {
		one(w, textsType, gen.DocFor(w.R, textsType, 1+w.R.IntN(3), 0))
	})
	// A Decoder that reads on.
	c.Workload("decoder", c.N(3000, 8), func(w *mon.W) {
		var text []byte
		var types []reflect.Type
		size := gen.Pick(w.R, 100, 5000, 40000, 150000)
		for len(text) < size && len(types) < 400 {
			t := pickType(w.R, gen.Pick(w.R, ts, zs, []reflect.Type{textsType, anyType}))
			types = append(types, t)
			text = append(text, gen.DocFor(w.R, t, 1+w.R.IntN(3), 0)...)
			text = append(text, gen.WS(w.R)+" "...)
		}
		dec := jc.NewDecoder(&splitReader{w.R, text, gen.Pick(w.R, 300, 5000, 40000)})
		f := gen.Pick(w.R, 0, jc.UseNumber)
		jcSet(dec, w.R, f)
		var vals []reflect.Value
		var dumps []string
		for _, t := range types {
			x := reflect.New(t)
			if err := dec.Decode(x.Interface()); err != nil {
				continue
			}
			d, _ := maskDump(x.Elem(), f)
			vals, dumps = append(vals, x), append(dumps, d)
		}
		for i, x := range vals {
			if d, _ := maskDump(x.Elem(), f); d != dumps[i] {
				w.Fatalf("value %d of type %s changes when the Decoder reads on:\nbefore %s\nafter  %s", i, cut(x.Type().String(), 300), cut(dumps[i], 1200), cut(d, 1200))
			}
		}
		w.Count("values kept while a Decoder reads on", len(vals))
	})
	// Values which refer to the input keep it alive, and nothing else is needed.
	c.Workload("collected", max(400, c.N(400, 10)), func(w *mon.W) {
		var vals []reflect.Value
		var dumps []string
		for i := 0; i < 30; i++ {
			t := pickType(w.R, gen.Pick(w.R, ts, zs, []reflect.Type{textsType, anyType}))
			doc := gen.DocFor(w.R, t, 1+w.R.IntN(3), 0)
			x := reflect.New(t)
			f := gen.Pick(w.R, 0, jc.ZeroCopy, jc.ZeroCopy|jc.UseNumber, jc.DontCopyString, jc.DontCopyRawMessage, jc.DontCopyNumber)
			var err error
			if gen.Chance(w.R, 3) {
				dec := jc.NewDecoder(strings.NewReader(doc))
				jcSet(dec, w.R, f)
				err = dec.Decode(x.Interface())
			} else {
				_, err = jc.Parse([]byte(doc), x.Interface(), f)
			}
			if err != nil {
				continue
			}
			vals, dumps = append(vals, x), append(dumps, dump(x.Elem()))
		}
		if w.Index%8 == 0 || w.C.Mode == "clobber" {
			runtime.GC()
		}
		var junk [][]byte
		for i := 0; i < 2000; i++ {
			junk = append(junk, bytes.Repeat([]byte{0xEE}, 8<<(i%6)))
		}
		for i, x := range vals {
			if d := dump(x.Elem()); d != dumps[i] {
				w.Fatalf("value %d of type %s changes when its input is no longer referred to:\nbefore %s\nafter  %s", i, cut(x.Type().String(), 300), cut(dumps[i], 1200), cut(d, 1200))
			}
		}
		runtime.KeepAlive(junk)
		w.Count("values kept while garbage is collected", len(vals))
	})
	c.MustObserve("values kept while the input is overwritten", 20000)
	c.MustObserve("leaves left out because of the flags", 20000)
	c.MustObserve("values kept while a Decoder reads on", 20000)
	c.MustObserve("values kept while garbage is collected", 5000)
	c.MustObserve("errors kept", 3000)
}
