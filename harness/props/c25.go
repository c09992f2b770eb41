package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime"
	"strings"
	"syscall"
	"time"

	jc "github.com/neilotoole/jsoncolor"

	"verifharness/gen"
	"verifharness/mon"
	"verifharness/zoo"
)

func init() {
	register(&mon.Prop{ID: "C25",
		Rule: "documents, values and streams of 0.1 to 1 MB whose cost is in one thing (many empty containers, one long string, many members, long runs of white space, a value arriving in small reads ...) handled by jsoncolor and by encoding/json, one after the other, with the bytes allocated (runtime.MemStats) and the processor time of the thread measured around each call; the heap after a collection is compared before and after hundreds of mixed calls; non-trivial: distinct combinations of shape, target or options and size for which both succeed",
		Run:  runC25})
}

// cost is what a call takes.
type cost struct {
	bytes uint64
	cpu   time.Duration
}

func threadTime() time.Duration {
	var u syscall.Rusage
	const thread = 1 // RUSAGE_THREAD
	if err := syscall.Getrusage(thread, &u); err != nil {
		panic(err)
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// measure runs f, which nothing else may run beside, on a thread of its own.
func measure(f func() error) (c cost, err error) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	t := threadTime()
	err = f()
	c.cpu = threadTime() - t
	runtime.ReadMemStats(&b)
	c.bytes = b.TotalAlloc - a.TotalAlloc
	return c, err
}

// compare judges the cost of jf by the one of sf for a task of n bytes. The
// bounds are an order of magnitude above what is seen, and orders of magnitude
// below what is no longer proportional.
func compareCost(w *mon.W, n, depth int, mem float64, sf, jf func() error) bool {
	const factor = 40
	slack := 50 * time.Millisecond
	if w.Workload == "small" {
		slack = 12 * time.Millisecond
	}
	if w.C.Violations() >= 10 {
		return false // costs without a bound would take all the time there is
	}
	runtime.GC()
	s, serr := measure(sf)
	j, jerr := measure(jf)
	if (serr == nil) != (jerr == nil) {
		// Others judge that.
		w.Count("skipped: only one succeeds", 1)
		return false
	}
	if serr != nil {
		// jsoncolor finds out later, after some of the work, and names in the
		// error each level it has returned through.
		mem += 30 + 10*float64(depth)*float64(depth)/float64(n+1)
		slack += time.Duration(8 * depth * depth)
	}
	for i := 0; i < 4 && j.cpu < 4*time.Second && j.cpu > factor*s.cpu+slack; i++ {
		if j2, _ := measure(jf); j2.cpu < j.cpu {
			j.cpu = j2.cpu
		}
		if s2, _ := measure(sf); s2.cpu > s.cpu {
			s.cpu = s2.cpu
		}
	}
	if os.Getenv("VERIF_COSTS") != "" {
		fmt.Printf("COST mem %.2f cpu %.2f %s %v %v\n", float64(j.bytes)/(10*float64(s.bytes)+mem*float64(n)+256*1024), float64(j.cpu)/(factor*float64(s.cpu)+float64(slack)), w.Workload, j, s)
	}
	if lim := uint64(10*float64(s.bytes) + mem*float64(n) + 256*1024); j.bytes > lim {
		if j2, _ := measure(jf); j2.bytes > lim {
			w.Fatalf("%d bytes are allocated for %d bytes of JSON; encoding/json allocates %d", j.bytes, n, s.bytes)
		}
	}
	if w.C.Mode == "plain" && j.cpu > factor*s.cpu+slack {
		w.Fatalf("%v of processor time are taken for %d bytes of JSON; encoding/json takes %v", j.cpu, n, s.cpu)
	}
	if serr == nil {
		w.Count("costs compared", 1)
	} else {
		w.Count("costs of failing calls compared", 1)
	}
	return serr == nil
}

// nesting is at least how deeply doc is nested.
func nesting(doc []byte) (most int) {
	d := 0
	for _, c := range doc {
		switch c {
		case '{', '[':
			d++
			most = max(most, d)
		case '}', ']':
			d--
		}
	}
	return most
}

type shape struct {
	name string
	make func(n int) string // about n bytes
}

func rep(s string, n int) string { return strings.Repeat(s, n/len(s)+1) }

func list(s string) func(n int) string {
	return func(n int) string { return "[" + strings.TrimSuffix(rep(s+",", n), ",") + "]" }
}

func members(f func(i int) string) func(n int) string {
	return func(n int) string {
		var sb strings.Builder
		sb.WriteByte('{')
		for i := 0; sb.Len() < n; i++ {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(f(i))
		}
		sb.WriteByte('}')
		return sb.String()
	}
}

func costShapes() []shape {
	str := func(s string) func(n int) string { return func(n int) string { return `"` + rep(s, n) + `"` } }
	ws := func(f func(n int) string) func(n int) string {
		return func(n int) string {
			return rep(" \n", n/4) + "[" + rep("\t", n/4) + f(n/4) + rep("\r\n ", n/8) + "]" + rep(" ", n/8)
		}
	}
	ss := []shape{
		{"ints", list("1")}, {"long ints", list("123456789012345678")}, {"floats", list("-1.2345678901234567e-89")}, {"nulls", list("null")}, {"bools", list("true")},
		{"empty strings", list(`""`)}, {"short strings", list(`"ab"`)}, {"escaped strings", list(`"a\n"`)}, {"strings of one rune", list(`"é"`)}, {"base64", list(`"AAECAwQF"`)}, {"times", list(`"2020-01-02T03:04:05.6Z"`)},
		{"empty arrays", list("[]")}, {"empty objects", list("{}")}, {"arrays of one", list("[1]")}, {"arrays of one string", list(`["x"]`)}, {"arrays of ten", list("[1,2,3,4,5,6,7,8,9,0]")},
		{"objects of one", list(`{"a":1}`)}, {"objects of two strings", list(`{"A":"x","b":"y"}`)}, {"objects of one object", list(`{"a":{}}`)}, {"lists", list(`{"V":1,"Next":{"V":2,"Next":null}}`)},
		{"objects of unknown members", list(`{"zzz":[1,2,3],"V":1,"yyy":{"x":"\n"}}`)}, {"objects of members in another case", list(`{"v":1,"NEXT":null}`)},
		{"arrays of arrays", list("[[],[[]],[1]]")}, {"ten levels", func(n int) string { return rep("[", 9) + strings.TrimSuffix(rep("1,", n), ",") + rep("]", 9) }},
		{"a string", str("a")}, {"a string of escapes", str(`\n`)}, {"a string of code points", str(`\u00e9`)}, {"a string of surrogates", str(`\ud83d\ude00`)}, {"a string of lone surrogates", str(`\ud800`)}, {"a string of runes", str("日本")}, {"a string of quotes", str(`\"`)}, {"a string of markup", str("<&>")}, {"a string of separators", str("\u2028")},
		{"a string of base64", str("AAEC")}, {"a number", func(n int) string { return rep("1", n/100) }}, {"a fraction", func(n int) string { return "0." + rep("0123456789", n/100) }},
		{"strings in white space", ws(list(` "a" `))}, {"objects in white space", ws(list(" { \"a\" \n:\t1 } "))},
		{"members", members(func(i int) string { return fmt.Sprintf(`"k%d":%d`, i, i) })}, {"members of objects", members(func(i int) string { return fmt.Sprintf(`"k%d":{}`, i) })}, {"members of strings", members(func(i int) string { return fmt.Sprintf(`"k%d":"v"`, i) })},
		{"one member again and again", members(func(i int) string { return `"a":1` })}, {"numbered members", members(func(i int) string { return fmt.Sprintf(`"%d":[1]`, i) })}, {"members with escapes", members(func(i int) string { return fmt.Sprintf(`"\u00e9%d":""`, i) })},
		{"a long key", func(n int) string { return `{"` + rep("k", n) + `":1}` }}, {"a long unknown key", func(n int) string { return `{"V":1,"` + rep("é", n) + `":{"` + rep("x", n/10) + `":1}}` }}, {"an unknown member", func(n int) string { return `{"zzz":` + list(`{"a":[1,{}]}`)(n) + `,"V":3}` }},
	}
	// Deep ones, with most of the document at the bottom, in the middle and all along.
	deep := func(open, bottom, end string) func(n int) string {
		return func(n int) string {
			d := min(n/40, 9900)
			return rep(open, d*len(open)-1) + list(bottom)(n) + rep(end, d*len(end)-1)
		}
	}
	ss = append(ss,
		shape{"deep arrays", deep("[", "1", "]")}, shape{"deep objects", deep(`{"a":`, `"x"`, "}")}, shape{"deep arrays with elements", deep(`[0,`, "{}", ",true]")}, shape{"deep objects with members", deep(`{"x":"\n","y":`, "[]", `,"z":null}`)},
		shape{"deep objects in arrays", deep(`[{"A":1,"B":`, "2.5", `}]`)}, shape{"deep unknown members", func(n int) string { return `{"V":1,"zzz":` + deep(`{"a":[`, "3", "]}")(n) + `}` }},
		shape{"a deep list that ends wrong", func(n int) string {
			d := min(n/60, 9900)
			return rep(`{"V":1,"Next":`, d*14-1) + `{"V":"x","zzz":` + list("1")(n/2) + `}` + rep("}", d-1)
		}},
		shape{"deep arrays that end wrong", func(n int) string { d := min(n/60, 9900); return rep("[", d-1) + `!` + rep("]", d-1) + list("1")(n/2) }},
		shape{"deep objects that end", func(n int) string { d := min(n/60, 9900); return rep(`{"V":1,"Next":`, d*14-1) + list("{}")(n/2) }},
		shape{"a deep list", func(n int) string {
			d := min(n/20, 9900)
			return rep(`{"V":1,"Next":`, d*14-1) + "null" + rep("}", d-1)
		}}, shape{"a deep list of long keys", func(n int) string {
			d := min(n/40, 9900)
			return rep(`{"Next":{"N\u0065xt":`, d*20-1) + "null" + rep("}", 2*d-1)
		}}, shape{"empty deep arrays", func(n int) string { return rep("[", 9899) + rep("]", 9899) }},
	)
	return ss
}

// costTargets are made afresh by reflect.New.
func costTargets() []reflect.Type {
	type big struct {
		A [30]int
		V int
		B map[string]string
	}
	var ts []reflect.Type
	for _, x := range []interface{}{
		new(interface{}), []interface{}{}, map[string]interface{}{}, []map[string]interface{}{}, [][]interface{}{}, []json.RawMessage{}, json.RawMessage{}, []map[string]json.RawMessage{}, map[string]json.RawMessage{},
		[]int{}, []float64{}, []string{}, []bool{}, [][]int{}, [][]string{}, []map[string]int{}, []map[string]string{}, map[string]int{}, map[string]string{}, map[int][]int{}, "", []byte{}, [][]byte{}, []time.Time{}, []json.Number{},
		[]struct{}{}, []zoo.List{}, []*zoo.List{}, zoo.List{}, []struct{ A, B interface{} }{}, []struct{ A []int }{}, [][]struct{ A, B string }{}, []big{}, [][]big{}, []map[string]big{}, map[string]big{}, []map[string]map[string]interface{}{}, []*map[string]interface{}{}, [][0]int{}, []*int{}, []**string{}, [10]interface{}{}, []zoo.RecIface{}, []zoo.RecMap{}, [][][]int{},
	} {
		t := reflect.TypeOf(x)
		if t.Kind() == reflect.Pointer {
			t = t.Elem()
		}
		ts = append(ts, t)
	}
	return ts
}

type slowReader struct {
	r io.Reader
	n int
}

func (s slowReader) Read(p []byte) (int, error) { return s.r.Read(p[:min(len(p), s.n)]) }

func heapAfterGC() uint64 {
	for i := 0; i < 3; i++ { // what pools hold lasts for two
		runtime.GC()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

func runC25(c *mon.Ctx) {
	shapes, targets := costShapes(), costTargets()
	size := 400000
	switch {
	case c.Tier == "thorough":
		size = 1500000
	case c.Mode != "plain" || c.Tier == "scan":
		size = 150000
	}
	// Every shape into every target it suits.
	c.Serial("decode", len(shapes)*len(targets), func(w *mon.W) {
		s, t := shapes[w.Index/len(targets)], targets[w.Index%len(targets)]
		// Both have met the type, and the shape suits it (or is refused by both).
		small := []byte(s.make(200))
		err := json.Unmarshal(small, reflect.New(t).Interface())
		_ = jc.Unmarshal(small, reflect.New(t).Interface())
		var te *json.UnmarshalTypeError
		if errors.As(err, &te) && w.Index%7 != 0 && !strings.Contains(s.name, "end") {
			return
		}
		n := size
		if c.Tier != "thorough" && w.R.IntN(4) > 0 {
			n /= 3
		}
		doc := []byte(s.make(n))
		w.Note("%s, %d bytes, into %s", s.name, len(doc), t)
		if compareCost(w, len(doc), nesting(doc), 2, func() error { return json.Unmarshal(doc, reflect.New(t).Interface()) }, func() error { return jc.Unmarshal(doc, reflect.New(t).Interface()) }) {
			w.Distinct("decode", s.name, t.String())
		}
	})
	// Looking at documents without decoding them.
	c.Serial("read", len(shapes)*2, func(w *mon.W) {
		s := shapes[w.Index/2]
		doc := []byte(s.make(size))
		w.Note("%s, %d bytes", s.name, len(doc))
		std := func() error { json.Valid(doc); return nil }
		if w.Index%2 == 0 {
			w.Note("Valid")
			compareCost(w, 0, 0, 0, std, func() error { jc.Valid(doc); return nil })
		} else {
			w.Note("Tokenizer")
			compareCost(w, len(doc)+100*nesting(doc), 0, 2, std, func() error {
				for t := jc.NewTokenizer(doc); t.Next(); {
				}
				return nil
			})
		}
		w.Distinct("read", s.name, w.Index%2)
	})
	// Streams in pieces.
	pieces := []int{64, 1000, 4096, 50000, 1 << 30}
	anyT, rawT := reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf(json.RawMessage{})
	c.Serial("stream", len(shapes)*len(pieces), func(w *mon.W) {
		s, k := shapes[w.Index/len(pieces)], pieces[w.Index%len(pieces)]
		n := size
		if k == 64 {
			n /= 4
		}
		doc := s.make(n)
		// One value, or many.
		many := gen.Chance(w.R, 3)
		if many {
			doc = rep(s.make(gen.Pick(w.R, 10, 500, 8000))+" ", n)
		}
		t := gen.Pick(w.R, anyT, rawT)
		w.Note("%s, %d bytes in reads of %d, many=%v into %s", s.name, len(doc), k, many, t)
		if compareCost(w, len(doc), nesting([]byte(doc)), 12,
			func() error {
				d := json.NewDecoder(slowReader{strings.NewReader(doc), k})
				for {
					if err := d.Decode(reflect.New(t).Interface()); err != nil {
						return noEOF(err)
					}
				}
			}, func() error {
				d := jc.NewDecoder(slowReader{strings.NewReader(doc), k})
				for {
					if err := d.Decode(reflect.New(t).Interface()); err != nil {
						return noEOF(err)
					}
				}
			}) {
			w.Count("streams", 1)
			w.Distinct("stream", s.name, k, many, t.String())
		}
	})
	// A few large ones, for what grows by steps that are large too.
	large := 12 << 20
	if c.Mode != "plain" {
		large = 1 << 20
	}
	var longest []shape
	for _, s := range shapes {
		switch s.name {
		case "ints", "short strings", "objects of one", "members", "a string", "a string of escapes", "strings in white space":
			longest = append(longest, s)
		}
	}
	c.Serial("large", len(longest)*6, func(w *mon.W) {
		s, kind := longest[w.Index/6], w.Index%6
		doc := []byte(s.make(large))
		w.Note("%s, %d bytes, kind %d", s.name, len(doc), kind)
		decode := func(t reflect.Type, k int) bool {
			w.Note("into %s in reads of %d", t, k)
			if k == 0 {
				return compareCost(w, len(doc), 1, 2, func() error { return json.Unmarshal(doc, reflect.New(t).Interface()) }, func() error { return jc.Unmarshal(doc, reflect.New(t).Interface()) })
			}
			return compareCost(w, len(doc), 1, 12,
				func() error {
					return json.NewDecoder(slowReader{bytes.NewReader(doc), k}).Decode(reflect.New(t).Interface())
				},
				func() error {
					return jc.NewDecoder(slowReader{bytes.NewReader(doc), k}).Decode(reflect.New(t).Interface())
				})
		}
		typed := map[string]reflect.Type{"ints": reflect.TypeOf([]int8{}), "short strings": reflect.TypeOf([]string{}), "objects of one": reflect.TypeOf([]struct{ A int }{}), "members": reflect.TypeOf(map[string]int{}), "a string": reflect.TypeOf(""), "a string of escapes": reflect.TypeOf(""), "strings in white space": reflect.TypeOf([]string{})}[s.name]
		ok := false
		switch kind {
		case 0:
			ok = decode(anyT, 0)
		case 1:
			ok = decode(typed, 0)
		case 2:
			ok = decode(rawT, 40000)
		case 3:
			ok = decode(typed, 3000)
		case 4:
			var x interface{}
			if json.Unmarshal(doc, &x) == nil {
				ok = compareCost(w, len(doc), 1, 12, func() error { return json.NewEncoder(io.Discard).Encode(x) }, func() error { return jc.NewEncoder(io.Discard).Encode(x) })
			}
		case 5:
			p := reflect.New(typed)
			if json.Unmarshal(doc, p.Interface()) == nil {
				ok = compareCost(w, len(doc), 1, 40, func() error { _, err := json.MarshalIndent(p.Interface(), "", " "); return err }, func() error {
					_, err := jc.Append(nil, p.Interface(), jc.SortMapKeys, jc.DefaultColors(), jc.NewIndenter("", " "))
					return err
				})
			}
		}
		if ok {
			w.Count("large costs compared", 1)
			w.Distinct("large", s.name, kind)
		}
	})
	// Values: what the documents decode to, raw and from marshalers.
	encModes := 8
	c.Serial("encode", len(shapes)*encModes, func(w *mon.W) {
		s, mode := shapes[w.Index/encModes], w.Index%encModes
		text := s.make(size)
		if nesting([]byte(text)) > 100 && (mode == 3 || mode == 4 || mode == 6) {
			text = s.make(size / 20) // indentation is quadratic to the depth
		}
		var x interface{}
		switch w.R.IntN(4) {
		case 0:
			x = json.RawMessage(text)
		case 1:
			x = costMarshaler{text}
		case 2:
			x = []interface{}{costText{text}, map[costText]int{{text[:len(text)/2]}: 1}, []byte(text)}
		}
		if x == nil || mode == 0 {
			t := targets[w.R.IntN(len(targets))]
			p := reflect.New(t)
			if json.Unmarshal([]byte(text), p.Interface()) != nil {
				p = reflect.New(anyT)
				if json.Unmarshal([]byte(text), p.Interface()) != nil {
					return
				}
			}
			x = p.Interface()
		}
		w.Note("%s, %d bytes, as %T in mode %d", s.name, len(text), x, mode)
		out := 0
		var sf, jf func() error
		std := func() error { _, err := json.Marshal(x); return err }
		app := func(flags jc.AppendFlags, clrs *jc.Colors, ind *jc.Indenter) func() error {
			return func() error { b, err := jc.Append(nil, x, flags, clrs, ind); out = len(b); return err }
		}
		switch mode {
		case 0, 1:
			sf, jf = std, func() error { b, err := jc.Marshal(x); out = len(b); return err }
		case 2:
			sf, jf = func() error { return json.NewEncoder(io.Discard).Encode(x) }, func() error { return jc.NewEncoder(io.Discard).Encode(x) }
		case 3:
			sf, jf = func() error { _, err := json.MarshalIndent(x, "", " "); return err }, func() error { b, err := jc.MarshalIndent(x, "", " "); out = len(b); return err }
		case 4:
			sf, jf = func() error { _, err := json.MarshalIndent(x, "", " "); return err }, app(jc.SortMapKeys|jc.EscapeHTML, nil, jc.NewIndenter("", " "))
		case 5:
			sf, jf = std, app(jc.SortMapKeys|jc.EscapeHTML, jc.DefaultColors(), nil)
		case 6:
			sf, jf = func() error { _, err := json.MarshalIndent(x, "", " "); return err }, app(0, jc.DefaultColors(), jc.NewIndenter("", " "))
		case 7:
			sf, jf = std, app(jc.TrustRawMessage, nil, nil)
		}
		if b, err := jc.Append(nil, x, jc.SortMapKeys|jc.EscapeHTML, nil, nil); err == nil {
			out = max(out, len(b))
		}
		_ = jf()
		// A tokenizer is made for each raw message.
		mem := 12.0
		if strings.Contains(reflect.TypeOf(x).String(), "RawMessage") {
			mem = 200
		}
		if compareCost(w, max(out, len(text)), 0, mem, sf, jf) {
			w.Count("encodings", 1)
			w.Distinct("encode", s.name, fmt.Sprintf("%T", x), mode)
		}
	})
	// Many small calls, each of a type that both know.
	all := decodable(typePool(c, 1500))
	c.Serial("small", len(all), func(w *mon.W) {
		t := all[w.Index]
		w.Note("many calls with %s", t)
		v := gen.Vals{R: w.R}.New(t, 2).Interface()
		doc := []byte(gen.DocFor(w.R, t, 2, 30))
		const n = 600
		again := func(f func() error) func() error {
			return func() (err error) {
				for i := 0; i < n && err == nil; i++ {
					try(func() { err = f() })
				}
				return err
			}
		}
		enc := func() error { _, err := jc.Marshal(v); return err }
		dec := func() error { return jc.Unmarshal(doc, reflect.New(t).Interface()) }
		senc := func() error { _, err := json.Marshal(v); return err }
		sdec := func() error { return json.Unmarshal(doc, reflect.New(t).Interface()) }
		for _, f := range []func() error{enc, dec, senc, sdec} {
			try(func() { _ = f() })
		}
		if b, err := jc.Append(nil, v, 0, nil, nil); err == nil && compareCost(w, n*(len(b)+30), 0, 20, again(senc), again(enc)) {
			w.Count("small encodings", n)
			w.Distinct("small", t.String(), 0)
		}
		if compareCost(w, n*(len(doc)+30), 0, 20, again(sdec), again(dec)) {
			w.Count("small decodings", n)
			w.Distinct("small", t.String(), 1)
		}
	})
	// Nothing stays behind.
	ts := decodable(typePool(c, 200))
	c.Serial("retained", 6, func(w *mon.W) {
		var sink bytes.Buffer
		enc := jc.NewEncoder(&sink)
		mixed := func(seed uint64) {
			for i := 0; i < 1500; i++ {
				t := ts[i%len(ts)]
				v := gen.Vals{R: w.R}.New(t, 2)
				flags := jc.AppendFlags(i % 8)
				try(func() {
					_, _ = jc.Append(nil, v.Interface(), flags, gen.Pick(w.R, nil, jc.DefaultColors()), gen.Pick(w.R, nil, jc.NewIndenter("", " ")))
				})
				try(func() { enc.SetIndent("", gen.Pick(w.R, "", "  ")); _ = enc.Encode(v.Interface()) })
				sink.Reset()
				doc := gen.DocFor(w.R, t, 2, 30)
				if i%50 == 0 {
					doc = shapes[w.R.IntN(len(shapes))].make(30000)
				}
				y := reflect.New(t)
				try(func() { _, _ = jc.Parse([]byte(doc), y.Interface(), jc.ParseFlags(i%64)) })
				try(func() {
					d := jc.NewDecoder(strings.NewReader(doc))
					_ = d.Decode(y.Interface())
					_ = d.Decode(y.Interface())
				})
				var sb strings.Builder
				try(func() { _ = jc.NewEncoder(&sb).Encode([]interface{}{v.Interface(), make(chan int)}) })
				func() {
					defer func() { _ = recover() }()
					_ = jc.NewEncoder(panicWriter{}).Encode(doc)
				}()
				tk := jc.NewTokenizer([]byte(doc))
				for tk.Next() {
				}
			}
		}
		mixed(1)
		before := heapAfterGC()
		mixed(2)
		mixed(3)
		after := heapAfterGC()
		if after > before+200*1024 {
			// Once more, for what is built once.
			before = after
			mixed(4)
			mixed(5)
			mixed(6)
			if after = heapAfterGC(); after > before+200*1024 {
				w.Fatalf("%d bytes stay allocated after 4500 rounds of calls", after-before)
			}
		}
		w.Count("rounds of calls of which nothing stayed", 3000)
	})
	c.MustObserve("costs compared", 900)
	c.MustObserve("large costs compared", 30)
	c.MustObserve("small encodings", 20000)
	c.MustObserve("small decodings", 20000)
	c.MustObserve("streams", 120)
	c.MustObserve("encodings", 200)
	c.MustObserve("rounds of calls of which nothing stayed", 12000)
}

type panicWriter struct{}

func (panicWriter) Write([]byte) (int, error) { panic("no") }

func noEOF(err error) error {
	if err == io.EOF {
		return nil
	}
	return err
}

type costMarshaler struct{ s string }

func (m costMarshaler) MarshalJSON() ([]byte, error) { return []byte(m.s), nil }

type costText struct{ s string }

func (m costText) MarshalText() ([]byte, error) { return []byte(m.s), nil }
