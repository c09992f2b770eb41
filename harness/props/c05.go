package props

import (
	"bytes"
	"encoding/json"
	"reflect"
	"unicode/utf8"

	jc "github.com/neilotoole/jsoncolor"

	"verifharness/gen"
	"verifharness/mon"
	"verifharness/ref"
)

func init() {
	register(&mon.Prop{ID: "C05",
		Rule: "random valid and damaged JSON as RawMessage or Marshaler output at random places in values, encoded with all settings and compared with encoding/json and, token by token, with an independent parse of the message; TrustRawMessage on valid and on damaged messages; non-trivial: a message with at least 5 tokens, or a damaged one, distinct by message and settings",
		Run:  runC05})
	register(&mon.Prop{ID: "C21",
		Rule: "values with hostile strings in every position and hostile raw messages, encoded with all settings; the output is checked byte by byte and by an independent parser; non-trivial: an output with at least one escape, distinct by output",
		Run:  runC21})
}

const placeholder = `"@@placeholder@@"`

func runC05(c *mon.Ctx) {
	// Accepted and refused messages, same bytes as encoding/json.
	c.Workload("against-encoding-json", c.N(80000, 12), func(w *mon.W) {
		doc := gen.Doc(w.R, w.R.IntN(5))
		switch w.R.IntN(6) {
		case 0, 1:
			doc = gen.Mutate(w.R, doc)
		case 2:
			doc = gen.Soup(w.R)
		}
		x := wrapRaw(w.R, []byte(doc), w.R.IntN(3))
		s := randSettings(w)
		api := w.R.IntN(2)
		got, gerr := s.encode(api, x, nil)
		html := s.flags&jc.EscapeHTML != 0
		var want []byte
		var werr error
		if s.indented && (s.prefix != "" || s.indent != "") {
			want, werr = stdIndent(x, html, s.prefix, s.indent)
		} else {
			want, werr = std(x, html)
		}
		note := func() {
			w.Note("message %s in %T flags=%d prefix=%q indent=%q", q([]byte(doc)), x, s.flags, s.prefix, s.indent)
		}
		if (gerr != nil) != (werr != nil) {
			note()
			w.Fatalf("encoding/json gives %s err=%v; jsoncolor gives %s err=%v", q(want), werr, q(got), gerr)
		}
		if gerr != nil {
			if ref.Valid([]byte(doc)) {
				note()
				w.Fatalf("valid message refused by both: %v", gerr)
			}
			w.Count("invalid messages refused", 1)
			w.Distinct(doc, "refused")
			return
		}
		// Everything else in the value is spelled the one way.
		if !bytes.Equal(got, want) {
			note()
			w.Fatalf("got %s\n want %s\n %s", q(got), q(want), firstDiff(got, want))
		}
		w.Count("valid messages compared", 1)
		if d, err := ref.Parse([]byte(doc)); err == nil && len(d.Toks) >= 5 {
			w.Distinct(doc, s.flags, s.prefix, s.indent)
		}
		if w.WantSample() {
			w.Sample("%s in %T -> %s", q([]byte(doc)), x, q(got))
		}
		// The same in color.
		if w.R.IntN(2) == 0 {
			colored, err := s.encode(api, x, palette(w.R))
			if err != nil || !bytes.Equal(strip(colored), got) {
				note()
				w.Fatalf("in color %s err=%v\n want %s", q(colored), err, q(got))
			}
			w.Count("messages compared in color", 1)
		}
		// The same with the message trusted.
		if w.R.IntN(2) == 0 {
			st := s
			st.flags |= jc.TrustRawMessage
			got2, err := st.encode(api, x, nil)
			if err != nil || !bytes.Equal(got2, got) {
				note()
				w.Fatalf("with TrustRawMessage %s err=%v, without %s", q(got2), err, q(got))
			}
			w.Count("valid messages trusted", 1)
		}
	})

	// The tokens of the message, by an independent parser, with colors.
	c.Workload("tokens", c.N(40000, 12), func(w *mon.W) {
		doc := []byte(gen.Doc(w.R, 1+w.R.IntN(4)))
		d, err := ref.Parse(doc)
		if err != nil {
			w.Fatalf("generator made invalid document %s", q(doc))
		}
		s := randSettings(w)
		s.flags &^= jc.EscapeHTML
		if gen.Chance(w.R, 3) {
			s.flags |= jc.TrustRawMessage
		}
		if !wsOnly(s.prefix + s.indent) {
			s.indented = false
		}
		var x interface{} = json.RawMessage(doc)
		if gen.Chance(w.R, 2) {
			x = &prawVal{doc}
		}
		got, gerr := s.encode(w.R.IntN(2), x, s.clrs)
		if gerr != nil {
			w.Note("message %s", q(doc))
			w.Fatalf("refused: %v", gerr)
		}
		out := strip(got)
		o, err := ref.Parse(out)
		if err != nil {
			w.Note("message %s", q(doc))
			w.Fatalf("output is not JSON: %s", q(got))
		}
		if a, b := o.Compact(out), d.Compact(doc); !bytes.Equal(a, b) {
			w.Note("message %s", q(doc))
			w.Fatalf("tokens changed: %s\n want %s\n %s", q(a), q(b), firstDiff(a, b))
		}
		w.Count("tokens carried over", len(d.Toks))
	})

	// Damaged messages which are trusted: no panic, and what surrounds the
	// message is as with a valid one.
	c.Workload("trusted-garbage", c.N(60000, 12), func(w *mon.W) {
		var raw []byte
		switch w.R.IntN(5) {
		case 0:
			raw = []byte(gen.Soup(w.R))
		case 1: // open containers
			raw = []byte(gen.Pick(w.R, "[", "{", "[[", `{"a":[`, `[{`, `{"a":1,"b":{"c":[`, "[[[[[[[[[[", `[1,[2,{"x"`, "]", "}", "[}", "{]", "[1]]", `{}}`, ",", ":", "1,2", "[1,,2]", "{,}", `{"a"}`, `{"a":}`, "nul", `"abc`, `"a\`, `"\u12`, "-", "1e", "[1 2]", "1 2", `{"a" "b"}`, "\x00", "", " ", "\xff"))
		default:
			raw = []byte(gen.Mutate(w.R, gen.Doc(w.R, 1+w.R.IntN(4))))
		}
		if bytes.IndexByte(raw, 0x1b) >= 0 || bytes.Contains(raw, []byte("placeholder")) {
			return
		}
		depth := w.R.IntN(3)
		seed1, seed2 := w.R.Uint64(), w.R.Uint64()
		mk := func(b []byte) interface{} { return around(seed1, seed2, b, depth) }
		s := randSettings(w)
		s.flags |= jc.TrustRawMessage
		note := func() {
			w.Note("trusted message %s flags=%d prefix=%q indent=%q", q(raw), s.flags, s.prefix, s.indent)
		}
		api := w.R.IntN(2)
		got, err := s.encode(api, mk(raw), s.clrs)
		if err != nil {
			note()
			w.Fatalf("trusted message refused: %v", err)
		}
		ctx, err := s.encode(api, mk([]byte(placeholder)), s.clrs)
		if err != nil {
			note()
			w.Fatalf("context refused: %v", err)
		}
		ph := append(append(append([]byte{}, s.clrs.String...), placeholder...), reset...)
		i := bytes.Index(ctx, ph)
		if i < 0 || bytes.Count(ctx, []byte(placeholder)) != 1 {
			note()
			w.Fatalf("placeholder not found as %q in %q", ph, ctx)
		}
		pre, post := ctx[:i], ctx[i+len(ph):]
		if !bytes.HasPrefix(got, pre) || !bytes.HasSuffix(got, post) || len(got) < len(pre)+len(post) {
			note()
			w.Fatalf("what surrounds the message is disturbed: %s\n want %s...%s", q(got), q(pre), q(post))
		}
		w.Count("damaged messages trusted", 1)
		w.Distinct(raw, s.flags, s.prefix, s.indent)
	})
	c.MustObserve("valid messages compared", 20000)
	c.MustObserve("messages compared in color", 10000)
	c.MustObserve("invalid messages refused", 4000)
	c.MustObserve("tokens carried over", 50000)
	c.MustObserve("damaged messages trusted", 20000)
}

// around places a message among other data, deterministically.
func around(s1, s2 uint64, raw []byte, depth int) interface{} {
	var x interface{}
	switch s1 % 6 {
	case 0:
		x = json.RawMessage(raw)
	case 1:
		x = rawVal{raw}
	case 2:
		x = map[string]json.RawMessage{"a": json.RawMessage(`{"q":[1]}`), "b": raw, "c": json.RawMessage(`[[]]`)}
	case 3:
		x = []*prawVal{{[]byte("[1,2]")}, {raw}, {[]byte(`{"a":{}}`)}}
	case 4:
		x = struct {
			A map[string]int
			R json.RawMessage
			Z []int
		}{map[string]int{"k": 1}, raw, []int{1, 2}}
	case 5:
		r := json.RawMessage(raw)
		x = map[string]interface{}{"a": 1, "m": &r, "z": map[string]interface{}{"n": nil}}
	}
	for ; depth > 0; depth-- {
		switch s2 % 4 {
		case 0:
			x = []interface{}{"b", x, map[string]interface{}{"after": []int{1}}}
		case 1:
			x = map[string]interface{}{"a": 1, "m": x, "z": []interface{}{1, map[string]int{"y": 2}}}
		case 2:
			x = struct {
				A interface{}
				B []string
			}{x, []string{"t", "u"}}
		case 3:
			x = map[int8]interface{}{1: x, 2: []bool{true}}
		}
		s2 /= 4
	}
	return x
}

// hostile makes values with strings in all positions.
func hostileStrings(w *mon.W) interface{} {
	r := w.R
	s := func() string { return gen.Str(r) }
	m := map[string]interface{}{}
	for n := r.IntN(4); n > 0; n-- {
		m[s()] = gen.Pick[interface{}](r, s(), []string{s(), s()}, map[string]string{s(): s()}, textVal{s()}, s())
	}
	type named string
	switch r.IntN(9) {
	case 0:
		return m
	case 1:
		return s()
	case 2:
		return []interface{}{s(), textVal{s()}, map[named]named{named(s()): named(s())}, json.Number("1")}
	case 3:
		return struct {
			A string
			B string `json:",string"`
			C *string
			D map[string]interface{} `json:"<d&>,omitempty"`
		}{s(), s(), ptr(s()), m}
	case 4:
		return &m
	case 5:
		return map[mapKeyText]string{{s()}: s()}
	case 6:
		return struct {
			T textVal
			P *textVal
			M map[string]string
			N []map[string][]string
		}{textVal{s()}, &textVal{s()}, map[string]string{s(): s()}, []map[string][]string{{s(): {s()}}}}
	case 7:
		// a field name as hostile as reflect allows
		nm := gen.Pick(r, "<k>", "a&b", "é", "日本", "x<y>&", "a/b", "k:v", "a b", "ſ", "$%", "~")
		t := reflect.StructOf([]reflect.StructField{{Name: "F", Type: reflect.TypeOf(""), Tag: reflect.StructTag(`json:"` + nm + `"`)}, {Name: "G", Type: reflect.TypeOf([]string{}), Tag: reflect.StructTag(`json:"g` + nm + `,omitempty"`)}})
		v := reflect.New(t).Elem()
		v.Field(0).SetString(s())
		v.Field(1).Set(reflect.ValueOf([]string{s()}))
		return v.Interface()
	}
	return []map[string]interface{}{m, {"": s()}}
}

func ptr[T any](x T) *T { return &x }

type mapKeyText struct{ S string }

func (k mapKeyText) MarshalText() ([]byte, error) { return []byte(k.S), nil }

func runC21(c *mon.Ctx) {
	ts := typePool(c, 1400)
	check := func(w *mon.W, x interface{}, s encSettings, rawUTF8 bool) {
		if !wsOnly(s.prefix + s.indent) {
			s.indented = false
		}
		var clrs *jc.Colors
		if gen.Chance(w.R, 2) {
			clrs = s.clrs
		}
		out, err := s.encode(w.R.IntN(2), x, clrs)
		if err != nil {
			w.Count("refused", 1)
			return
		}
		note := func() {
			w.Note("%s", desc(reflect.ValueOf(&x).Elem()))
			w.Note("flags=%d colors=%v output %s", s.flags, clrs != nil, q(out))
		}
		text := out
		if clrs != nil {
			// Each escape character must start a code of the palette or the reset.
			for i := 0; i < len(out); {
				if out[i] != 0x1b {
					i++
					continue
				}
				n := 0
				if bytes.HasPrefix(out[i:], []byte(reset)) {
					n = len(reset)
				}
				for _, f := range colorFields(clrs) {
					if len(*f) > n && bytes.HasPrefix(out[i:], *f) {
						n = len(*f)
					}
				}
				if n == 0 {
					note()
					w.Fatalf("escape character that is no color code at %d: %s", i, q(out[i:min(len(out), i+12)]))
				}
				i += n
			}
			text = strip(out)
		}
		if !utf8.Valid(text) {
			note()
			w.Fatalf("output is not UTF-8")
		}
		d, err := ref.Parse(text)
		if err != nil {
			note()
			w.Fatalf("output is not JSON: %v", err)
		}
		if d.Start != 0 || d.End != len(text) {
			note()
			w.Fatalf("white space around the output")
		}
		comp := d.Compact(text) // without the layout
		html := s.flags&jc.EscapeHTML != 0
		for i, b := range comp {
			if b < 0x20 {
				note()
				w.Fatalf("control character %#x at %d", b, i)
			}
			if html && (b == '<' || b == '>' || b == '&') {
				note()
				w.Fatalf("%q in output with EscapeHTML", b)
			}
		}
		if (!rawUTF8 || html) && (bytes.Contains(comp, []byte("\u2028")) || bytes.Contains(comp, []byte("\u2029"))) {
			note()
			w.Fatalf("raw U+2028 or U+2029")
		}
		w.Count("outputs checked", 1)
		w.Count("bytes checked", len(comp))
		if n := bytes.Count(comp, []byte("\\")); n > 0 {
			w.Count("escapes seen", n)
			w.Distinct(out)
		}
		if w.WantSample() {
			w.Sample("%s", q(out))
		}
	}
	c.Workload("hostile-strings", c.N(80000, 12), func(w *mon.W) {
		check(w, hostileStrings(w), randSettings(w), false)
	})
	c.Workload("values", c.N(30000, 12), func(w *mon.W) {
		v := encValue(w, ts, gen.Vals{R: w.R, NoRaw: true})
		// MJHTML hands out raw U+2028 as Marshalers may.
		check(w, value(w.R, v), randSettings(w), true)
	})
	c.Workload("raw", c.N(30000, 12), func(w *mon.W) {
		doc := gen.Doc(w.R, w.R.IntN(4))
		if gen.Chance(w.R, 3) {
			doc = gen.Mutate(w.R, doc)
		}
		if !utf8.ValidString(doc) {
			return
		}
		check(w, wrapRaw(w.R, []byte(doc), w.R.IntN(3)), randSettings(w), true)
	})
	// Every byte, and every short combination with its neighbors, in a string.
	c.Workload("all-bytes", 256*3, func(w *mon.W) {
		b := byte(w.Index)
		pre := gen.Pick(w.R, "", "a", "abcdefg", "\xc3\xa9", "\\", "\"")
		post := gen.Pick(w.R, "", "z", "12345678", "\xe2\x80\xa8", "\"", "\\")
		str := pre + string([]byte{b}) + post
		for _, x := range []interface{}{str, map[string]string{str: str}, textVal{str}, map[mapKeyText]int{{str}: 1}, struct {
			A string `json:",string"`
		}{str}} {
			for k := 0; k < 4; k++ {
				s := randSettings(w)
				check(w, x, s, false)
			}
		}
	})
	c.MustObserve("outputs checked", 30000)
	c.MustObserve("escapes seen", 50000)
}
