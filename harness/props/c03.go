package props

import (
	"bytes"
	"fmt"
	"reflect"
	"regexp"

	jc "github.com/neilotoole/jsoncolor"

	"verifharness/gen"
	"verifharness/mon"
	"verifharness/ref"
	"verifharness/zoo"
)

func init() {
	register(&mon.Prop{ID: "C03",
		Rule: "random values encoded with and without a random palette, same flags and indentation, through Append and Encoder; non-trivial: a colored output with at least one color code which strips to the uncolored output, distinct by output",
		Run:  runC03})
	register(&mon.Prop{ID: "C04",
		Rule: "random values whose strings carry a mark of what they stem from, encoded with random palettes; every visible byte of the output is checked to be under exactly the color of its token's class; non-trivial: an output with at least two classes of token, distinct by output",
		Run:  runC04})
}

// encSettings is one way of calling the encoder.
type encSettings struct {
	flags          jc.AppendFlags
	clrs           *jc.Colors
	prefix, indent string
	indented       bool
}

func randSettings(w *mon.W) (s encSettings) {
	s.flags = jc.SortMapKeys
	if gen.Chance(w.R, 2) {
		s.flags |= jc.EscapeHTML
	}
	if gen.Chance(w.R, 2) {
		s.indented = true
		s.prefix, s.indent = indentStrings(w.R)
	}
	s.clrs = palette(w.R)
	return s
}

// encode calls Append or Encoder with the settings.
func (s encSettings) encode(api int, x interface{}, clrs *jc.Colors) ([]byte, error) {
	var ind *jc.Indenter
	if s.indented {
		ind = jc.NewIndenter(s.prefix, s.indent)
	}
	if api == 0 {
		return jc.Append(nil, x, s.flags, clrs, ind)
	}
	var buf bytes.Buffer
	enc := jc.NewEncoder(&buf)
	enc.SetEscapeHTML(s.flags&jc.EscapeHTML != 0)
	enc.SetSortMapKeys(s.flags&jc.SortMapKeys != 0)
	enc.SetTrustRawMessage(s.flags&jc.TrustRawMessage != 0)
	enc.SetColors(clrs)
	if s.indented {
		enc.SetIndent(s.prefix, s.indent)
	}
	err := enc.Encode(x)
	if err == nil && !bytes.HasSuffix(buf.Bytes(), []byte("\n")) {
		return buf.Bytes(), nil
	}
	return bytes.TrimSuffix(buf.Bytes(), []byte("\n")), err
}

func runC03(c *mon.Ctx) {
	ts := typePool(c, 1400)
	one := func(w *mon.W, x interface{}, v reflect.Value, s encSettings) {
		api := w.R.IntN(2)
		plain, perr := s.encode(api, x, nil)
		got, gerr := s.encode(api, x, s.clrs)
		note := func() {
			w.Note("%s", desc(v))
			w.Note("colors %s", descColors(s.clrs))
			w.Note("flags=%d prefix=%q indent=%q", s.flags, s.prefix, s.indent)
		}
		if (perr != nil) != (gerr != nil) {
			note()
			w.Fatalf("without colors err=%v, with colors err=%v", perr, gerr)
		}
		if perr != nil {
			w.Count("refused with and without colors", 1)
			if reflect.TypeOf(perr) != reflect.TypeOf(gerr) {
				note()
				w.Fatalf("without colors err=%T %v, with colors err=%T %v", perr, perr, gerr, gerr)
			}
			return
		}
		if bytes.IndexByte(plain, 0x1b) >= 0 {
			note()
			w.Fatalf("raw escape character in uncolored output %s", q(plain))
		}
		if st := strip(got); !bytes.Equal(st, plain) {
			note()
			w.Fatalf("colored output %s\n strips to %s\n uncolored output %s\n %s", q(got), q(st), q(plain), firstDiff(st, plain))
		}
		w.Count("colored outputs compared", 1)
		if n := bytes.Count(got, []byte("\x1b[")); n > 0 {
			w.Count("color codes removed", n)
			w.Distinct(got)
		}
		if w.WantSample() {
			w.Sample("%s", q(got))
		}
	}
	c.Workload("values", c.N(60000, 12), func(w *mon.W) {
		v := encValue(w, ts, gen.Vals{R: w.R, Bad: gen.Pick(w.R, 0, 0, 40)})
		x := value(w.R, v)
		if gen.Chance(w.R, 4) {
			x = nest(w, x, 1+w.R.IntN(4))
		}
		one(w, x, v, randSettings(w))
	})
	c.Workload("raw", c.N(20000, 12), func(w *mon.W) {
		doc := gen.Doc(w.R, w.R.IntN(4))
		if gen.Chance(w.R, 4) {
			doc = gen.Mutate(w.R, doc)
		}
		x := wrapRaw(w.R, []byte(doc), w.R.IntN(3))
		s := randSettings(w)
		if gen.Chance(w.R, 3) && bytes.IndexByte([]byte(doc), 0x1b) < 0 {
			s.flags |= jc.TrustRawMessage
		}
		one(w, x, reflect.ValueOf(&x).Elem(), s)
	})
	c.MustObserve("colored outputs compared", 20000)
	c.MustObserve("color codes removed", 100000)
}

const (
	clNull = iota
	clBool
	clNumber
	clString
	clKey
	clBytes
	clTime
	clTM = 12
)

var (
	rfcTime = regexp.MustCompile(`^(\d{4})-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?(Z|[+-]\d\d:\d\d)$`)
	numLit  = regexp.MustCompile(`^(-?(0|[1-9]\d*)(\.\d+)?([eE][+-]?\d+)?|true|false|null|)$`)
)

var lexicalOnly = map[string]bool{"pmj": true, "nil pmj": true, "len": true, "nil": true, "json": true, "ok": true, "p": true, "\u2028<b>&\u2029": true, "a<b/": true}

// classesOf tells which classes a string token that is no key may have, given
// that the value was labeled.
func classesOf(s string) []int {
	switch {
	case numLit.MatchString(s):
		return []int{clString, clTM, clBytes} // ,string option, empty text or bytes, numbers in text
	case len(s) >= 4 && s[:4] == "QllU":
		return []int{clBytes}
	case rfcTime.MatchString(s):
		if s[:4] == "1777" {
			return []int{clString} // by the promoted MarshalJSON of an embedded time
		}
		if s[:5] == "0001-" { // the zero time may be that of an embedded time
			return []int{clTime, clString}
		}
		return []int{clTime}
	case lexicalOnly[s], hasPrefix(s, gen.Mark), hasPrefix(s, "\""+gen.Mark), hasPrefix(s, "mj:"), s == `""`:
		return []int{clString}
	}
	return []int{clTM}
}

func hasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

// checkColors walks colored output and its plain text together.
func checkColors(w *mon.W, got, plain []byte, s encSettings, note func()) {
	d, err := ref.Parse(plain)
	if err != nil {
		// Indentation that is not white space: the layout is C02's business.
		w.Count("not parsed", 1)
		return
	}
	fs := colorFields(s.clrs)
	active := ""
	pos := 0 // in plain
	i := 0
	next := func() (byte, bool) { // next visible byte
		for i < len(got) {
			if got[i] == 0x1b {
				j := bytes.IndexByte(got[i:], 'm')
				code := string(got[i : i+j+1])
				if code == reset {
					active = ""
				} else {
					active += code
				}
				i += j + 1
				continue
			}
			return got[i], true
		}
		return 0, false
	}
	expectByte := func(allowed []string, what string) bool {
		ch, ok := next()
		if !ok || ch != plain[pos] {
			note()
			w.Fatalf("text of colored output differs from the uncolored one at %d: %s and %s", pos, q(got), q(plain))
		}
		for _, a := range allowed {
			if a == active {
				i++
				pos++
				return true
			}
		}
		note()
		w.Fatalf("%s: byte %q at %d of the text is shown with %q, want one of %q\n colored %s", what, ch, pos, active, allowed, q(got))
		return false
	}
	classes := map[int]bool{}
	for _, t := range d.Toks {
		for pos < t.Start {
			expectByte([]string{""}, "white space or indentation")
			w.Count("white space bytes checked", 1)
		}
		var cls []int
		what := ""
		switch t.Kind {
		case '{', '}', '[', ']', ',', ':':
			f := map[byte]int{'{': 9, '}': 9, '[': 8, ']': 8, ',': 10, ':': 11}[t.Kind]
			if len(*fs[f]) == 0 {
				f = 7
			}
			cls, what = []int{f}, "punctuation"
		case 'n':
			cls, what = []int{clNull}, "null"
		case 't', 'f':
			cls, what = []int{clBool}, "bool"
		case '0':
			cls, what = []int{clNumber}, "number"
		case '"':
			if t.IsKey {
				cls, what = []int{clKey}, "key"
			} else {
				cls, what = classesOf(ref.Unquote(plain[t.Start:t.End])), "string"
				if len(cls) > 1 {
					w.Count("string tokens of ambiguous class", 1)
				}
			}
		}
		// The whole token in one and the same color.
		var match []int
		for _, cl := range cls {
			match = append(match, cl)
		}
		for pos < t.End {
			var allowed []string
			for _, cl := range match {
				allowed = append(allowed, string(*fs[cl]))
			}
			expectByte(allowed, what)
			var m2 []int
			for _, cl := range match {
				if string(*fs[cl]) == active {
					m2 = append(m2, cl)
				}
			}
			match = m2
		}
		w.Count("tokens checked: "+colorNames[match[0]], 1)
		classes[match[0]] = true
	}
	for pos < len(plain) {
		expectByte([]string{""}, "white space at the end")
	}
	if ch, ok := next(); ok {
		note()
		w.Fatalf("visible byte %q after the end", ch)
	}
	if active != "" {
		note()
		w.Fatalf("color %q still active at the end of %s", active, q(got))
	}
	if len(classes) >= 2 {
		w.Distinct(got)
	}
}

func runC04(c *mon.Ctx) {
	ts := typePool(c, 1400)
	one := func(w *mon.W, x interface{}, v reflect.Value, s encSettings) {
		if s.indented {
			for !wsOnly(s.prefix + s.indent) {
				s.prefix, s.indent = indentStrings(w.R)
			}
		}
		api := w.R.IntN(2)
		plain, err := s.encode(api, x, nil)
		if err != nil {
			w.Count("refused", 1)
			return
		}
		got, err := s.encode(api, x, s.clrs)
		note := func() {
			w.Note("%s", desc(v))
			w.Note("colors %s", descColors(s.clrs))
			w.Note("flags=%d prefix=%q indent=%q", s.flags, s.prefix, s.indent)
		}
		if err != nil {
			note()
			w.Fatalf("refused with colors only: %v", err)
		}
		checkColors(w, got, plain, s, note)
		if w.WantSample() {
			w.Sample("%s", q(got))
		}
	}
	c.Workload("labeled-values", c.N(60000, 12), func(w *mon.W) {
		v := encValue(w, ts, gen.Vals{R: w.R, Label: true})
		x := value(w.R, v)
		one(w, x, v, randSettings(w))
	})
	c.Workload("labeled-zoo", c.N(20000, 12), func(w *mon.W) {
		v := gen.Vals{R: w.R, Label: true}.New(pickType(w.R, zoo.Types()), 4)
		one(w, value(w.R, v), v, randSettings(w))
	})
	c.Workload("labeled-raw", c.N(20000, 12), func(w *mon.W) {
		x := wrapRaw(w.R, []byte(gen.LabeledDoc(w.R, w.R.IntN(4))), w.R.IntN(3))
		s := randSettings(w)
		if gen.Chance(w.R, 3) {
			s.flags |= jc.TrustRawMessage
		}
		one(w, x, reflect.ValueOf(&x).Elem(), s)
	})
	// Every caller gets a default palette of its own.
	c.Workload("default-palettes", 20, func(w *mon.W) {
		p, q := jc.DefaultColors(), jc.DefaultColors()
		a, b := reflect.ValueOf(p).Elem(), reflect.ValueOf(q).Elem()
		before := fmt.Sprint(b.Interface())
		for i := 0; i < a.NumField(); i++ {
			if a.Field(i).Type() != reflect.TypeOf(jc.Color{}) {
				continue
			}
			code := a.Field(i).Bytes()
			for i := range code {
				code[i] = 'x'
			}
			code = append(code, "xxxxxxxx"...)
			a.Field(i).SetBytes(code)
		}
		if after := fmt.Sprint(b.Interface()); after != before {
			w.Fatalf("a change to one default palette shows in another: %s, before %s", after, before)
		}
		if after := fmt.Sprint(*jc.DefaultColors()); after != before {
			w.Fatalf("a change to a default palette shows in later ones: %s, before %s", after, before)
		}
		w.Count("default palettes", 1)
	})
	for _, n := range []string{"Null", "Bool", "Number", "String", "Key", "Bytes", "Time", "TextMarshaler", "Brackets", "Braces", "Comma", "Colon", "Punc"} {
		c.MustObserve("tokens checked: "+n, 300)
	}
}
