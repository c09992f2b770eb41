package props

import (
	"bytes"
	"encoding/json"
	"io"
	"reflect"
	"strings"

	jc "github.com/neilotoole/jsoncolor"

	"verifharness/gen"
	"verifharness/mon"
	"verifharness/ref"
)

func init() {
	register(&mon.Prop{ID: "C08",
		Rule: "all byte strings up to a length over several alphabets of significant bytes, and random valid, damaged and arbitrary input, given to Valid, Unmarshal, Parse, Decoder and the encoder's raw messages; acceptance is compared with an independent parser of RFC 8259 and with encoding/json; non-trivial: distinct random inputs of at least 3 bytes (enumerated ones are counted as events)",
		Run:  runC08})
}

// Targets which store little or nothing of the input, so that most of it is
// skipped, and targets with scanners of their own.
type (
	skipAll  struct{}
	skipSome struct {
		A int
		B string
		C []int
		D map[string]int
		E interface{}
		F *float64
		G bool
		H jc.RawMessage
		I jc.Number
		J [2]int
	}
	takeRaw struct{ S string }
)

func (t *takeRaw) UnmarshalJSON(b []byte) error { t.S = string(b); return nil }

type takeText struct{ S string }

func (t *takeText) UnmarshalText(b []byte) error { t.S = string(b); return nil }

func c08Targets() []func() interface{} {
	return []func() interface{}{
		func() interface{} { return new(interface{}) },
		func() interface{} { return new(skipAll) },
		func() interface{} { return new(skipSome) },
		func() interface{} { return new(map[string]interface{}) },
		func() interface{} { return new([]interface{}) },
		func() interface{} { return new(jc.RawMessage) },
		func() interface{} { return new([]int) },
		func() interface{} { return new(map[string]skipAll) },
		func() interface{} { return new(string) },
		func() interface{} { return new(int) },
		func() interface{} { return new(float64) },
		func() interface{} { return new(takeRaw) },
		func() interface{} { return new(takeText) },
		func() interface{} { return new([0]int) },
		func() interface{} { return new([2]skipAll) },
		func() interface{} { return new(map[string]jc.RawMessage) },
		func() interface{} { return new([]byte) },
		func() interface{} { return new(bool) },
		func() interface{} { return new(jc.Number) },
		func() interface{} { return new(*[]string) },
		func() interface{} { return new(map[int]bool) },
		func() interface{} { return new(chan int) },
	}
}

// exact copies b into a slice without spare capacity.
func exact(b []byte) []byte {
	c := make([]byte, len(b))
	copy(c, b)
	return c[:len(b):len(b)]
}

// checkAccept compares acceptance of b.
func checkAccept(w *mon.W, b []byte, deep bool) {
	want := ref.Valid(b)
	if sv := json.Valid(b); sv != want {
		w.Fatalf("the oracles disagree about %s: reference %v, encoding/json %v", q(b), want, sv)
	}
	b = exact(b)
	if got := jc.Valid(b); got != want {
		w.Fatalf("Valid(%s) = %v, want %v", q(b), got, want)
	}
	var x interface{}
	if err := jc.Unmarshal(b, &x); (err == nil) != want {
		// Numbers which are out of the range of float64 are valid and refused.
		var y interface{}
		if _, ok := json.Unmarshal(b, &y).(*json.UnmarshalTypeError); !ok || !want {
			w.Fatalf("Unmarshal(%s) into interface{}: err=%v, valid=%v", q(b), err, want)
		}
	}
	if want {
		w.Count("valid inputs", 1)
	} else {
		w.Count("invalid inputs", 1)
	}
	if !deep {
		return
	}
	for i, mk := range c08Targets() {
		a, g := mk(), mk()
		werr := json.Unmarshal(b, a)
		gerr := jc.Unmarshal(b, g)
		if !want && gerr == nil {
			w.Fatalf("Unmarshal(%s) into %T accepts invalid input", q(b), g)
		}
		if (werr == nil) != (gerr == nil) {
			w.Fatalf("Unmarshal(%s) into %T: err=%v, encoding/json err=%v", q(b), g, gerr, werr)
		}
		if i < 3 || i == w.Index%22 {
			// The same through Parse, with something after it.
			checkParse(w, b, mk)
			// The same as a stream.
			dec := jc.NewDecoder(bytes.NewReader(b))
			n := 0
			var err error
			for n < 1000 {
				if err = dec.Decode(mk()); err != nil && isStop(err) {
					break
				}
				n++
			}
			sdec := json.NewDecoder(bytes.NewReader(b))
			sn := 0
			var serr error
			for sn < 1000 {
				if serr = sdec.Decode(mk()); serr != nil && isStop(serr) {
					break
				}
				sn++
			}
			if n != sn || (err == io.EOF) != (serr == io.EOF) {
				w.Fatalf("Decoder on %s into %T: %d values then %v, encoding/json %d values then %v", q(b), g, n, err, sn, serr)
			}
			w.Count("stream values", n)
		}
		w.Count("typed decodes", 1)
	}
	_, err := jc.Append(nil, jc.RawMessage(b), 0, nil, nil)
	if (err == nil) != want {
		w.Fatalf("encoding RawMessage(%s): err=%v, valid=%v", q(b), err, want)
	}
	for tok, n := jc.NewTokenizer(b), 0; tok.Next(); n++ {
		if n > len(b) {
			w.Fatalf("Tokenizer does not end on %s", q(b))
		}
	}
	var o1, o2 bytes.Buffer
	e1, e2 := jc.Compact(&o1, b), json.Compact(&o2, b)
	if (e1 == nil) != want || (e2 == nil) != want || !bytes.Equal(o1.Bytes(), o2.Bytes()) {
		w.Fatalf("Compact(%s): %q err=%v, encoding/json %q err=%v", q(b), o1.Bytes(), e1, o2.Bytes(), e2)
	}
	o1.Reset()
	o2.Reset()
	e1, e2 = jc.Indent(&o1, b, ">", " "), json.Indent(&o2, b, ">", " ")
	if (e1 == nil) != want || !bytes.Equal(o1.Bytes(), o2.Bytes()) {
		w.Fatalf("Indent(%s): %q err=%v, encoding/json %q err=%v", q(b), o1.Bytes(), e1, o2.Bytes(), e2)
	}
	o1.Reset()
	o2.Reset()
	jc.HTMLEscape(&o1, b)
	json.HTMLEscape(&o2, b)
	if !bytes.Equal(o1.Bytes(), o2.Bytes()) {
		w.Fatalf("HTMLEscape(%s): %q, encoding/json %q", q(b), o1.Bytes(), o2.Bytes())
	}
}

// isStop tells whether a Decoder cannot go on after err.
func isStop(err error) bool {
	switch err.(type) {
	case *json.UnmarshalTypeError:
		return false
	case *json.SyntaxError:
		return true
	}
	return err == io.EOF || err == io.ErrUnexpectedEOF || !strings.Contains(err.Error(), "json: ") && !strings.Contains(err.Error(), "illegal base64")
}

// checkParse checks that Parse consumes exactly one value.
func checkParse(w *mon.W, b []byte, mk func() interface{}) {
	if gen.Chance(w.R, 2) {
		b = exact(append(append([]byte{}, b...), gen.Pick(w.R, " ", "\n\t ", "1", "{", "null", ",", "]", "x", "\"", "[]", " {\"a\":1}", "-", "\x00")...))
	}
	d, err := ref.Prefix(b)
	x := mk()
	r, gerr := jc.Parse(b, x, 0)
	if err != nil {
		if gerr == nil {
			w.Fatalf("Parse(%s) into %T accepts what does not start with a value, rest %s", q(b), x, q(r))
		}
		return
	}
	// json.Unmarshal of the value alone tells whether it fits.
	y := mk()
	serr := json.Unmarshal(b[d.Start:d.End], y)
	if v := string(b[d.Start:d.End]); (v == "0" || v == "-0") && d.End < len(b) && b[d.End] >= '0' && b[d.End] <= '9' {
		// Whether 01 is a zero with something after it or a malformed number
		// is left open.
		w.Count("left open: Parse of a number with leading zeros", 1)
		return
	}
	if (serr == nil) != (gerr == nil) {
		w.Fatalf("Parse(%s) into %T: err=%v, encoding/json on the value alone: err=%v", q(b), x, gerr, serr)
	}
	rest := bytes.TrimLeft(b[d.End:], " \t\r\n")
	if !bytes.Equal(r, rest) {
		w.Fatalf("Parse(%s) into %T: rest %s, want %s (err=%v)", q(b), x, q(r), q(rest), gerr)
	}
	if len(r) > 0 && &r[0] != &b[len(b)-len(r)] {
		w.Fatalf("Parse(%s): the rest is not part of the input", q(b))
	}
	if gerr == nil && !reflect.DeepEqual(x, y) && !same(reflect.ValueOf(x).Elem(), reflect.ValueOf(y).Elem()) {
		w.Fatalf("Parse(%s) into %T: %s, encoding/json %s", q(b), x, shortDump(reflect.ValueOf(x)), shortDump(reflect.ValueOf(y)))
	}
	w.Count("rests compared", 1)
}

type alphabet struct {
	name       string
	pre        string // constant text before and after the enumerated part
	post       string
	syms       []string
	quick, max int // lengths
}

func split(s string) []string { return strings.Split(s, "") }

var alphabets = []alphabet{
	{"structure", "", "", append(split(`{}[],:"a1 `), "\n"), 5, 6},
	{"tokens", "", "", []string{"{", "}", "[", "]", ",", ":", `"a"`, "1", "null", " ", `""`, "true"}, 5, 6},
	{"number", "", "", split("-+0159.eE "), 5, 7},
	{"number-in-array", "[", "]", split("-+019.eE,"), 5, 6},
	{"string", `"`, "", append(split(`"\u0d8FnbZ/`), "\x1f", "\x7f", "\xc3", "é"), 4, 6},
	{"string-closed", `"`, `"`, append(split(`"\uD8c00nx`), "\x00", "\xff", "\n"), 4, 6},
	{"unicode-escapes", `"\u`, `"`, append(split(`0aAfFgG"\u`), "\x00"), 5, 6},
	{"literals", "", "", split("nultrefas "), 5, 6},
	{"object-keys", "{", "}", append(split(`"a:,1{}\ `), "\t"), 5, 6},
	{"nested", `{"a":[`, `]}`, split(`"1,[]{}:n `), 5, 6},
	{"spaces", "", "", []string{" ", "\t", "\n", "\r", "\v", "\f", "\u00a0", "\ufeff", "0", "\x00"}, 5, 6},
}

func pow(b, e int) int {
	n := 1
	for ; e > 0; e-- {
		n *= b
	}
	return n
}

func runC08(c *mon.Ctx) {
	// Every string over the alphabets. A case is one choice of the first two
	// symbols, with everything that follows.
	for _, a := range alphabets {
		ln := a.quick
		if c.Tier == "thorough" {
			ln = a.max
		}
		if c.Tier == "scan" {
			ln--
		}
		k := len(a.syms)
		c.Workload("all:"+a.name, k*k, func(w *mon.W) {
			n := 0
			buf := make([]byte, 0, 64)
			var walk func(b []byte, left int)
			walk = func(b []byte, left int) {
				n++
				checkAccept(w, append(b[:len(b):len(b)], a.post...), len(b)%7 == w.Index%7 && n%5 == 0)
				if left == 0 {
					return
				}
				for _, s := range a.syms {
					walk(append(b[:len(b):len(b)], s...), left-1)
				}
			}
			buf = append(buf, a.pre...)
			if w.Index == 0 {
				checkAccept(w, []byte(a.pre+a.post), true)
				for _, s := range a.syms {
					checkAccept(w, []byte(a.pre+s+a.post), true)
				}
			}
			buf = append(buf, a.syms[w.Index/k]...)
			buf = append(buf, a.syms[w.Index%k]...)
			walk(buf, ln-2)
			w.Count("enumerated inputs", n)
		})
	}
	// Every byte and every pair of bytes at some places.
	templates := [][2]string{{"", ""}, {"[", "]"}, {`"`, `"`}, {`"\`, `"`}, {`{"a"`, `1}`}, {"1", ""}, {"[1", "2]"}, {`"aaaaaaaa`, `aaaaaaaa"`}, {"tru", ""}, {`"\u00`, `"`}}
	c.Workload("all:bytes", 256*len(templates), func(w *mon.W) {
		t := templates[w.Index/256]
		b := byte(w.Index % 256)
		checkAccept(w, []byte(t[0]+string([]byte{b})+t[1]), true)
		for k := 0; k < 256; k++ {
			checkAccept(w, []byte(t[0]+string([]byte{b, byte(k)})+t[1]), false)
		}
		w.Count("enumerated inputs", 257)
	})
	rnd := func(name string, n int, f func(w *mon.W) []byte) {
		c.Workload(name, c.N(n, 12), func(w *mon.W) {
			b := f(w)
			checkAccept(w, b, true)
			if len(b) >= 3 {
				w.Distinct(b)
			}
			if w.WantSample() {
				w.Sample("%s valid=%v", q(b), ref.Valid(b))
			}
		})
	}
	rnd("documents", 10000, func(w *mon.W) []byte { return []byte(gen.Doc(w.R, 1+w.R.IntN(5))) })
	rnd("damaged", 20000, func(w *mon.W) []byte { return []byte(gen.Mutate(w.R, gen.Doc(w.R, 1+w.R.IntN(5)))) })
	rnd("soup", 10000, func(w *mon.W) []byte { return []byte(gen.Soup(w.R)) })
	rnd("numbers", 10000, func(w *mon.W) []byte {
		s := gen.NumberTok(w.R)
		if gen.Chance(w.R, 2) {
			s = gen.Mutate(w.R, s)
		}
		return []byte(gen.Pick(w.R, "", "[", `{"A":`) + s)
	})
	// Strings of all lengths with one defect at all positions, for scanners
	// which look at several bytes at once.
	c.Workload("long-strings", c.N(3000, 8), func(w *mon.W) {
		n := w.Index % 100
		s := strings.Repeat("x", n)
		for _, d := range []string{"", "\\", "\"", "\x00", "\x1f", "\n", "\x80", "\xff", "\\n", "\\x", "\\u12", "\\ud83d\\ude00", "é", " ", "\x7f"} {
			for k := 0; k < 3; k++ {
				i := 0
				if n > 0 {
					i = w.R.IntN(n + 1)
				}
				doc := `"` + s[:i] + d + s[i:] + `"`
				checkAccept(w, []byte(doc), false)
				checkAccept(w, []byte("{"+doc+":1}"), false)
				checkAccept(w, []byte(doc[:len(doc)-1]), false)
			}
		}
	})
	// Typed targets from the pool, whose decoders have to skip and to check.
	ts := decodable(typePool(c, 1400))
	c.Workload("typed", c.N(60000, 12), func(w *mon.W) {
		t := pickType(w.R, ts)
		doc := gen.Mutate(w.R, gen.DocFor(w.R, t, 1+w.R.IntN(4), gen.Pick(w.R, 0, 0, 20)))
		valid := ref.Valid([]byte(doc))
		x := reflect.New(t)
		err := jc.Unmarshal(exact([]byte(doc)), x.Interface())
		if err == nil && !valid {
			w.Fatalf("Unmarshal(%s) into %s accepts invalid input, giving %s", q([]byte(doc)), cut(t.String(), 500), shortDump(x.Elem()))
		}
		if !valid {
			w.Count("invalid documents refused by typed decoders", 1)
			w.Distinct(t.String(), doc)
		}
	})
	c.MustObserve("enumerated inputs", 1500000)
	c.MustObserve("valid inputs", 20000)
	c.MustObserve("typed decodes", 300000)
	c.MustObserve("rests compared", 20000)
	c.MustObserve("invalid documents refused by typed decoders", 10000)
}
