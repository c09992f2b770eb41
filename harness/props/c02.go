package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"reflect"
	"sort"

	jc "github.com/neilotoole/jsoncolor"

	"verifharness/gen"
	"verifharness/mon"
)

func sortStrings(s []string) { sort.Strings(s) }

func init() {
	register(&mon.Prop{ID: "C02",
		Rule: "random values, prefixes and indents through MarshalIndent, Append and Encoder, and histories of good, failing and panicking calls on one Encoder or Indenter; non-trivial: an indented output of at least two lines which equals the one of encoding/json, distinct by output",
		Run:  runC02})
}

// panicVal panics in its marshaler.
type panicVal struct{ In interface{} }

func (panicVal) MarshalJSON() ([]byte, error) { panic(errPanic) }

type panicText struct{ N int }

func (panicText) MarshalText() ([]byte, error) { panic(errPanic) }

var errPanic = errors.New("marshaler panics")

// nest puts x somewhere inside containers, so that it is reached with some
// depth of indentation.
func nest(w *mon.W, x interface{}, depth int) interface{} {
	for ; depth > 0; depth-- {
		switch w.R.IntN(7) {
		case 0:
			x = []interface{}{1, x, "y"}
		case 1:
			x = map[string]interface{}{"a": true, "m": x, "z": nil}
		case 2:
			x = struct {
				A int
				X interface{} `json:"x"`
				B string      `json:",omitempty"`
			}{1, x, "q"}
		case 3:
			y := x
			x = &y
		case 4:
			x = map[int]interface{}{5: x}
		case 5:
			x = [2]interface{}{x, 3}
		case 6:
			x = map[string]map[string]interface{}{"": {"k": x}}
		}
	}
	return x
}

// try calls f and recovers the panic of a marshaler.
func try(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if r != errPanic {
				panic(r)
			}
			panicked = true
		}
	}()
	f()
	return false
}

func compareIndent(w *mon.W, api string, x interface{}, got []byte, gerr error, html bool, prefix, indent string, compact bool) {
	var want []byte
	var werr error
	if compact {
		want, werr = std(x, html)
	} else {
		want, werr = stdIndent(x, html, prefix, indent)
	}
	if (werr != nil) != (gerr != nil) {
		w.Note("%s", desc(reflect.ValueOf(&x).Elem()))
		w.Fatalf("%s prefix=%q indent=%q: encoding/json gives %s err=%v; jsoncolor gives %s err=%v", api, prefix, indent, q(want), werr, q(got), gerr)
	}
	if werr != nil {
		w.Count("refused by both", 1)
		return
	}
	if !sameEnc(got, want) {
		w.Note("%s", desc(reflect.ValueOf(&x).Elem()))
		w.Fatalf("%s html=%v prefix=%q indent=%q: got %s\n want %s\n %s", api, html, prefix, indent, q(got), q(want), firstDiff(got, want))
	}
	w.Count("indented outputs compared", 1)
	if n := bytes.Count(got, []byte("\n")); n > 0 {
		w.Count("lines compared", n+1)
		w.Distinct(got)
	}
	if w.WantSample() {
		w.Sample("%s prefix=%q indent=%q -> %s", api, prefix, indent, q(got))
	}
}

func runC02(c *mon.Ctx) {
	ts := typePool(c, 1400)
	c.Workload("single-calls", c.N(50000, 12), func(w *mon.W) {
		v := encValue(w, ts, gen.Vals{R: w.R, Bad: gen.Pick(w.R, 0, 0, 40)})
		x := value(w.R, v)
		if gen.Chance(w.R, 3) {
			x = nest(w, x, 1+w.R.IntN(5))
		}
		prefix, indent := indentStrings(w.R)
		html := gen.Chance(w.R, 2)
		flags := jc.SortMapKeys
		if html {
			flags |= jc.EscapeHTML
		}
		switch w.R.IntN(4) {
		case 0:
			got, err := jc.MarshalIndent(x, prefix, indent)
			want, werr := json.MarshalIndent(x, prefix, indent)
			if (err != nil) != (werr != nil) || err == nil && !sameEnc(got, want) {
				w.Note("%s", desc(v))
				w.Fatalf("MarshalIndent prefix=%q indent=%q: got %s err=%v\n want %s err=%v\n %s", prefix, indent, q(got), err, q(want), werr, firstDiff(got, want))
			}
			w.Count("indented outputs compared", 1)
		case 1:
			var buf bytes.Buffer
			enc := jc.NewEncoder(&buf)
			enc.SetEscapeHTML(html)
			enc.SetIndent(prefix, indent)
			err := enc.Encode(x)
			compareIndent(w, "Encoder", x, bytes.TrimSuffix(buf.Bytes(), []byte("\n")), err, html, prefix, indent, false)
		default:
			got, err := jc.Append(nil, x, flags, nil, jc.NewIndenter(prefix, indent))
			compareIndent(w, "Append", x, got, err, html, prefix, indent, prefix == "" && indent == "")
		}
	})

	// One Encoder or Indenter through many calls.
	c.Workload("histories", c.N(5000, 12), func(w *mon.W) {
		var buf bytes.Buffer
		enc := jc.NewEncoder(&buf)
		prefix, indent := "", ""
		html := true
		ind := jc.NewIndenter("", "")
		for n := 2 + w.R.IntN(8); n > 0; n-- {
			if gen.Chance(w.R, 3) {
				prefix, indent = indentStrings(w.R)
				if gen.Chance(w.R, 6) {
					prefix, indent = "", ""
				}
				enc.SetIndent(prefix, indent)
				ind = jc.NewIndenter(prefix, indent)
			}
			if gen.Chance(w.R, 5) {
				html = !html
				enc.SetEscapeHTML(html)
			}
			flags := jc.SortMapKeys
			if html {
				flags |= jc.EscapeHTML
			}
			var x interface{}
			panics := false
			switch w.R.IntN(5) {
			case 0: // fails at some depth
				x = nest(w, gen.Pick[interface{}](w.R, make(chan int), rawVal{[]byte(`{"a":[1,{"b":[`)}, rawVal{[]byte(`{"a":[1,{"b":[x]}]}`)}, []interface{}{1, map[string]interface{}{"a": func() {}}}, json.Number("x")), w.R.IntN(6))
			case 1: // panics at some depth
				x = nest(w, gen.Pick[interface{}](w.R, panicVal{}, panicText{}, []panicVal{{}, {}}, map[string]panicText{"a": {}}), w.R.IntN(6))
				panics = true
			default:
				v := encValue(w, ts, gen.Vals{R: w.R})
				x = nest(w, value(w.R, v), w.R.IntN(4))
			}
			buf.Reset()
			var err error
			if gen.Chance(w.R, 2) {
				p := try(func() { err = enc.Encode(x) })
				if p != panics {
					w.Fatalf("Encode of a value whose marshaler panics=%v: panicked=%v err=%v", panics, p, err)
				}
				if p {
					w.Count("panicking calls in histories", 1)
					continue
				}
				if err != nil {
					w.Count("failing calls in histories", 1)
				}
				compareIndent(w, "Encoder after a history", x, bytes.TrimSuffix(buf.Bytes(), []byte("\n")), err, html, prefix, indent, false)
				continue
			}
			var got []byte
			p := try(func() { got, err = jc.Append(nil, x, flags, nil, ind) })
			if p != panics {
				w.Fatalf("Append of a value whose marshaler panics=%v: panicked=%v err=%v", panics, p, err)
			}
			if p {
				w.Count("panicking calls in histories", 1)
				continue
			}
			if err != nil {
				w.Count("failing calls in histories", 1)
			}
			compareIndent(w, "Append after a history", x, got, err, html, prefix, indent, prefix == "" && indent == "")
		}
	})

	// Marshalers which themselves encode with the same Indenter, and with
	// other ones, while the outer encoding is under way.
	c.Workload("reentrant", c.N(4000, 12), func(w *mon.W) {
		prefix, indent := indentStrings(w.R)
		ind := jc.NewIndenter(prefix, indent)
		v := encValue(w, ts, gen.Vals{R: w.R})
		inner := v.Interface()
		m := reentrant{func(viaStd bool) ([]byte, error) {
			if viaStd {
				return json.Marshal(inner)
			}
			if wsOnly(prefix + indent) {
				return jc.Append(nil, inner, jc.SortMapKeys|jc.EscapeHTML, nil, ind)
			}
			if _, err := jc.Append(nil, inner, jc.SortMapKeys, nil, ind); err != nil {
				return nil, err
			}
			return jc.Marshal(inner)
		}, new(bool)}
		x := nest(w, m, 1+w.R.IntN(4))
		got, err := jc.Append(nil, x, jc.SortMapKeys|jc.EscapeHTML, nil, ind)
		*m.viaStd = true
		compareIndent(w, "Append, re-entered with the same Indenter", x, got, err, true, prefix, indent, prefix == "" && indent == "")
	})
	c.MustObserve("indented outputs compared", 20000)
	c.MustObserve("failing calls in histories", 500)
	c.MustObserve("panicking calls in histories", 500)
}

type reentrant struct {
	f      func(viaStd bool) ([]byte, error)
	viaStd *bool
}

func (m reentrant) MarshalJSON() ([]byte, error) { return m.f(*m.viaStd) }
