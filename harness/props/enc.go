package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"reflect"
	"strings"

	jc "github.com/neilotoole/jsoncolor"

	"verifharness/gen"
	"verifharness/mon"
	"verifharness/ref"
	"verifharness/zoo"
)

const reset = "\x1b[0m"

// Fields of jc.Colors in a fixed order.
func colorFields(c *jc.Colors) []*jc.Color {
	return []*jc.Color{&c.Null, &c.Bool, &c.Number, &c.String, &c.Key, &c.Bytes, &c.Time, &c.Punc, &c.Brackets, &c.Braces, &c.Comma, &c.Colon, &c.TextMarshaler}
}

var colorNames = []string{"Null", "Bool", "Number", "String", "Key", "Bytes", "Time", "Punc", "Brackets", "Braces", "Comma", "Colon", "TextMarshaler"}

// palette makes a palette. Colors are pairwise different sequences unless
// empty.
func palette(r *rand.Rand) *jc.Colors {
	c := &jc.Colors{}
	fs := colorFields(c)
	perm := r.Perm(200)
	mode := r.IntN(6)
	for i, f := range fs {
		n := perm[i] + 16
		var s string
		switch r.IntN(5) {
		case 0:
			s = fmt.Sprintf("\x1b[%dm", n)
		case 1:
			s = fmt.Sprintf("\x1b[1m\x1b[38;5;%dm", n)
		case 2:
			s = fmt.Sprintf("\x1b[0;1;%dm", n)
		case 3:
			s = fmt.Sprintf("\x1b[38;2;1;2;%dm", n)
		case 4:
			s = fmt.Sprintf("\x1b[38;5;%d;4m", n)
		}
		empty := false
		switch mode {
		case 0: // all set
		case 1: // everything empty
			empty = true
		case 2: // one color only
			empty = i != int(perm[199])%len(fs)
		case 3: // one color missing
			empty = i == int(perm[199])%len(fs)
		default:
			empty = gen.Chance(r, 2)
		}
		if empty {
			if gen.Chance(r, 2) {
				*f = jc.Color{}
			}
			continue
		}
		*f = jc.Color(s)
	}
	if gen.Chance(r, 12) {
		return jc.DefaultColors()
	}
	return c
}

func descColors(c *jc.Colors) string {
	if c == nil {
		return "nil"
	}
	var sb strings.Builder
	for i, f := range colorFields(c) {
		fmt.Fprintf(&sb, "%s:%q ", colorNames[i], *f)
	}
	return sb.String()
}

// strip removes the codes of the palette, whatever their place. JSON contains
// no raw escape character, so there is nothing else to confuse them with.
func strip(b []byte) []byte {
	var out []byte
	for i := 0; i < len(b); {
		if b[i] == 0x1b && i+1 < len(b) && b[i+1] == '[' {
			j := i + 2
			for j < len(b) && (b[j] >= '0' && b[j] <= '9' || b[j] == ';') {
				j++
			}
			if j < len(b) && b[j] == 'm' {
				i = j + 1
				continue
			}
		}
		out = append(out, b[i])
		i++
	}
	return out
}

// indentStrings picks a prefix and an indent.
func indentStrings(r *rand.Rand) (prefix, indent string) {
	switch r.IntN(6) {
	case 0:
		return "", "  "
	case 1:
		return "", "\t"
	case 2:
		return gen.Pick(r, " ", "\t", ">", "  "), ""
	case 3:
		return gen.Pick(r, "", ">", " ", "// ", "{", "\"", "é"), gen.Pick(r, " ", "    ", "..", "\t\t", "}", ",", "\"", "\\", "→", "a\nb", "\x00")
	}
	return gen.Pick(r, "", "", " ", "\t"), gen.Pick(r, " ", "  ", "    ", "\t", " \t")
}

func wsOnly(s string) bool { return strings.Trim(s, " \t\r\n") == "" }

// stdIndent encodes with encoding/json and indentation.
func stdIndent(x interface{}, html bool, prefix, indent string) ([]byte, error) {
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetEscapeHTML(html)
	enc.SetIndent(prefix, indent)
	if err := enc.Encode(x); err != nil {
		return nil, err
	}
	return bytes.TrimSuffix(buf.Bytes(), []byte("\n")), nil
}

// encValue makes a value to encode from the pool or the zoo.
func encValue(w *mon.W, ts []reflect.Type, vals gen.Vals) reflect.Value {
	var t reflect.Type
	switch w.R.IntN(4) {
	case 0:
		t = pickType(w.R, zoo.Types())
	default:
		t = pickType(w.R, ts)
	}
	if vals.Bad > 0 && gen.Chance(w.R, 8) {
		t = pickType(w.R, zoo.FailingTypes())
	}
	return vals.New(t, 1+w.R.IntN(4))
}

// rawVal is a Marshaler which returns given bytes.
type rawVal struct{ B []byte }

func (m rawVal) MarshalJSON() ([]byte, error) { return m.B, nil }

// prawVal is a Marshaler with a pointer receiver.
type prawVal struct{ B []byte }

func (m *prawVal) MarshalJSON() ([]byte, error) { return m.B, nil }

type textVal struct{ S string }

func (m textVal) MarshalText() ([]byte, error) { return []byte(m.S), nil }

// wrapRaw places raw JSON somewhere in a value.
func wrapRaw(r *rand.Rand, raw []byte, depth int) interface{} {
	if len(raw) == 0 && gen.Chance(r, 2) {
		raw = nil
	}
	rm := json.RawMessage(raw)
	if depth > 0 && gen.Chance(r, 3) {
		in := wrapRaw(r, raw, depth-1)
		switch r.IntN(6) {
		case 0:
			return []interface{}{1, in, gen.Mark + "x"}
		case 1:
			return map[string]interface{}{"a": 1, "k": in, "z": []int{}}
		case 2:
			return &in
		case 3:
			return struct {
				A interface{}
				B int `json:",omitempty"`
				C interface{}
			}{in, r.IntN(2), map[string]int{"q": 1}}
		case 4:
			return map[int]interface{}{1: in, 2: nil}
		case 5:
			return []interface{}{in, in}
		}
	}
	switch r.IntN(15) {
	case 0:
		return rm
	case 1:
		return &rm
	case 2:
		return []json.RawMessage{rm, json.RawMessage(`{"y":[]}`)}
	case 3:
		return [1]json.RawMessage{rm}
	case 4:
		return map[string]json.RawMessage{"a": json.RawMessage(`[1]`), "b": rm, "c": nil}
	case 5:
		return map[int8]json.RawMessage{-5: rm, 5: json.RawMessage(`"§5"`)}
	case 6:
		return struct {
			A int
			R json.RawMessage
			Z bool
		}{1, rm, true}
	case 7:
		return struct {
			R *json.RawMessage `json:"r,omitempty"`
			S []byte
		}{&rm, []byte("BYT")}
	case 8:
		return rawVal{raw}
	case 9:
		return &rawVal{raw}
	case 10:
		return &prawVal{raw}
	case 11:
		return map[string]rawVal{"k": {raw}, "l": {[]byte("[]")}}
	case 12:
		return []*prawVal{{raw}, nil}
	case 13:
		return struct {
			M rawVal         `json:"<m>"`
			N map[string]int `json:"n"`
		}{rawVal{raw}, map[string]int{"a": 1}}
	}
	return map[string]interface{}{"r": rm, "s": []interface{}{rm, 1.5}}
}

// membersSorted sorts the members of all objects, for comparing output whose
// map order is unspecified. Only for compact documents.
func membersSorted(b []byte) (string, error) {
	if _, err := ref.Parse(b); err != nil {
		return "", err
	}
	n := gen.Tree(normEsc(b))
	return sortedText(n), nil
}

func sortedText(n *gen.Node) string {
	switch n.Kind {
	case '{':
		ms := make([]string, len(n.Kids))
		for i, k := range n.Kids {
			ms[i] = n.Keys[i] + ":" + sortedText(k)
		}
		sortStrings(ms)
		return "{" + strings.Join(ms, ",") + "}"
	case '[':
		ms := make([]string, len(n.Kids))
		for i, k := range n.Kids {
			ms[i] = sortedText(k)
		}
		return "[" + strings.Join(ms, ",") + "]"
	}
	return n.Raw
}
