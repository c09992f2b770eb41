package props

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"reflect"
	"slices"
	"strings"
	"time"

	jc "github.com/neilotoole/jsoncolor"

	"verifharness/gen"
	"verifharness/mon"
	"verifharness/ref"
	"verifharness/zoo"
)

func init() {
	register(&mon.Prop{ID: "C09",
		Rule: "documents made from values of random and hand-written Go types (respelled, reordered, with duplicate, unknown and differently-cased keys, nulls and mismatches) decoded by Unmarshal into fresh and into prepopulated targets, and compared with encoding/json decoding the same document into an identical target; non-trivial: accepted by both with a non-zero result, or refused by both, distinct by type and document",
		Run:  runC09})
}

// twoTargets makes two identical, separate targets of type t.
func twoTargets(r *rand.Rand, t reflect.Type, pre bool, depth int) (a, b reflect.Value) {
	if !pre {
		return reflect.New(t), reflect.New(t)
	}
	s1, s2 := r.Uint64(), r.Uint64()
	tangled := gen.Chance(r, 3)
	mk := func() reflect.Value {
		v := gen.Vals{R: rand.New(rand.NewPCG(s1, s2))}.New(t, depth).Addr()
		if tangled {
			entangle(rand.New(rand.NewPCG(s2, s1)), v)
		}
		return v
	}
	return mk(), mk()
}

func shortDump(v reflect.Value) string { return cut(fmt.Sprintf("%s", dump(v)), 1500) }

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// durationString tells whether a difference may be due to the accepted
// extension: durations may be spelled as strings.
func hasType(t, want reflect.Type, seen map[reflect.Type]bool) bool {
	if t == want {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Array:
		return hasType(t.Elem(), want, seen)
	case reflect.Map:
		return hasType(t.Elem(), want, seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasType(t.Field(i).Type, want, seen) {
				return true
			}
		}
	case reflect.Interface:
		return false
	}
	return false
}

var recPtrType = reflect.TypeOf(zoo.RecPtr(nil))

// hasUnexpTagged finds embedded pointers to unexported structs that have a
// name of their own, which encoding/json can neither set nor refuse.
func hasUnexpTagged(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Array, reflect.Map:
		return hasUnexpTagged(t.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.Anonymous && f.PkgPath != "" && f.Type.Kind() == reflect.Pointer && f.Tag.Get("json") != "" {
				return true
			}
			if hasUnexpTagged(f.Type, seen) {
				return true
			}
		}
	}
	return false
}

// decodable leaves out the one type that encoding/json never finishes decoding,
// and those it panics for.
func decodable(ts []reflect.Type) (out []reflect.Type) {
	for _, t := range ts {
		if !hasType(t, recPtrType, map[reflect.Type]bool{}) && !hasUnexpTagged(t, map[reflect.Type]bool{}) {
			out = append(out, t)
		}
	}
	return out
}

func decodeBoth(w *mon.W, t reflect.Type, doc string, pre bool) {
	decodeWith(w, t, doc, pre, json.Unmarshal, jc.Unmarshal)
}

// decodeWith decodes doc by both of the given functions and compares.
func decodeWith(w *mon.W, t reflect.Type, doc string, pre bool, stdF, jcF func([]byte, interface{}) error) {
	depth := 1 + w.R.IntN(3)
	s1, s2 := w.R.Uint64(), w.R.Uint64()
	mk := func() (a, b reflect.Value) { return twoTargets(rand.New(rand.NewPCG(s1, s2)), t, pre, depth) }
	a, b := mk()
	var keptA, keptB *reach
	if pre {
		keptA, keptB = reachOf(a), reachOf(b)
		if len(keptA.kept) != len(keptB.kept) {
			panic("harness: targets differ")
		}
	}
	werr := stdF([]byte(doc), a.Interface())
	gerr := jcF([]byte(doc), b.Interface())
	note := func() {
		w.Note("type %s doc %s", cut(t.String(), 800), q([]byte(doc)))
		if pre {
			a, _ := mk()
			w.Note("target before: %s", shortDump(a.Elem()))
		}
	}
	if (werr != nil) != (gerr != nil) {
		if gerr == nil && durExt(t, werr) {
			w.Count("accepted extension: duration spelled as a string", 1)
			return
		}
		if gerr == nil && strings.HasPrefix(werr.Error(), "parsing time") && strings.Contains(werr.Error(), `\u`) {
			w.Count("accepted extension: time spelled with escapes as an object key", 1)
			return
		}
		if werr == nil && hasQuoted(t, map[reflect.Type]bool{}) && oddNumber(doc) {
			w.Count("left open: the ,string option and a string that is only nearly a number", 1)
			return
		}
		note()
		w.Fatalf("encoding/json: err=%v value=%s; jsoncolor: err=%v value=%s", werr, shortDump(a.Elem()), gerr, shortDump(b.Elem()))
	}
	if werr != nil {
		w.Count("refused by both", 1)
		w.Distinct(t.String(), doc)
		return
	}
	if !same(a.Elem(), b.Elem()) {
		note()
		w.Fatalf("encoding/json gives %s; jsoncolor gives %s", shortDump(a.Elem()), shortDump(b.Elem()))
	}
	w.Count("accepted by both with equal values", 1)
	if pre {
		w.Count("into a prepopulated target", 1)
		if x, y := keptA.dumpKept(), keptB.dumpKept(); x != y {
			note()
			xs, ys := strings.Split(x, "\n"), strings.Split(y, "\n")
			for i := range xs {
				if xs[i] != ys[i] {
					w.Fatalf("what the target referred to before (%s) is now %s by encoding/json and %s by jsoncolor", keptA.kept[i].Type(), cut(xs[i], 1500), cut(ys[i], 1500))
				}
			}
		}
		w.Count("references held by others compared", len(keptA.kept))
	}
	if !a.Elem().IsZero() {
		w.Distinct(t.String(), doc)
	}
	if w.WantSample() {
		w.Sample("%s into %s -> %s", cut(doc, 200), cut(t.String(), 150), cut(shortDump(b.Elem()), 200))
	}
}

// hasQuoted finds floats and Numbers that have the ,string option, for which
// encoding/json accepts strings that only begin like a number.
func hasQuoted(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Array, reflect.Map:
		return hasQuoted(t.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if strings.Contains(f.Tag.Get("json"), ",string") {
				ft := f.Type
				for ft.Kind() == reflect.Pointer {
					ft = ft.Elem()
				}
				if k := ft.Kind(); k == reflect.Float32 || k == reflect.Float64 || ft == reflect.TypeOf(json.Number("")) {
					return true
				}
			}
			if hasQuoted(f.Type, seen) {
				return true
			}
		}
	}
	return false
}

// oddNumber finds a string in a document that begins like a number and is not
// one.
func oddNumber(doc string) bool {
	d, err := ref.Parse([]byte(doc))
	if err != nil {
		return false
	}
	for _, k := range d.Toks {
		if k.Kind != '"' {
			continue
		}
		s := ref.Unquote([]byte(doc[k.Start:k.End]))
		if s == "" || s[0] != '-' && (s[0] < '0' || s[0] > '9') {
			continue
		}
		n, err := ref.Parse([]byte(s))
		if err != nil || len(n.Toks) != 1 || n.Start != 0 || n.End != len(s) {
			return true
		}
	}
	return false
}

func durExt(t reflect.Type, werr error) bool {
	var ute *json.UnmarshalTypeError
	if e, ok := werr.(*json.UnmarshalTypeError); ok {
		ute = e
	}
	return ute != nil && ute.Type == durType && strings.HasPrefix(ute.Value, "string")
}

func runC09(c *mon.Ctx) {
	ts, zs := decodable(typePool(c, 1400)), decodable(zoo.Types())
	type wl struct {
		name string
		n    int
		pre  bool
		rate int
		zoo  bool
	}
	for _, x := range []wl{
		{"pool-fresh", 30000, false, 0, false},
		{"pool-distorted", 40000, false, 25, false},
		{"pool-pre", 30000, true, 0, false},
		{"pool-pre-distorted", 30000, true, 20, false},
		{"zoo-fresh", 20000, false, 0, true},
		{"zoo-distorted", 40000, false, 20, true},
		{"zoo-pre", 20000, true, 0, true},
		{"zoo-pre-distorted", 30000, true, 12, true},
	} {
		c.Workload(x.name, c.N(x.n, 12), func(w *mon.W) {
			tt := ts
			if x.zoo {
				tt = zs
			}
			t := pickType(w.R, tt)
			decodeBoth(w, t, gen.DocFor(w.R, t, 1+w.R.IntN(4), x.rate), x.pre)
		})
	}
	// Many elements of one type.
	cs := gen.Containers(slices.Concat(ts[:min(len(ts), 300)], zs))
	c.Workload("wide", c.N(8000, 12), func(w *mon.W) {
		t := pickType(w.R, cs)
		decodeBoth(w, t, gen.Wide(w.R, t, 1+w.R.IntN(3), gen.Pick(w.R, 0, 0, 200)), gen.Chance(w.R, 3))
		w.Count("wide documents", 1)
	})
	c.Workload("any-document", c.N(30000, 12), func(w *mon.W) {
		decodeBoth(w, anyType, gen.Doc(w.R, 1+w.R.IntN(5)), gen.Chance(w.R, 3))
	})
	// Numbers next to where results change, into every kind of number.
	numTypes := []reflect.Type{}
	for _, v := range []interface{}{int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), uintptr(0),
		float32(0), float64(0), json.Number(""), time.Duration(0), new(float32), []float32{}, [2]float32{}, map[string]float32{}, struct {
			A float32 `json:",string"`
			B int16   `json:",string"`
			C uint64  `json:",string"`
			D float64 `json:",string"`
		}{}} {
		numTypes = append(numTypes, reflect.TypeOf(v))
	}
	numTypes = append(numTypes, anyType)
	c.Workload("numbers", c.N(60000, 12), func(w *mon.W) {
		t := gen.Pick(w.R, numTypes...)
		num := func() string {
			if gen.Chance(w.R, 4) {
				return gen.NumberTok(w.R)
			}
			return gen.HardNumber(w.R)
		}
		doc := num()
		switch t.Kind() {
		case reflect.Slice, reflect.Array:
			doc = "[" + doc + "," + num() + "]"
		case reflect.Map:
			doc = `{"x":` + doc + "}"
		case reflect.Struct:
			doc = `{"` + gen.Pick(w.R, "A", "B", "C", "D") + `":"` + doc + `"}`
		}
		decodeBoth(w, t, doc, false)
		w.Count("hard numbers decoded", 1)
	})
	c.MustObserve("hard numbers decoded", 50000)
	c.MustObserve("accepted by both with equal values", 40000)
	c.MustObserve("refused by both", 5000)
	c.MustObserve("into a prepopulated target", 15000)
}
