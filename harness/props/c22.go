package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand/v2"
	"reflect"
	"strconv"
	"strings"

	jc "github.com/neilotoole/jsoncolor"

	"verifharness/gen"
	"verifharness/mon"
	"verifharness/zoo"
)

func init() {
	register(&mon.Prop{ID: "C22",
		Rule: "failing calls whose only fault is known by construction - documents broken by mutation, single values of the wrong kind inside valid documents, errors of user methods at random places, values that have no JSON form, invalid targets, unknown fields, failing readers and writers - are made with the package and with encoding/json, and the kinds of the errors, found with errors.As and errors.Is, are compared along with the types and values they carry; non-trivial: distinct failing calls",
		Run:  runC22})
}

// errClass is the kind of an error, looked for like users do.
func errClass(err error) string {
	var (
		se  *json.SyntaxError
		ute *json.UnmarshalTypeError
		ie  *json.InvalidUnmarshalError
		me  *json.MarshalerError
		us  *json.UnsupportedTypeError
		uv  *json.UnsupportedValueError
	)
	switch {
	case err == nil:
		return "nil"
	case errors.As(err, &me):
		return "MarshalerError(" + errClass(me.Err) + ")"
	case errors.As(err, &se):
		return "SyntaxError"
	case errors.As(err, &ute):
		return "UnmarshalTypeError"
	case errors.As(err, &ie):
		return "InvalidUnmarshalError"
	case errors.As(err, &us):
		return "UnsupportedTypeError"
	case errors.As(err, &uv):
		return "UnsupportedValueError"
	case err == io.EOF:
		return "io.EOF"
	case errors.Is(err, io.ErrUnexpectedEOF):
		return "io.ErrUnexpectedEOF"
	}
	return "other"
}

// userErr is an error of user code, recognisable after wrapping.
type userErr struct{ ID int }

func (e *userErr) Error() string { return fmt.Sprintf("user error %d", e.ID) }

var errUser = errors.New("sentinel")

func fail(id int) error {
	return fmt.Errorf("%w, wrapped: %w", &userErr{id}, errUser)
}

// The types of ErrUsers have methods which fail for every third value.
type (
	ErrJ  struct{ N int }
	ErrJP struct{ N int }
	ErrT  struct{ N int }
	ErrTP struct{ N int }
	ErrTK int
)

func failing(n int) bool { return n%3 == 0 && n != 0 }

func (e ErrJ) MarshalJSON() ([]byte, error) {
	if failing(e.N) {
		return nil, fail(e.N)
	}
	return []byte("1"), nil
}

func (e *ErrJP) MarshalJSON() ([]byte, error) { return ErrJ(*e).MarshalJSON() }

func (e ErrT) MarshalText() ([]byte, error) {
	if failing(e.N) {
		return nil, fail(e.N)
	}
	return []byte(strconv.Itoa(e.N)), nil
}

func (e *ErrTP) MarshalText() ([]byte, error) { return ErrT(*e).MarshalText() }
func (e ErrTK) MarshalText() ([]byte, error)  { return ErrT{int(e)}.MarshalText() }

func hashBytes(b []byte) int {
	h := fnv.New32a()
	h.Write(b)
	return int(h.Sum32() >> 8)
}

func (e *ErrJ) UnmarshalJSON(b []byte) error {
	if n := hashBytes(b); failing(n) {
		return fail(n)
	}
	return nil
}

func (e *ErrJP) UnmarshalJSON(b []byte) error { return (*ErrJ)(e).UnmarshalJSON(b) }
func (e *ErrT) UnmarshalText(b []byte) error  { return (*ErrJ)(e).UnmarshalJSON(b) }
func (e *ErrTP) UnmarshalText(b []byte) error { return (*ErrJ)(e).UnmarshalJSON(b) }
func (e *ErrTK) UnmarshalText(b []byte) error {
	*e = ErrTK(len(b))
	return (&ErrJ{}).UnmarshalJSON(b)
}

type errEmb struct {
	A int
	*ErrHolder
	B string
}

type ErrHolder struct {
	X ErrJP
	Y *ErrTP `json:",omitempty"`
}

type errRec struct {
	V    ErrJ
	Kids []errRec
	M    map[string]*errRec
}

var userErrTypes = []reflect.Type{reflect.TypeOf(ErrJ{}), reflect.TypeOf(ErrJP{}), reflect.TypeOf(ErrT{}), reflect.TypeOf(ErrTP{}), reflect.TypeOf(ErrTK(0)),
	reflect.TypeOf(map[ErrTK]int{}), reflect.TypeOf(map[ErrT]string{}), reflect.TypeOf(errEmb{}), reflect.TypeOf(errRec{}), reflect.TypeOf(&ErrJP{}), reflect.TypeOf([]*ErrT{})}

// wrapType puts t into random containers.
func wrapType(r *rand.Rand, t reflect.Type, depth int) reflect.Type {
	for i := r.IntN(depth + 1); i > 0; i-- {
		switch r.IntN(6) {
		case 0:
			t = reflect.SliceOf(t)
		case 1:
			t = reflect.ArrayOf(1+r.IntN(3), t)
		case 2:
			t = reflect.MapOf(reflect.TypeOf(""), t)
		case 3:
			t = reflect.PointerTo(t)
		default:
			fs := []reflect.StructField{{Name: "A", Type: reflect.TypeOf(0)}, {Name: "B", Type: t}, {Name: "C", Type: reflect.TypeOf("")}}
			if gen.Chance(r, 3) {
				fs[1].Tag = `json:"bb,omitempty"`
			}
			if gen.Chance(r, 3) {
				fs = append(fs, reflect.StructField{Name: "D", Type: t})
			}
			t = reflect.StructOf(fs)
		}
	}
	return t
}

// hasStringOpt finds fields with the ,string option.
func hasStringOpt(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Map:
		if hasStringOpt(t.Key(), seen) {
			return true
		}
		return hasStringOpt(t.Elem(), seen)
	case reflect.Pointer, reflect.Slice, reflect.Array:
		return hasStringOpt(t.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if strings.Contains(f.Tag.Get("json"), ",string") || hasStringOpt(f.Type, seen) {
				return true
			}
		}
	}
	return false
}

// noStringOpt keeps the types for which a misfit has one kind of error only.
func noStringOpt(ts []reflect.Type) (out []reflect.Type) {
	for _, t := range ts {
		if !hasStringOpt(t, map[reflect.Type]bool{}) {
			out = append(out, t)
		}
	}
	return out
}

// scalars lists the scalars of a document.
func scalars(n *gen.Node, out []*gen.Node) []*gen.Node {
	if n.Kind != '{' && n.Kind != '[' {
		return append(out, n)
	}
	for _, k := range n.Kids {
		out = scalars(k, out)
	}
	if len(n.Kids) == 0 {
		out = append(out, n)
	}
	return out
}

// decodeErrs decodes with a function of each package, chosen by api.
func decodeErrs(api int, doc string, a, b interface{}, strict bool) (werr, err error) {
	if api == 0 {
		return json.Unmarshal([]byte(doc), a), jc.Unmarshal([]byte(doc), b)
	}
	da, db := json.NewDecoder(strings.NewReader(doc)), jc.NewDecoder(strings.NewReader(doc))
	if strict {
		da.DisallowUnknownFields()
		db.DisallowUnknownFields()
	}
	return da.Decode(a), db.Decode(b)
}

func base(t reflect.Type) reflect.Type {
	for t != nil && t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	return t
}

// sameUser checks that what users find in the errors is the same.
func sameUser(w *mon.W, err, werr error) {
	var u, wu *userErr
	gu, xu := errors.As(err, &u), errors.As(werr, &wu)
	if gu != xu || gu && *u != *wu || errors.Is(err, errUser) != errors.Is(werr, errUser) {
		// encoding/json keeps only the text of errors of map keys.
		if !gu || xu || !strings.Contains(fmt.Sprint(werr), u.Error()+",") || !errors.Is(err, errUser) {
			w.Fatalf("the user's error: %#v (%v), with encoding/json %#v (%v)", err, err, werr, werr)
		}
	}
	if gu {
		w.Count("errors of user methods found by unwrapping", 1)
	}
}

func runC22(c *mon.Ctx) {
	all := decodable(append(append([]reflect.Type{}, typePool(c, 1400)...), zoo.Types()...))
	ts := noStringOpt(all)
	diff := func(w *mon.W, what string, err, werr error, g, x string) {
		w.Fatalf("%s: %s (%v), with encoding/json %s (%v)", what, g, err, x, werr)
	}

	// Broken documents.
	c.Workload("syntax", c.N(60000, 15), func(w *mon.W) {
		t := anyType
		if gen.Chance(w.R, 4) {
			t = reflect.TypeOf(json.RawMessage(nil))
		}
		doc := gen.Doc(w.R, 3)
		switch w.R.IntN(4) {
		case 0:
			doc = gen.Soup(w.R)
		case 1, 2:
			doc = gen.Mutate(w.R, doc)
		case 3:
			doc = doc[:w.R.IntN(len(doc)+1)]
		}
		a, b := reflect.New(t), reflect.New(t)
		werr, err := decodeErrs(w.R.IntN(2), doc, a.Interface(), b.Interface(), false)
		w.Note("document %s into %s", q([]byte(doc)), t)
		if g, x := errClass(err), errClass(werr); g != x {
			diff(w, "broken document", err, werr, g, x)
		} else if g != "nil" {
			w.Count("broken documents: "+g, 1)
			w.Distinct("syntax", doc, t.String())
		}
	})
	// Broken documents for any type: the fault met first may be of another
	// kind, but Unmarshal looks at the syntax before anything else.
	c.Workload("syntax-any-type", c.N(90000, 15), func(w *mon.W) {
		t := pickType(w.R, all)
		doc := gen.Mutate(w.R, gen.DocFor(w.R, t, 3, gen.Pick(w.R, 0, 8, 3)))
		if json.Valid([]byte(doc)) {
			return
		}
		w.Note("document %s into %s", q([]byte(doc)), cut(t.String(), 400))
		err := jc.Unmarshal([]byte(doc), reflect.New(t).Interface())
		if g := errClass(err); g != "SyntaxError" {
			w.Fatalf("Unmarshal of an invalid document: %s (%v)", g, err)
		}
		w.Count("invalid documents for other types", 1)
		w.Distinct("syntax", doc, t.String())
	})
	// Valid documents one value of which is of the wrong kind.
	c.Workload("misfit", c.N(50000, 15), func(w *mon.W) {
		t := pickType(w.R, ts)
		doc := gen.DocFor(w.R, t, 3, 0)
		if json.Unmarshal([]byte(doc), reflect.New(t).Interface()) != nil {
			return
		}
		n := gen.Tree([]byte(doc))
		ls := scalars(n, nil)
		l := ls[w.R.IntN(len(ls))]
		*l = gen.Node{Kind: '0'}
		l.Raw = gen.Pick(w.R, "true", "-1", "0.5", "1e999", "300", "99999999999999999999999", `"x"`, `""`, `"12"`, "[]", "{}")
		l.Kind = l.Raw[0]
		if l.Kind == '-' || l.Kind >= '0' && l.Kind <= '9' {
			l.Kind = '0'
		}
		if l.Kind == '[' || l.Kind == '{' {
			l.Raw = ""
		}
		doc = n.Compact()
		a, b := reflect.New(t), reflect.New(t)
		werr, err := decodeErrs(w.R.IntN(2), doc, a.Interface(), b.Interface(), false)
		w.Note("document %s into %s", q([]byte(doc)), cut(t.String(), 400))
		g, x := errClass(err), errClass(werr)
		if g != x {
			if g == "nil" && durExt(t, werr) || g == "nil" && x == "UnmarshalTypeError" && hasType(t, durType, map[reflect.Type]bool{}) {
				w.Count("accepted extension: duration spelled as a string", 1)
				return
			}
			diff(w, "value of the wrong kind", err, werr, g, x)
		}
		if g != "nil" {
			// The type that could not take the value. (Named types are reported
			// by what they are made of, values behind pointers as pointers.)
			var gu, xu *json.UnmarshalTypeError
			if errors.As(err, &gu) && errors.As(werr, &xu) {
				gk, xk := base(gu.Type).Kind(), base(xu.Type).Kind()
				if gk != xk && !(gk == reflect.Interface && xk == reflect.Float64) {
					w.Fatalf("the error names the type %v, with encoding/json %v", gu.Type, xu.Type)
				}
				w.Count("types named by errors: "+xk.String(), 1)
			}
			w.Count("misfits: "+g, 1)
			w.Distinct("misfit", doc, t.String())
		}
	})
	// Errors of user methods.
	c.Workload("user-decode", c.N(30000, 15), func(w *mon.W) {
		t := wrapType(w.R, gen.Pick(w.R, userErrTypes...), 5)
		doc := gen.DocFor(w.R, t, 5, 0)
		a, b := reflect.New(t), reflect.New(t)
		w.Note("document %s into %s", q([]byte(doc)), cut(t.String(), 400))
		werr, err := decodeErrs(w.R.IntN(2), doc, a.Interface(), b.Interface(), false)
		if g, x := errClass(err), errClass(werr); g != x && x != "UnmarshalTypeError" && g != "UnmarshalTypeError" {
			diff(w, "user's error", err, werr, g, x)
		} else if g == x {
			sameUser(w, err, werr)
		}
		if werr != nil {
			w.Distinct("user", doc, t.String())
		}
	})
	c.Workload("user-encode", c.N(30000, 15), func(w *mon.W) {
		t := wrapType(w.R, gen.Pick(w.R, userErrTypes...), 5)
		v := gen.Vals{R: w.R}.New(t, 6)
		x := value(w.R, v)
		w.Note("value %s", desc(v))
		_, werr := json.Marshal(x)
		s := randSettings(w)
		_, err := s.encode(w.R.IntN(2), x, s.clrs)
		if g, x := errClass(err), errClass(werr); g != x {
			diff(w, "user's error", err, werr, g, x)
		}
		sameUser(w, err, werr)
		var m, wm *json.MarshalerError
		if errors.As(err, &m) && errors.As(werr, &wm) && base(m.Type) != base(wm.Type) {
			w.Fatalf("MarshalerError for %s, with encoding/json for %s", m.Type, wm.Type)
		}
		if err != nil {
			w.Distinct("user-encode", desc(v), t.String())
		}
	})
	// Values without a JSON form.
	enc := append(append([]reflect.Type{}, zoo.FailingTypes()...), typePool(c, 1400)...)
	nf := len(zoo.FailingTypes())
	c.Workload("encode", c.N(50000, 15), func(w *mon.W) {
		t := pickType(w.R, enc)
		if gen.Chance(w.R, 3) {
			t = wrapType(w.R, pickType(w.R, enc[:nf]), 4)
		}
		v := gen.Vals{R: w.R, Bad: gen.Pick(w.R, 3, 8, 30)}.New(t, 4)
		x := v.Addr().Interface()
		w.Note("value %s", desc(v))
		_, werr := json.Marshal(x)
		s := randSettings(w)
		_, err := s.encode(w.R.IntN(2), x, s.clrs)
		g, k := errClass(err), errClass(werr)
		switch {
		case g == k:
		// What a RawMessage or a marshaler's output lacks to be JSON may be
		// called an unsupported value as well as a syntax error.
		case g == "UnsupportedValueError" && k == "MarshalerError(SyntaxError)":
			w.Count("invalid RawMessages", 1)
		case g == "MarshalerError(UnsupportedValueError)" && k == "MarshalerError(SyntaxError)":
			w.Count("invalid output of marshalers", 1)
		// encoding/json has no type of error for Numbers.
		case g == "SyntaxError" && strings.Contains(fmt.Sprint(werr), "invalid number literal"):
			w.Count("invalid Numbers", 1)
		default:
			diff(w, "value without a JSON form", err, werr, g, k)
		}
		if g == k {
			var u, wu *json.UnsupportedTypeError
			if errors.As(err, &u) && errors.As(werr, &wu) && u.Type != wu.Type {
				w.Fatalf("UnsupportedTypeError for %s, with encoding/json for %s", u.Type, wu.Type)
			}
			var m, wm *json.MarshalerError
			if errors.As(err, &m) && errors.As(werr, &wm) && base(m.Type) != base(wm.Type) {
				w.Fatalf("MarshalerError for %s, with encoding/json for %s", m.Type, wm.Type)
			}
		}
		if g != "nil" {
			w.Count("values without a JSON form: "+g, 1)
			w.Distinct("encode", desc(v), t.String())
		}
	})
	// Targets that cannot be decoded into, and what comes before them.
	c.Workload("targets", c.N(10000, 5), func(w *mon.W) {
		var target interface{}
		t := pickType(w.R, ts)
		switch w.R.IntN(4) {
		case 0:
		case 1:
			target = reflect.Zero(reflect.PointerTo(t)).Interface()
		case 2:
			v := gen.Vals{R: w.R}.New(t, 2)
			if v.Kind() == reflect.Pointer {
				return
			}
			target = v.Interface()
		case 3:
			target = gen.Pick[interface{}](w.R, 1, "s", map[string]int{}, []int{1}, struct{}{}, (func())(nil), (chan int)(nil), (map[string]int)(nil), (*int)(nil), (*interface{})(nil), (**int)(nil))
		}
		doc := gen.Doc(w.R, 2)
		if gen.Chance(w.R, 3) {
			doc = gen.Mutate(w.R, doc)
		}
		w.Note("document %s into a %T", q([]byte(doc)), target)
		werr, err := decodeErrs(w.R.IntN(2), doc, target, target, false)
		if g, x := errClass(err), errClass(werr); g != x {
			diff(w, "invalid target", err, werr, g, x)
		}
		var i, wi *json.InvalidUnmarshalError
		if errors.As(err, &i) && errors.As(werr, &wi) {
			if i.Type != wi.Type {
				w.Fatalf("InvalidUnmarshalError for %v, with encoding/json for %v", i.Type, wi.Type)
			}
			w.Count("invalid targets", 1)
			w.Distinct("target", doc, fmt.Sprintf("%T", target))
		}
	})
	// Unknown fields.
	c.Workload("unknown-fields", c.N(30000, 15), func(w *mon.W) {
		t := pickType(w.R, ts)
		doc := gen.DocFor(w.R, t, 3, 0)
		if json.Unmarshal([]byte(doc), reflect.New(t).Interface()) != nil {
			return
		}
		w.Note("document %s into %s", q([]byte(doc)), cut(t.String(), 400))
		werr, err := decodeErrs(1, doc, reflect.New(t).Interface(), reflect.New(t).Interface(), true)
		if g, x := errClass(err), errClass(werr); g != x {
			diff(w, "unknown fields disallowed", err, werr, g, x)
		} else if g != "nil" {
			w.Count("unknown fields: "+g, 1)
			w.Distinct("unknown", doc, t.String())
		}
	})
	// Writers that fail.
	c.Workload("writers", c.N(10000, 5), func(w *mon.W) {
		t := pickType(w.R, ts)
		v := gen.Vals{R: w.R}.New(t, 2)
		w.Note("value %s", desc(v))
		fw := &failingWriter{short: gen.Chance(w.R, 3)}
		we, ge := json.NewEncoder(fw), jc.NewEncoder(fw)
		if cl := palette(w.R); cl != nil {
			ge.SetColors(cl)
		}
		for i := 0; i < 3; i++ { // an error stays
			werr, err := we.Encode(v.Interface()), ge.Encode(v.Interface())
			if errors.Is(err, errUser) != errors.Is(werr, errUser) || errors.Is(err, io.ErrShortWrite) != errors.Is(werr, io.ErrShortWrite) || (err == nil) != (werr == nil) {
				w.Fatalf("call %d with a failing writer: %v, with encoding/json %v", i, err, werr)
			}
			if err != nil {
				w.Count("errors of writers", 1)
			}
		}
	})
	for _, s := range []string{"broken documents: SyntaxError", "broken documents: io.ErrUnexpectedEOF", "broken documents: io.EOF", "misfits: UnmarshalTypeError", "values without a JSON form: UnsupportedTypeError",
		"values without a JSON form: UnsupportedValueError", "invalid RawMessages", "invalid output of marshalers", "invalid Numbers", "invalid targets", "unknown fields: other", "errors of writers"} {
		c.MustObserve(s, 20)
	}
	c.MustObserve("errors of user methods found by unwrapping", 2000)
	c.MustObserve("invalid documents for other types", 2000)
}

// failingWriter fails, or takes only a part of what it is given.
type failingWriter struct{ short bool }

func (f *failingWriter) Write(b []byte) (int, error) {
	if f.short {
		return len(b) / 2, fail(1)
	}
	return 0, fail(2)
}
