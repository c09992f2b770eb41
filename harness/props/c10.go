package props

import (
	"bytes"
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"reflect"
	"slices"
	"strings"
	"sync"

	jc "github.com/neilotoole/jsoncolor"

	"verifharness/gen"
	"verifharness/mon"
	"verifharness/ref"
	"verifharness/zoo"
)

func init() {
	register(&mon.Prop{ID: "C10",
		Rule: "documents for random and hand-written types decoded by Parse, and by a Decoder from a split reader, under every combination of flags, and compared with encoding/json with the same options; for exact field matching encoding/json is given the document with each key that does not name a field exactly replaced by one which matches nothing; non-trivial: decoded to a non-zero value or refused by both, distinct by type, document and options",
		Run:  runC10})
}

var (
	unmarshalerType = reflect.TypeOf((*json.Unmarshaler)(nil)).Elem()
	textUnmType     = reflect.TypeOf((*encoding.TextUnmarshaler)(nil)).Elem()
)

var fieldCache sync.Map

// fieldTypes finds the JSON fields of struct t by name, by Go's rules of
// embedding: the least nested wins, then the tagged one, else none.
func fieldTypes(t reflect.Type) map[string]reflect.Type {
	if m, ok := fieldCache.Load(t); ok {
		return m.(map[string]reflect.Type)
	}
	type cand struct {
		depth  int
		tagged bool
		typ    reflect.Type
	}
	cands := map[string][]cand{}
	seen := map[reflect.Type]bool{}
	// The structs at one depth of embedding, with how often each is there; more
	// than twice makes no difference.
	level := map[reflect.Type]int{t: 1}
	for depth := 0; len(level) > 0; depth++ {
		next := map[reflect.Type]int{}
		for t := range level {
			seen[t] = true
		}
		for t, times := range level {
			for i := 0; i < t.NumField(); i++ {
				f := t.Field(i)
				ft := f.Type
				if f.Anonymous {
					if ft.Kind() == reflect.Pointer {
						ft = ft.Elem()
					}
					if !f.IsExported() && ft.Kind() != reflect.Struct {
						continue
					}
				} else if !f.IsExported() {
					continue
				}
				tag := f.Tag.Get("json")
				if tag == "-" {
					continue
				}
				name, _, _ := strings.Cut(tag, ",")
				if !goodName(name) {
					name = ""
				}
				if name == "" && f.Anonymous && ft.Kind() == reflect.Struct {
					if !seen[ft] {
						next[ft] = min(2, next[ft]+times)
					}
					continue
				}
				tagged := name != ""
				if name == "" {
					name = f.Name
				}
				for k := 0; k < times; k++ {
					cands[name] = append(cands[name], cand{depth, tagged, f.Type})
				}
			}
		}
		level = next
	}
	out := map[string]reflect.Type{}
	for name, cs := range cands {
		best, n := cand{depth: 1 << 30}, 0
		for _, c := range cs {
			switch {
			case c.depth < best.depth || c.depth == best.depth && c.tagged && !best.tagged:
				best, n = c, 1
			case c.depth == best.depth && c.tagged == best.tagged:
				n++
			}
		}
		if n == 1 {
			out[name] = best.typ
		}
	}
	fieldCache.Store(t, out)
	return out
}

func goodName(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range s {
		if !strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c) && !isLetterOrDigit(c) {
			return false
		}
	}
	return true
}

const unmatched = `"\u0000nothing"`

// exactOnly replaces the keys in doc that do not name a field of t exactly,
// and nothing else, and tells how many there were.
func exactOnly(doc string, t reflect.Type) (string, int) {
	d, err := ref.Parse([]byte(doc))
	if err != nil {
		return doc, 0
	}
	var sb strings.Builder
	done, i, count := 0, 0, 0
	// walk goes over one value; t is nil where keys do not matter.
	var walk func(t reflect.Type)
	walk = func(t reflect.Type) {
		for t != nil {
			if p := reflect.PointerTo(t); p.Implements(unmarshalerType) || p.Implements(textUnmType) ||
				t.Implements(unmarshalerType) || t.Implements(textUnmType) {
				t = nil
				break
			}
			if t.Kind() != reflect.Pointer {
				break
			}
			t = t.Elem()
		}
		k := d.Toks[i]
		i++
		switch k.Kind {
		case '{':
			var fs map[string]reflect.Type
			if t != nil && t.Kind() == reflect.Struct {
				fs = fieldTypes(t)
			}
			for d.Toks[i].Kind != '}' {
				key := d.Toks[i]
				i += 2
				var et reflect.Type
				if fs != nil {
					var ok bool
					if et, ok = fs[ref.Unquote([]byte(doc[key.Start:key.End]))]; !ok {
						sb.WriteString(doc[done:key.Start] + unmatched)
						done = key.End
						count++
					}
				} else if t != nil && t.Kind() == reflect.Map {
					et = t.Elem()
				}
				walk(et)
				if d.Toks[i].Kind == ',' {
					i++
				}
			}
			i++
		case '[':
			var et reflect.Type
			if t != nil && (t.Kind() == reflect.Slice || t.Kind() == reflect.Array) {
				et = t.Elem()
			}
			for d.Toks[i].Kind != ']' {
				walk(et)
				if d.Toks[i].Kind == ',' {
					i++
				}
			}
			i++
		}
	}
	walk(t)
	sb.WriteString(doc[done:])
	return sb.String(), count
}

type decOpts struct{ number, disallow, exact bool }

func (o decOpts) String() string {
	return fmt.Sprintf("UseNumber=%v DisallowUnknownFields=%v DontMatchCaseInsensitiveStructFields=%v", o.number, o.disallow, o.exact)
}

func (o decOpts) flags() (f jc.ParseFlags) {
	if o.number {
		f |= jc.UseNumber
	}
	if o.disallow {
		f |= jc.DisallowUnknownFields
	}
	if o.exact {
		f |= jc.DontMatchCaseInsensitiveStructFields
	}
	return f
}

func randOpts(r *rand.Rand) decOpts {
	return decOpts{gen.Chance(r, 2), gen.Chance(r, 3), gen.Chance(r, 2)}
}

func randCopyFlags(r *rand.Rand) (f jc.ParseFlags) {
	for _, x := range []jc.ParseFlags{jc.DontCopyString, jc.DontCopyNumber, jc.DontCopyRawMessage} {
		if gen.Chance(r, 3) {
			f |= x
		}
	}
	return f
}

var errTrailing = errors.New("something after the value")

func (o decOpts) std(b []byte, x interface{}) error {
	dec := json.NewDecoder(bytes.NewReader(b))
	o.stdSet(dec)
	if err := dec.Decode(x); err != nil {
		return err
	}
	if _, err := dec.Token(); err == nil {
		return errTrailing
	}
	return nil
}

func (o decOpts) stdSet(dec *json.Decoder) {
	if o.number {
		dec.UseNumber()
	}
	if o.disallow {
		dec.DisallowUnknownFields()
	}
}

// jcSet sets options on a Decoder by its methods.
func jcSet(dec *jc.Decoder, r *rand.Rand, f jc.ParseFlags) {
	type opt struct {
		f   jc.ParseFlags
		set func()
	}
	opts := []opt{
		{jc.UseNumber, dec.UseNumber},
		{jc.DisallowUnknownFields, dec.DisallowUnknownFields},
		{jc.DontMatchCaseInsensitiveStructFields, dec.DontMatchCaseInsensitiveStructFields},
		{jc.DontCopyString, dec.DontCopyString},
		{jc.DontCopyNumber, dec.DontCopyNumber},
		{jc.DontCopyRawMessage, dec.DontCopyRawMessage},
		{jc.ZeroCopy, dec.ZeroCopy},
	}
	r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	for _, o := range opts {
		if f&o.f == o.f && (o.f != jc.ZeroCopy || gen.Chance(r, 2)) {
			o.set()
		}
	}
}

// splitReader hands out a stream in pieces.
type splitReader struct {
	r   *rand.Rand
	b   []byte
	max int
}

// chunk chooses the longest piece for a stream of n bytes. Long streams come in
// longer pieces, as a Decoder may look at what it has from the start each time.
func chunk(r *rand.Rand, n int) int {
	if n > 3000 {
		return gen.Pick(r, 200, 2000, 9000)
	}
	return gen.Pick(r, 1, 5, 100, 9000)
}

func (s *splitReader) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	n := min(len(p), len(s.b), 1+s.r.IntN(s.max))
	copy(p, s.b[:n])
	s.b = s.b[n:]
	return n, nil
}

func (o decOpts) jc(w *mon.W) func([]byte, interface{}) error {
	f := o.flags() | randCopyFlags(w.R)
	viaDecoder := gen.Chance(w.R, 3)
	w.Note("%v flags=%b decoder=%v", o, f, viaDecoder)
	return func(b []byte, x interface{}) error {
		b = exact(b)
		if !viaDecoder {
			rest, err := jc.Parse(b, x, f)
			if err == nil && len(rest) > 0 {
				return errTrailing
			}
			return err
		}
		dec := jc.NewDecoder(&splitReader{w.R, b, chunk(w.R, len(b))})
		jcSet(dec, w.R, f)
		w.Count("through a Decoder", 1)
		if err := dec.Decode(x); err != nil {
			return err
		}
		// What was not copied may change when the Decoder reads on.
		keep := f&jc.ZeroCopy == 0
		if d, err := ref.Prefix(b); !keep && err == nil && len(bytes.TrimSpace(b[d.End:])) > 0 {
			return errTrailing
		}
		if keep {
			if err := dec.Decode(new(json.RawMessage)); err != io.EOF {
				return errTrailing
			}
		}
		return nil
	}
}

func runC10(c *mon.Ctx) {
	ts, zs := decodable(typePool(c, 1400)), decodable(zoo.Types())
	for _, x := range []struct {
		name string
		n    int
		ts   []reflect.Type
		pre  bool
		rate int
	}{
		{"pool", 60000, ts, false, 0},
		{"pool-distorted", 40000, ts, false, 25},
		{"pool-pre", 20000, ts, true, 25},
		{"zoo", 60000, zs, false, 0},
		{"zoo-distorted", 40000, zs, false, 20},
		{"zoo-pre", 20000, zs, true, 20},
	} {
		c.Workload(x.name, c.N(x.n, 12), func(w *mon.W) {
			t := pickType(w.R, x.ts)
			o := randOpts(w.R)
			if x.pre {
				// What an interface in the target holds decides which keys are
				// field names.
				o.exact = false
			}
			doc := gen.DocFor(w.R, t, 1+w.R.IntN(4), x.rate)
			stdDoc := doc
			if o.exact {
				var n int
				if stdDoc, n = exactOnly(doc, t); n > 0 {
					w.Count("documents with keys that are not exact", 1)
				}
				if o.disallow {
					w.Count("exact matching with unknown fields refused", 1)
				}
			}
			stdF := func(_ []byte, y interface{}) error { return o.std([]byte(stdDoc), y) }
			decodeWith(w, t, doc, x.pre, stdF, o.jc(w))
			w.Count(o.String(), 1)
		})
	}
	cs := gen.Containers(slices.Concat(ts[:min(len(ts), 300)], zs))
	c.Workload("wide", c.N(6000, 12), func(w *mon.W) {
		t := pickType(w.R, cs)
		o := randOpts(w.R)
		o.exact = false
		decodeWith(w, t, gen.Wide(w.R, t, 1+w.R.IntN(3), gen.Pick(w.R, 0, 0, 200)), gen.Chance(w.R, 3), o.std, o.jc(w))
		w.Count("wide documents", 1)
	})
	c.Workload("any-document", c.N(40000, 12), func(w *mon.W) {
		o := randOpts(w.R)
		doc := gen.Doc(w.R, 1+w.R.IntN(5))
		pre := gen.Chance(w.R, 3)
		o.exact = o.exact && !pre
		decodeWith(w, anyType, doc, pre, o.std, o.jc(w))
	})
	// Options that are switched on while a stream is being read.
	c.Workload("stream", c.N(20000, 12), func(w *mon.W) {
		var docs []string
		var types []reflect.Type
		n := 1 + w.R.IntN(6)
		for i := 0; i < n; i++ {
			t := pickType(w.R, gen.Pick(w.R, ts, zs))
			if gen.Chance(w.R, 3) {
				t = anyType
			}
			types = append(types, t)
			docs = append(docs, gen.DocFor(w.R, t, 1+w.R.IntN(3), gen.Pick(w.R, 0, 0, 30)))
		}
		text := []byte(strings.Join(docs, " "))
		dec := jc.NewDecoder(&splitReader{w.R, text, chunk(w.R, len(text))})
		sdec := json.NewDecoder(bytes.NewReader(text))
		var o decOpts
		for i, t := range types {
			if gen.Chance(w.R, 2) {
				a := randOpts(w.R)
				o.number, o.disallow = o.number || a.number, o.disallow || a.disallow
				jcSet(dec, w.R, o.flags()|randCopyFlags(w.R))
				o.stdSet(sdec)
			}
			a, b := reflect.New(t), reflect.New(t)
			werr, gerr := sdec.Decode(a.Interface()), dec.Decode(b.Interface())
			if (werr == nil) != (gerr == nil) {
				if gerr == nil && durExt(t, werr) || werr == nil && hasQuoted(t, map[reflect.Type]bool{}) && oddNumber(docs[i]) {
					return
				}
				if gerr == nil && strings.HasPrefix(werr.Error(), "parsing time") && strings.Contains(werr.Error(), `\u`) {
					return
				}
				w.Fatalf("stream %s, value %d into %s, %v: encoding/json err=%v, jsoncolor err=%v", q(text), i, cut(t.String(), 300), o, werr, gerr)
			}
			if werr == nil && !same(a.Elem(), b.Elem()) {
				w.Fatalf("stream %s, value %d into %s, %v: encoding/json %s, jsoncolor %s", q(text), i, cut(t.String(), 300), o, shortDump(a.Elem()), shortDump(b.Elem()))
			}
			w.Count("stream values with options", 1)
		}
	})
	c.MustObserve("accepted by both with equal values", 60000)
	c.MustObserve("refused by both", 10000)
	c.MustObserve("documents with keys that are not exact", 8000)
	c.MustObserve("through a Decoder", 20000)
	c.MustObserve("stream values with options", 20000)
}
