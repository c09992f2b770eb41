package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"reflect"
	"strconv"
	"strings"
	"syscall"

	jc "github.com/neilotoole/jsoncolor"

	"verifharness/gen"
	"verifharness/mon"
)

func init() {
	register(&mon.Prop{ID: "C06",
		Rule: "histories of Encode calls with good, unencodable and panicking values on one to three Encoders whose writers record each Write, fail, write short or re-enter the package in the middle of a Write; non-trivial: a history with at least one failure or re-entry and one document written afterwards or before, distinct by what was written",
		Run:  runC06})
	register(&mon.Prop{ID: "C07",
		Rule: "random values encoded repeatedly into destinations of all lengths and capacities; destinations, earlier results and the values themselves are compared before and after; non-trivial: an encoding of at least 12 bytes, distinct by output",
		Run:  runC07})
}

// spyWriter records writes. At write number failAt (from 1) it fails.
type spyWriter struct {
	writes  [][]byte
	failAt  int
	partial bool // takes part of the data before failing
	short   bool // fails by a short count without an error
	err     error
	during  func() // runs in the middle of a Write
	changed bool   // the data changed under the writer's eyes
}

// The errors of writers, of kinds which some code treats specially.
var writeErrors = []error{errors.New("the disk is full"), io.EOF, io.ErrShortWrite, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, os.ErrDeadlineExceeded, os.ErrClosed, context.Canceled, context.DeadlineExceeded,
	syscall.EAGAIN, syscall.EINTR, syscall.EPIPE, &net.OpError{Op: "write", Err: os.ErrDeadlineExceeded}, &json.UnsupportedValueError{Str: "not a value"}, &json.SyntaxError{Offset: 1}, &json.MarshalerError{Type: reflect.TypeOf(0), Err: io.EOF}}

func (s *spyWriter) Write(p []byte) (int, error) {
	before := append([]byte{}, p...)
	if s.during != nil {
		s.during()
	}
	if !bytes.Equal(before, p) {
		s.changed = true
	}
	s.writes = append(s.writes, before)
	// The data is the encoder's, but nobody may rely on it afterwards.
	if s.failAt != 0 && len(s.writes) >= s.failAt {
		n := 0
		if s.partial {
			n = len(p) / 2
		}
		if s.short {
			return n, nil
		}
		return n, s.err
	}
	return len(p), nil
}

func runC06(c *mon.Ctx) {
	ts := typePool(c, 1400)
	c.Workload("histories", c.N(15000, 12), func(w *mon.W) {
		type encState struct {
			spy    *spyWriter
			enc    *jc.Encoder
			want   [][]byte // documents which must have been written
			broken bool
			set    encSettings
			colors bool
		}
		encs := make([]*encState, 1+w.R.IntN(3))
		for i := range encs {
			e := &encState{spy: &spyWriter{}}
			if gen.Chance(w.R, 3) {
				e.spy.failAt = 1 + w.R.IntN(5)
				e.spy.err = gen.Pick(w.R, writeErrors...)
				if gen.Chance(w.R, 2) {
					e.spy.err = fmt.Errorf("writer %d fails: %w", i, e.spy.err)
				}
				e.spy.partial = gen.Chance(w.R, 2)
			}
			e.enc = jc.NewEncoder(e.spy)
			e.set = randSettings(w)
			e.colors = gen.Chance(w.R, 3)
			if e.colors {
				e.enc.SetColors(e.set.clrs)
			} else {
				e.set.clrs = nil
			}
			e.enc.SetEscapeHTML(e.set.flags&jc.EscapeHTML != 0)
			if e.set.indented {
				e.enc.SetIndent(e.set.prefix, e.set.indent)
			}
			if gen.Chance(w.R, 4) {
				e.spy.during = func() {
					// Other encoding takes place before the data is consumed.
					_, _ = jc.Marshal(map[string]interface{}{"during": []int{1, 2, 3}, "x": "yyyyyyyyyyyyyyyyyyyyyyyyyyyyy"})
					_ = jc.NewEncoder(&bytes.Buffer{}).Encode([]string{"zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz"})
					_, _ = jc.Marshal([]interface{}{1, make(chan int)})
				}
			}
			encs[i] = e
		}
		fails, panics, wfails := 0, 0, 0
		for n := 2 + w.R.IntN(10); n > 0; n-- {
			e := encs[w.R.IntN(len(encs))]
			before := len(e.spy.writes)
			var x interface{}
			kind := w.R.IntN(6)
			switch kind {
			case 0:
				x = nest(w, gen.Pick[interface{}](w.R, make(chan int), rawVal{[]byte(`{"a":1} x`)}, json.RawMessage(`[1`), json.Number("1.2.3"), func() {}), w.R.IntN(4))
			case 1:
				x = nest(w, gen.Pick[interface{}](w.R, panicVal{}, panicText{}, map[string]panicText{"a": {}}), w.R.IntN(4))
			case 2:
				// A marshaler that encodes by itself, before and after.
				v := encValue(w, ts, gen.Vals{R: w.R})
				in := v.Interface()
				x = nest(w, rawFunc(func() ([]byte, error) {
					var b bytes.Buffer
					_ = jc.NewEncoder(&b).Encode(in)
					_, _ = jc.Marshal([]int{1, 2, 3})
					return b.Bytes(), nil
				}), w.R.IntN(4))
			default:
				v := encValue(w, ts, gen.Vals{R: w.R, Bad: gen.Pick(w.R, 0, 30)})
				x = value(w.R, v)
			}
			note := func() {
				w.Note("%s", desc(reflect.ValueOf(&x).Elem()))
				w.Note("encoder failAt=%d flags=%d prefix=%q indent=%q colored=%v, %d writes before", e.spy.failAt, e.set.flags, e.set.prefix, e.set.indent, e.colors, before)
			}
			var err error
			panicked := try(func() { err = e.enc.Encode(x) })
			newWrites := e.spy.writes[before:]
			if e.spy.changed {
				note()
				w.Fatalf("the data changed while the writer had it")
			}
			if e.broken {
				if panicked || err == nil || !errors.Is(err, e.spy.err) || len(newWrites) != 0 {
					note()
					w.Fatalf("after a failed write: err=%v panicked=%v writes=%q", err, panicked, newWrites)
				}
				w.Count("calls after a failed write", 1)
				continue
			}
			if panicked {
				panics++
				if kind != 1 {
					note()
					w.Fatalf("panic")
				}
				if len(newWrites) != 0 {
					note()
					w.Fatalf("wrote %q though the marshaler panicked", newWrites)
				}
				continue
			}
			// What must have happened?
			var want []byte
			var werr error
			html := e.set.flags&jc.EscapeHTML != 0
			if e.set.indented && (e.set.prefix != "" || e.set.indent != "") {
				want, werr = stdIndent(x, html, e.set.prefix, e.set.indent)
			} else {
				want, werr = std(x, html)
			}
			if werr != nil {
				fails++
				if err == nil || len(newWrites) != 0 {
					note()
					w.Fatalf("unencodable value: err=%v writes=%q", err, newWrites)
				}
				if e.spy.err != nil && errors.Is(err, e.spy.err) {
					note()
					w.Fatalf("writer's error for unencodable value")
				}
				continue
			}
			if len(newWrites) != 1 {
				note()
				w.Fatalf("%d writes for one document: %q err=%v", len(newWrites), newWrites, err)
			}
			text := newWrites[0]
			if e.colors {
				text = strip(text)
			}
			if !bytes.HasSuffix(text, []byte("\n")) || !sameEnc(text[:len(text)-1], want) {
				note()
				w.Fatalf("wrote %s\n want %s and a newline\n %s", q(newWrites[0]), q(want), firstDiff(text, want))
			}
			if e.spy.failAt != 0 && len(e.spy.writes) >= e.spy.failAt {
				wfails++
				if err == nil || !errors.Is(err, e.spy.err) {
					note()
					w.Fatalf("failed write gives err=%v", err)
				}
				e.broken = true
				continue
			}
			if err != nil {
				note()
				w.Fatalf("written but err=%v", err)
			}
			w.Count("documents written whole", 1)
		}
		w.Count("unencodable values", fails)
		w.Count("panicking marshalers", panics)
		w.Count("failed writes", wfails)
		if fails+panics+wfails > 0 {
			for _, e := range encs {
				w.Distinct(bytes.Join(e.spy.writes, []byte("|")), e.broken)
			}
		}
	})
	// Results of Marshal must not be touched by what Encoders do later.
	c.Workload("encode-and-marshal", c.N(10000, 12), func(w *mon.W) {
		type kept struct{ b, copy []byte }
		var keeps []kept
		for n := 3 + w.R.IntN(6); n > 0; n-- {
			v := encValue(w, ts, gen.Vals{R: w.R})
			var b []byte
			var err error
			if gen.Chance(w.R, 2) {
				b, err = jc.Marshal(v.Interface())
			} else {
				spy := &spyWriter{}
				err = jc.NewEncoder(spy).Encode(v.Interface())
				if err == nil {
					b = spy.writes[0]
				}
			}
			if err == nil {
				keeps = append(keeps, kept{b, append([]byte{}, b...)})
			}
		}
		for _, k := range keeps {
			if !bytes.Equal(k.b, k.copy) {
				w.Fatalf("result changed from %s to %s", q(k.copy), q(k.b))
			}
		}
		w.Count("results kept and compared", len(keeps))
	})
	c.MustObserve("documents written whole", 15000)
	c.MustObserve("failed writes", 1000)
	c.MustObserve("calls after a failed write", 500)
	c.MustObserve("unencodable values", 3000)
	c.MustObserve("panicking marshalers", 3000)
}

type rawFunc func() ([]byte, error)

func (f rawFunc) MarshalJSON() ([]byte, error) { return f() }

func runC07(c *mon.Ctx) {
	ts := typePool(c, 1400)
	n := 40000
	c.Workload("append", c.N(n, 12), func(w *mon.W) {
		v := encValue(w, ts, gen.Vals{R: w.R, Bad: gen.Pick(w.R, 0, 0, 40)})
		x := value(w.R, v)
		if gen.Chance(w.R, 5) {
			x = wrapRaw(w.R, []byte(gen.Doc(w.R, 3)), 2)
			v = reflect.ValueOf(&x).Elem()
		}
		s := randSettings(w)
		if gen.Chance(w.R, 2) {
			s.clrs = nil
		}
		var ind *jc.Indenter
		if s.indented {
			ind = jc.NewIndenter(s.prefix, s.indent)
		}
		before := dump(reflect.ValueOf(&x).Elem())
		var clrBefore string
		if s.clrs != nil {
			clrBefore = descColors(s.clrs)
		}
		base, berr := jc.Append(nil, x, s.flags, s.clrs, ind)
		baseCopy := append([]byte{}, base...)
		note := func() {
			w.Note("%s", desc(v))
			w.Note("flags=%d prefix=%q indent=%q colors=%v", s.flags, s.prefix, s.indent, s.clrs != nil)
		}
		for k := 0; k < 3; k++ {
			// A destination with some content, and some room that is full of
			// other content.
			l := w.R.IntN(40)
			room := gen.Pick(w.R, 0, 1, 2, len(base)/2, len(base), len(base)+1, len(base)+100, 2*len(base)+7, w.R.IntN(64), 5000)
			backing := make([]byte, l+room+16)
			for i := range backing {
				backing[i] = byte(0xA0 + i%64)
			}
			dst := backing[: l : l+room]
			head := append([]byte{}, backing[:l]...)
			tail := append([]byte{}, backing[l+room:]...)
			got, gerr := jc.Append(dst, x, s.flags, s.clrs, ind)
			if (gerr != nil) != (berr != nil) {
				note()
				w.Fatalf("Append to nil: err=%v, to a slice of length %d and capacity %d: err=%v", berr, l, l+room, gerr)
			}
			if !bytes.Equal(backing[:l], head) {
				note()
				w.Fatalf("destination's content changed: %q, was %q", backing[:l], head)
			}
			if !bytes.Equal(backing[l+room:], tail) {
				note()
				w.Fatalf("memory behind the destination's capacity changed")
			}
			if gerr != nil {
				if len(got) >= l && !bytes.Equal(got[:l], head) {
					note()
					w.Fatalf("after an error the destination's content is %q, was %q", got[:l], head)
				}
				w.Count("failed appends", 1)
				continue
			}
			if len(got) < l || !bytes.Equal(got[:l], head) {
				note()
				w.Fatalf("result starts with %q, want the destination's content %q", q(got), head)
			}
			if !bytes.Equal(got[l:], baseCopy) {
				note()
				w.Fatalf("appended to length %d capacity %d: %s\n to nil: %s\n %s", l, l+room, q(got[l:]), q(baseCopy), firstDiff(got[l:], baseCopy))
			}
			w.Count("appends compared", 1)
		}
		if !bytes.Equal(base, baseCopy) {
			note()
			w.Fatalf("an earlier result changed from %s to %s", q(baseCopy), q(base))
		}
		// The result is the caller's: changing it changes nothing else.
		for i := range base {
			base[i] ^= 0xff
		}
		if after := dump(reflect.ValueOf(&x).Elem()); after != before {
			note()
			w.Fatalf("the value changed from %s to %s", cut(before, 1500), cut(after, 1500))
		}
		if s.clrs != nil {
			if after := descColors(s.clrs); after != clrBefore {
				note()
				w.Fatalf("the palette changed from %s to %s", clrBefore, after)
			}
		}
		again, aerr := jc.Append(nil, x, s.flags, s.clrs, ind)
		if (aerr != nil) != (berr != nil) || berr == nil && !bytes.Equal(again, baseCopy) {
			note()
			w.Fatalf("again: %s err=%v, first: %s err=%v", q(again), aerr, q(baseCopy), berr)
		}
		w.Count("values compared before and after", 1)
		if len(baseCopy) >= 12 && berr == nil {
			w.Distinct(baseCopy)
		}
		if w.WantSample() {
			w.Sample("%s", q(baseCopy))
		}
	})
	// Without sorting: a permutation of the same members, every time.
	c.Workload("unsorted", c.N(n/3, 12), func(w *mon.W) {
		v := encValue(w, ts, gen.Vals{R: w.R})
		x := value(w.R, v)
		if gen.Chance(w.R, 4) {
			x = hostileStrings(w)
			v = reflect.ValueOf(&x).Elem()
		}
		a, err1 := jc.Append(nil, x, jc.SortMapKeys, nil, nil)
		b, err2 := jc.Append(nil, x, 0, nil, nil)
		if (err1 != nil) != (err2 != nil) {
			w.Note("%s", desc(v))
			w.Fatalf("sorted err=%v, unsorted err=%v", err1, err2)
		}
		if err1 != nil {
			return
		}
		sa, e1 := membersSorted(a)
		sb, e2 := membersSorted(b)
		if e1 != nil || e2 != nil || sa != sb {
			w.Note("%s", desc(v))
			w.Fatalf("sorted %s\n unsorted %s", q(a), q(b))
		}
		w.Count("unsorted outputs compared", 1)
	})
	// Results of all functions and sizes are kept while others are made, and
	// their spare capacity is used.
	c.Workload("retained", c.N(2500, 12), func(w *mon.W) {
		type kept struct {
			b, want []byte
			what    string
		}
		var ring []kept
		for k := 0; k < 12; k++ {
			v := encValue(w, ts, gen.Vals{R: w.R})
			x := value(w.R, v)
			if n := gen.Pick(w.R, 0, 0, 1, 100, 1000, 1024, 4000, 8000, 8192, 9000, 20000, 70000); n > 0 {
				switch w.R.IntN(4) {
				case 0:
					x = []interface{}{x, strings.Repeat("§", n/2), k}
				case 1:
					x = map[string]interface{}{"a": bytes.Repeat([]byte{byte(k)}, n), "b": x}
				case 2:
					l := make([]int, n/8)
					for i := range l {
						l[i] = w.R.IntN(1e7)
					}
					x = l
				case 3:
					x = json.RawMessage("[" + strings.Repeat("{},", n/3) + strconv.Itoa(k) + "]")
				}
			}
			var b []byte
			var err error
			what := ""
			switch w.R.IntN(5) {
			case 0, 1:
				what = "Marshal"
				b, err = jc.Marshal(x)
			case 2:
				what = "MarshalIndent"
				b, err = jc.MarshalIndent(x, "", gen.Pick(w.R, "", "\t", "  "))
			case 3:
				what = "Append"
				b, err = jc.Append(nil, x, jc.AppendFlags(w.R.IntN(8)), nil, nil)
			case 4:
				what = "Append with colors"
				b, err = jc.Append([]byte{}, x, jc.AppendFlags(w.R.IntN(8)), jc.DefaultColors(), jc.NewIndenter("", " "))
			}
			// Something else that uses buffers.
			switch w.R.IntN(4) {
			case 0:
				_, _ = jc.Marshal(strings.Repeat("x", w.R.IntN(20000)))
			case 1:
				enc := jc.NewEncoder(&spyWriter{})
				_ = enc.Encode(strings.Repeat("y", w.R.IntN(20000)))
			case 2:
				_, _ = jc.Marshal([]interface{}{strings.Repeat("z", w.R.IntN(9000)), func() {}})
			}
			if err == nil {
				// Nobody else may own the spare capacity either.
				spare := b[len(b):cap(b)]
				for i := range spare {
					spare[i] = 0xEE
				}
				ring = append(ring, kept{b, append([]byte{}, b...), what})
				w.Count("results retained", 1)
				if len(b) > 8192 {
					w.Count("large results retained", 1)
				}
				if len(b) >= 12 {
					w.Distinct(b)
				}
			}
			for i, r := range ring {
				if !bytes.Equal(r.b, r.want) {
					w.Note("result %d of %d, by %s", i, len(ring), r.what)
					w.Fatalf("an earlier result changed: %s", firstDiff(r.b, r.want))
				}
				for _, c := range r.b[len(r.b):cap(r.b)] {
					if c != 0xEE {
						w.Note("result %d of %d, by %s", i, len(ring), r.what)
						w.Fatalf("the capacity behind an earlier result changed")
					}
				}
			}
		}
	})
	c.MustObserve("appends compared", 10000)
	c.MustObserve("results retained", 10000)
	c.MustObserve("large results retained", 1000)
	c.MustObserve("failed appends", 200)
	c.MustObserve("unsorted outputs compared", 1000)
}
