package props

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"reflect"
	"strings"
	"sync"

	"github.com/fatih/color"
	jc "github.com/neilotoole/jsoncolor"
	"github.com/neilotoole/jsoncolor/helper/fatihcolor"

	"verifharness/gen"
	"verifharness/mon"
)

func init() {
	register(&mon.Prop{ID: "C20",
		Rule: "random fatih/color colors and palettes, with color output globally and individually on and off, converted by several goroutines at once; the result is compared with what the color writes before text and with the escape sequence of its attributes; global and individual settings and memory are inspected afterwards; documents are encoded with the palettes; non-trivial: distinct by attributes",
		Run:  runC20})
}

// attrs makes the attributes of a color.
func attrs(r *rand.Rand) (as []color.Attribute) {
	switch r.IntN(8) {
	case 0:
		return []color.Attribute{38, 5, color.Attribute(r.IntN(256))}
	case 1:
		return []color.Attribute{48, 2, color.Attribute(r.IntN(256)), color.Attribute(r.IntN(256)), color.Attribute(r.IntN(256))}
	case 2:
		return nil
	}
	for n := 1 + r.IntN(gen.Pick(r, 2, 4, 20)); n > 0; n-- {
		as = append(as, gen.Pick(r, color.Attribute(r.IntN(10)), color.Attribute(30+r.IntN(18)), color.Attribute(90+r.IntN(18)), color.Attribute(r.IntN(1000))))
	}
	return as
}

func sequence(as []color.Attribute) string {
	s := make([]string, len(as))
	for i, a := range as {
		s[i] = fmt.Sprint(int(a))
	}
	return "\x1b[" + strings.Join(s, ";") + "m"
}

// fcolor makes a color, which may be individually on or off.
func fcolor(r *rand.Rand) (*color.Color, string) {
	if gen.Chance(r, 10) {
		return nil, ""
	}
	as := attrs(r)
	var c *color.Color
	if k := r.IntN(len(as) + 1); gen.Chance(r, 3) {
		c = color.New(as[:k]...)
		c.Add(as[k:]...)
	} else {
		c = color.New(as...)
	}
	switch r.IntN(4) {
	case 0:
		c.EnableColor()
	case 1:
		c.DisableColor()
	}
	return c, sequence(as)
}

func runC20(c *mon.Ctx) {
	saved, savedOut := color.NoColor, color.Output
	defer func() { color.NoColor, color.Output = saved, savedOut }()
	var log bytes.Buffer
	color.Output = &log
	// What a color writes when it is on.
	writes := func(x *color.Color) string {
		y := *x
		y.EnableColor()
		s, _, ok := strings.Cut(y.Sprint("MARK"), "MARK")
		if !ok {
			panic("harness: fatih/color loses text")
		}
		return s
	}
	c.Serial("colors", c.N(60000, 20), func(w *mon.W) {
		x, want := fcolor(w.R)
		global := gen.Chance(w.R, 2)
		color.NoColor = global
		before := ""
		if x != nil {
			before = x.Sprint("t") + fmt.Sprintf("%#v", *x)
			if s := writes(x); s != want {
				panic("harness: fatih/color writes " + s)
			}
		}
		w.Note("color %q, color.NoColor=%v", want, global)
		got := fatihcolor.ToCoreColor(x)
		if string(got) != want {
			w.Fatalf("converts to %q", got)
		}
		if color.NoColor != global || log.Len() != 0 || color.Output != io.Writer(&log) {
			w.Fatalf("global settings changed, or something was written: %q", log.String())
		}
		if x != nil {
			if x.Sprint("t")+fmt.Sprintf("%#v", *x) != before {
				w.Fatalf("the color changed")
			}
			// No memory in common with the source or with another result.
			again := fatihcolor.ToCoreColor(x)
			for i := range got {
				got[i] = '#'
			}
			_ = append(got[:len(got):cap(got)], "####"...)
			x.Add(7)
			if string(again) != want || x.Sprint("") == before {
				w.Fatalf("an earlier result changes with a later one, or with the color: %q", again)
			}
			if third := fatihcolor.ToCoreColor(x); string(third) != sequence(append(seqAttrs(want), 7)) {
				w.Fatalf("after Add(7): %q", third)
			}
		}
		w.Count("colors converted", 1)
		w.Distinct(want)
		if w.WantSample() {
			w.Sample("%q", want)
		}
	})
	fields := map[string]string{"Bool": "Bool", "Bytes": "Bytes", "Datetime": "Time", "Null": "Null", "Number": "Number", "String": "String", "Key": "Key", "Punc": "Punc", "TextMarshaler": "TextMarshaler"}
	if n := reflect.TypeOf(fatihcolor.Colors{}).NumField(); n != len(fields) {
		// A field of another name has no known meaning, but those known do.
		c.AddCount("fields of a palette which are not known", int64(n-len(fields)))
	}
	ts := typePool(c, 300)
	c.Serial("palettes", c.N(12000, 20), func(w *mon.W) {
		color.NoColor = gen.Chance(w.R, 2)
		p := &fatihcolor.Colors{}
		want := map[string]string{}
		for f, core := range fields {
			x, s := fcolor(rand.New(rand.NewPCG(w.C.Seed, uint64(w.Index)*100+uint64(len(core))*7+uint64(core[0]))))
			if gen.Chance(w.R, 4) {
				x, s = nil, ""
			}
			reflect.ValueOf(p).Elem().FieldByName(f).Set(reflect.ValueOf(x))
			want[core] = s
		}
		if gen.Chance(w.R, 30) {
			if got := fatihcolor.ToCoreColors(nil); got != nil {
				w.Fatalf("a nil palette converts to %+v", got)
			}
		}
		copyOf := *p
		got := fatihcolor.ToCoreColors(p)
		if *p != copyOf {
			w.Fatalf("the palette changed")
		}
		if got == nil {
			w.Fatalf("a palette converts to nil")
		}
		v := reflect.ValueOf(got).Elem()
		for i := 0; i < v.NumField(); i++ {
			name := v.Type().Field(i).Name
			if b := v.Field(i).Bytes(); string(b) != want[name] {
				w.Fatalf("%s is %q, want %q", name, b, want[name])
			}
		}
		// The document shows them.
		x := encValue(w, ts, gen.Vals{R: w.R})
		manual := &jc.Colors{Null: jc.Color(want["Null"]), Bool: jc.Color(want["Bool"]), Number: jc.Color(want["Number"]), String: jc.Color(want["String"]), Key: jc.Color(want["Key"]),
			Bytes: jc.Color(want["Bytes"]), Time: jc.Color(want["Time"]), Punc: jc.Color(want["Punc"]), TextMarshaler: jc.Color(want["TextMarshaler"])}
		in := value(w.R, x)
		a, err1 := jc.Append(nil, in, jc.SortMapKeys, got, nil)
		b, err2 := jc.Append(nil, in, jc.SortMapKeys, manual, nil)
		if (err1 == nil) != (err2 == nil) || err1 == nil && !bytes.Equal(a, b) {
			w.Fatalf("with the palette: %s\nwith its colors: %s", q(a), q(b))
		}
		w.Count("palettes converted", 1)
		w.Distinct(fmt.Sprint(want))
	})
	c.Serial("default", 2, func(w *mon.W) {
		color.NoColor = w.Index == 0
		p, q := fatihcolor.DefaultColors(), fatihcolor.DefaultColors()
		if p == q {
			w.Fatalf("all callers of DefaultColors share a palette")
		}
		g := reflect.ValueOf(fatihcolor.ToCoreColors(p)).Elem()
		for f, core := range fields {
			x := reflect.ValueOf(p).Elem().FieldByName(f).Interface().(*color.Color)
			if x == nil || g.FieldByName(core).Len() == 0 || string(g.FieldByName(core).Bytes()) != writes(x) {
				w.Fatalf("%s of the default palette: %q", f, g.FieldByName(core).Bytes())
			}
			y := reflect.ValueOf(q).Elem().FieldByName(f).Interface().(*color.Color)
			if x == y {
				w.Fatalf("default palettes share their %s", f)
			}
			y.Add(9)
			if string(g.FieldByName(core).Bytes()) != writes(x) {
				w.Fatalf("a change to one default palette shows in another: %s", f)
			}
		}
		w.Count("default palettes", 1)
	})
	// At the same time.
	color.NoColor = true
	c.Serial("together", c.N(600, 20), func(w *mon.W) {
		x, want := fcolor(w.R)
		var wg sync.WaitGroup
		got := make([]jc.Color, 8)
		for i := range got {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if i%2 == 0 {
					got[i] = fatihcolor.ToCoreColor(x)
				} else {
					got[i] = fatihcolor.ToCoreColors(&fatihcolor.Colors{Key: x}).Key
				}
			}()
		}
		wg.Wait()
		for _, g := range got {
			if string(g) != want {
				w.Fatalf("%q becomes %q", want, g)
			}
		}
		w.Count("colors converted by several goroutines", len(got))
	})
	c.MustObserve("colors converted", 50000)
	c.MustObserve("palettes converted", 10000)
	c.MustObserve("default palettes", 2)
	c.MustObserve("colors converted by several goroutines", 4000)
}

// seqAttrs reads the attributes back from a sequence.
func seqAttrs(s string) (as []color.Attribute) {
	s = strings.TrimSuffix(strings.TrimPrefix(s, "\x1b["), "m")
	if s == "" {
		return nil
	}
	for _, p := range strings.Split(s, ";") {
		var n int
		fmt.Sscan(p, &n)
		as = append(as, color.Attribute(n))
	}
	return as
}
