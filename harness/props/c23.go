package props

import (
	"bytes"
	"reflect"

	jc "github.com/neilotoole/jsoncolor"

	"verifharness/gen"
	"verifharness/mon"
)

func init() {
	register(&mon.Prop{ID: "C23",
		Rule: "random sequences of option changes and Encode calls on one Encoder, each call compared with encoding/json under the options now in force and with a new Encoder given them in another order; non-trivial: a sequence with at least two option changes before a document, distinct by options and output",
		Run:  runC23})
}

func runC23(c *mon.Ctx) {
	ts := typePool(c, 1400)
	c.Workload("histories", c.N(12000, 12), func(w *mon.W) {
		var buf bytes.Buffer
		enc := jc.NewEncoder(&buf)
		html, sorted, trust := true, true, false
		prefix, indent := "", ""
		var clrs *jc.Colors
		changes := 0
		for n := 3 + w.R.IntN(14); n > 0; n-- {
			switch w.R.IntN(9) {
			case 0:
				html = gen.Chance(w.R, 2)
				enc.SetEscapeHTML(html)
				changes++
			case 1:
				sorted = gen.Chance(w.R, 2)
				enc.SetSortMapKeys(sorted)
				changes++
			case 2:
				trust = gen.Chance(w.R, 2)
				enc.SetTrustRawMessage(trust)
				changes++
			case 3:
				prefix, indent = "", ""
				if !gen.Chance(w.R, 3) {
					prefix, indent = indentStrings(w.R)
				}
				enc.SetIndent(prefix, indent)
				changes++
			case 4:
				clrs = nil
				if gen.Chance(w.R, 2) {
					clrs = palette(w.R)
				}
				enc.SetColors(clrs)
				changes++
			default:
				var x interface{}
				v := encValue(w, ts, gen.Vals{R: w.R})
				x = value(w.R, v)
				if gen.Chance(w.R, 3) {
					x = wrapRaw(w.R, []byte(gen.Doc(w.R, 3)), 1)
				} else if gen.Chance(w.R, 3) {
					x = hostileStrings(w)
				}
				// Damaged or unusual raw messages show whether they are trusted.
				damaged := gen.Chance(w.R, 6)
				if damaged {
					doc := gen.Doc(w.R, 3)
					if gen.Chance(w.R, 2) {
						doc = gen.Mutate(w.R, doc)
					}
					x = wrapRaw(w.R, []byte(doc), 1)
				}
				note := func() {
					w.Note("%s", desc(reflect.ValueOf(&x).Elem()))
					w.Note("html=%v sorted=%v trust=%v prefix=%q indent=%q colors %s", html, sorted, trust, prefix, indent, descColors(clrs))
				}
				buf.Reset()
				err := enc.Encode(x)
				got := append([]byte{}, buf.Bytes()...)

				// A new Encoder.
				var buf2 bytes.Buffer
				enc2 := jc.NewEncoder(&buf2)
				for _, k := range w.R.Perm(5) {
					switch k {
					case 0:
						enc2.SetEscapeHTML(html)
					case 1:
						enc2.SetSortMapKeys(sorted)
					case 2:
						enc2.SetTrustRawMessage(trust)
					case 3:
						enc2.SetIndent(prefix, indent)
					case 4:
						enc2.SetColors(clrs)
					}
				}
				err2 := enc2.Encode(x)
				want, werr := []byte(nil), error(nil)
				if prefix != "" || indent != "" {
					want, werr = stdIndent(x, html, prefix, indent)
				} else {
					want, werr = std(x, html)
				}
				if damaged && trust && werr != nil {
					// No reference but the new Encoder.
					if (err != nil) != (err2 != nil) || err == nil && sorted && !bytes.Equal(got, buf2.Bytes()) {
						note()
						w.Fatalf("damaged and trusted: %s err=%v, new Encoder %s err=%v", q(got), err, q(buf2.Bytes()), err2)
					}
					w.Count("damaged messages trusted", 1)
					continue
				}
				if (err != nil) != (err2 != nil) || (err != nil) != (werr != nil) {
					note()
					w.Fatalf("err=%v, new Encoder err=%v, encoding/json err=%v", err, err2, werr)
				}
				if err != nil {
					continue
				}
				if !sorted {
					// Members may come in any order; compare up to it.
					a, e1 := sortedOf(got, prefix, indent)
					b, e2 := sortedOf(buf2.Bytes(), prefix, indent)
					s, e3 := sortedOf(want, prefix, indent)
					if e1 != nil || e2 != nil || e3 != nil {
						w.Count("unsorted, layout not parsable", 1)
						continue
					}
					if a != b || string(normEsc([]byte(a))) != string(normEsc([]byte(s))) {
						note()
						w.Fatalf("unsorted: %s\n new Encoder %s\n encoding/json %s", q(got), q(buf2.Bytes()), q(want))
					}
					w.Count("unsorted documents compared", 1)
				} else {
					if !bytes.Equal(got, buf2.Bytes()) {
						note()
						w.Fatalf("got %s\n new Encoder %s\n %s", q(got), q(buf2.Bytes()), firstDiff(got, buf2.Bytes()))
					}
					text := bytes.TrimSuffix(got, []byte("\n"))
					if clrs != nil {
						text = strip(text)
					}
					if !sameEnc(text, want) {
						note()
						w.Fatalf("got %s\n encoding/json %s\n %s", q(text), q(want), firstDiff(text, want))
					}
					w.Count("sorted documents compared", 1)
				}
				if clrs != nil && bytes.Count(got, []byte(reset)) == 0 && len(got) > 3 {
					note()
					w.Fatalf("colors set, but output has no codes: %s", q(got))
				}
				if clrs == nil && bytes.IndexByte(got, 0x1b) >= 0 {
					note()
					w.Fatalf("no colors set, but output has codes: %s", q(got))
				}
				if changes >= 2 {
					w.Distinct(html, sorted, trust, prefix, indent, got)
				}
				if w.WantSample() {
					w.Sample("html=%v sorted=%v trust=%v prefix=%q indent=%q -> %s", html, sorted, trust, prefix, indent, q(got))
				}
			}
		}
		w.Count("option changes", changes)
	})
	// Each flag of Append on its own: what it must change, and what not.
	c.Workload("single-flags", c.N(20000, 12), func(w *mon.W) {
		var x interface{}
		v := encValue(w, ts, gen.Vals{R: w.R})
		x = value(w.R, v)
		if gen.Chance(w.R, 2) {
			x = hostileStrings(w)
		}
		for f := jc.AppendFlags(0); f < 8; f++ {
			got, err := jc.Append(nil, x, f, nil, nil)
			want, werr := std(x, f&jc.EscapeHTML != 0)
			if (err != nil) != (werr != nil) {
				w.Note("%s", desc(reflect.ValueOf(&x).Elem()))
				w.Fatalf("flags %d: err=%v want %v", f, err, werr)
			}
			if err != nil {
				continue
			}
			if f&jc.SortMapKeys == 0 {
				a, e1 := membersSorted(got)
				b, e2 := membersSorted(want)
				if e1 != nil || e2 != nil || string(normEsc([]byte(a))) != string(normEsc([]byte(b))) {
					w.Note("%s", desc(reflect.ValueOf(&x).Elem()))
					w.Fatalf("flags %d: got %s want, up to order, %s", f, q(got), q(want))
				}
			} else if !sameEnc(got, want) {
				w.Note("%s", desc(reflect.ValueOf(&x).Elem()))
				w.Fatalf("flags %d: got %s want %s", f, q(got), q(want))
			}
			w.Count("flag combinations compared", 1)
		}
	})
	c.MustObserve("sorted documents compared", 5000)
	c.MustObserve("unsorted documents compared", 3000)
	c.MustObserve("option changes", 20000)
	c.MustObserve("damaged messages trusted", 300)
	c.MustObserve("flag combinations compared", 50000)
}

// sortedOf takes the layout and colors away and sorts members.
func sortedOf(b []byte, prefix, indent string) (string, error) {
	if !wsOnly(prefix + indent) {
		return "", errLayout
	}
	return membersSorted(bytes.TrimSuffix(strip(b), []byte("\n")))
}

var errLayout = errPanic
