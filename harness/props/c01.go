package props

import (
	"reflect"

	jc "github.com/neilotoole/jsoncolor"

	"verifharness/gen"
	"verifharness/mon"
	"verifharness/zoo"
)

func init() {
	register(&mon.Prop{ID: "C01",
		Rule: "values of random and hand-written Go types, each encoded through Marshal, Append and Encoder with EscapeHTML on or off and compared with encoding/json run on the same value; non-trivial: an accepted encoding of at least 12 bytes, or a refusal, distinct by type and output",
		Run:  runC01})
}

func checkAgainstStd(w *mon.W, x interface{}, v reflect.Value) {
	html := gen.Chance(w.R, 2)
	want, werr := std(x, html)
	flags := jc.SortMapKeys
	if html {
		flags |= jc.EscapeHTML
	}
	var got []byte
	var gerr error
	api := "Append"
	switch {
	case html && gen.Chance(w.R, 3):
		api = "Marshal"
		got, gerr = jc.Marshal(x)
	default:
		got, gerr = jcAppend(x, flags, nil, nil)
	}
	if (werr != nil) != (gerr != nil) {
		w.Note("%s", desc(v))
		w.Fatalf("%s: encoding/json gives %s err=%v; jsoncolor gives %s err=%v", api, q(want), werr, q(got), gerr)
	}
	if werr != nil {
		w.Count("refused by both", 1)
		w.Distinct(v.Type().String(), "err", werr.Error())
		return
	}
	if !sameEnc(got, want) {
		w.Note("%s", desc(v))
		w.Fatalf("%s (html=%v): got %s\n want %s\n %s", api, html, q(got), q(want), firstDiff(got, want))
	}
	w.Count("accepted by both, byte for byte", 1)
	w.Count("bytes compared", len(got))
	if len(want) >= 12 {
		w.Distinct(v.Type().String(), want)
	}
	if w.WantSample() {
		w.Sample("%s -> %s", v.Type(), q(got))
	}
}

func runC01(c *mon.Ctx) {
	ts := typePool(c, 1400)
	c.Workload("pool-values", c.N(60000, 12), func(w *mon.W) {
		t := pickType(w.R, ts)
		v := gen.Vals{R: w.R}.New(t, 1+w.R.IntN(4))
		checkAgainstStd(w, value(w.R, v), v)
	})
	c.Workload("zoo-values", c.N(30000, 12), func(w *mon.W) {
		t := pickType(w.R, zoo.Types())
		v := gen.Vals{R: w.R}.New(t, 1+w.R.IntN(4))
		checkAgainstStd(w, value(w.R, v), v)
	})
	c.Workload("refused-values", c.N(30000, 12), func(w *mon.W) {
		t := pickType(w.R, ts)
		if gen.Chance(w.R, 4) {
			t = pickType(w.R, zoo.FailingTypes())
		}
		v := gen.Vals{R: w.R, Bad: 12}.New(t, 1+w.R.IntN(4))
		checkAgainstStd(w, value(w.R, v), v)
	})
	c.MustObserve("accepted by both, byte for byte", 20000)
	c.MustObserve("refused by both", 500)
}
