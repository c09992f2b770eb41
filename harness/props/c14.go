package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	jc "github.com/neilotoole/jsoncolor"

	"verifharness/gen"
	"verifharness/mon"
	"verifharness/zoo"
)

func init() {
	register(&mon.Prop{ID: "C14",
		Rule: "groups of goroutines start together on types the process has not seen, on a shared value, palette, Indenter and input; every result is compared with the one computed alone afterwards and with encoding/json; the same in new processes for recursive types; run under the race detector and without; non-trivial: calls that overlapped in time, distinct by group and operation",
		Run:  runC14})
	children["race"] = childRace
}

// Slow marshals and unmarshals with a pause, which lets others in.
type Slow struct{ S string }

func (s Slow) MarshalJSON() ([]byte, error) {
	runtime.Gosched()
	// Marshalers may call the library themselves.
	b, err := jc.Marshal(map[string]string{"b": s.S, "a": "1"})
	runtime.Gosched()
	return b, err
}

func (s *Slow) UnmarshalJSON(b []byte) error {
	runtime.Gosched()
	var m map[string]string
	if err := jc.Unmarshal(b, &m); err != nil {
		return err
	}
	s.S = m["b"]
	return nil
}

// Panicky's marshaler panics or fails in the middle of everything.
type Panicky struct{ N int }

func (p Panicky) MarshalJSON() ([]byte, error) {
	switch p.N % 3 {
	case 0:
		panic("Panicky")
	case 1:
		return nil, os.ErrInvalid
	}
	return []byte(`{ "p" : [1 , 2] }`), nil
}

var uniq atomic.Int64

// freshType makes a struct type that no codec exists for.
func freshType(r *rand.Rand, base, other reflect.Type) reflect.Type {
	n := uniq.Add(1)
	f := func(name string, t reflect.Type) reflect.StructField {
		return reflect.StructField{Name: name, Type: t, Tag: reflect.StructTag(fmt.Sprintf(`json:"%s%d"`, strings.ToLower(name), n))}
	}
	fs := []reflect.StructField{f("A", base)}
	for _, x := range []reflect.StructField{
		f("B", reflect.SliceOf(base)), f("C", reflect.MapOf(reflect.TypeOf(""), other)), f("D", reflect.PointerTo(base)),
		f("E", reflect.ArrayOf(1+r.IntN(2), other)), f("F", reflect.TypeOf(Slow{})), f("G", reflect.TypeOf((*interface{})(nil)).Elem()),
	} {
		if gen.Chance(r, 2) {
			fs = append(fs, x)
		}
	}
	t := reflect.StructOf(fs)
	if gen.Chance(r, 3) {
		t = reflect.SliceOf(t)
	} else if gen.Chance(r, 3) {
		t = reflect.MapOf(reflect.TypeOf(0), t)
	}
	return t
}

// job is what one goroutine does to the shared data; it must not write to it.
type job struct {
	name string
	f    func() string
}

// shared is what the goroutines of a group share.
type shared struct {
	t    reflect.Type
	x    interface{} // a value of type t
	px   interface{} // a pointer to one
	doc  []byte
	clrs *jc.Colors
	ind  *jc.Indenter
	flag jc.AppendFlags
	pfl  jc.ParseFlags
}

func res(b []byte, err error) string { return fmt.Sprintf("%s %T", b, err) }

func (s *shared) jobs() []job {
	decode := func(fl jc.ParseFlags) string {
		y := reflect.New(s.t)
		rest, err := jc.Parse(s.doc, y.Interface(), fl)
		return fmt.Sprintf("%s %q %T", dump(y.Elem()), rest, err)
	}
	return []job{
		{"Append", func() string { return res(jc.Append(nil, s.x, s.flag, nil, nil)) }},
		{"AppendPtr", func() string { return res(jc.Append(nil, s.px, s.flag, nil, nil)) }},
		{"AppendColors", func() string { return res(jc.Append(nil, s.px, s.flag, s.clrs, s.ind)) }},
		{"AppendIndent", func() string { return res(jc.Append(make([]byte, 0, 64), s.x, s.flag, nil, s.ind)) }},
		{"Marshal", func() string { return res(jc.Marshal(s.px)) }},
		{"MarshalIndent", func() string { return res(jc.MarshalIndent(s.x, "", "\t")) }},
		{"Encoder", func() string {
			var buf bytes.Buffer
			e := jc.NewEncoder(&buf)
			e.SetColors(s.clrs)
			e.SetIndent(" ", "  ")
			err := e.Encode(s.x)
			err2 := e.Encode(s.px)
			return fmt.Sprintf("%s %T %T", buf.Bytes(), err, err2)
		}},
		{"Parse", func() string { return decode(0) }},
		{"ParseFlags", func() string { return decode(s.pfl) }},
		{"Unmarshal", func() string {
			y := reflect.New(s.t)
			err := jc.Unmarshal(s.doc, y.Interface())
			return fmt.Sprintf("%s %T", dump(y.Elem()), err)
		}},
		{"Decoder", func() string {
			d := jc.NewDecoder(bytes.NewReader(append(append([]byte{}, s.doc...), s.doc...)))
			y := reflect.New(s.t)
			err := d.Decode(y.Interface())
			z := reflect.New(s.t)
			err2 := d.Decode(z.Interface())
			return fmt.Sprintf("%s %s %T %T", dump(y.Elem()), dump(z.Elem()), err, err2)
		}},
		{"Valid", func() string {
			n := 0
			for t := jc.NewTokenizer(s.doc); t.Next(); {
				n += len(t.Value)
			}
			var b1, b2, b3 bytes.Buffer
			e1, e2 := jc.Compact(&b1, s.doc), jc.Indent(&b2, s.doc, "", " ")
			jc.HTMLEscape(&b3, s.doc)
			return fmt.Sprint(jc.Valid(s.doc), n, b1.String(), b2.String(), b3.String(), e1, e2)
		}},
		{"Panics", func() (out string) {
			defer func() { out += fmt.Sprint(recover()) }()
			out, n := "", len(s.doc)
			m := map[string]interface{}{"z": 1, "y": map[string]interface{}{"b": Panicky{n}, "a": []interface{}{s.px}}, "x": 2}
			return res(jc.Append(nil, m, jc.SortMapKeys|s.flag, s.clrs, s.ind))
		}},
		{"Map", func() string {
			m := map[string]interface{}{}
			for k := 0; k < 12; k++ {
				m[strconv.Itoa(k*7919%100)] = []interface{}{k, map[string]interface{}{"q": nil, "b": s.x}, map[string]string{"z": "1", "k": "2"}}
			}
			return res(jc.Append(nil, m, s.flag, nil, nil))
		}},
	}
}

// together runs one job per goroutine, all started at the same time, and
// returns the results and the number of pairs that overlapped in time.
func together(jobs []job) (out []string, overlaps int) {
	out = make([]string, len(jobs))
	from, to := make([]time.Time, len(jobs)), make([]time.Time, len(jobs))
	start := make(chan bool)
	var wg sync.WaitGroup
	for i := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					out[i] = fmt.Sprintf("panic: %v", r)
				}
			}()
			<-start
			from[i] = time.Now()
			out[i] = jobs[i].f()
			to[i] = time.Now()
		}()
	}
	close(start)
	wg.Wait()
	for i := range jobs {
		for j := 0; j < i; j++ {
			if from[i].Before(to[j]) && from[j].Before(to[i]) {
				overlaps++
			}
		}
	}
	return out, overlaps
}

func newShared(r *rand.Rand, t reflect.Type) *shared {
	v := gen.Vals{R: r, ASCII: gen.Chance(r, 2)}.New(t, 2+r.IntN(2))
	s := &shared{t: t, x: v.Interface(), px: v.Addr().Interface(), clrs: palette(r), flag: jc.SortMapKeys | jc.AppendFlags(r.IntN(2))*jc.EscapeHTML,
		pfl: gen.Pick(r, jc.ZeroCopy, jc.UseNumber, jc.DisallowUnknownFields, jc.DontMatchCaseInsensitiveStructFields|jc.DontCopyString)}
	s.ind = jc.NewIndenter(gen.Pick(r, "", "> "), gen.Pick(r, " ", "\t"))
	b, err := json.Marshal(s.px)
	if err != nil || gen.Chance(r, 5) {
		b = []byte(gen.DocFor(r, t, 3, 20))
	}
	s.doc = b
	return s
}

// group lets goroutines loose on s and compares with the results of the same
// calls made afterwards, alone.
func group(r *rand.Rand, s *shared, n int) (desc []string, overlaps int, fail string) {
	all := s.jobs()
	jobs := make([]job, n)
	same := gen.Chance(r, 3) // all do the same
	k := r.IntN(len(all))
	for i := range jobs {
		if !same {
			k = r.IntN(len(all))
		}
		jobs[i] = all[k]
	}
	got, overlaps := together(jobs)
	for i, j := range jobs {
		desc = append(desc, j.name)
		want, _ := together(jobs[i : i+1])
		if got[i] != want[0] {
			return desc, overlaps, fmt.Sprintf("%s gives %s\n alone: %s", j.name, cut(got[i], 1500), cut(want[0], 1500))
		}
	}
	// Alone it must also be right.
	b, err := jc.Append(nil, s.px, jc.SortMapKeys|jc.EscapeHTML, nil, nil)
	want, werr := json.Marshal(s.px)
	if (err == nil) != (werr == nil) || err == nil && !sameEnc(b, want) {
		return desc, overlaps, fmt.Sprintf("after concurrent use: %s err=%v\n encoding/json: %s err=%v", q(b), err, q(want), werr)
	}
	return desc, overlaps, ""
}

func runC14(c *mon.Ctx) {
	ts := decodable(typePool(c, 700))
	c.Workload("fresh-types", c.N(9000, 20), func(w *mon.W) {
		t := freshType(w.R, pickType(w.R, ts), pickType(w.R, ts))
		s := newShared(w.R, t)
		desc, overlaps, fail := group(w.R, s, 2+w.R.IntN(7))
		if fail != "" {
			w.Note("type %s", cut(t.String(), 600))
			w.Note("goroutines %v document %s", desc, q(s.doc))
			w.Fatalf("%s", fail)
		}
		w.Count("calls at the same time as others", len(desc))
		w.Count("pairs of calls that overlapped", overlaps)
		if overlaps > 0 {
			w.Distinct(t.String(), desc)
		}
		if w.WantSample() {
			w.Sample("%v on %s: %d overlaps", desc, cut(t.String(), 200), overlaps)
		}
	})
	// Many goroutines, several values at once, over and over: the pools of
	// buffers and map keys are handed from one to the other.
	c.Workload("mixed", c.N(700, 15), func(w *mon.W) {
		var jobs []job
		for k := 0; k < 4; k++ {
			s := newShared(w.R, pickType(w.R, ts))
			jobs = append(jobs, s.jobs()...)
		}
		w.R.Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
		want := make([]string, len(jobs))
		for i := range jobs {
			o, _ := together(jobs[i : i+1])
			want[i] = o[0]
		}
		for round := 0; round < 3; round++ {
			got, overlaps := together(jobs)
			for i := range got {
				if got[i] != want[i] {
					w.Fatalf("%s gives %s\n alone: %s", jobs[i].name, cut(got[i], 1500), cut(want[i], 1500))
				}
			}
			w.Count("pairs of calls that overlapped", overlaps)
			w.Count("calls at the same time as others", len(jobs))
		}
	})
	n := c.N(240, 15)
	c.Workload("new-processes", n, func(w *mon.W) {
		r := runChild(200*time.Second, nil, nil, "race", fmt.Sprint(c.Seed), fmt.Sprint(w.Index))
		switch {
		case r.timeout:
			w.C.Inconclusive("a child did not end in time")
		case r.code == 66:
			w.Fatalf("data race reported in a process that uses recursive types concurrently (child race %d %d)", c.Seed, w.Index)
		case r.code != 0:
			w.Fatalf("process %d %d ends with %d %v: %s", c.Seed, w.Index, r.code, r.signal, cut(string(r.out)+crashLine(r.err), 3500))
		}
		k, _ := strconv.Atoi(strings.TrimSpace(string(r.out)))
		w.Count("pairs of first uses that overlapped in new processes", k)
		w.Count("processes", 1)
	})
	c.MustObserve("pairs of calls that overlapped", 60000)
	c.MustObserve("pairs of first uses that overlapped in new processes", 5000)
	c.MustObserve("processes", int64(n))
}

// childRace uses types of the zoo for the first time, from several goroutines
// at once.
func childRace(args []string) int {
	seed, _ := strconv.ParseUint(args[0], 10, 64)
	idx, _ := strconv.ParseUint(args[1], 10, 64)
	r := rand.New(rand.NewPCG(seed, idx+1<<32))
	gen.Init()
	ts := decodable(zoo.Types())
	if gen.Chance(r, 2) {
		ts = nil
		for _, v := range zoo.Recursive() {
			ts = append(ts, reflect.TypeOf(v))
		}
		ts = decodable(ts)
	}
	total := 0
	for k := 0; k < 12; k++ {
		var jobs []job
		// Neighbours in the list belong together.
		at := r.IntN(len(ts))
		for g := 0; g < 6; g++ {
			s := newShared(r, ts[(at+r.IntN(4))%len(ts)])
			all := s.jobs()
			jobs = append(jobs, all[r.IntN(len(all))])
		}
		got, overlaps := together(jobs)
		total += overlaps
		for i := range jobs {
			want, _ := together(jobs[i : i+1])
			if got[i] != want[0] {
				fmt.Printf("%s gives %s\n alone: %s\n", jobs[i].name, got[i], want[0])
				return 1
			}
		}
	}
	fmt.Println(total)
	return 0
}
