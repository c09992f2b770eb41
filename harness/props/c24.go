package props

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	jc "github.com/neilotoole/jsoncolor"

	"verifharness/gen"
	"verifharness/mon"
	"verifharness/zoo"
)

func init() {
	register(&mon.Prop{ID: "C24",
		Rule: "new processes which use the same types in different orders, one type alone first, one after another or from several goroutines, encoding or decoding first; each type's digest of encodings and decoded values must be the same in all of them; non-trivial: a digest of one type in one process, distinct by type",
		Run:  runC24})
	children["digest"] = childDigest
}

// digestTypes are the types of both ends.
func digestTypes(seed uint64) []reflect.Type {
	gen.Init()
	ts := zoo.Types()
	ts = append(ts, gen.Pool(rand.New(rand.NewPCG(seed, 99)), 250)...)
	// The same types as parts of others.
	for i, n := 0, len(ts); i < n; i += 3 {
		ts = append(ts, reflect.PointerTo(ts[i]), reflect.SliceOf(ts[i]), reflect.ArrayOf(1, ts[i]), reflect.MapOf(reflect.TypeOf(""), ts[i]))
	}
	return ts
}

// digestOf encodes and decodes with type t. What it does depends only on seed
// and i; order says what is done first.
func digestOf(t reflect.Type, seed uint64, i, order int, detail bool) (uint64, string) {
	r := rand.New(rand.NewPCG(seed, uint64(i)))
	var det strings.Builder
	var encs, decs bytes.Buffer
	v := gen.Vals{R: r}.New(t, 3)
	v2 := gen.Vals{R: r, ASCII: true}.New(t, 2)
	doc := gen.DocFor(r, t, 3, 0)
	doc2 := gen.DocFor(r, t, 3, 10)
	clrs := jc.DefaultColors()
	enc := func() {
		for k, x := range []interface{}{v.Interface(), v2.Addr().Interface(), v2.Interface()} {
			b, err := jc.Append(nil, x, jc.SortMapKeys|jc.AppendFlags(k)&jc.EscapeHTML, nil, nil)
			b2, err2 := jc.Append(nil, x, jc.SortMapKeys, clrs, jc.NewIndenter("", " "))
			fmt.Fprintf(&encs, "%s %T %s %T\n", b, err, b2, err2)
		}
	}
	dec := func() {
		for _, d := range []string{doc, doc2} {
			x := reflect.New(t)
			_, err := jc.Parse([]byte(d), x.Interface(), 0)
			fmt.Fprintf(&decs, "%s -> %s %T\n", d, dump(x.Elem()), err)
		}
	}
	if order&1 == 0 {
		enc()
		dec()
	} else {
		dec()
		enc()
	}
	h := fnv.New64a()
	h.Write(encs.Bytes())
	h.Write(decs.Bytes())
	if detail {
		fmt.Fprintf(&det, "%s\n%s%s", t, encs.Bytes(), decs.Bytes())
	}
	return h.Sum64(), det.String()
}

// childDigest: seed order first detail. First is the type used before all
// others, or -1.
func childDigest(args []string) int {
	seed, _ := strconv.ParseUint(args[0], 10, 64)
	order, _ := strconv.Atoi(args[1])
	first, _ := strconv.Atoi(args[2])
	detail, _ := strconv.Atoi(args[3])
	ts := digestTypes(seed)
	perm := rand.New(rand.NewPCG(seed, uint64(order))).Perm(len(ts))
	if order == 0 {
		for i := range perm {
			perm[i] = i
		}
	}
	if order == 1 {
		for i := range perm {
			perm[i] = len(perm) - 1 - i
		}
	}
	if first >= 0 {
		perm = append([]int{first}, perm[:40]...)
	}
	res := make([]uint64, len(ts))
	one := func(i, k int) {
		d, s := digestOf(ts[i], seed, i, k, i == detail)
		res[i] = d
		if i == detail && s != "" {
			os.Stderr.WriteString(s)
		}
	}
	if order%4 == 3 {
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := g; j < len(perm); j += 4 {
					one(perm[j], order+j)
				}
			}()
		}
		wg.Wait()
	} else {
		for j, i := range perm {
			one(i, order>>2+j*(order>>3&1))
		}
	}
	var sb strings.Builder
	for _, i := range perm {
		fmt.Fprintf(&sb, "%d %x\n", i, res[i])
	}
	os.Stdout.WriteString(sb.String())
	return 0
}

func runC24(c *mon.Ctx) {
	ts := digestTypes(c.Seed)
	seed := fmt.Sprint(c.Seed)
	var mu sync.Mutex
	type seen struct {
		digest string
		args   [3]string
	}
	known := map[string]seen{}
	run := func(w *mon.W, order, first int) {
		args := [3]string{seed, fmt.Sprint(order), fmt.Sprint(first)}
		r := runChild(120*time.Second, nil, nil, "digest", args[0], args[1], args[2], "-1")
		if r.code != 0 {
			w.Note("child digest %v", args)
			if r.timeout {
				w.C.Inconclusive("a child did not end in time: %v", args)
				return
			}
			w.Fatalf("the process dies, code %d %v: %s", r.code, r.signal, cut(crashLine(r.err), 2500))
		}
		w.Count("processes", 1)
		for _, l := range strings.Split(strings.TrimSpace(string(r.out)), "\n") {
			i, d, _ := strings.Cut(l, " ")
			k, _ := strconv.Atoi(i)
			mu.Lock()
			s, ok := known[i]
			if !ok {
				known[i] = seen{d, args}
			}
			mu.Unlock()
			if ok && s.digest != d {
				a := runChild(120*time.Second, nil, nil, "digest", s.args[0], s.args[1], s.args[2], i)
				b := runChild(120*time.Second, nil, nil, "digest", args[0], args[1], args[2], i)
				w.Note("type %s", cut(ts[k].String(), 600))
				w.Note("processes %v and %v (seed, order, first type)", s.args, args)
				w.Fatalf("results differ:\n%s\n--- and ---\n%s", cut(string(a.err), 2500), cut(string(b.err), 2500))
			}
			if ok {
				w.Count("digests compared", 1)
			}
			w.Distinct(i)
		}
		if w.WantSample() {
			w.Sample("process %v: %s", args, cut(strings.ReplaceAll(string(r.out), "\n", ", "), 200))
		}
	}
	if c.OnlyWorkload != "" {
		// What the case is compared with.
		ow, oi := c.OnlyWorkload, c.OnlyIndex
		c.OnlyWorkload, c.OnlyIndex = "orders", 0
		c.Workload("orders", 1, func(w *mon.W) { run(w, 0, -1) })
		c.OnlyWorkload, c.OnlyIndex = ow, oi
	}
	c.Workload("orders", c.N(64, 10), func(w *mon.W) { run(w, w.Index, -1) })
	c.Workload("alone-first", c.N(len(ts), 1), func(w *mon.W) { run(w, 2+w.R.IntN(1000), w.Index%len(ts)) })
	c.MustObserve("processes", 700)
	c.MustObserve("digests compared", 50000)
}

// crashLine is the part of a process's output which tells why it died.
func crashLine(b []byte) string {
	s := string(b)
	for _, p := range []string{"panic:", "fatal error:", "runtime:", "unexpected fault", "WARNING: DATA RACE"} {
		if i := strings.Index(s, p); i >= 0 {
			return s[i:]
		}
	}
	if len(s) > 3000 {
		s = s[len(s)-3000:]
	}
	return s
}
