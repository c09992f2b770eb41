package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"time"

	jc "github.com/neilotoole/jsoncolor"

	"verifharness/gen"
	"verifharness/mon"
	"verifharness/ref"
	"verifharness/zoo"
)

func init() {
	register(&mon.Prop{ID: "C17",
		Rule: "child processes encode random graphs of values, cyclic, shared below more than 1000 levels or trees, and deep and long values and documents through every entry point; they must end by themselves, with an error exactly for what is cyclic, and otherwise with encoding/json's result; non-trivial: distinct by kind and depth, or by graph",
		Run:  runC17})
	children["deep"] = childDeep
	children["graphs"] = childGraphs
}

// ---- graphs of values ----

type gNode struct {
	P  *gNode                 `json:"p,omitempty"`
	S  []*gNode               `json:"s,omitempty"`
	M  map[string]*gNode      `json:"m,omitempty"`
	I  interface{}            `json:"i,omitempty"`
	A  [1]*gNode              `json:"a"`
	PP **gNode                `json:"pp,omitempty"`
	X  map[string]interface{} `json:"x,omitempty"`
	E  gInner                 `json:"e"`
	K  map[zoo.MTInt]gInner   `json:"k,omitempty"`
	*gEmb
	N int `json:"n"`
}

type gInner struct {
	Q interface{} `json:"q,omitempty"`
	L []gNode     `json:"l,omitempty"`
}

type gEmb struct {
	Up *gNode `json:"up,omitempty"`
}

type gOne struct{ V interface{} } // pointer-shaped? no: an interface

type gPtr struct{ V *gNode }

type gSlice []gSlice

type gMap map[string]gMap

// graph makes n nodes with edges from each to later ones (or, if cyclic, also
// to earlier ones) and returns one to encode, whether it contains a cycle, and
// how large the expanded tree is.
func graph(r *rand.Rand, n int, cyclic bool) (x interface{}, hasCycle bool, size int) {
	type edge struct{ from, to int }
	var edges []edge
	kinds := make([]int, n)
	objs := make([]interface{}, n)
	for i := range objs {
		kinds[i] = r.IntN(6)
		switch kinds[i] {
		case 0, 1:
			objs[i] = &gNode{N: i}
		case 2:
			objs[i] = make([]interface{}, 0, 8)
		case 3:
			objs[i] = map[string]interface{}{}
		case 4:
			objs[i] = new(interface{})
		case 5:
			objs[i] = &gOne{}
		}
	}
	nSlots := make([]int, n)
	slices := map[int][]interface{}{}
	// Slices get their length first, so that what refers to them sees it.
	for i := range objs {
		if kinds[i] == 2 {
			s := make([]interface{}, 1+r.IntN(3))
			objs[i], slices[i] = s, s
		}
	}
	link := func(i, j int) {
		o := objs[j]
		gn, isNode := o.(*gNode)
		ok := true
		switch k := objs[i].(type) {
		case *gNode:
			slot := r.IntN(10)
			if !isNode && slot != 3 && slot != 6 && slot != 7 {
				slot = 3
			}
			switch slot {
			case 0:
				ok = k.P == nil
				if ok {
					k.P = gn
				}
			case 1:
				k.S = append(k.S, gn)
			case 2:
				if k.M == nil {
					k.M = map[string]*gNode{}
				}
				k.M[strconv.Itoa(len(k.M))] = gn
			case 3:
				ok = k.I == nil
				if ok {
					k.I = o
				}
			case 4:
				ok = k.A[0] == nil
				if ok {
					k.A[0] = gn
				}
			case 5:
				ok = k.PP == nil
				if ok {
					k.PP = &gn
				}
			case 6:
				if k.X == nil {
					k.X = map[string]interface{}{}
				}
				k.X[strconv.Itoa(len(k.X))] = o
			case 7:
				if r.IntN(2) == 0 {
					ok = k.E.Q == nil
					if ok {
						k.E.Q = o
					}
				} else {
					if k.K == nil {
						k.K = map[zoo.MTInt]gInner{}
					}
					k.K[zoo.MTInt(len(k.K))] = gInner{Q: o}
				}
			case 8:
				ok = k.gEmb == nil
				if ok {
					k.gEmb = &gEmb{gn}
				}
			case 9:
				ok = k.I == nil
				if ok {
					k.I = gPtr{gn}
				}
			}
		case []interface{}:
			ok = nSlots[i] < len(k)
			if ok {
				k[nSlots[i]] = o
				nSlots[i]++
			}
		case map[string]interface{}:
			k[strconv.Itoa(len(k))] = o
		case *interface{}:
			ok = *k == nil
			if ok {
				*k = o
			}
		case *gOne:
			ok = k.V == nil
			if ok {
				k.V = o
			}
		}
		if ok {
			edges = append(edges, edge{i, j})
		}
	}
	for i := 0; i+1 < n; i++ {
		link(i, i+1+r.IntN(min(3, n-i-1)))
		for r.IntN(3) == 0 {
			link(i, i+1+r.IntN(n-i-1))
		}
	}
	if cyclic {
		for k := 1 + r.IntN(2); k > 0; k-- {
			i := r.IntN(n)
			link(i, r.IntN(i+1))
		}
	}
	// Is a cycle reachable from node 0, and how large is the tree?
	out := make([][]int, n)
	for _, e := range edges {
		out[e.from] = append(out[e.from], e.to)
	}
	state := make([]int, n)
	sizes := make([]int, n)
	var visit func(i int)
	visit = func(i int) {
		state[i] = 1
		sizes[i] = 1
		for _, j := range out[i] {
			if state[j] == 1 {
				hasCycle = true
				continue
			}
			if state[j] == 0 {
				visit(j)
			}
			sizes[i] = min(1<<40, sizes[i]+sizes[j])
		}
		state[i] = 2
	}
	visit(0)
	return objs[0], hasCycle, sizes[0]
}

// chain puts x below n levels of containers.
func chain(r *rand.Rand, x interface{}, n int) interface{} {
	k := r.IntN(6)
	for ; n > 0; n-- {
		if k == 5 {
			k = r.IntN(5)
			defer func() { k = 5 }()
		}
		switch k {
		case 0:
			x = []interface{}{x}
		case 1:
			x = map[string]interface{}{"": x}
		case 2:
			y := x
			x = &y
		case 3:
			x = &gOne{x}
		case 4:
			x = gOne{x}
		}
	}
	return x
}

func encodeAll(r *rand.Rand, x interface{}, indent bool) (b []byte, err error) {
	switch r.IntN(5) {
	case 0:
		return jc.Marshal(x)
	case 1:
		var buf bytes.Buffer
		e := jc.NewEncoder(&buf)
		err := e.Encode(x)
		return bytes.TrimSuffix(buf.Bytes(), []byte("\n")), err
	case 2:
		b, err := jc.Append(nil, x, jc.SortMapKeys|jc.EscapeHTML, jc.DefaultColors(), nil)
		return strip(b), err
	case 3:
		if indent {
			b, err := jc.MarshalIndent(x, "", " ")
			if err != nil {
				return nil, err
			}
			var buf bytes.Buffer
			err = json.Compact(&buf, b)
			return buf.Bytes(), err
		}
	}
	return jc.Append(nil, x, jc.SortMapKeys|jc.EscapeHTML, nil, nil)
}

// childGraphs: seed from count. It prints the number of each graph before it
// encodes it.
func childGraphs(args []string) int {
	seed, _ := strconv.ParseUint(args[0], 10, 64)
	from, _ := strconv.Atoi(args[1])
	count, _ := strconv.Atoi(args[2])
	cyc, shared, deep := 0, 0, 0
	for i := from; i < from+count; i++ {
		r := rand.New(rand.NewPCG(seed, uint64(i)))
		x, hasCycle, size := graph(r, 2+r.IntN(gen.Pick(r, 4, 8, 20)), r.IntN(2) == 0)
		if size > 20000 {
			continue
		}
		levels := gen.Pick(r, 0, 0, 0, 10, 980+r.IntN(40), 980+r.IntN(40), 1000, 1500, 3000)
		x = chain(r, x, levels)
		fmt.Printf("graph %d cycle=%v size=%d below %d levels\n", i, hasCycle, size, levels)
		b, err := encodeAll(r, x, levels < 100)
		if hasCycle {
			if err == nil {
				fmt.Printf("FAIL a value that contains itself is encoded as %s\n", cut(string(b), 500))
				return 1
			}
			cyc++
			// What comes afterwards is right.
			if b, err := jc.Marshal([]int{1, 2}); err != nil || string(b) != "[1,2]" {
				fmt.Printf("FAIL afterwards: %s %v\n", b, err)
				return 1
			}
			continue
		}
		want, werr := json.Marshal(x)
		if werr != nil {
			// encoding/json compares addresses alone.
			continue
		}
		if err != nil || !sameEnc(b, want) {
			fmt.Printf("FAIL got %s err=%v\nwant %s\n", cut(string(b), 1500), err, cut(string(want), 1500))
			return 1
		}
		shared++
		if levels >= 1000 {
			deep++
		}
	}
	fmt.Printf("done %d %d %d\n", cyc, shared, deep)
	return 0
}

// ---- depth and length ----

type deepCase struct {
	name string
	run  func() string // what is wrong
}

type recArr [2]*recArr

type recStruct struct {
	A *recStruct            `json:"a"`
	K [1]map[int]*recStruct `json:"kids"`
}

type limitedWriter struct{ n int }

func (l *limitedWriter) Write(b []byte) (int, error) { l.n += len(b); return len(b), nil }

func deepCases() (cs []deepCase) {
	add := func(name string, f func() string) { cs = append(cs, deepCase{name, f}) }
	errOf := func(b []byte, err error) string {
		if len(b) > 300 {
			b = b[:300]
		}
		return fmt.Sprintf("%s err=%v", b, err)
	}

	// Cyclic values.
	type self struct{ P *self }
	type selfI struct{ I interface{} }
	type selfM struct{ M map[string]selfM }
	type selfS struct{ S []selfS }
	type selfA struct{ A [2]*selfA }
	type selfE struct {
		*selfI
		X int
	}
	type one struct{ P *one } // pointer-shaped
	cyc := map[string]func() interface{}{
		"pointer": func() interface{} { x := &self{}; x.P = x; return x },
		"pointers": func() interface{} {
			x := &self{&self{&self{}}}
			x.P.P.P = x.P
			return x
		},
		"by value":   func() interface{} { x := self{}; x.P = &x; return x },
		"one":        func() interface{} { x := one{}; x.P = &one{&x}; return x },
		"[1]pointer": func() interface{} { var x [1]interface{}; x[0] = &x; return &x },
		"slice":      func() interface{} { x := make([]interface{}, 1); x[0] = x; return x },
		"map":        func() interface{} { x := map[string]interface{}{}; x["a"] = x; return x },
		"map of map": func() interface{} { x := zoo.RecMap{}; x["a"] = zoo.RecMap{"b": x}; return x },
		"int map": func() interface{} {
			x := map[int]interface{}{}
			x[1] = []interface{}{x}
			return x
		},
		"recursive slice": func() interface{} { x := make(zoo.RecSlice, 1); x[0] = x; return x },
		"interface":       func() interface{} { var x interface{}; x = &x; return x },
		"interfaces": func() interface{} {
			var x, y interface{}
			x, y = &y, &x
			return &x
		},
		"struct of interface": func() interface{} { x := &selfI{}; x.I = x; return x },
		"struct in interface": func() interface{} { x := &selfI{}; x.I = selfI{I: []interface{}{x}}; return x },
		"map of struct":       func() interface{} { x := selfM{map[string]selfM{}}; x.M["k"] = x; return x },
		"slice of struct":     func() interface{} { x := selfS{make([]selfS, 1)}; x.S[0] = x; return x },
		"array of pointers":   func() interface{} { x := &selfA{}; x.A[1] = x; return x },
		"embedded pointer":    func() interface{} { x := &selfE{selfI: &selfI{}}; x.selfI.I = x; return x },
		"pointer type":        func() interface{} { var x zoo.RecPtr; x = &x; return x },
		"zoo": func() interface{} {
			x := &zoo.Tree{}
			x.Kids = []zoo.Tree{{V: map[string]interface{}{"x": []interface{}{x}}}}
			return x
		},
		"omitempty": func() interface{} { x := &zoo.List{}; x.Next = &zoo.List{Next: x}; return x },
		"text key map": func() interface{} {
			x := map[zoo.MTInt]interface{}{}
			x[1] = &x
			return x
		},
		"embedded itself": func() interface{} { x := &zoo.EmbRec{}; x.B = x; return x },
	}
	for name, f := range cyc {
		add("cyclic "+name, func() string {
			for k := 0; k < 4; k++ {
				x := f()
				var b []byte
				var err error
				switch k {
				case 0:
					b, err = jc.Marshal(x)
				case 1:
					b, err = jc.Append(nil, []interface{}{1, x}, 0, jc.DefaultColors(), nil)
				case 2:
					b, err = jc.MarshalIndent(map[string]interface{}{"a": x}, "", "")
				case 3:
					var w limitedWriter
					e := jc.NewEncoder(&w)
					err = e.Encode(x)
					if w.n != 0 {
						return "bytes were written"
					}
					w.n = 0
					if e.Encode(1) != nil || w.n != 2 {
						return "the Encoder is of no use afterwards"
					}
				}
				if _, werr := json.Marshal(x); werr == nil {
					return "harness: encoding/json accepts it"
				}
				if err == nil {
					return "no error: " + errOf(b, err)
				}
			}
			return ""
		})
	}

	// Deep values.
	for _, d := range []int{500, 999, 1000, 1001, 1010, 2500, 9999, 10000, 10001, 30000, 100000} {
		mk := map[string]func() interface{}{
			"list": func() interface{} {
				var x *zoo.List
				for i := 0; i < d; i++ {
					x = &zoo.List{V: i, Next: x}
				}
				return x
			},
			"list by value": func() interface{} {
				var x *zoo.ListNoOmit
				for i := 0; i < d; i++ {
					x = &zoo.ListNoOmit{V: i, Next: x}
				}
				return *x
			},
			"slices": func() interface{} {
				var x interface{}
				for i := 0; i < d; i++ {
					x = []interface{}{x}
				}
				return x
			},
			"typed slices": func() interface{} {
				var x zoo.RecSlice
				for i := 0; i < d; i++ {
					x = zoo.RecSlice{x}
				}
				return x
			},
			"maps": func() interface{} {
				var x interface{} = "x"
				for i := 0; i < d; i++ {
					x = map[string]interface{}{"a": x}
				}
				return x
			},
			"typed maps": func() interface{} {
				var x zoo.RecMap
				for i := 0; i < d; i++ {
					x = zoo.RecMap{"a": x}
				}
				return x
			},
			"pointers": func() interface{} {
				var x interface{} = 5
				for i := 0; i < d; i++ {
					y := x
					x = &y
				}
				return x
			},
			"struct in interface": func() interface{} {
				var x interface{} = true
				for i := 0; i < d; i++ {
					x = zoo.RecIface{V: x}
				}
				return x
			},
			"mixed": func() interface{} { return chain(rand.New(rand.NewPCG(uint64(d), 5)), "end", d) },
			// The shared parts are not cycles.
			"shared below": func() interface{} {
				s := &gOne{[]interface{}{1, map[string]interface{}{"k": &gOne{2}}}}
				sl := []interface{}{s, "x"}
				m := map[string]interface{}{"m": sl}
				return chain(rand.New(rand.NewPCG(uint64(d), 6)), []interface{}{s, s, sl, sl, sl[:1], m, m, &sl, &sl, map[string]interface{}{"a": m, "b": m}, sl[:0]}, d)
			},
		}
		for name, f := range mk {
			add(fmt.Sprintf("value %s %d", name, d), func() string {
				x := f()
				want, werr := json.Marshal(x)
				if werr != nil {
					want = nil
				}
				for k := 0; k < 3; k++ {
					var b []byte
					var err error
					switch k {
					case 0:
						b, err = jc.Marshal(x)
					case 1:
						b, err = jc.Append(nil, x, jc.SortMapKeys|jc.EscapeHTML, jc.DefaultColors(), nil)
						b = strip(b)
					case 2:
						if d > 2500 {
							continue
						}
						b, err = jc.MarshalIndent(x, "", "\t")
						if err == nil {
							var buf bytes.Buffer
							if err := json.Compact(&buf, b); err != nil {
								return "indented output is invalid: " + err.Error()
							}
							b = buf.Bytes()
						}
					}
					if (err == nil) != (werr == nil) {
						return fmt.Sprintf("%d: err=%v, encoding/json: %v", k, err, werr)
					}
					if err == nil && !bytes.Equal(b, want) {
						return fmt.Sprintf("%d: got %s\nwant %s", k, errOf(b, err), errOf(want, werr))
					}
				}
				return ""
			})
		}
	}

	// Values that are shared by siblings, exactly at each level around the one
	// below which cycles are looked for.
	for d := 985; d < 1015; d++ {
		add(fmt.Sprintf("siblings at level %d", d), func() string {
			one := &gOne{1}
			sl := []interface{}{1}
			ts := []*gOne{one}
			m := map[string]interface{}{"a": 1}
			tm := map[string]*gOne{"a": one}
			im := map[int][]int{1: {2}}
			ms := map[string]string{"a": "b"}
			ptr := &sl
			pm := &m
			list := &zoo.List{V: 1, Next: &zoo.List{V: 2}}
			rm := zoo.RecMap{"a": nil}
			rs := zoo.RecSlice{nil}
			var any interface{} = 1
			for i, x := range []interface{}{one, sl, ts, m, tm, im, ms, ptr, pm, list, rm, rs, &any, &one, &tm, &ts} {
				for k := 0; k < 5; k++ {
					var y interface{}
					switch k {
					case 0:
						y = []interface{}{x, x}
					case 1:
						y = map[string]interface{}{"a": x, "b": x}
					case 2:
						y = []interface{}{[]interface{}{x}, []interface{}{x}, x}
					case 3:
						y = struct{ A, B interface{} }{x, x}
					case 4:
						y = []*gOne{{x}, {x}}
					}
					for j := 0; j < 2; j++ {
						y := y
						for n := 0; n < d; n++ {
							if j == 0 {
								y = []interface{}{y}
							} else {
								y = &gOne{y}
							}
						}
						want, werr := json.Marshal(y)
						b, err := jc.Marshal(y)
						if werr != nil || err != nil || !bytes.Equal(b, want) {
							return fmt.Sprintf("%T (%d) %d %d: got %s, want %s", x, i, k, j, errOf(b, err), errOf(want, werr))
						}
					}
				}
			}
			return ""
		})
	}

	// Deep documents.
	for _, d := range []int{100, 5000, 9990, 9998, 9999, 10000, 10001, 10002, 10050, 100000, 1000000, 12000000} {
		rep := strings.Repeat
		docs := map[string]func() (string, string){
			"arrays":          func() (string, string) { return rep("[", d), rep("]", d) },
			"objects":         func() (string, string) { return rep(`{"a":`, d-1) + "{", rep("}", d) },
			"both":            func() (string, string) { return rep(`[{"a":`, d/2) + "0", rep("}]", d/2) },
			"list":            func() (string, string) { return rep(`{"V":1,"Next":`, d) + "null", rep("}", d) },
			"kids":            func() (string, string) { return rep(`{"kids":[`, d/2), rep("]}", d/2) },
			"raw in unknown":  func() (string, string) { return `{"zzz":` + rep("[", d-1), rep("]", d-1) + `,"V":7}` },
			"white space":     func() (string, string) { return rep(" [\n", d), rep(" ]\t", d) },
			"after an array":  func() (string, string) { return `[[],[1,2],{"x":{}},` + rep("[", d-1), rep("]", d) },
			"quoted brackets": func() (string, string) { return `["` + rep("[", d) + `"`, `]` },
		}
		for name, doc := range docs {
			for _, broken := range []int{0, 1, 2} { // whole, without the end, with a bad end
				if broken > 0 && d != 10000 && d != 12000000 {
					continue
				}
				if d == 12000000 && (name == "list" || name == "white space" || name == "kids") {
					continue
				}
				build := func() string {
					open, end := doc()
					switch broken {
					case 1:
						return open
					case 2:
						return open + "x" + end
					}
					return open + end
				}
				targets := map[string]func() interface{}{
					"interface": func() interface{} { return new(interface{}) },
					"Raw":       func() interface{} { return new(json.RawMessage) },
					"struct":    func() interface{} { return new(struct{ V int }) },
					"List":      func() interface{} { return new(zoo.List) },
					"RecSlice":  func() interface{} { return new(zoo.RecSlice) },
					"RecMap":    func() interface{} { return new(zoo.RecMap) },
					"RecArr":    func() interface{} { return new(recArr) },
					"structs":   func() interface{} { return new(recStruct) },
					"Tree":      func() interface{} { return new(zoo.Tree) },
					"skip":      func() interface{} { return new(struct{}) },
					"int":       func() interface{} { return new(int) },
					"map":       func() interface{} { return new(map[string]interface{}) },
					"MJ":        func() interface{} { return new(zoo.MJ) },
					"array":     func() interface{} { return new([0]int) },
					"slice":     func() interface{} { return new([]interface{}) },
					"iface ptr": func() interface{} { p := new(interface{}); *p = new(zoo.Tree); return p },
				}
				add(fmt.Sprintf("document %s %d broken=%d without target", name, d, broken), func() string {
					text := build()
					if d <= 9990 || d == 10000 {
						if got, want := jc.Valid([]byte(text)), json.Valid([]byte(text)); got != want {
							return fmt.Sprintf("Valid = %v", got)
						}
					}
					_ = jc.Valid([]byte(text))
					n := 0
					for t := jc.NewTokenizer([]byte(text)); t.Next(); n++ {
					}
					if broken == 0 && n < d && name != "quoted brackets" {
						// Deeper documents may be refused.
						if d <= 10000 {
							return fmt.Sprintf("the Tokenizer finds %d tokens", n)
						}
					}
					var buf bytes.Buffer
					_ = jc.Compact(&buf, []byte(text))
					for _, fl := range []jc.AppendFlags{0, jc.TrustRawMessage, jc.EscapeHTML} {
						if d == 12000000 && fl == jc.EscapeHTML {
							continue
						}
						for k, x := range []interface{}{json.RawMessage(text), rawVal{[]byte(text)}, &prawVal{[]byte(text)}, []interface{}{json.RawMessage(text)}} {
							b, err := jc.Append(nil, x, fl, nil, nil)
							c, err2 := jc.Append(nil, x, fl, jc.DefaultColors(), nil)
							if (err == nil) != (err2 == nil) {
								return fmt.Sprintf("as raw JSON %d: err=%v, with colors %v", k, err, err2)
							}
							if (err == nil) && !bytes.Equal(b, strip(c)) && broken == 0 {
								return fmt.Sprintf("as raw JSON %d: colors change the text", k)
							}
							if fl != jc.TrustRawMessage && d <= 9990 {
								want, werr := json.Marshal(x)
								if (err == nil) != (werr == nil) || err == nil && !bytes.Equal(b, want) {
									return fmt.Sprintf("as raw JSON %d: %s\nwant %s", k, errOf(b, err), errOf(want, werr))
								}
							}
						}
					}
					return ""
				})
				for tn, mk := range targets {
					// Decoding deep documents into interfaces is slow.
					slow := d > 4000 && d < 11000 && broken == 0 && (tn == "interface" || tn == "slice" || tn == "map" || tn == "iface ptr" || tn == "Tree")
					if slow && (d != 5000 && d != 9998 || d == 9998 && name != "arrays" && (name != "objects" || tn != "map")) {
						continue
					}
					if d > 100000 && tn != "interface" && tn != "struct" && tn != "RecSlice" && tn != "RecMap" && tn != "RecArr" && tn != "structs" && tn != "Raw" && (d > 1000000 || tn == "array" || tn == "int" || tn == "MJ" || tn == "iface ptr") {
						continue
					}
					add(fmt.Sprintf("document %s %d broken=%d into %s", name, d, broken, tn), func() string {
						text := build()
						stdUnmarshal, stdDecode := json.Unmarshal, (*json.Decoder).Decode
						if d > 10000 {
							// encoding/json refuses it.
							stdUnmarshal = func([]byte, interface{}) error { return io.EOF }
							stdDecode = func(*json.Decoder, interface{}) error { return io.EOF }
						}
						for k := 0; k < 4; k++ {
							if k != (int(name[0])+int(tn[1])+d)%4 && (slow || d < 12000000 && os.Getenv("VERIF_FULL") == "") {
								continue
							}
							a, b := mk(), mk()
							var werr, err error
							switch k {
							case 0:
								werr, err = stdUnmarshal([]byte(text), a), jc.Unmarshal([]byte(text), b)
							case 1:
								werr = stdUnmarshal([]byte(text), a)
								_, err = jc.Parse([]byte(text), b, jc.ZeroCopy)
							case 2:
								werr, err = stdDecode(json.NewDecoder(strings.NewReader(text)), a), jc.NewDecoder(strings.NewReader(text)).Decode(b)
							case 3:
								if d > 100000 {
									continue
								}
								werr = stdDecode(json.NewDecoder(strings.NewReader(text)), a)
								err = jc.NewDecoder(io.MultiReader(strings.NewReader(text[:len(text)/3]), strings.NewReader(text[len(text)/3:]))).Decode(b)
							}
							if d > 10000 {
								// Either may refuse it.
								if err != nil || werr != nil {
									continue
								}
							}
							if (err == nil) != (werr == nil) {
								// The levels are counted differently by a few.
								if d > 9990 {
									continue
								}
								return fmt.Sprintf("%d: err=%v, encoding/json %v", k, err, werr)
							}
							if err != nil || d > 10000 {
								continue
							}
							if !deepSame(a, b) {
								return fmt.Sprintf("%d: another value", k)
							}
						}
						return ""
					})
				}
			}
		}
	}

	// Targets which contain themselves.
	add("target interface pointing to itself", func() string {
		var a, b interface{}
		a, b = &a, &b
		werr, err := json.Unmarshal([]byte(`{"x":[1]}`), a), jc.Unmarshal([]byte(`{"x":[1]}`), b)
		if (err == nil) != (werr == nil) || !reflect.DeepEqual(a, b) {
			return fmt.Sprintf("err=%v %v, encoding/json %v %v", err, reflect.TypeOf(b), werr, reflect.TypeOf(a))
		}
		return ""
	})
	add("target list pointing to itself", func() string {
		doc := []byte(`{"V":1,"Next":{"V":2,"Next":{"V":3,"Next":null}}}`)
		a, b := &zoo.ListNoOmit{}, &zoo.ListNoOmit{}
		a.Next, b.Next = a, b
		werr, err := json.Unmarshal(doc, a), jc.Unmarshal(doc, b)
		if err != nil || werr != nil || a.V != b.V || (a.Next == nil) != (b.Next == nil) {
			return fmt.Sprintf("err=%v %v, encoding/json %v %v", err, b, werr, a)
		}
		return ""
	})
	add("target map containing itself", func() string {
		doc := []byte(`{"a":{"b":{"c":1}}}`)
		a, b := map[string]interface{}{}, map[string]interface{}{}
		a["a"], b["a"] = a, b
		werr, err := json.Unmarshal(doc, &a), jc.Unmarshal(doc, &b)
		if err != nil || werr != nil || !reflect.DeepEqual(a, b) {
			return fmt.Sprintf("err=%v %v, encoding/json %v %v", err, b, werr, a)
		}
		return ""
	})

	// Long data.
	long := map[string]string{
		"string":        `"` + strings.Repeat("abcdefghij", 1000000) + `"`,
		"escapes":       `"` + strings.Repeat(`\u00e9\n`, 500000) + `"`,
		"array":         "[" + strings.Repeat("1,", 1000000) + "1]",
		"array of any":  "[" + strings.Repeat(`{"a":[null,"x"]},`, 100000) + "1]",
		"white space":   strings.Repeat(" ", 3000000) + "[" + strings.Repeat("\n", 3000000) + "]",
		"digits":        strings.Repeat("7", 100000),
		"fraction":      "0." + strings.Repeat("3", 100000),
		"exponent":      "1e-" + strings.Repeat("0", 100000) + "5",
		"empty strings": "[" + strings.Repeat(`"",`, 500000) + `""]`,
	}
	var sb strings.Builder
	for i := 0; i < 200000; i++ {
		fmt.Fprintf(&sb, `"key%d":%d,`, i, i)
	}
	long["object"] = "{" + sb.String() + `"z":0}`
	long["same key"] = "{" + strings.Repeat(`"k":[1],`, 300000) + `"k":2}`
	for name, text := range long {
		add("long "+name, func() string {
			var a, b, c interface{}
			werr, err := json.Unmarshal([]byte(text), &a), jc.Unmarshal([]byte(text), &b)
			if (err == nil) != (werr == nil) || !reflect.DeepEqual(a, b) {
				return fmt.Sprintf("decoded differently, err=%v, %v", err, werr)
			}
			if err := jc.NewDecoder(strings.NewReader(text + " ")).Decode(&c); (err == nil) != (werr == nil) || !reflect.DeepEqual(a, c) {
				return fmt.Sprintf("decoded differently by a Decoder, err=%v", err)
			}
			want, werr := json.Marshal(a)
			got, err := jc.Marshal(b)
			if (err == nil) != (werr == nil) || !bytes.Equal(got, want) {
				return fmt.Sprintf("encoded differently, err=%v %v", err, werr)
			}
			want, werr = json.Marshal(json.RawMessage(text))
			got, err = jc.Marshal(json.RawMessage(text))
			if err != nil || werr != nil || !bytes.Equal(got, want) {
				return fmt.Sprintf("raw message encoded differently, err=%v %v", err, werr)
			}
			if !jc.Valid([]byte(text)) || !ref.Valid([]byte(text)) {
				return "not valid"
			}
			return ""
		})
	}
	return cs
}

// deepSame compares without recursion where the values are deep.
func deepSame(a, b interface{}) bool {
	x, err1 := json.Marshal(a)
	y, err2 := json.Marshal(b)
	if err1 != nil || err2 != nil {
		return (err1 == nil) == (err2 == nil)
	}
	return bytes.Equal(x, y) && (len(x) > 20000 || reflect.DeepEqual(a, b))
}

// childDeep runs the cases with the given names.
func childDeep(args []string) int {
	want := map[string]bool{}
	if len(args) == 1 && args[0] == "all" {
		args = nil
		for _, c := range deepCases() {
			args = append(args, c.name)
		}
	}
	for _, a := range args {
		want[a] = true
	}
	for _, c := range deepCases() {
		if !want[c.name] {
			continue
		}
		fmt.Printf("run %s\n", c.name)
		t0 := time.Now()
		if s := c.run(); s != "" {
			fmt.Printf("FAIL %s\n", s)
			return 1
		}
		if os.Getenv("VERIF_TIMING") != "" {
			fmt.Fprintf(os.Stderr, "%8.3f %s\n", time.Since(t0).Seconds(), c.name)
		}
	}
	os.Stdout.WriteString("done\n")
	return 0
}

func lastLines(b []byte, n int) string {
	ls := strings.Split(strings.TrimSpace(string(b)), "\n")
	if len(ls) > n {
		ls = ls[len(ls)-n:]
	}
	return strings.Join(ls, "\n")
}

func runC17(c *mon.Ctx) {
	judge := func(w *mon.W, r childResult) bool {
		switch {
		case r.timeout:
			w.Fatalf("does not end within minutes: %s", lastLines(r.out, 1))
		case r.code == 1 && bytes.Contains(r.out, []byte("FAIL ")):
			w.Fatalf("%s", cut(lastLines(r.out, 6), 4000))
		case r.code != 0:
			w.Fatalf("the process dies, code %d %v\n%s\n%s", r.code, r.signal, lastLines(r.out, 1), cut(crashLine(r.err), 1500))
		}
		return true
	}
	const batch = 250
	c.Workload("graphs", c.N(160, 20), func(w *mon.W) {
		r := runChild(280*time.Second, nil, nil, "graphs", fmt.Sprint(c.Seed), fmt.Sprint(w.Index*batch), fmt.Sprint(batch))
		if judge(w, r) {
			var cyc, shared, deep int
			fmt.Sscanf(lastLines(r.out, 1), "done %d %d %d", &cyc, &shared, &deep)
			w.Count("cyclic graphs refused", cyc)
			w.Count("acyclic graphs encoded", shared)
			w.Count("acyclic graphs below 1000 levels encoded", deep)
			for _, l := range strings.Split(string(r.out), "\n") {
				w.Distinct(l)
			}
			if w.WantSample() {
				w.Sample("%s", strings.ReplaceAll(cut(string(r.out), 250), "\n", "; "))
			}
		}
	})
	var names []string
	for _, x := range deepCases() {
		names = append(names, x.name)
	}
	// The order of the cases does not depend on maps.
	names = sorted(names)
	c.Rand("deep", 0).Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	var env []string
	if c.Tier == "thorough" {
		env = []string{"VERIF_FULL=1"}
	} else {
		// All but the documents, of which there are many. Those at which a
		// missing limit ends the process come first.
		slices.SortStableFunc(names, func(a, b string) int {
			x, y := strings.Contains(a, " 12000000 "), strings.Contains(b, " 12000000 ")
			if x == y {
				return 0
			} else if x {
				return -1
			}
			return 1
		})
		docs := 0
		names = slices.DeleteFunc(names, func(n string) bool {
			if strings.HasPrefix(n, "document ") {
				docs++
				return docs > 640
			}
			return false
		})
		// These take much memory, too much for running all at once.
		c.Rand("deep", 1).Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	}
	env = append(env, "GOGC=40")
	const per = 5
	n := (len(names) + per - 1) / per
	if c.Tier == "scan" {
		n /= 8
	}
	c.Workload("deep", n, func(w *mon.W) {
		ns := names[w.Index*per : min(len(names), (w.Index+1)*per)]
		w.Note("cases %q", ns)
		r := runChild(280*time.Second, env, nil, append([]string{"deep"}, ns...)...)
		if judge(w, r) {
			w.Count("deep and long cases", len(ns))
			for _, n := range ns {
				w.Distinct(n)
			}
		}
	})
	c.MustObserve("cyclic graphs refused", 9000)
	c.MustObserve("acyclic graphs encoded", 12000)
	c.MustObserve("acyclic graphs below 1000 levels encoded", 4000)
	c.MustObserve("deep and long cases", int64(len(names)))
}
