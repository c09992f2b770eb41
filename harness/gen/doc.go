package gen

import (
	"encoding/json"
	"math/rand/v2"
	"reflect"
	"strconv"
	"strings"
	"unicode"

	"verifharness/ref"
)

// Tree reads a valid document into a Node; nil if it is not valid.
func Tree(b []byte) *Node {
	d, err := ref.Parse(b)
	if err != nil {
		return nil
	}
	i := 0
	var read func() *Node
	read = func() *Node {
		t := d.Toks[i]
		i++
		n := &Node{Kind: t.Kind, Raw: string(b[t.Start:t.End])}
		switch t.Kind {
		case '{':
			for d.Toks[i].Kind != '}' {
				n.Keys = append(n.Keys, string(b[d.Toks[i].Start:d.Toks[i].End]))
				i += 2
				n.Kids = append(n.Kids, read())
				if d.Toks[i].Kind == ',' {
					i++
				}
			}
			i++
		case '[':
			for d.Toks[i].Kind != ']' {
				n.Kids = append(n.Kids, read())
				if d.Toks[i].Kind == ',' {
					i++
				}
			}
			i++
		}
		return n
	}
	return read()
}

// Names collects the JSON names of the fields of the structs in t.
func Names(t reflect.Type) []string {
	var out []string
	seen := map[reflect.Type]bool{}
	var walk func(t reflect.Type, depth int)
	walk = func(t reflect.Type, depth int) {
		if seen[t] || depth > 6 {
			return
		}
		seen[t] = true
		switch t.Kind() {
		case reflect.Pointer, reflect.Slice, reflect.Array:
			walk(t.Elem(), depth+1)
		case reflect.Map:
			walk(t.Elem(), depth+1)
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				f := t.Field(i)
				name, _, _ := strings.Cut(f.Tag.Get("json"), ",")
				if name == "" {
					name = f.Name
				}
				out = append(out, name)
				walk(f.Type, depth+1)
			}
		}
	}
	walk(t, 0)
	if len(out) == 0 {
		out = []string{"a"}
	}
	return out
}

// DocFor returns a document that mostly fits the type t. rate is the one-in-n
// chance, at each node, of a departure: 0 for none beyond spelling.
func DocFor(r *rand.Rand, t reflect.Type, depth, rate int) string {
	n := treeFor(r, t, depth)
	d := &distort{r: r, rate: rate, hard: Pick(r, 20, 20, 20, 600), names: Names(t)}
	n = d.node(n, depth)
	if Chance(r, 2) {
		return n.Compact()
	}
	return WS(r) + n.Render(func() string { return WS(r) }) + WS(r)
}

// Wide returns a document for many elements of type t, in a container of the
// same type as c: a map, a slice or an array.
func Wide(r *rand.Rand, c reflect.Type, depth, rate int) string {
	t := c.Elem()
	d := &distort{r: r, rate: rate, hard: 2000, names: Names(t)}
	if Chance(r, 3) {
		d.hard = 100
	}
	var base []*Node
	for i := 1 + r.IntN(4); i > 0; i-- {
		base = append(base, treeFor(r, t, depth))
	}
	n := &Node{Kind: '['}
	if c.Kind() == reflect.Map {
		n.Kind = '{'
	}
	for i := Heavy(r, 10, Pick(r, 40, 150, 300)); i > 0; i-- {
		e := Pick(r, base...)
		switch r.IntN(12) {
		case 0:
			e = &Node{Kind: 'n', Raw: "null"}
		case 1:
			e = treeFor(r, t, 1)
		}
		n.Kids = append(n.Kids, d.node(e, depth))
		if n.Kind == '{' {
			k := strconv.Itoa(r.IntN(120))
			if c.Key().Kind() == reflect.String && Chance(r, 4) {
				k = Key(r)
			}
			n.Keys = append(n.Keys, StrTok(r, k))
		}
	}
	if Chance(r, 2) {
		return n.Compact()
	}
	return WS(r) + n.Render(func() string { return WS(r) }) + WS(r)
}

// Containers returns types which hold many of each of the types, for Wide.
func Containers(ts []reflect.Type) (cs []reflect.Type) {
	for i, t := range ts {
		switch i % 5 {
		case 0:
			t = reflect.MapOf(typ[string](), t)
		case 1:
			t = reflect.MapOf(typ[uint8](), t)
		case 2:
			t = reflect.SliceOf(t)
		case 3:
			t = reflect.MapOf(typ[string](), reflect.PointerTo(t))
		case 4:
			if t.Size() < 1000 {
				t = reflect.ArrayOf(i%80, t)
			} else {
				t = reflect.SliceOf(reflect.PointerTo(t))
			}
		}
		cs = append(cs, t)
	}
	return cs
}

func treeFor(r *rand.Rand, t reflect.Type, depth int) *Node {
	v := Vals{R: r}.New(t, depth)
	b, err := json.Marshal(v.Addr().Interface())
	if err == nil {
		if n := Tree(b); n != nil {
			return n
		}
	}
	return RandNode(r, depth)
}

type distort struct {
	r     *rand.Rand
	rate  int
	hard  int // one in how many numbers is made a hard one
	names []string
}

func (d *distort) hit() bool { return d.rate > 0 && d.r.IntN(d.rate) == 0 }

func (d *distort) key(k string) string {
	r := d.r
	if Chance(r, 12) {
		k = Pick(r, d.names...)
	}
	if Chance(r, 8) { // another case
		switch r.IntN(4) {
		case 0:
			k = strings.ToLower(k)
		case 1:
			k = strings.ToUpper(k)
		default:
			rs := []rune(k)
			for i := range rs {
				if Chance(r, 2) {
					rs[i] = unicode.SimpleFold(rs[i])
				}
			}
			k = string(rs)
		}
	}
	if d.hit() {
		k = Pick(r, Key(r), NumberTok(r), k+"x", k+" ", "")
	}
	return StrTok(r, k)
}

func (d *distort) node(n *Node, depth int) *Node {
	r := d.r
	if d.hit() {
		switch r.IntN(8) {
		case 0, 1, 2:
			return &Node{Kind: 'n', Raw: "null"}
		case 3:
			return &Node{Kind: '0', Raw: NumberTok(r)}
		case 4:
			return &Node{Kind: '"', Raw: StrTok(r, Str(r))}
		case 5:
			return &Node{Kind: '"', Raw: Pick(r, `""`, `"1"`, `"-1"`, `"1.5"`, `"null"`, `"true"`, `"\"x\""`, `"AAEC"`, `"A A="`, `"AA\nEC"`, `"AAE"`, `"2020-01-02T03:04:05Z"`, `"1h2m"`, `" 1"`, `"\u0031"`)}
		default:
			return RandNode(r, depth)
		}
	}
	switch n.Kind {
	case '0':
		if Chance(r, d.hard) {
			return &Node{Kind: '0', Raw: HardNumber(r)}
		}
		if Chance(r, 3) && !strings.ContainsAny(n.Raw, ".eE") && d.rate > 0 && Chance(r, 3) {
			return &Node{Kind: '0', Raw: n.Raw + Pick(r, ".0", "e0", "0", "E+00", ".5")}
		}
		return n
	case '"':
		return &Node{Kind: '"', Raw: StrTok(r, ref.Unquote([]byte(n.Raw)))}
	case '{':
		m := &Node{Kind: '{'}
		partial := Chance(r, 5)
		for i, k := range n.Kids {
			if partial && Chance(r, 3) { // absent
				continue
			}
			m.Keys = append(m.Keys, d.key(ref.Unquote([]byte(n.Keys[i]))))
			m.Kids = append(m.Kids, d.node(k, depth-1))
			if Chance(r, 14) { // again, perhaps with another value
				m.Keys = append(m.Keys, m.Keys[r.IntN(len(m.Keys))])
				m.Kids = append(m.Kids, d.node(Pick(r, n.Kids...), depth-1))
			}
			if Chance(r, 14) { // unknown
				m.Keys = append(m.Keys, d.key(Key(r)))
				m.Kids = append(m.Kids, RandNode(r, 2))
			}
		}
		if Chance(r, 3) {
			r.Shuffle(len(m.Kids), func(i, j int) {
				m.Keys[i], m.Keys[j] = m.Keys[j], m.Keys[i]
				m.Kids[i], m.Kids[j] = m.Kids[j], m.Kids[i]
			})
		}
		return m
	case '[':
		m := &Node{Kind: '['}
		for _, k := range n.Kids {
			if Chance(r, 16) {
				continue
			}
			m.Kids = append(m.Kids, d.node(k, depth-1))
			if Chance(r, 16) {
				m.Kids = append(m.Kids, d.node(k, depth-1))
			}
		}
		return m
	}
	return n
}
