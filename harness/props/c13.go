package props

import (
	"bytes"
	"strings"

	jc "github.com/neilotoole/jsoncolor"

	"verifharness/gen"
	"verifharness/mon"
	"verifharness/ref"
)

func init() {
	register(&mon.Prop{ID: "C13",
		Rule: "valid documents and sequences of them, tokenized in write-protected memory that ends at an inaccessible page, each token compared with the one an independent parser finds; damaged and arbitrary input, where every token must be a well-formed piece of the input in order and the rest accounted for by an error; Tokenizers reset at any point; non-trivial: distinct documents with at least three tokens",
		Run:  runC13})
}

// checkTok compares a token of the Tokenizer with what it should be.
func checkTok(w *mon.W, b []byte, off int, t *jc.Tokenizer, k ref.Tok) {
	lo, hi := off+k.Start, off+k.End
	if len(t.Value) != hi-lo || &t.Value[0] != &b[lo] {
		w.Fatalf("in %s the token at %d..%d (%s) is reported as %s", q(b), lo, hi, q(b[lo:hi]), q(t.Value))
	}
	delim := jc.Delim(0)
	if strings.IndexByte("{}[]:,", k.Kind) >= 0 {
		delim = jc.Delim(k.Kind)
	}
	if t.Delim != delim || t.Depth != k.Depth || t.Index != k.Index || t.IsKey != k.IsKey || t.Err != nil {
		w.Fatalf("in %s the token at %d..%d (%s) has Delim=%q Depth=%d Index=%d IsKey=%v Err=%v, want Delim=%q Depth=%d Index=%d IsKey=%v",
			q(b), lo, hi, q(b[lo:hi]), t.Delim, t.Depth, t.Index, t.IsKey, t.Err, delim, k.Depth, k.Index, k.IsKey)
	}
	if delim != 0 {
		return
	}
	v := t.Value
	if v.String() != (k.Kind == '"') || v.Number() != (k.Kind == '0') || v.Null() != (k.Kind == 'n') || v.True() != (k.Kind == 't') || v.False() != (k.Kind == 'f') {
		w.Fatalf("RawValue %s: String=%v Number=%v Null=%v True=%v False=%v", q(v), v.String(), v.Number(), v.Null(), v.True(), v.False())
	}
	if k.Kind == '"' {
		want := ref.Unquote(b[lo:hi])
		got := v.Unquote()
		if string(got) != want {
			w.Fatalf("RawValue(%s).Unquote() = %s, want %q", q(v), q(got), want)
		}
		// What is returned belongs to the caller: writing to it must not
		// reach the input, which is write-protected.
		for i := range got {
			got[i] = 'w'
		}
		pre := []byte(gen.Pick(w.R, "", "x", "pre\xff\"\\u00", strings.Repeat("long", 40)))
		dst := make([]byte, len(pre), len(pre)+gen.Pick(w.R, 0, 1, 5, len(want), 300))
		copy(dst, pre)
		if got := v.AppendUnquote(dst); string(got) != string(pre)+want {
			w.Fatalf("RawValue(%s).AppendUnquote(%s) = %s, want it followed by %q", q(v), q(pre), q(got), want)
		}
		w.Count("strings unquoted", 1)
	}
}

// tokenize checks a sequence of documents, which is valid.
func tokenizeDocs(w *mon.W, t *jc.Tokenizer, b []byte, stopAt int) {
	off, n := 0, 0
	for off < len(b) {
		d, err := ref.Prefix(b[off:])
		if err != nil {
			if len(bytes.TrimSpace(b[off:])) == 0 {
				break
			}
			w.Fatalf("harness: %s is not valid at %d", q(b), off)
		}
		for _, k := range d.Toks {
			if n == stopAt {
				return
			}
			n++
			if !t.Next() {
				w.Fatalf("in %s the Tokenizer ends (%v) before the token %s at %d", q(b), t.Err, q(b[off+k.Start:off+k.End]), off+k.Start)
			}
			checkTok(w, b, off, t, k)
		}
		off += d.End
	}
	for i := 0; i < 3; i++ {
		if t.Next() {
			w.Fatalf("in %s the Tokenizer reports %s after the last token", q(b), q(t.Value))
		}
		if t.Err != nil {
			w.Fatalf("in %s the Tokenizer ends with %v", q(b), t.Err)
		}
	}
	w.Count("tokens", n)
	if n >= 3 {
		w.Distinct(b)
	}
}

// tokenizeAny checks arbitrary input.
func tokenizeAny(w *mon.W, t *jc.Tokenizer, b []byte) {
	at, n := 0, 0
	for t.Next() {
		if n++; n > len(b) {
			w.Fatalf("the Tokenizer does not end on %s", q(b))
		}
		v := t.Value
		for at < len(b) && strings.IndexByte(" \t\r\n", b[at]) >= 0 {
			at++
		}
		if len(v) == 0 || at >= len(b) || &v[0] != &b[at] || len(v) > len(b)-at {
			w.Fatalf("in %s, token %d (%s) is not what comes next at byte %d", q(b), n, q(v), at)
		}
		at += len(v)
		if t.Err != nil {
			w.Fatalf("in %s, token %s is reported together with the error %v", q(b), q(v), t.Err)
		}
		if t.Delim != 0 {
			if len(v) != 1 || byte(t.Delim) != v[0] || strings.IndexByte("{}[]:,", v[0]) < 0 || t.IsKey {
				w.Fatalf("in %s, token %s has Delim %q, IsKey=%v", q(b), q(v), t.Delim, t.IsKey)
			}
		} else if d, err := ref.Parse(v); err != nil || len(d.Toks) != 1 || d.Start != 0 || d.End != len(v) {
			w.Fatalf("in %s, token %s is no literal, number or string", q(b), q(v))
		} else if v.String() {
			v.Unquote()
		}
		if t.Depth < 0 || t.Index < 0 {
			w.Fatalf("in %s, token %s has Depth=%d Index=%d", q(b), q(v), t.Depth, t.Index)
		}
		w.Count("tokens of any input", 1)
	}
	err := t.Err
	if err == nil && len(bytes.Trim(b[at:], " \t\r\n")) > 0 {
		w.Fatalf("in %s, the Tokenizer ends at byte %d without an error", q(b), at)
	}
	for i := 0; i < 3; i++ {
		if t.Next() || t.Err != err {
			w.Fatalf("in %s, Next after the end: Value %s, Err %v instead of %v", q(b), q(t.Value), t.Err, err)
		}
	}
	if err != nil {
		w.Count("inputs with an error", 1)
	} else if !ref.Valid(b) {
		w.Count("invalid inputs without an error", 1)
	}
	if ref.Valid(b) && err != nil {
		w.Fatalf("%s is valid and gives %v", q(b), err)
	}
	// Unbalanced delimiters are told.
	if err == nil {
		var st []byte
		for i := 0; i < len(b); i++ {
			switch b[i] {
			case '"':
				for i++; i < len(b) && b[i] != '"'; i++ {
					if b[i] == '\\' {
						i++
					}
				}
			case '{', '[':
				st = append(st, b[i]+2)
			case '}', ']':
				if len(st) == 0 || st[len(st)-1] != b[i] {
					w.Fatalf("in %s, the delimiter %q at %d closes nothing, and there is no error", q(b), b[i], i)
				}
				st = st[:len(st)-1]
			}
		}
	}
}

func runC13(c *mon.Ctx) {
	pool := make(chan *pages, 64)
	with := func(w *mon.W, doc []byte, f func(b []byte)) {
		var p *pages
		select {
		case p = <-pool:
		default:
			p = newPages(8)
		}
		b := p.put(doc, false)
		if b == nil {
			b = exact(doc)
		}
		defer func() { pool <- p }()
		f(b)
	}
	c.Workload("documents", c.N(60000, 12), func(w *mon.W) {
		var sb strings.Builder
		for n := gen.Pick(w.R, 1, 1, 1, 2, 5); n > 0; n-- {
			doc := gen.Doc(w.R, 1+w.R.IntN(7))
			sb.WriteString(doc)
			if n > 1 {
				sb.WriteString(gen.Pick(w.R, " ", "\n", "\t\r\n "))
			}
		}
		with(w, []byte(sb.String()), func(b []byte) {
			if w.WantSample() {
				w.Sample("%s", cut(string(b), 300))
			}
			tokenizeDocs(w, jc.NewTokenizer(b), b, -1)
		})
	})
	// Nesting around the size of the built-in stack, and much deeper.
	c.Workload("nested", c.N(4000, 8), func(w *mon.W) {
		depth := gen.Pick(w.R, 6, 7, 8, 9, 10, 17, 100, 3000)
		var sb strings.Builder
		var ends []string
		for i := 0; i < depth; i++ {
			if gen.Chance(w.R, 2) {
				for k := w.R.IntN(3); k > 0; k-- {
					sb.WriteString("")
				}
				if gen.Chance(w.R, 3) && depth < 200 {
					sb.WriteString(`{"b":[1,{}],"a" :`)
				} else {
					sb.WriteString(`{"a":`)
				}
				ends = append(ends, gen.Pick(w.R, "}", ` ,"z":null}`, "\n}"))
			} else {
				sb.WriteString(gen.Pick(w.R, "[", "[1, ", `["x",{"k":[]},`))
				ends = append(ends, gen.Pick(w.R, "]", " ]", ",[],2]"))
			}
		}
		sb.WriteString(gen.Pick(w.R, "{}", "[]", "1", `""`))
		for i := len(ends) - 1; i >= 0; i-- {
			sb.WriteString(ends[i])
		}
		with(w, []byte(sb.String()), func(b []byte) { tokenizeDocs(w, jc.NewTokenizer(b), b, -1) })
		w.Count("deep documents", 1)
	})
	// One Tokenizer for many inputs, given up at any point.
	c.Workload("reset", c.N(10000, 12), func(w *mon.W) {
		t := jc.NewTokenizer(nil)
		for i := 0; i < 6; i++ {
			doc := gen.Doc(w.R, 1+w.R.IntN(6))
			if gen.Chance(w.R, 2) {
				doc = strings.Repeat("[", 10) + doc + strings.Repeat("]", 10)
			}
			stop := gen.Pick(w.R, -1, w.R.IntN(20))
			if gen.Chance(w.R, 3) {
				doc = gen.Mutate(w.R, doc)
				with(w, []byte(doc), func(b []byte) {
					t.Reset(b)
					tokenizeAny(w, t, b)
				})
			} else {
				with(w, []byte(doc), func(b []byte) {
					t.Reset(b)
					tokenizeDocs(w, t, b, stop)
				})
			}
			w.Count("resets", 1)
		}
	})
	anyInput := func(name string, n int, f func(w *mon.W) string) {
		c.Workload(name, c.N(n, 12), func(w *mon.W) {
			with(w, []byte(f(w)), func(b []byte) { tokenizeAny(w, jc.NewTokenizer(b), b) })
		})
	}
	anyInput("damaged", 60000, func(w *mon.W) string { return gen.Mutate(w.R, gen.Doc(w.R, 1+w.R.IntN(5))) })
	anyInput("cut-off", 30000, func(w *mon.W) string {
		s := gen.Doc(w.R, 1+w.R.IntN(5))
		return s[:w.R.IntN(len(s)+1)]
	})
	anyInput("soup", 40000, func(w *mon.W) string { return gen.Soup(w.R) })
	// All short strings of tokens, and of bytes that matter to the lexer.
	for _, a := range []alphabet{
		{"tokens", "", "", []string{"{", "}", "[", "]", ",", ":", `"a"`, "1", "null", " "}, 5, 6},
		{"lexemes", "", "", split("\"\\u0-1.e+ntfr{}[,x "), 4, 5},
	} {
		ln := a.quick
		if c.Tier == "thorough" {
			ln = a.max
		}
		if c.Tier == "scan" {
			ln--
		}
		k := len(a.syms)
		c.Workload("all:"+a.name, k*k, func(w *mon.W) {
			var walk func(b []byte, left int)
			walk = func(b []byte, left int) {
				e := exact(b)
				tokenizeAny(w, jc.NewTokenizer(e), e)
				if ref.Valid(e) {
					tokenizeDocs(w, jc.NewTokenizer(e), e, -1)
				}
				w.Count("enumerated inputs", 1)
				if left == 0 {
					return
				}
				for _, s := range a.syms {
					walk(append(b[:len(b):len(b)], s...), left-1)
				}
			}
			walk([]byte(a.syms[w.Index/k]+a.syms[w.Index%k]), ln-2)
		})
	}
	c.MustObserve("tokens", 500000)
	c.MustObserve("strings unquoted", 100000)
	c.MustObserve("tokens of any input", 500000)
	c.MustObserve("inputs with an error", 30000)
	c.MustObserve("resets", 30000)
	c.MustObserve("deep documents", 2000)
	c.MustObserve("enumerated inputs", 100000)
}
