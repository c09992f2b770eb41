// Package ref is an independent reading of RFC 8259, used as an oracle. It is
// written for clarity, straight from the grammar, and shares nothing with the
// system under test nor with encoding/json.
package ref

import (
	"errors"
	"fmt"
	"unicode/utf16"
	"unicode/utf8"
)

// MaxDepth is the nesting that encoding/json accepts.
const MaxDepth = 10000

// Tok is one token of a document.
type Tok struct {
	Kind       byte // { } [ ] : , " 0 t f n
	Start, End int
	// Depth is the number of containers open around the token; a delimiter
	// counts at the depth of the container it belongs to, from outside.
	Depth int
	Index int // of the element or member the token belongs to
	IsKey bool
}

// Doc is a document that was read.
type Doc struct {
	Toks       []Tok
	Start, End int // of the top-level value
	Deepest    int
}

// ErrDepth is reported for documents nested too deeply.
var ErrDepth = errors.New("nested too deeply")

// ErrEOF is reported when the input ends inside of a value.
var ErrEOF = errors.New("unexpected end")

type parser struct {
	b    []byte
	i    int
	doc  *Doc
	keep bool
}

func (p *parser) ws() {
	for p.i < len(p.b) && (p.b[p.i] == ' ' || p.b[p.i] == '\t' || p.b[p.i] == '\n' || p.b[p.i] == '\r') {
		p.i++
	}
}

func (p *parser) bad() error {
	if p.i >= len(p.b) {
		return ErrEOF
	}
	return fmt.Errorf("unexpected byte %q at %d", p.b[p.i], p.i)
}

func (p *parser) tok(kind byte, start, depth, index int, key bool) {
	if p.keep {
		p.doc.Toks = append(p.doc.Toks, Tok{Kind: kind, Start: start, End: p.i, Depth: depth, Index: index, IsKey: key})
	}
}

// Prefix reads one value at the start of b, after white space, and leaves
// alone what follows it.
func Prefix(b []byte) (*Doc, error) {
	p := &parser{b: b, doc: &Doc{}, keep: true}
	p.ws()
	p.doc.Start = p.i
	err := p.value(0, 0)
	p.doc.End = p.i
	return p.doc, err
}

// Parse reads b as one document.
func Parse(b []byte) (*Doc, error) {
	d, err := Prefix(b)
	if err != nil {
		return d, err
	}
	p := parser{b: b, i: d.End}
	p.ws()
	if p.i != len(b) {
		return d, fmt.Errorf("trailing byte %q at %d", b[p.i], p.i)
	}
	return d, nil
}

// Valid tells whether b is one document.
func Valid(b []byte) bool { _, err := Parse(b); return err == nil }

func (p *parser) value(depth, index int) error {
	if p.i >= len(p.b) {
		return ErrEOF
	}
	start := p.i
	switch c := p.b[p.i]; {
	case c == '{' || c == '[':
		return p.container(depth, index)
	case c == '"':
		if err := p.str(); err != nil {
			return err
		}
		p.tok('"', start, depth, index, false)
		return nil
	case c == '-' || c >= '0' && c <= '9':
		if err := p.num(); err != nil {
			return err
		}
		p.tok('0', start, depth, index, false)
		return nil
	case c == 't':
		return p.lit("true", depth, index)
	case c == 'f':
		return p.lit("false", depth, index)
	case c == 'n':
		return p.lit("null", depth, index)
	}
	return p.bad()
}

func (p *parser) lit(s string, depth, index int) error {
	start := p.i
	for k := 0; k < len(s); k++ {
		if p.i >= len(p.b) || p.b[p.i] != s[k] {
			return p.bad()
		}
		p.i++
	}
	p.tok(s[0], start, depth, index, false)
	return nil
}

func (p *parser) num() error {
	digits := func() error {
		n := 0
		for p.i < len(p.b) && p.b[p.i] >= '0' && p.b[p.i] <= '9' {
			p.i++
			n++
		}
		if n == 0 {
			return p.bad()
		}
		return nil
	}
	if p.b[p.i] == '-' {
		p.i++
	}
	if p.i < len(p.b) && p.b[p.i] == '0' {
		p.i++
	} else if err := digits(); err != nil {
		return err
	}
	if p.i < len(p.b) && p.b[p.i] == '.' {
		p.i++
		if err := digits(); err != nil {
			return err
		}
	}
	if p.i < len(p.b) && (p.b[p.i] == 'e' || p.b[p.i] == 'E') {
		p.i++
		if p.i < len(p.b) && (p.b[p.i] == '+' || p.b[p.i] == '-') {
			p.i++
		}
		if err := digits(); err != nil {
			return err
		}
	}
	return nil
}

func (p *parser) str() error {
	p.i++
	for p.i < len(p.b) {
		switch c := p.b[p.i]; {
		case c == '"':
			p.i++
			return nil
		case c < 0x20:
			return p.bad()
		case c == '\\':
			p.i++
			if p.i >= len(p.b) {
				return ErrEOF
			}
			switch p.b[p.i] {
			case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
				p.i++
			case 'u':
				p.i++
				for k := 0; k < 4; k++ {
					if p.i >= len(p.b) || hexval(p.b[p.i]) < 0 {
						return p.bad()
					}
					p.i++
				}
			default:
				return p.bad()
			}
		default:
			p.i++
		}
	}
	return ErrEOF
}

func hexval(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func (p *parser) container(depth, index int) error {
	open := p.b[p.i]
	start := p.i
	p.i++
	p.tok(open, start, depth, index, false)
	if depth+1 > p.doc.Deepest {
		p.doc.Deepest = depth + 1
	}
	if depth+1 > MaxDepth {
		return ErrDepth
	}
	cl := byte('}')
	if open == '[' {
		cl = ']'
	}
	p.ws()
	if p.i < len(p.b) && p.b[p.i] == cl {
		start = p.i
		p.i++
		p.tok(cl, start, depth, index, false)
		return nil
	}
	for n := 0; ; n++ {
		p.ws()
		if open == '{' {
			if p.i >= len(p.b) || p.b[p.i] != '"' {
				return p.bad()
			}
			start = p.i
			if err := p.str(); err != nil {
				return err
			}
			p.tok('"', start, depth+1, n, true)
			p.ws()
			if p.i >= len(p.b) || p.b[p.i] != ':' {
				return p.bad()
			}
			start = p.i
			p.i++
			p.tok(':', start, depth+1, n, false)
			p.ws()
		}
		if err := p.value(depth+1, n); err != nil {
			return err
		}
		p.ws()
		if p.i >= len(p.b) {
			return ErrEOF
		}
		start = p.i
		switch p.b[p.i] {
		case ',':
			p.i++
			p.tok(',', start, depth+1, n, false)
		case cl:
			p.i++
			p.tok(cl, start, depth, index, false)
			return nil
		default:
			return p.bad()
		}
	}
}

// Compact returns the document without the white space between its tokens.
func (d *Doc) Compact(b []byte) []byte {
	var out []byte
	for _, t := range d.Toks {
		out = append(out, b[t.Start:t.End]...)
	}
	return out
}

// Unquote returns the text that a string token stands for. Bytes which are not
// UTF-8 and lone surrogates become U+FFFD, one each.
func Unquote(tok []byte) string {
	var out []byte
	b := tok[1 : len(tok)-1]
	for i := 0; i < len(b); {
		if b[i] != '\\' {
			r, n := utf8.DecodeRune(b[i:])
			out = utf8.AppendRune(out, r)
			i += n
			continue
		}
		i++
		switch c := b[i]; c {
		case 'b':
			out = append(out, '\b')
		case 'f':
			out = append(out, '\f')
		case 'n':
			out = append(out, '\n')
		case 'r':
			out = append(out, '\r')
		case 't':
			out = append(out, '\t')
		case 'u':
			r := u4(b[i+1:])
			i += 4
			if utf16.IsSurrogate(r) {
				if i+6 < len(b) && b[i+1] == '\\' && b[i+2] == 'u' {
					if full := utf16.DecodeRune(r, u4(b[i+3:])); full != utf8.RuneError {
						out = utf8.AppendRune(out, full)
						i += 7
						continue
					}
				}
				r = utf8.RuneError
			}
			out = utf8.AppendRune(out, r)
		default:
			out = append(out, c)
		}
		i++
	}
	return string(out)
}

func u4(b []byte) (r rune) {
	for k := 0; k < 4; k++ {
		r = r<<4 | rune(hexval(b[k]))
	}
	return r
}
