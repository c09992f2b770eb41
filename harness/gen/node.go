package gen

import (
	"math/rand/v2"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

// Node is a JSON document as a tree whose scalars keep their exact spelling.
type Node struct {
	Kind byte // '{' '[' '"' '0' 't' 'f' 'n'
	Raw  string
	Keys []string // raw quoted keys, for '{'
	Kids []*Node
}

// StrTok spells s as a JSON string in a random way. s need not be valid UTF-8;
// invalid bytes are kept.
func StrTok(r *rand.Rand, s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	esc := Pick(r, 0, 0, 0, 12, 3)
	lone := 90
	if len(s) > 60 && Chance(r, 2) {
		lone = 50 * len(s)
	}
	for i := 0; i < len(s); {
		c, n := utf8.DecodeRuneInString(s[i:])
		raw := s[i : i+n]
		i += n
		switch {
		case c == '"' || c == '\\':
			if Chance(r, 6) {
				sb.WriteString(u4(r, uint16(c)))
			} else {
				sb.WriteByte('\\')
				sb.WriteString(raw)
			}
		case c < 0x20:
			short := map[rune]string{'\n': `\n`, '\r': `\r`, '\t': `\t`, '\b': `\b`, '\f': `\f`}[c]
			if short != "" && !Chance(r, 4) {
				sb.WriteString(short)
			} else {
				sb.WriteString(u4(r, uint16(c)))
			}
		case c == '/' && Chance(r, 3):
			sb.WriteString(`\/`)
		case c == utf8.RuneError && n == 1:
			sb.WriteString(raw)
		case esc != 0 && r.IntN(esc) == 0:
			if c >= 0x10000 {
				a, b := utf16.EncodeRune(c)
				sb.WriteString(u4(r, uint16(a)) + u4(r, uint16(b)))
			} else {
				sb.WriteString(u4(r, uint16(c)))
			}
		default:
			sb.WriteString(raw)
		}
		if Chance(r, lone) { // lone or mismatched surrogates
			sb.WriteString(Pick(r, `\ud800`, `\udc00`, `\uD83D\uDE00`, `\ud800\ud800`, `\udbff\u0041`, `\ud800\n`, `\uDFFF\uD800`))
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func u4(r *rand.Rand, c uint16) string {
	h := strconv.FormatUint(uint64(c)+0x10000, 16)[1:]
	if Chance(r, 2) {
		h = strings.ToUpper(h)
	}
	return `\u` + h
}

// RandNode returns a random document.
func RandNode(r *rand.Rand, depth int) *Node {
	if depth > 0 && Chance(r, 150) {
		// Deep.
		n := RandNode(r, 1)
		for i := Heavy(r, 4, 80); i > 0; i-- {
			if Chance(r, 2) {
				n = &Node{Kind: '[', Kids: []*Node{n}}
			} else {
				n = &Node{Kind: '{', Keys: []string{StrTok(r, Key(r))}, Kids: []*Node{n}}
			}
			if Chance(r, 8) {
				n.Kids = append(n.Kids, RandNode(r, 0))
				if n.Kind == '{' {
					n.Keys = append(n.Keys, StrTok(r, Key(r)))
				}
			}
		}
		return n
	}
	if depth > 0 && Chance(r, 150) {
		// Wide.
		n := &Node{Kind: Pick[byte](r, '[', '{')}
		for i := Heavy(r, 14, 300); i > 0; i-- {
			if n.Kind == '{' {
				k := Key(r)
				if Chance(r, 2) {
					k = Str(r)
				}
				n.Keys = append(n.Keys, StrTok(r, k))
			}
			n.Kids = append(n.Kids, RandNode(r, r.IntN(2)*r.IntN(2)))
		}
		return n
	}
	k := r.IntN(12)
	if depth <= 0 {
		k = r.IntN(7)
	}
	switch k {
	case 0:
		return &Node{Kind: 'n', Raw: "null"}
	case 1:
		if Chance(r, 2) {
			return &Node{Kind: 't', Raw: "true"}
		}
		return &Node{Kind: 'f', Raw: "false"}
	case 2, 3:
		return &Node{Kind: '0', Raw: NumberTok(r)}
	case 4, 5, 6:
		return &Node{Kind: '"', Raw: StrTok(r, Str(r))}
	case 7, 8, 9:
		n := &Node{Kind: '{'}
		for c := r.IntN(Pick(r, 2, 5, 5, 9)); c > 0; c-- {
			n.Keys = append(n.Keys, StrTok(r, Key(r)))
			n.Kids = append(n.Kids, RandNode(r, depth-1))
		}
		return n
	}
	n := &Node{Kind: '['}
	for c := r.IntN(Pick(r, 2, 5, 5, 14)); c > 0; c-- {
		n.Kids = append(n.Kids, RandNode(r, depth-1))
	}
	return n
}

// WS returns JSON white space.
func WS(r *rand.Rand) string {
	switch r.IntN(8) {
	case 0, 1, 2, 3, 4:
		return ""
	case 5:
		return " "
	case 6:
		return Pick(r, "\n", "\t", "\r\n", "  ")
	}
	var sb strings.Builder
	for n := r.IntN(6); n > 0; n-- {
		sb.WriteString(Pick(r, " ", "\n", "\t", "\r"))
	}
	return sb.String()
}

// Render writes the document; ws supplies the white space between tokens.
func (n *Node) Render(ws func() string) string {
	var sb strings.Builder
	n.render(&sb, ws)
	return sb.String()
}

// Compact writes the document without white space.
func (n *Node) Compact() string { return n.Render(func() string { return "" }) }

func (n *Node) render(sb *strings.Builder, ws func() string) {
	switch n.Kind {
	case '{':
		sb.WriteByte('{')
		sb.WriteString(ws())
		for i, k := range n.Kids {
			if i > 0 {
				sb.WriteByte(',')
				sb.WriteString(ws())
			}
			sb.WriteString(n.Keys[i])
			sb.WriteString(ws())
			sb.WriteByte(':')
			sb.WriteString(ws())
			k.render(sb, ws)
			sb.WriteString(ws())
		}
		sb.WriteByte('}')
	case '[':
		sb.WriteByte('[')
		sb.WriteString(ws())
		for i, k := range n.Kids {
			if i > 0 {
				sb.WriteByte(',')
				sb.WriteString(ws())
			}
			k.render(sb, ws)
			sb.WriteString(ws())
		}
		sb.WriteByte(']')
	default:
		sb.WriteString(n.Raw)
	}
}

// Doc returns a random valid document with random white space inside and,
// sometimes, around it.
func Doc(r *rand.Rand, depth int) string {
	n := RandNode(r, depth)
	var s string
	if Chance(r, 3) {
		s = n.Compact()
	} else {
		s = n.Render(func() string { return WS(r) })
	}
	if Chance(r, 4) {
		s = WS(r) + s + WS(r)
	}
	return s
}

// Mutate damages (usually) a document.
func Mutate(r *rand.Rand, s string) string {
	b := []byte(s)
	for n := 1 + r.IntN(Pick(r, 1, 1, 3)); n > 0; n-- {
		if len(b) == 0 {
			b = append(b, byte(r.IntN(256)))
			continue
		}
		i := r.IntN(len(b))
		switch r.IntN(11) {
		case 0:
			b = append(b[:i], b[i+1:]...)
		case 1:
			b[i] = byte(r.IntN(256))
		case 2:
			b[i] = Pick[byte](r, '"', '\\', '{', '}', '[', ']', ',', ':', '0', '9', '-', '+', '.', 'e', 'E', 'n', 't', 'f', 'u', ' ', '\n', 0, 0x1f, 0x7f, 0x80, '/', 'a', '_')
		case 3:
			c := Pick(r, "\"", "\\", "{", "}", "[", "]", ",", ":", "0", "-", "+", ".", "e", "null", "true", "false", "nul", "\\u", "\\u12", "\\x", "\x00", "\x0b", "\x0c", "\xef\xbb\xbf", "\u00a0", "//", "1", " ", "\"a\":", ",,", "\u2028")
			b = append(b[:i], append([]byte(c), b[i:]...)...)
		case 4:
			b = b[:i]
		case 5:
			b = b[i:]
		case 6:
			j := i + r.IntN(len(b)-i)
			b = append(b[:i], b[j:]...)
		case 7:
			j := i + r.IntN(len(b)-i)
			b = append(b[:j:j], b[i:]...)
		case 8:
			b = append(b, Pick(r, "}", "]", ",", "x", " 1", "\"", "null", ":", "\x00", "//", "{", " {}", "\n[]")...)
		case 9:
			b[i] ^= 1 << r.IntN(8)
		case 10:
			j := r.IntN(len(b))
			b[i], b[j] = b[j], b[i]
		}
	}
	return string(b)
}

// Soup returns a random sequence of JSON-ish fragments.
func Soup(r *rand.Rand) string {
	var sb strings.Builder
	for n := r.IntN(12); n > 0; n-- {
		switch r.IntN(4) {
		case 0, 1:
			sb.WriteString(Pick(r, "{", "}", "[", "]", ",", ":", "\"", "\"a\"", "\"\"", "1", "0", "-", ".", "e", "null", "true", "false", "n", "tr", "fals", "\\", "\\u0041", "\\ud800", " ", "\n", "\"\\", "\"a\\u00", "1.5", "1e", "-0", "00", "+1", "\x00", "\xff"))
		case 2:
			sb.WriteString(NumberTok(r))
		case 3:
			sb.WriteString(StrTok(r, Str(r)))
		}
	}
	return sb.String()
}
