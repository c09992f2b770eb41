// Package props holds one monitor per property.
package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"reflect"
	"slices"
	"sync"
	"unicode"

	jc "github.com/neilotoole/jsoncolor"

	"verifharness/gen"
	"verifharness/mon"
)

// All lists the monitors by id.
var All = map[string]*mon.Prop{}

func register(p *mon.Prop) { All[p.ID] = p }

var (
	poolOnce sync.Once
	pool     []reflect.Type
)

// typePool returns the types of this run. It depends only on the seed.
func typePool(c *mon.Ctx, n int) []reflect.Type {
	poolOnce.Do(func() {
		gen.Init()
		pool = gen.Pool(c.Rand("typepool", 0), n)
	})
	return pool
}

// desc describes a value for a report.
func desc(v reflect.Value) string {
	s := fmt.Sprintf("%#v", v.Interface())
	if len(s) > 1200 {
		s = s[:1200] + "..."
	}
	t := v.Type().String()
	if len(t) > 600 {
		t = t[:600] + "..."
	}
	return "type " + t + " value " + s
}

// std encodes with encoding/json.
func std(x interface{}, escapeHTML bool) ([]byte, error) {
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetEscapeHTML(escapeHTML)
	if err := enc.Encode(x); err != nil {
		return nil, err
	}
	return bytes.TrimSuffix(buf.Bytes(), []byte("\n")), nil
}

// jcAppend encodes with the system under test.
func jcAppend(x interface{}, flags jc.AppendFlags, clrs *jc.Colors, ind *jc.Indenter) ([]byte, error) {
	return jc.Append(nil, x, flags, clrs, ind)
}

// normEsc hides the one accepted difference in spelling: \b and \f may be
// written \u0008 and \u000c, also inside a string inside a string.
func normEsc(b []byte) []byte {
	if bytes.IndexByte(b, '\\') < 0 {
		return b
	}
	var out []byte
	for i := 0; i < len(b); i++ {
		c := b[i]
		if i > 0 && b[i-1] == '\\' && (c == 'b' || c == 'f') {
			if c == 'b' {
				out = append(out, "u0008"...)
			} else {
				out = append(out, "u000c"...)
			}
			continue
		}
		out = append(out, c)
	}
	return out
}

func sameEnc(a, b []byte) bool { return bytes.Equal(a, b) || bytes.Equal(normEsc(a), normEsc(b)) }

// q quotes bytes for a report.
func q(b []byte) string {
	if len(b) > 1500 {
		return fmt.Sprintf("%q...(%d bytes)", b[:1500], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func pickType(r *rand.Rand, ts []reflect.Type) reflect.Type { return ts[r.IntN(len(ts))] }

// value makes the value handed to an encoder from a filled addressable v: by
// value, or by pointer.
func value(r *rand.Rand, v reflect.Value) interface{} {
	if gen.Chance(r, 3) {
		return v.Addr().Interface()
	}
	return v.Interface()
}

// firstDiff locates the first difference.
func firstDiff(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-30)
	cut := func(x []byte) []byte { return x[min(lo, len(x)):min(len(x), i+40)] }
	return fmt.Sprintf("first difference at byte %d: got ...%q want ...%q", i, cut(a), cut(b))
}

func isLetterOrDigit(c rune) bool { return unicode.IsLetter(c) || unicode.IsDigit(c) }

func sorted(xs []string) []string {
	slices.Sort(xs)
	return xs
}
