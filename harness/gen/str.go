// Package gen generates hostile Go types, values and JSON documents.
package gen

import (
	"math"
	"math/big"
	"math/rand/v2"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// Pick chooses one of xs.
func Pick[T any](r *rand.Rand, xs ...T) T { return xs[r.IntN(len(xs))] }

// Chance is true with probability 1/n.
func Chance(r *rand.Rand, n int) bool { return r.IntN(n) == 0 }

var nastyPieces = []string{
	"\"", "\\", "/", "\n", "\r", "\t", "\b", "\f", "\x00", "\x01", "\x1f", "\x7f", "<", ">", "&", "\u2028", "\u2029", "\u2027", "\u202a",
	"é", "ß", "Σ", "日本", "\U0001F600", "\U0010FFFF", "\uFFFD", "\uFEFF", "\x80", "\xff", "\xc3", "\xe2\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x80",
	"\x1b[31m", "\x1b[0m", "\x1b", "\\u0041", "\\\"", "null", "true", "{", "}", "[", "]", ":", ",", " ", "'", "K", "ſ", "~", "\u0080", "\u07ff", "\u0800", "\uffff",
}

// Heavy returns a number from lo to hi, of every order of magnitude equally
// often.
func Heavy(r *rand.Rand, lo, hi int) int {
	return int(float64(lo) * math.Pow(float64(hi)/float64(lo), r.Float64()))
}

// LongStr returns a string of 40 to 10000 bytes, most of it plain.
func LongStr(r *rand.Rand) string {
	n := Heavy(r, 40, 10000)
	if Chance(r, 3) {
		// Around the sizes at which buffers end.
		n = Pick(r, 64, 128, 256, 512, 1024, 2048, 4096, 8192) - 8 + r.IntN(16)
	}
	b := []byte(ascii(r, n))
	if Chance(r, 2) {
		for i := range b {
			b[i] = byte('a' + r.IntN(26))
		}
	}
	for k := r.IntN(5); k > 0; k-- {
		piece := Pick(r, nastyPieces...)
		i := r.IntN(n)
		switch r.IntN(4) {
		case 0:
			i = n - r.IntN(min(n, 8))
		case 1:
			i = min(n, Pick(r, 64, 256, 1024, 4096))
		}
		b = append(b[:i:i], append([]byte(piece), b[i:]...)...)
	}
	return string(b)
}

// Str returns a hostile string.
func Str(r *rand.Rand) string {
	if Chance(r, 200) {
		return LongStr(r)
	}
	switch r.IntN(12) {
	case 0:
		return ""
	case 1, 2, 3: // plain ASCII of every small length
		return ascii(r, r.IntN(40))
	case 4: // one nasty byte at a random place in plain ASCII
		n := 1 + r.IntN(36)
		b := []byte(ascii(r, n))
		b[r.IntN(n)] = byte(r.IntN(256))
		return string(b)
	case 5: // one nasty piece in plain ASCII
		return ascii(r, r.IntN(20)) + Pick(r, nastyPieces...) + ascii(r, r.IntN(20))
	case 6: // random bytes
		b := make([]byte, r.IntN(24))
		for i := range b {
			b[i] = byte(r.IntN(256))
		}
		return string(b)
	case 7: // random runes
		var sb strings.Builder
		for n := r.IntN(12); n > 0; n-- {
			sb.WriteRune(rune(r.IntN(Pick(r, 0x80, 0x800, 0x3000, 0x10000, 0x110000))))
		}
		return sb.String()
	case 8:
		return Pick(r, "null", "true", "false", "0", "-1", "1e5", "{}", "[]", "\"\"", "nul", "A", "a", "name", "x", "1 ", " 1", "+1", "01", "0x1", "1_0", "NaN", "Inf", "0.0", "T(x)", "t5", "ks1", "2006-01-02T15:04:05Z", "AAEC", "3<&>4", "\x1b[31mred\x1b[0m")
	}
	var sb strings.Builder
	for n := r.IntN(8); n > 0; n-- {
		if Chance(r, 3) {
			sb.WriteString(ascii(r, r.IntN(10)))
		} else {
			sb.WriteString(Pick(r, nastyPieces...))
		}
	}
	return sb.String()
}

// ValidStr returns a string that is valid UTF-8.
func ValidStr(r *rand.Rand) string {
	for i := 0; i < 20; i++ {
		if s := Str(r); utf8.ValidString(s) {
			return s
		}
	}
	return ascii(r, 5)
}

func ascii(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + r.IntN(26))
		if Chance(r, 6) {
			b[i] = byte(0x20 + r.IntN(0x5f))
		}
	}
	return string(b)
}

// Key returns a short key from a small alphabet, so that keys repeat.
func Key(r *rand.Rand) string {
	if Chance(r, 4) {
		return Str(r)
	}
	if Chance(r, 60) {
		// Long keys which differ at their ends only.
		return strings.Repeat(Pick(r, "k", "K", "é"), Pick(r, 7, 15, 16, 31, 40, 63, 64, 100)) + Pick(r, "", "a", "b", "B", "\x00", "<", "10", "9")
	}
	return Pick(r, "a", "b", "c", "A", "B", "x", "X", "y", "name", "Name", "F0", "f0", "F1", "F2", "F3", "k", "K", "é", "<&>", "", "0", "10", "9", "-1", "null", "s", "ſ", "aa", "ab")
}

// Float64 returns a float with emphasis on boundaries.
func Float64(r *rand.Rand) float64 {
	switch r.IntN(9) {
	case 0:
		return float64(r.IntN(2001) - 1000)
	case 1:
		return Pick(r, 0, math.Copysign(0, -1), 1e-6, 9.99999e-7, 1e21, 9.99999999999999e20, 1e-7, 1e20, 1e22, 1e100, 1e-100, math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxInt64, math.MaxUint64, 1<<53, 1<<53+1, 0.1, 1.0/3, 100, 1e9, 1e-9, 1e-10, 123456789.123456789)
	case 2, 3:
		f := math.Float64frombits(r.Uint64())
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return 0.5
		}
		return f
	case 4:
		return float64(int64(r.Uint64()))
	case 5:
		return r.NormFloat64() * math.Pow(10, float64(r.IntN(60)-30))
	case 6:
		f, _ := strconv.ParseFloat(strconv.FormatFloat(r.Float64(), 'g', 1+r.IntN(5), 64), 64)
		return f * math.Pow(10, float64(r.IntN(50)-25))
	}
	return math.Round(r.Float64()*1000) / 8
}

// Float32 returns a float32 with emphasis on boundaries.
func Float32(r *rand.Rand) float32 {
	if Chance(r, 3) {
		f := math.Float32frombits(r.Uint32())
		if f != f || math.IsInf(float64(f), 0) {
			return 0.5
		}
		return f
	}
	f := float32(Float64(r))
	if math.IsInf(float64(f), 0) {
		return math.MaxFloat32
	}
	return f
}

// Int returns an integer with emphasis on boundaries; the caller truncates.
func Int(r *rand.Rand) int64 {
	switch r.IntN(5) {
	case 0:
		return int64(r.IntN(21) - 10)
	case 1:
		return Pick[int64](r, 0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, 65535, 65536, math.MaxInt32, math.MinInt32, math.MaxUint32, math.MaxInt64, math.MinInt64, 99, 100, 101, 999, 1000, 9999, 10000)
	case 2:
		return int64(r.Uint64() >> r.IntN(64))
	case 3:
		return -int64(r.Uint64() >> r.IntN(64))
	}
	return int64(r.IntN(100000))
}

// NumberTok returns the text of a valid JSON number, in any spelling.
func NumberTok(r *rand.Rand) string {
	if Chance(r, 8) {
		return HardNumber(r)
	}
	if Chance(r, 3) {
		return strconv.FormatInt(Int(r), 10)
	}
	if Chance(r, 4) {
		return strconv.FormatFloat(Float64(r), Pick[byte](r, 'g', 'e', 'f', 'E'), -1, 64)
	}
	if Chance(r, 8) {
		return Pick(r, "-0", "0e0", "0E+0", "-0.0", "1e400", "-1e400", "1e-400", "0.10", "1.0", "1e5", "1E5", "1e+05", "10e-1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "2147483648", "-2147483649", "256", "-129", "128", "65536", "3.4028235e38", "3.5e38", "1e22", "123456789012345678901234567890")
	}
	var sb strings.Builder
	if Chance(r, 3) {
		sb.WriteByte('-')
	}
	if Chance(r, 4) {
		sb.WriteByte('0')
	} else {
		sb.WriteByte(byte('1' + r.IntN(9)))
		for n := r.IntN(Pick(r, 3, 8, 25)); n > 0; n-- {
			sb.WriteByte(byte('0' + r.IntN(10)))
		}
	}
	if Chance(r, 3) {
		sb.WriteByte('.')
		for n := 1 + r.IntN(8); n > 0; n-- {
			sb.WriteByte(byte('0' + r.IntN(10)))
		}
	}
	if Chance(r, 4) {
		sb.WriteByte(Pick[byte](r, 'e', 'E'))
		sb.WriteString(Pick(r, "", "+", "-"))
		for n := 1 + r.IntN(2); n > 0; n-- {
			sb.WriteByte(byte('0' + r.IntN(10)))
		}
	}
	return sb.String()
}

// Time returns a time that RFC 3339 can represent.
func Time(r *rand.Rand) time.Time {
	switch r.IntN(6) {
	case 0:
		return time.Time{}
	case 1:
		return time.Unix(int64(r.IntN(2000000000)), int64(r.IntN(1000000000))).UTC()
	case 2:
		z := time.FixedZone("z", (r.IntN(24*60*2-1)-(24*60-1))*60)
		return time.Date(1+r.IntN(9998), time.Month(1+r.IntN(12)), 1+r.IntN(28), r.IntN(24), r.IntN(60), r.IntN(60), r.IntN(1000)*1000000, z)
	case 3:
		return time.Date(Pick(r, 0, 1, 9999, 1969, 2024), 12, 31, 23, 59, 59, Pick(r, 0, 1, 999999999, 100000000, 120), time.UTC)
	}
	return time.Unix(int64(r.IntN(2000000000)), 0).In(time.FixedZone("", 3600*(r.IntN(20)-10)))
}

// BadTime returns a time that RFC 3339 cannot represent.
func BadTime(r *rand.Rand) time.Time {
	switch r.IntN(3) {
	case 0:
		return time.Date(10000+r.IntN(50000), 1, 1, 0, 0, 0, 0, time.UTC)
	case 1:
		return time.Date(-1-r.IntN(5000), 1, 1, 0, 0, 0, 0, time.UTC)
	}
	return time.Date(2020, 1, 1, 0, 0, 0, 0, time.FixedZone("far", Pick(r, 24*3600, 25*3600, -24*3600, -30*3600)))
}

// HardNumber returns a number next to where results change: half way between
// two adjacent floats, at the ends of the ranges of the types, or spelled with
// very many digits.
func HardNumber(r *rand.Rand) string {
	sign := Pick(r, "", "", "-")
	switch r.IntN(6) {
	case 0, 1: // between two float32
		b := r.Uint32() & 0x7fffffff
		switch r.IntN(6) {
		case 0:
			b = 0x7f7fffff // the greatest
		case 1:
			b = r.Uint32N(4) // the smallest
		case 2:
			b = 0x3f800000 + r.Uint32N(1<<25) // not far from 1
		}
		if b >= 0x7f800000 {
			b &= 0x7effffff
		}
		// Exactly, also for the greatest of them.
		f := new(big.Float).SetPrec(200).SetFloat64(float64(math.Float32frombits(b)))
		var half *big.Float
		if b == 0x7f7fffff {
			half = big.NewFloat(math.Ldexp(1, 127-24))
		} else {
			half = big.NewFloat((float64(math.Float32frombits(b+1)) - float64(math.Float32frombits(b))) / 2)
		}
		return sign + nudge(r, f.Add(f, half))
	case 2: // between two float64
		b := r.Uint64() & (1<<63 - 1)
		switch r.IntN(6) {
		case 0:
			b = 0x7fefffffffffffff
		case 1:
			b = r.Uint64N(4)
		case 2:
			b = 0x3ff0000000000000 + r.Uint64N(1<<55)
		}
		if b >= 0x7ff0000000000000 {
			b &= 0x7fdfffffffffffff
		}
		f := new(big.Float).SetPrec(2300).SetFloat64(math.Float64frombits(b))
		exp := int(b>>52) - 1075
		if exp < -1074 {
			exp = -1074
		}
		half := new(big.Float).SetPrec(2300).SetMantExp(big.NewFloat(1), exp-1)
		return sign + nudge(r, f.Add(f, half))
	case 3: // the ends of the ranges of integers, and a little beyond
		n := new(big.Int).Lsh(big.NewInt(1), uint(Pick(r, 7, 8, 15, 16, 24, 31, 32, 53, 63, 64, 65)))
		n.Add(n, big.NewInt(int64(r.IntN(5)-2)))
		return sign + n.String() + Pick(r, "", "", "", "", ".0", "e0", "0")
	case 4: // very many digits
		digits := func(n int) string {
			b := make([]byte, n)
			for i := range b {
				b[i] = byte('0' + r.IntN(10))
			}
			return string(b)
		}
		switch r.IntN(4) {
		case 0:
			return sign + "0." + strings.Repeat("0", r.IntN(400)) + digits(1+r.IntN(30))
		case 1:
			return sign + "1" + digits(r.IntN(330))
		case 2:
			return sign + "1" + strings.Repeat("0", r.IntN(330)) + "." + digits(1+r.IntN(20)) + Pick(r, "", "e-300", "e-5", "E+2")
		}
		return sign + strconv.Itoa(1+r.IntN(9)) + "." + digits(1+r.IntN(800))
	}
	// exponents
	return sign + Pick(r, "0", "1", "4.9", "9.99", "10", "1.7976931348623157", "2.2250738585072014", "3.4028234663852886", "0.00001") +
		Pick(r, "e", "E", "e+", "E-", "e-") + Pick(r, "", "0", "000") + Pick(r, "0", "1", "5", "6", "7", "20", "21", "22", "37", "38", "39", "44", "45", "46", "307", "308", "309", "323", "324", "325", "1000", "99999999999999999999")
}

// nudge writes f exactly, or as a number a little greater or smaller.
func nudge(r *rand.Rand, f *big.Float) string {
	s := f.Text('e', 800)
	m, e, _ := strings.Cut(s, "e")
	m = strings.TrimRight(m, "0")
	if strings.HasSuffix(m, ".") {
		m += "0"
	}
	switch r.IntN(3) {
	case 0:
		m += strings.Repeat("0", r.IntN(40)) + "1"
	case 1:
		if i := len(m) - 1; m[i] >= '1' {
			m = m[:i] + string(m[i]-1) + strings.Repeat("9", 1+r.IntN(40))
		}
	}
	return m + "e" + e
}
