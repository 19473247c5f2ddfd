// Package gen draws Go types, values and options with rapid.
package gen

import (
	"math"
	"math/bits"

	"pgregory.net/rapid"
)

var (
	gBool = rapid.Bool()
	gU64  = rapid.Uint64()
)

// Bool is a fair coin.
func Bool(t *rapid.T) bool { return gBool.Draw(t, "") }

// Bits draws n uniform bits.
func Bits(t *rapid.T, n int) uint64 {
	var u uint64
	for i := 0; i < n; i++ {
		u <<= 1
		if gBool.Draw(t, "") {
			u |= 1
		}
	}
	return u
}

// Pick draws an index below n, uniformly, shrinking to 0.
func Pick(t *rapid.T, n int) int {
	if n <= 1 {
		return 0
	}
	k := bits.Len(uint(n - 1))
	for i := 0; ; i++ {
		u := int(Bits(t, k))
		if u < n {
			return u
		}
		if i == 20 {
			return u % n
		}
	}
}

// Chance is true with a probability of pct percent, shrinking to false.
func Chance(t *rapid.T, pct int) bool {
	if pct <= 0 {
		return false
	}
	if pct >= 100 {
		return true
	}
	return Bits(t, 7)*100 >= uint64(100-pct)*128
}

// Weighted draws an index according to the weights.
func Weighted(t *rapid.T, w ...int) int {
	tot := 0
	for _, x := range w {
		tot += x
	}
	u := Pick(t, tot)
	for i, x := range w {
		if u < x {
			return i
		}
		u -= x
	}
	return 0
}

// Of draws an element of s.
func Of[T any](t *rapid.T, s []T) T { return s[Pick(t, len(s))] }

// Size draws a small size with a tail up to max.
func Size(t *rapid.T, max int) int {
	n := 0
	switch Weighted(t, 24, 12, 4, 2, 1) {
	case 4:
		n = max1(DictLen(t, max), max)
	case 0:
		n = Pick(t, 4)
	case 1:
		n = Pick(t, 10)
	case 2:
		n = Pick(t, 40)
	default:
		n = Pick(t, max+1)
	}
	if n > max {
		n = max
	}
	return n
}

func max1(n, max int) int {
	if n < 0 {
		return 0
	}
	if n > max {
		return max
	}
	return n
}

// Uint64 draws an integer with edge cases.
func Uint64(t *rapid.T) uint64 {
	switch Weighted(t, 4, 2, 2, 2, 1, 1) {
	case 5:
		return uint64(DictInt(t))
	case 0:
		return uint64(Pick(t, 16))
	case 1:
		return gU64.Draw(t, "")
	case 2: // around powers of two
		return uint64(1)<<Pick(t, 64) + uint64(Pick(t, 5)) - 2
	case 3: // around powers of ten
		u := uint64(1)
		for i := Pick(t, 20); i > 0; i-- {
			u *= 10
		}
		return u*uint64(1+Pick(t, 9)) + uint64(Pick(t, 5)) - 2
	default:
		return Bits(t, 64)
	}
}

// Int64 draws a signed integer with edge cases.
func Int64(t *rapid.T) int64 {
	u := int64(Uint64(t))
	if Bool(t) {
		return -u
	}
	return u
}

// Float64 draws a finite float64 (NaN and infinities with special).
func Float64(t *rapid.T, special bool) float64 {
	var f float64
	switch Weighted(t, 4, 3, 3, 2, 2, 2, 1) {
	case 6:
		f = float64(DictInt(t)) * Of(t, []float64{1, 1, 0.5, 0.1, 1e-9, 1e9, 3})
	case 0:
		f = float64(Pick(t, 100)) / float64(1+Pick(t, 9))
	case 1:
		f = float64(Int64(t))
	case 2:
		f = math.Float64frombits(Bits(t, 64))
	case 3: // around the format thresholds
		f = Of(t, []float64{1e-6, 1e21, 1e-7, 1e20, 1e22, 9.999999e-7, 1e-5, 1e-9, 1e-10, 1e-99, 1e-100, 1e300})
		for i := Pick(t, 8) - 4; i > 0; i-- {
			f = math.Nextafter(f, math.Inf(2*Pick(t, 2)-1))
		}
	case 4:
		f = float64(1+Pick(t, 999)) * math.Pow10(Pick(t, 640)-330)
	case 5:
		f = Of(t, []float64{0, math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32, 1 << 53, 0x1p-1022})
	}
	if Bool(t) {
		f = -f
	}
	if special && Bool(t) {
		return Of(t, []float64{math.NaN(), math.Inf(1), math.Inf(-1)})
	}
	if math.IsNaN(f) || math.IsInf(f, 0) {
		f = 1.5
	}
	return f
}

// Float32 is like Float64 for float32 values.
func Float32(t *rapid.T, special bool) float32 {
	var f float32
	switch Weighted(t, 4, 3, 3) {
	case 0:
		f = float32(Float64(t, special))
	case 1:
		f = math.Float32frombits(uint32(Bits(t, 32)))
	case 2:
		f = Of(t, []float32{1e-6, 1e21, 1e-7, 1e20, 1e22, math.MaxFloat32, math.SmallestNonzeroFloat32, 1 << 24})
		for i := Pick(t, 8) - 4; i > 0; i-- {
			f = math.Nextafter32(f, float32(math.Inf(2*Pick(t, 2)-1)))
		}
	}
	if special && Bool(t) {
		return Of(t, []float32{float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1))})
	}
	if f != f || math.IsInf(float64(f), 0) {
		f = 1.5
	}
	return f
}

// chunks of which strings are made.
var chunks = []string{
	"a", "b", "k", "Z", "0", "9", " ", "/", "'", "é", "日本", "😀", "\u2028", "\u2029", "\u2027", "\u202a",
	`"`, `\`, "<", ">", "&", "\n", "\r", "\t", "\b", "\f", "\x00", "\x1f", "\x7f", "\u0080", "\ufffd", "\ufeff",
	"\u1028", "\u3029", "\u2068", "\u20a9", "\u2128", "\x80\xa8",
	"\xff", "\x80", "\xc3", "\xe2\x80", "\xe2", "\xed\xa0\x80", "\xf0\x9f\x98", "\xc0\xaf", "\xf4\x90\x80\x80", "\xe2\x80\xa7",
	"abcdefghijklmnop", "null", "true", ",", ":", "{", "}", "[", "]", `\u0041`, `\"`,
}

// near2028 draws a character whose encoding shares bytes with those of U+2028
// and U+2029.
func near2028(t *rapid.T) string {
	b := []byte("\u2028")
	b[2] += byte(Pick(t, 2))
	switch Pick(t, 4) {
	case 0:
		b[0] = 0xe1 + byte(Pick(t, 12))
	case 1:
		b[1] = 0x80 + byte(Pick(t, 64))
	case 2:
		b[2] = 0x80 + byte(Pick(t, 64))
	default:
		b[Pick(t, 3)] ^= 1 << Pick(t, 8)
		for i, c := range b {
			if c < 0x20 || c == '"' || c == '\\' {
				b[i] = 'z'
			}
		}
	}
	return string(b)
}

// String draws a string; valid restricts it to valid UTF-8.
func String(t *rapid.T, valid bool) string {
	switch Weighted(t, 5, 6, 2, 2, 1) {
	case 0:
		return Of(t, []string{"", "a", "b", "ab", "key", "x y", "A", "0", "k1", "k2", "k3"})
	case 1:
		n := Size(t, 60)
		b := make([]byte, 0, 4*n)
		dict := Chance(t, 20)
		for i := 0; i < n; i++ {
			c := Of(t, chunks)
			if dict && Bool(t) {
				c = DictStr(t)
			} else if Chance(t, 4) {
				c = near2028(t)
			}
			if valid && !validUTF8(c) {
				c = "v"
			}
			b = append(b, c...)
		}
		return string(b)
	case 2:
		n := Size(t, 60)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(Bits(t, 8))
			if valid {
				b[i] &= 0x7f
			}
		}
		return string(b)
	case 3: // runes
		n := Size(t, 20)
		r := make([]rune, n)
		for i := range r {
			r[i] = rune(Bits(t, 1+Pick(t, 21)))
			if Chance(t, 10) {
				r[i] = rune(DictInt(t))
			}
		}
		return string(r) // invalid runes become U+FFFD
	default: // long runs of plain bytes with a special chunk at a random offset
		e := Pick(t, 14)
		if Chance(t, 4) {
			e = 14 + Pick(t, 5)
		}
		n := 1 << e
		n += Pick(t, 9) - 4
		if Chance(t, 25) {
			n = DictLen(t, 1<<14)
			if Chance(t, 5) {
				n = DictLen(t, 1<<17)
			}
		}
		if n < 0 {
			n = 0
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = 'a' + byte(i%26)
		}
		s := string(b)
		if Bool(t) && n > 0 {
			i := Pick(t, n)
			c := Of(t, chunks)
			if valid && !validUTF8(c) {
				c = "v"
			}
			s = s[:i] + c + s[i:]
		}
		return s
	}
}
