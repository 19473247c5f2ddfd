package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/wI2L/jettison"
	"pgregory.net/rapid"

	"jverif/gen"
	"jverif/lib"
	"jverif/ref"
)

// strPos has a string in every position.
type strPos struct {
	V string
	O string `json:",omitempty"`
	Q string `json:",string"`
	P *string
	I any
	M map[string]gen.NStr
	K map[lib.RawT]int
	T lib.RawT
	U *lib.RawT
	B []byte
	N gen.NNBytes
	L []string
	J any
}

func newStrPos(s string) *strPos {
	u := lib.RawT(s)
	return &strPos{V: s, O: s, Q: s, P: &s, I: s, M: map[string]gen.NStr{s: gen.NStr(s)}, K: map[lib.RawT]int{u: 1}, T: u, U: &u, B: []byte(s), N: gen.NNBytes(s), L: []string{s, "", s}, J: u}
}

func hexStr(s string) string { return fmt.Sprintf("%q", s) }

// checkStr checks a string with options.
func checkStr(t tb, s string, html, coerce bool) {
	want := `"` + ref.Escape(s, html, coerce) + `"`
	var opts []jettison.Option
	if !html {
		opts = append(opts, jettison.NoHTMLEscaping())
	}
	if !coerce {
		opts = append(opts, jettison.NoUTF8Coercion())
	}
	got, err, pan := call(func() ([]byte, error) { return jettison.MarshalOpts(s, opts...) })
	if pan != "" || err != nil || string(got) != want {
		failT(t, "string %s with html=%v coerce=%v: got %s, want %s (error %v) %s", hexStr(s), html, coerce, got, want, err, pan)
	}
	if html && coerce {
		std, err := json.Marshal(s)
		if err != nil || !bytes.Equal(normBF(std), normBF([]byte(want))) {
			harness("escape of %q: std %s, ref %s", s, std, want)
		}
	}
}

// TestC09: string escaping.
func TestC09(t *testing.T) {
	run(t, func(t *rapid.T) {
		s := gen.String(t, false)
		o := gen.None()
		for _, f := range []string{"NoHTMLEscaping", "NoStringEscaping", "NoUTF8Coercion", "RawByteSlice", "ByteArrayAsString"} {
			if gen.Chance(t, map[string]int{"NoStringEscaping": 20, "RawByteSlice": 75, "ByteArrayAsString": 75}[f]+25*b2i(f[:3] == "NoH" || f[:3] == "NoU")) {
				o.Add(gen.FlagByName(f))
			}
		}
		if len(s) > 3000 {
			s = s[:3000]
		}
		v := newStrPos(s)
		if len(s) <= 24 && gen.Chance(t, 50) { // as an array of bytes
			a := reflect.New(reflect.ArrayOf(len(s), reflect.TypeOf(byte(0)))).Elem()
			reflect.Copy(a, reflect.ValueOf([]byte(s)))
			v.J = a.Interface()
			if gen.Bool(t) {
				v.I = []any{a.Addr().Interface(), a.Interface(), map[string]any{s: a.Interface()}}
			}
		}
		mode := 0
		if len(o.Opts) == 0 {
			mode = withStd
		}
		var c *tc
		if gen.Chance(t, 70) {
			c = newCase(t, reflect.TypeOf(*v), reflect.ValueOf(v).Elem(), o)
		} else {
			c = newCase(t, reflect.TypeOf(s), reflect.ValueOf(&s).Elem(), o)
		}
		if c.judge(mode) && s != "" && (strconv.Quote(s) != `"`+s+`"` || len(s) > 200 || strings.ContainsAny(s, "<>&")) {
			nontrivial(hash(s, o, c.Type), func() string { return fmt.Sprintf("string %.300q options %v in %s", s, o, c.Type) })
		}
	})
	if t.Failed() || failFile != "" {
		return
	}
	combos := []struct{ html, coerce bool }{{true, true}, {false, true}, {true, false}, {false, false}}
	n := int64(0)
	// every code point, at several alignments
	for r := rune(shard * 64); r <= 0x10ffff; r += rune(64 * nShards) {
		var sb strings.Builder
		sb.WriteString("xyzw"[:int(r/64)%5])
		for i := rune(0); i < 64; i++ {
			sb.WriteRune(r + i)
		}
		for _, c := range combos {
			checkStr(t, sb.String(), c.html, c.coerce)
			n++
		}
	}
	// every pair of bytes, and boundary sequences of three and four, whole and truncated
	for a := shard; a < 256; a += nShards {
		for b := 0; b < 256; b++ {
			c := combos[(a+b)%4]
			p := string([]byte{byte(a), byte(b)})
			checkStr(t, p, true, true)
			checkStr(t, "a"+p+"b", c.html, c.coerce)
			n += 2
			if a < 0xc0 {
				continue
			}
			for _, x := range []byte{0x00, 'a', 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xa7, 0xa8, 0xa9, 0xaa, 0xbf, 0xc0, 0xe2, 0xff} {
				q := p + string([]byte{x})
				checkStr(t, q, c.html, c.coerce)
				n++
				if a >= 0xf0 && b >= 0x80 && b < 0xc0 {
					for _, y := range []byte{'<', 0x7f, 0x80, 0xa8, 0xbf, 0xc0} {
						checkStr(t, q+string([]byte{y}), c.html, c.coerce)
						n++
					}
				}
			}
		}
	}
	// special characters at every offset of runs of plain characters
	for l := shard; l < 130; l += nShards {
		for _, sp := range []string{"\"", "\\", "\n", "<", "\x00", "\xff", "\u2028", "é", "\x7f", "\xe2\x80"} {
			for i := 0; i <= l; i++ {
				s := strings.Repeat("p", i) + sp + strings.Repeat("q", l-i)
				c := combos[(l+i)%4]
				checkStr(t, s, c.html, c.coerce)
				n++
			}
		}
	}
	evalN(n)
	sweep(t, sizesC09)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

type numPos[T any] struct {
	V  T
	Q  T  `json:",string"`
	P  *T `json:",string"`
	I  any
	A  [2]T
	S  []T
	M  map[string]T
	PP **T
}

func numCase[T any](x T) (reflect.Type, reflect.Value) {
	p := &x
	v := &numPos[T]{V: x, Q: x, P: &x, I: x, A: [2]T{x, x}, S: []T{x}, M: map[string]T{"k": x}, PP: &p}
	return reflect.TypeOf(*v), reflect.ValueOf(v).Elem()
}

type intKeys struct {
	I   map[int]int
	I8  map[int8]int
	I16 map[int16]int
	I32 map[int32]int
	I64 map[int64]int
	U   map[uint]int
	U8  map[uint8]int
	U16 map[uint16]int
	U32 map[uint32]int
	U64 map[uint64]int
	UP  map[uintptr]int
}

type allNums struct {
	I   int
	I8  int8
	I16 int16
	I32 int32
	I64 int64
	U   uint
	U8  uint8
	U16 uint16
	U32 uint32
	U64 uint64
	UP  uintptr
	F32 float32
	F64 float64
}

// TestC10: numbers.
func TestC10(t *testing.T) {
	run(t, func(t *rapid.T) {
		switch gen.Weighted(t, 4, 3, 2) {
		case 0:
			numbersBatch(t)
		case 1:
			jsonNumber(t)
		default:
			u := gen.Uint64(t)
			i := gen.Int64(t)
			k := &intKeys{map[int]int{int(i): 1}, map[int8]int{int8(i): 1}, map[int16]int{int16(i): 1, 0: 2}, map[int32]int{int32(i): 1}, map[int64]int{i: 1, -1: 0},
				map[uint]int{uint(u): 1}, map[uint8]int{uint8(u): 1}, map[uint16]int{uint16(u): 1}, map[uint32]int{uint32(u): 1}, map[uint64]int{u: 1}, map[uintptr]int{uintptr(u): 1}}
			c := newCase(t, reflect.TypeOf(*k), reflect.ValueOf(k).Elem(), gen.None())
			if c.judge(withStd) {
				nontrivial(hash(u, i), c.short)
			}
		}
	})
	if t.Failed() || failFile != "" {
		return
	}
	enumNumbers(t)
	sweep(t, sizesC10)
}

func numbersBatch(t *rapid.T) {
	var (
		typ reflect.Type
		v   reflect.Value
	)
	special := gen.Chance(t, 6)
	switch gen.Pick(t, 10) {
	case 0:
		typ, v = numCase(gen.Float64(t, special))
	case 1:
		typ, v = numCase(gen.Float32(t, special))
	case 2:
		typ, v = numCase(gen.Int64(t))
	case 3:
		typ, v = numCase(gen.Uint64(t))
	case 4:
		typ, v = numCase(int8(gen.Int64(t)))
	case 5:
		typ, v = numCase(uint16(gen.Uint64(t)))
	case 6:
		typ, v = numCase(gen.NF32(gen.Float32(t, special)))
	default:
		u, i := gen.Uint64(t), gen.Int64(t)
		x := &allNums{int(i), int8(i), int16(i), int32(i), i, uint(u), uint8(u), uint16(u), uint32(u), u, uintptr(u), gen.Float32(t, false), gen.Float64(t, false)}
		typ, v = reflect.TypeOf(*x), reflect.ValueOf(x).Elem()
	}
	c := newCase(t, typ, v, gen.None())
	if c.judge(withStd|withErr) && (c.Err != nil || len(c.Got) > 60) {
		nontrivial(hash(typ, c.Got, c.Err), c.short)
	}
}

func mutate(t *rapid.T, s string) string {
	for i := 1 + gen.Pick(t, 2); i > 0; i-- {
		k := gen.Pick(t, len(s)+1)
		c := gen.Of(t, []string{"", "0", "1", "9", "-", "+", ".", "e", "E", " ", "\"", "x", "\x00", "٣", "_", ",", "i", "n"})
		switch gen.Pick(t, 3) {
		case 0:
			s = s[:k] + c + s[k:]
		case 1:
			if k < len(s) {
				s = s[:k] + c + s[k+1:]
			}
		default:
			s = s[:k]
		}
	}
	return s
}

func jsonNumber(t *rapid.T) {
	s := gen.Number(t, gen.Chance(t, 20))
	if gen.Chance(t, 60) {
		s = mutate(t, s)
	}
	o := gen.None()
	if gen.Chance(t, 25) {
		o.Add(gen.FlagByName("NoNumberValidation"))
	}
	x := json.Number(s)
	px := &x
	type pos struct {
		V json.Number
		P *json.Number
		Q json.Number `json:",string"`
		E json.Number `json:",omitempty"`
		I any
		S []json.Number
		M map[string]json.Number
		K map[json.Number]int
	}
	v := &pos{x, px, x, x, x, []json.Number{x}, map[string]json.Number{"": x}, map[json.Number]int{x: 1}}
	var c *tc
	switch gen.Pick(t, 3) {
	case 0:
		c = newCase(t, reflect.TypeOf(*v), reflect.ValueOf(v).Elem(), o)
	case 1: // as a key only
		m := map[json.Number]int{x: 1}
		c = newCase(t, reflect.TypeOf(m), reflect.ValueOf(&m).Elem(), o)
	default:
		c = newCase(t, reflect.TypeOf(x), reflect.ValueOf(px).Elem(), o)
	}
	mode := 0
	if len(o.Opts) == 0 {
		mode = withStd
	}
	if c.judge(mode) {
		nontrivial(hash(s, c.Type, o), func() string { return fmt.Sprintf("json.Number(%q) options %v in %s: error %v", s, o, c.Type, c.Err) })
		if c.Err != nil {
			count("invalid numbers")
		}
	}
}

// enumNumbers checks batches of numbers against strconv.
func enumNumbers(t *testing.T) {
	n := int64(0)
	check := func(v any, want string) {
		got, err, pan := call(func() ([]byte, error) { return jettison.Marshal(v) })
		if pan != "" || err != nil || string(got) != want {
			g, w := strings.Split(strings.Trim(string(got), "[]"), ","), strings.Split(strings.Trim(want, "[]"), ",")
			for i := range w {
				if i >= len(g) || g[i] != w[i] {
					x := "nothing"
					if i < len(g) {
						x = g[i]
					}
					failT(t, "element %d of a %T: got %s, want %s (error %v) %s", i, v, x, w[i], err, pan)
				}
			}
			failT(t, "%T: got %.300s, want %.300s (error %v) %s", v, got, want, err, pan)
		}
	}
	r := rng(seed)
	rounds := 60
	if thorough {
		rounds = 1200
	}
	if shard == 0 {
		i8, u8, i16, u16 := []int8{}, []gen.NByte{}, []int16{}, []uint16{}
		var w [4][]string
		for i := -1 << 15; i < 1<<15; i++ {
			i16, u16 = append(i16, int16(i)), append(u16, uint16(i))
			w[2], w[3] = append(w[2], strconv.Itoa(i)), append(w[3], strconv.Itoa(int(uint16(i))))
			if i >= -128 && i < 128 {
				i8, u8 = append(i8, int8(i)), append(u8, gen.NByte(i))
				w[0], w[1] = append(w[0], strconv.Itoa(i)), append(w[1], strconv.Itoa(int(uint8(i))))
			}
		}
		a8 := [256]gen.NByte{}
		copy(a8[:], u8)
		check(i8, "["+strings.Join(w[0], ",")+"]")
		check(a8, "["+strings.Join(w[1], ",")+"]")
		check(i16, "["+strings.Join(w[2], ",")+"]")
		check(u16, "["+strings.Join(w[3], ",")+"]")
		n += 2*256 + 2*65536
	}
	for round := 0; round < rounds; round++ {
		var (
			f64 []float64
			f32 []float32
			i64 []int64
			u64 []uint64
			i32 []int32
			u32 []uint32
			w   [6][]string
		)
		for i := 0; i < 400; i++ {
			u := r.next()
			f := math.Float64frombits(u)
			switch i % 4 {
			case 1: // around a power of ten
				f = math.Pow10(r.n(620) - 310)
				f = math.Float64frombits(math.Float64bits(f) + uint64(r.n(5)) - 2)
			case 2: // few digits
				f = float64(r.n(100000)) * math.Pow10(r.n(60)-30)
			case 3: // big integers
				f = float64(int64(u)) * math.Pow10(r.n(6))
			}
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				f64 = append(f64, f)
				w[0] = append(w[0], ref.Float(f, 64))
			}
			g := math.Float32frombits(uint32(u >> 7))
			if i%2 == 1 {
				g = float32(f)
			}
			if g == g && !math.IsInf(float64(g), 0) {
				f32 = append(f32, g)
				w[1] = append(w[1], ref.Float(float64(g), 32))
			}
			u = r.next() >> r.n(64)
			if i%3 == 0 { // around a power of ten or two
				u = uint64(math.Pow10(r.n(20))) + uint64(r.n(5)) - 2
			}
			i64, u64, i32, u32 = append(i64, int64(u)), append(u64, u), append(i32, int32(u)), append(u32, uint32(u))
			w[2], w[3], w[4], w[5] = append(w[2], strconv.FormatInt(int64(u), 10)), append(w[3], strconv.FormatUint(u, 10)), append(w[4], strconv.Itoa(int(int32(u)))), append(w[5], strconv.FormatUint(uint64(uint32(u)), 10))
		}
		for i, v := range []any{f64, f32, i64, u64, i32, u32} {
			check(v, "["+strings.Join(w[i], ",")+"]")
			n += int64(len(w[i]))
		}
		if round%8 == 0 {
			for _, v := range []any{f64, f32} {
				std, err := json.Marshal(v)
				b, err2 := jettison.Marshal(v)
				if err != nil || err2 != nil || !bytes.Equal(std, b) {
					failT(t, "%T differs from encoding/json\n%s", v, diff(b, std))
				}
			}
			for i, f := range f64 { // exactness, independently of strconv's shortest search
				x, err := strconv.ParseFloat(w[0][i], 64)
				if err != nil || x != f {
					harness("%s does not parse back to %v", w[0][i], f)
				}
			}
		}
	}
	// every byte at every position of some numbers
	one := func(s string) {
		n++
		x := json.Number(s)
		got, err, pan := call(func() ([]byte, error) { return jettison.Marshal(x) })
		if pan != "" || (err == nil) != ref.ValidNumber(s) || err == nil && string(got) != s {
			failT(t, "json.Number(%q): got %q, error %v %s", s, got, err, pan)
		}
	}
	for i, s := range []string{"0", "-0", "7", "-12", "1.5", "-10.25", "1e5", "1E+5", "2e-12", "-3.04E-7", "0.0e0", "1e", "1.", "-"} {
		if i%nShards != shard {
			continue
		}
		for k := 0; k <= len(s); k++ {
			for b := 0; b < 256; b++ {
				one(s[:k] + string([]byte{byte(b)}) + s[k:])
				if k < len(s) {
					one(s[:k] + string([]byte{byte(b)}) + s[k+1:])
				}
			}
		}
	}
	// every string of up to 5 characters of the number alphabet
	alpha := "01-.eE+"
	var rec func(s string)
	rec = func(s string) {
		if int(hash(s)%uint64(nShards)) == shard {
			x := json.Number(s)
			got, err, pan := call(func() ([]byte, error) { return jettison.Marshal(x) })
			want := s
			if s == "" {
				want = "0"
			}
			valid := ref.ValidNumber(want)
			if _, e := json.Marshal(x); (e == nil) != valid {
				harness("number %q: std %v, grammar %v", s, e, valid)
			}
			if pan != "" || (err == nil) != valid || (valid && string(got) != want) {
				failT(t, "json.Number(%q): got %s, error %v, valid %v %s", s, got, err, valid, pan)
			}
			n++
		}
		if len(s) < 5 {
			for _, c := range alpha {
				rec(s + string(c))
			}
		}
	}
	rec("")
	evalN(n)
}

type timePos struct {
	V time.Time
	O time.Time `json:",omitempty"`
	Q time.Time `json:",string"`
	P *time.Time
	I any
	J any
	S []time.Time
	M map[string]time.Time
	K map[time.Time]int
	A [1]time.Time
}

// TestC11: times.
func TestC11(t *testing.T) {
	run(t, func(t *rapid.T) {
		bad := gen.Chance(t, 6)
		x := gen.Instant(t, bad)
		if gen.Chance(t, 10) {
			x = time.Unix(int64(gen.Bits(t, 38)), int64(gen.Pick(t, 1000))).In(x.Location())
			if x.Year() > 9999 {
				x = time.Unix(0, 0)
			}
		}
		if gen.Chance(t, 4) {
			x = time.Now().Round(0).Add(time.Duration(gen.Pick(t, 1000)))
		}
		o := gen.None()
		if gen.Chance(t, 55) {
			o.AddLayout(layout(t))
		}
		for _, f := range []string{"UnixTime", "NoHTMLEscaping", "NoStringEscaping", "NoUTF8Coercion", "UnsortedMap"} {
			if gen.Chance(t, 15) {
				o.Add(gen.FlagByName(f))
			}
		}
		var c *tc
		px := &x
		switch gen.Pick(t, 5) {
		case 0:
			c = newCase(t, reflect.TypeOf(x), reflect.ValueOf(px).Elem(), o)
		case 1:
			c = newCase(t, reflect.TypeOf(px), reflect.ValueOf(&px).Elem(), o)
		case 2:
			m := map[time.Time]int{x: 1}
			if gen.Bool(t) {
				m[x.Add(time.Hour).UTC()] = 2
			}
			c = newCase(t, reflect.TypeOf(m), reflect.ValueOf(&m).Elem(), o)
		default:
			v := &timePos{x, x, x, px, x, px, []time.Time{x, x}, map[string]time.Time{"": x}, map[time.Time]int{x: 1}, [1]time.Time{x}}
			c = newCase(t, reflect.TypeOf(*v), reflect.ValueOf(v).Elem(), o)
		}
		mode := withErr
		if len(o.Opts) == 0 {
			mode |= withStd
		}
		if c.judge(mode) {
			nontrivial(hash(x.String(), o, c.Type), func() string { return fmt.Sprintf("%v options %v in %s: %.200s %v", x, o, c.Type, c.Got, c.Err) })
		}
	})
	if t.Failed() || failFile != "" {
		return
	}
	// every day of the years 0 to 9999
	n := int64(0)
	zones := []*time.Location{time.UTC, time.FixedZone("", 3600), time.FixedZone("", -12600), time.UTC, time.FixedZone("", 30)}
	r := rng(seed)
	for y := shard; y <= 9999; y += nShards {
		ts := make([]time.Time, 0, 366)
		want := make([]byte, 0, 16384)
		want = append(want, '[')
		d := time.Date(y, 1, 1, 0, 0, 0, 0, zones[y%len(zones)])
		for i := 0; d.Year() == y; i++ {
			x := d.Add(time.Duration(r.n(86400))*time.Second + time.Duration(r.n(3)*r.n(1000000000)))
			if x.Year() != y {
				x = d
			}
			ts = append(ts, x)
			want = append(want, '"')
			want = x.AppendFormat(want, time.RFC3339Nano)
			want = append(want, '"', ',')
			d = d.AddDate(0, 0, 1)
			n++
		}
		want[len(want)-1] = ']'
		got, err, pan := call(func() ([]byte, error) { return jettison.Marshal(ts) })
		if pan != "" || err != nil || !bytes.Equal(got, want) {
			failT(t, "times of the year %d: error %v %s\n%s", y, err, pan, diff(got, want))
		}
	}
	// every transition of the locations, and the times on both sides of it
	for i := shard; i < len(gen.Locations); i += nShards {
		var ts []time.Time
		for x := time.Date(1800, 1, 1, 0, 0, 0, 0, gen.Locations[i]); x.Year() < 2200; {
			_, end := x.ZoneBounds()
			if end.IsZero() || len(ts) > 5000 {
				break
			}
			if !end.After(x) { // the end of a leap year is taken for one
				x = x.Add(24 * time.Hour)
				continue
			}
			for _, d := range []time.Duration{-1, -time.Second, 0, time.Second, time.Hour} {
				ts = append(ts, end.Add(d))
			}
			x = end
		}
		n += int64(len(ts))
		for _, lay := range []string{"", time.RFC3339, time.RFC3339Nano, time.RFC1123Z, time.UnixDate} {
			var o []jettison.Option
			want, f := []byte("["), time.RFC3339Nano
			if lay != "" {
				o, f = append(o, jettison.TimeLayout(lay)), lay
			}
			for j, x := range ts {
				if j > 0 {
					want = append(want, ',')
				}
				want = append(x.AppendFormat(append(want, '"'), f), '"')
			}
			want = append(want, ']')
			if len(ts) == 0 {
				want = []byte("null")
			}
			got, err, pan := call(func() ([]byte, error) { return jettison.MarshalOpts(ts, o...) })
			if pan != "" || err != nil || !bytes.Equal(got, want) {
				failT(t, "transitions of %v with layout %q: error %v %s\n%s", gen.Locations[i], lay, err, pan, diff(got, want))
			}
		}
	}
	// every layout of the lists
	zones = append(zones, time.FixedZone("XYZ", -7*3600), time.FixedZone("", 5*3600+45*60), time.FixedZone("", -1800), time.FixedZone("", 3601))
	lays := append(append([]string{"\"", "\\"}, gen.Layouts...), gen.RFCLayouts...)
	for i := shard; i < len(lays); i += nShards {
		for j, z := range zones {
			for k, ns := range []int{0, 100000000, 123456789, 1, 999999999, 120000} {
				x := time.Date(1000+r.n(9000), time.Month(1+r.n(12)), 1+r.n(28), r.n(24), r.n(60), r.n(60), ns, z)
				if k == 0 && j%2 == 0 {
					x = time.Date(2006, 1, 2, r.n(2)*15, 0, 0, 0, z)
				}
				want := `"` + ref.Escape(x.Format(lays[i]), true, true) + `"`
				got, err, pan := call(func() ([]byte, error) { return jettison.MarshalOpts(x, jettison.TimeLayout(lays[i])) })
				if pan != "" || err != nil || string(got) != want {
					failT(t, "time %v with layout %q: got %s, want %s (error %v) %s", x, lays[i], got, want, err, pan)
				}
				n++
			}
		}
	}
	evalN(n)
	sweep(t, sizesC11)
}

// layout draws a layout.
func layout(t *rapid.T) string {
	switch gen.Weighted(t, 4, 4, 3) {
	case 0:
		return gen.Of(t, gen.Layouts)
	case 2:
		return gen.Of(t, gen.RFCLayouts)
	}
	s := ""
	for i := 1 + gen.Pick(t, 5); i > 0; i-- {
		s += gen.Of(t, []string{"2006", "06", "01", "Jan", "January", "1", "02", "_2", "2", "15", "03", "3", "04", "05", "PM", "pm", ".000", ".999", ".000000000", ",999999999", "MST", "Z07:00", "-0700", "Z070000", "-07:00:00", "Mon", "Monday", "002", " ", "-", ":", "T", "/", "\"", "\\", "<", "é", "\xff", "\n", "x", "07:00", "Z", "Z07:00:00"})
	}
	return s
}

type durPos struct {
	V time.Duration
	O time.Duration  `json:",omitempty"`
	Q time.Duration  `json:",string"`
	R *time.Duration `json:",string"`
	P *time.Duration
	I any
	S []time.Duration
	A [2]time.Duration
	M map[string]time.Duration
	K map[time.Duration]int
	N gen.NDur
	L map[gen.NDur]int
}

// TestC12: durations.
func TestC12(t *testing.T) {
	run(t, func(t *rapid.T) {
		x := gen.Duration(t)
		o := gen.None()
		if gen.Chance(t, 85) {
			o.AddDur(jettison.DurationFmt(gen.Pick(t, 6)))
		}
		for _, f := range []string{"UnixTime", "NoStringEscaping", "UnsortedMap", "NoUTF8Coercion", "NoHTMLEscaping"} {
			if gen.Chance(t, 8) {
				o.Add(gen.FlagByName(f))
			}
		}
		px := &x
		var c *tc
		switch gen.Pick(t, 4) {
		case 0:
			c = newCase(t, reflect.TypeOf(x), reflect.ValueOf(px).Elem(), o)
		case 1:
			m := map[time.Duration]string{x: "a", x / 3: "b", -x: "c"}
			c = newCase(t, reflect.TypeOf(m), reflect.ValueOf(&m).Elem(), o)
		default:
			v := &durPos{x, x, x, px, px, x, []time.Duration{x}, [2]time.Duration{x, 0}, map[string]time.Duration{"a": x}, map[time.Duration]int{x: 1}, gen.NDur(x), map[gen.NDur]int{gen.NDur(x): 2}}
			c = newCase(t, reflect.TypeOf(*v), reflect.ValueOf(v).Elem(), o)
		}
		mode := 0
		if len(o.Opts) == 0 {
			mode |= withStd
		}
		if c.judge(mode) {
			nontrivial(hash(int64(x), o, c.Type), func() string { return fmt.Sprintf("%d ns options %v in %s: %.200s", x, o, c.Type, c.Got) })
		}
	})
	if t.Failed() || failFile != "" {
		return
	}
	// bulk: random durations in every format against the methods of time.Duration
	r := rng(seed)
	rounds := 40
	if thorough {
		rounds = 1000
	}
	n := int64(0)
	fmts := []func(time.Duration) string{
		func(d time.Duration) string { return `"` + d.String() + `"` },
		func(d time.Duration) string { return ref.Float(d.Minutes(), 64) },
		func(d time.Duration) string { return ref.Float(d.Seconds(), 64) },
		func(d time.Duration) string { return strconv.FormatInt(d.Milliseconds(), 10) },
		func(d time.Duration) string { return strconv.FormatInt(d.Microseconds(), 10) },
		func(d time.Duration) string { return strconv.FormatInt(d.Nanoseconds(), 10) },
	}
	kinds := []jettison.DurationFmt{jettison.DurationString, jettison.DurationMinutes, jettison.DurationSeconds, jettison.DurationMilliseconds, jettison.DurationMicroseconds, jettison.DurationNanoseconds}
	for i := 0; i < rounds; i++ {
		ds := make([]time.Duration, 200)
		for j := range ds {
			d := int64(r.next()) >> r.n(64)
			switch j % 4 {
			case 1:
				d = int64(math.Pow10(r.n(19)))*int64(1+r.n(9)) + int64(r.n(3)) - 1
			case 2:
				d = int64(r.n(4000))*int64(time.Second)/int64(1+r.n(1000)) + int64(r.n(100))*int64(time.Hour)
			}
			if r.n(3) == 0 {
				d = -d
			}
			ds[j] = time.Duration(d)
		}
		for k, f := range fmts {
			w := make([]string, len(ds))
			for j, d := range ds {
				w[j] = f(d)
			}
			want := "[" + strings.Join(w, ",") + "]"
			got, err, pan := call(func() ([]byte, error) { return jettison.MarshalOpts(ds, jettison.DurationFormat(kinds[k])) })
			if pan != "" || err != nil || string(got) != want {
				failT(t, "durations with format %v: error %v %s\n%s", kinds[k], err, pan, diff(got, []byte(want)))
			}
			n += int64(len(ds))
		}
	}
	evalN(n)
}
