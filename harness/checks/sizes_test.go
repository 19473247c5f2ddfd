package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
	"unsafe"

	"github.com/wI2L/jettison"

	"jverif/gen"
	"jverif/lib"
	"jverif/ref"
)

// mode is how this program is built: plain, race, checkptr, 386, asan.
var mode = env("VERIF_MODE", "plain")

// sizes lists sizes at which programs tend to change their behaviour: around
// powers of two and ten, constants of the code under test, and some others.
// Each shard has its part of them.
func sizes(max int) []int {
	if mode != "plain" {
		max = min(max, 5000)
	}
	m := map[int]bool{}
	add := func(n int) {
		for d := -2; d <= 2; d++ {
			if n+d >= 0 && n+d <= max {
				m[n+d] = true
			}
		}
	}
	for p := 1; p <= max; p *= 2 {
		add(p)
	}
	for p := 1; p <= max; p *= 10 {
		add(p)
		add(5 * p)
	}
	for _, i := range gen.DictInts {
		if i >= 0 && i <= int64(max) {
			add(int(i))
		}
	}
	all := 24
	if thorough {
		all = 300
	}
	for i := 0; i < all; i++ {
		add(i)
	}
	r := rng(seedOfRun | 1)
	for k := 0; k < 8; k++ {
		add(r.n(max + 1))
	}
	var l []int
	for n := range m {
		l = append(l, n)
	}
	sort.Ints(l)
	var mine []int
	for i, n := range l {
		if i%nShards == shard {
			mine = append(mine, n)
		}
	}
	return mine
}

// hugeSizes lists the larger sizes of this shard, for what is cheap.
func hugeSizes() []int {
	if mode != "plain" {
		return nil
	}
	m := map[int]bool{}
	lo, hi := 1<<17+2, 1<<24+2
	for p := 1 << 18; p <= hi; p *= 2 {
		m[p-1], m[p+1] = true, true
	}
	for p := 1000000; p <= hi; p *= 10 {
		m[p+1] = true
	}
	for _, i := range gen.DictInts {
		if i > int64(lo) && i < int64(hi) {
			m[int(i)-1], m[int(i)], m[int(i)+1] = true, true, true
		}
	}
	r := rng(seedOfRun*3 | 1)
	for k := 0; k < 3; k++ {
		m[lo+r.n(hi-lo)/(1+r.n(20))] = true
	}
	var l, mine []int
	for n := range m {
		l = append(l, n)
	}
	sort.Ints(l)
	for i, n := range l {
		if i%nShards == shard {
			mine = append(mine, n)
		}
	}
	return mine
}

// hugeDoc judges one long document, well formed or not, in some position.
func hugeDoc(t *testing.T, n int, r *rng) {
	a := strings.Repeat("abcdefgh", n/8+1)[:n]
	pre := []string{"", "[", `{"k":`, ` `, "[ 1 , "}[r.n(5)]
	post := map[byte]string{'[': "]", '{': "}"}[(strings.TrimSpace(pre) + " ")[0]]
	for k, s := range []string{
		pre + `"` + a + `"` + post,
		pre + `"` + a + `<"` + post + "\n",
		pre + `"` + a + `"` + post + "x",
		pre + `"` + a + post,
		pre + strings.Repeat(`1, `, n/3) + "2" + post,
		pre + `"` + a + "\x01\"" + post,
	} {
		var buf bytes.Buffer
		cerr := json.Compact(&buf, []byte(s))
		want := ""
		if cerr == nil {
			want = ref.EscapeDoc(buf.String(), true)
		}
		var v any = json.RawMessage(s)
		switch (k + n) % 3 {
		case 0:
			v = lib.RawJ(s)
		case 1:
			if k > 1 {
				v = lib.RawJ(s)
			}
		}
		got, err, pan := call(func() ([]byte, error) { return jettison.Marshal(v) })
		if pan != "" || (err != nil) != (cerr != nil) || err == nil && string(got) != want {
			failT(t, "%T with a document of size %d, %.60q...%q: error %v, want error %v %s\n%s", v, n, s, s[len(s)-60:], err, cerr, pan, diff(got, []byte(want)))
		}
		evalN(1)
	}
}

// seedOfRun is the same in all the shards of a round.
var seedOfRun = uint64(envInt("VERIF_ROUND", 0)*1000 + envInt("VERIF_SEED", 1))

func (r *rng) text(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[i%36]
	}
	for k := r.n(4); k > 0 && n > 0; k-- {
		b[r.n(n)] = "<>&\"\\\n\x00\x7f\x1f "[r.n(10)]
	}
	return string(b)
}

// straddle returns a text of n plain bytes, or a few less, before a special
// sequence.
func (r *rng) straddle(n int) string {
	sp := []string{"é", "\u2028", "\u2029", "日", "😀", "\"", "\\", "<", "\n", "\xff", "\xe2\x80", "\xf0\x9f\x98", "\x00", "&>", "\ufffd", "\xc3\x28"}[r.n(16)]
	n -= r.n(4)
	if n < 0 {
		n = 0
	}
	tail := []string{"", "z", "tail", "é"}[r.n(4)]
	b := make([]byte, 0, n+16)
	for len(b) < n {
		b = append(b, "0123456789abcdef"[len(b)%16])
	}
	if r.n(3) == 0 && n > 4 { // another one before
		copy(b[r.n(n-3):], "é")
		b = []byte(strings.ToValidUTF8(string(b), "?"))
	}
	return string(b) + sp + tail
}

// builder makes values of a size.
type builder struct {
	name string
	max  int
	f    func(n int, r *rng) any
}

type szStruct struct {
	A string `json:",omitempty"`
	B *int
	C any `json:"c<"`
}

var builders = []builder{
	{"[]int", 1 << 17, func(n int, r *rng) any {
		s := make([]int, n)
		for i := range s {
			s[i] = i
		}
		return s
	}},
	{"array of bool", 1 << 17, func(n int, r *rng) any {
		a := reflect.New(reflect.ArrayOf(n, reflect.TypeOf(false)))
		for i := 0; i < 20 && n > 0; i++ {
			a.Elem().Index(r.n(n)).SetBool(true)
		}
		if r.n(2) == 0 {
			return a.Interface()
		}
		return a.Elem().Interface()
	}},
	{"[]string", 1 << 16, func(n int, r *rng) any {
		s := make([]string, n)
		for i := range s {
			s[i] = strconv.Itoa(i)
		}
		return s
	}},
	{"[]any", 1 << 16, func(n int, r *rng) any {
		s := make([]any, n)
		for i := range s {
			switch i % 5 {
			case 0:
				s[i] = i
			case 1:
				s[i] = &i
			case 2:
				s[i] = "x"
			case 3:
				s[i] = []int{i}
			}
		}
		return s
	}},
	{"map[int]int", 1 << 17, func(n int, r *rng) any {
		m := map[int]int{}
		for i := 0; i < n; i++ {
			m[i] = i
		}
		return m
	}},
	{"map[string]string", 1 << 16, func(n int, r *rng) any {
		m := map[string]string{}
		for i := 0; i < n; i++ {
			m[strconv.Itoa(i*7919)] = "v"
		}
		return m
	}},
	{"sync.Map", 1 << 16, func(n int, r *rng) any {
		m := new(sync.Map)
		for i := 0; i < n; i++ {
			m.Store(i, true)
		}
		return m
	}},
	{"struct", 1100, func(n int, r *rng) any {
		fs := make([]reflect.StructField, n)
		for i := range fs {
			fs[i] = reflect.StructField{Name: "F" + strconv.Itoa(i), Type: []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf((*int)(nil)), reflect.TypeOf(byte(0))}[i%4]}
			if r.n(3) == 0 {
				fs[i].Tag = []reflect.StructTag{`json:",omitempty"`, `json:"-"`, `json:",string"`}[r.n(3)]
			}
		}
		v := reflect.New(reflect.StructOf(fs))
		for i := range fs {
			if f := v.Elem().Field(i); f.Kind() == reflect.Int && r.n(2) == 0 {
				f.SetInt(int64(i))
			}
		}
		return v.Interface()
	}},
	{"field at an offset", 1 << 17, func(n int, r *rng) any {
		v := reflect.New(reflect.StructOf([]reflect.StructField{
			{Name: "Pad", Type: reflect.ArrayOf(n, reflect.TypeOf(byte(0))), Tag: `json:"-"`},
			{Name: "A", Type: reflect.TypeOf("")}, {Name: "B", Type: reflect.TypeOf([2]szStruct{})}}))
		v.Elem().Field(1).SetString("a")
		v.Elem().Field(2).Set(reflect.ValueOf([2]szStruct{{A: "x"}, {C: 1}}))
		return v.Interface()
	}},
	{"elements of a size", 1 << 12, func(n int, r *rng) any {
		et := reflect.StructOf([]reflect.StructField{{Name: "Pad", Type: reflect.ArrayOf(n, reflect.TypeOf(byte(0))), Tag: `json:"-"`}, {Name: "A", Type: reflect.TypeOf(byte(0))}})
		s := reflect.MakeSlice(reflect.SliceOf(et), 3, 3)
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(0), et))
		for i := 0; i < 3; i++ {
			s.Index(i).Field(1).SetUint(uint64(i))
			m.SetMapIndex(reflect.ValueOf(i), s.Index(i))
		}
		return []any{s.Interface(), m.Interface()}
	}},
	{"string", 1 << 17, func(n int, r *rng) any { return r.straddle(n) }},
	{"string key", 1 << 17, func(n int, r *rng) any {
		s := r.text(n)
		return map[string]any{s + "b": 1, s + "a": s, s: nil, s + "c": 3}
	}},
	{"field name", 1 << 15, func(n int, r *rng) any {
		s := strings.Repeat("n", n) + "<é"
		v := reflect.New(reflect.StructOf([]reflect.StructField{
			{Name: "A", Type: reflect.TypeOf(0), Tag: reflect.StructTag(`json:"` + s + `"`)}, {Name: "B", Type: reflect.TypeOf(""), Tag: reflect.StructTag(`json:"` + s + `2,omitempty"`)}}))
		if r.n(2) == 0 {
			v.Elem().Field(1).SetString("b")
		}
		return v.Interface()
	}},
	{"[]byte", 1 << 17, func(n int, r *rng) any {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.next())
		}
		return b
	}},
	{"array of bytes", 1 << 16, func(n int, r *rng) any {
		a := reflect.New(reflect.ArrayOf(n, reflect.TypeOf(byte(0))))
		copy(a.Elem().Slice(0, n).Bytes(), r.straddle(n))
		return a.Interface()
	}},
	{"pointers", 120, func(n int, r *rng) any {
		v := reflect.ValueOf(7)
		for i := 0; i < n; i++ {
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			v = p
		}
		return v.Interface()
	}},
	{"nesting", 4000, func(n int, r *rng) any {
		var v any = "leaf"
		for i := 0; i < n; i++ {
			switch r.n(4) {
			case 0:
				v = []any{v}
			case 1:
				v = map[string]any{"k": v}
			case 2:
				x := v
				v = &x
			default:
				v = szStruct{C: v}
			}
		}
		return v
	}},
	{"structs", 1 << 15, func(n int, r *rng) any {
		s := make([]*szStruct, n)
		for i := range s {
			if i%3 != 0 {
				s[i] = &szStruct{C: i}
			}
		}
		return s
	}},
	{"maps", 1 << 14, func(n int, r *rng) any {
		s := make([]map[string]int, n)
		for i := range s {
			s[i] = map[string]int{"b": i, "a": 1}
		}
		return s
	}},
	{"RawMessage", 1 << 17, func(n int, r *rng) any { return json.RawMessage(` { "a" : "` + r.text2(n) + `" , "b<" : [ 1 ] } `) }},
	{"json.Number", 1 << 16, func(n int, r *rng) any {
		return json.Number("1" + strings.Repeat("0123456789", n/10+1)[:n] + []string{"", ".5", "e5"}[r.n(3)])
	}},
	{"[]float64", 1 << 15, func(n int, r *rng) any {
		s := make([]float64, n)
		for i := range s {
			s[i] = float64(i) / 7
		}
		return s
	}},
	{"[]time.Time", 1 << 13, func(n int, r *rng) any {
		s := make([]time.Time, n)
		for i := range s {
			s[i] = time.Unix(int64(i)*86399, int64(i)).UTC()
		}
		return s
	}},
	{"MarshalText", 1 << 16, func(n int, r *rng) any { return []lib.RawT{lib.RawT(r.straddle(n)), "x"} }},
	{"MarshalJSON", 1 << 16, func(n int, r *rng) any { return []lib.RawJ{lib.RawJ(`[ "` + r.text2(n) + `" ]`), "1"} }},
	{"AppendJSON", 1 << 16, func(n int, r *rng) any { return []lib.RawA{lib.RawA(`"` + strings.Repeat("a", n) + `"`), "1"} }},
	{"marshalers", 1 << 14, func(n int, r *rng) any {
		s := make([]lib.Coder, n)
		for i := range s {
			s[i] = []lib.Coder{lib.CodeInt(1), lib.CodeStr("x"), lib.CodeArr{}}[i%3]
		}
		return s
	}},
}

// text2 is the content of a JSON string of n bytes, with something special at
// its end.
func (r *rng) text2(n int) string {
	sp := []string{"", "<", "&", "\u2028", "\u2029", `\"`, `\\`, "é", " ", `\u0000`}[r.n(10)]
	if n < len(sp) {
		return strings.Repeat("a", n)
	}
	return strings.Repeat("a", n-len(sp)) + sp
}

// sized judges a value of a size.
func sized(t *testing.T, what string, n int, arg any, o *gen.OptSet, mode int) *tc {
	c := &tc{T: t, Type: reflect.TypeOf(arg), Val: reflect.ValueOf(arg), Arg: arg, Opts: o, Extra: fmt.Sprintf("size:    %s, %d", what, n)}
	if !c.judge(mode) {
		return nil
	}
	st.Counters["of given sizes"]++
	return c
}

// sizedValues judges values of all sizes, of all builders, or of one in every
// step of them.
func sizedValues(t *testing.T, step int, opts func(r *rng) *gen.OptSet, mode int, more func(c *tc, r *rng)) {
	for bi, b := range builders {
		for i, n := range sizes(b.max) {
			if step > 1 && (i+bi+int(seedOfRun))%step != 0 {
				continue
			}
			r := rng(uint64(n)*1000 + uint64(bi)*7 + seedOfRun*31 + 1)
			r.next()
			c := sized(t, b.name, n, b.f(n, &r), opts(&r), mode)
			if c != nil && more != nil {
				more(c, &r)
			}
		}
	}
}

func noOpts(*rng) *gen.OptSet { return gen.None() }

// someOpts draws some options.
func someOpts(r *rng) *gen.OptSet {
	o := gen.None()
	for _, f := range gen.Flags {
		if r.n(4) == 0 {
			o.Add(f)
		}
	}
	if r.n(3) == 0 {
		o.AddLayout(gen.Layouts[r.n(len(gen.Layouts))])
	}
	return o
}

func sizesC01(t *testing.T) {
	for _, n := range hugeSizes() {
		n = min(n, 1<<22+n%7) // of some bytes per element
		r := rng(uint64(n)*9 + seedOfRun + 1)
		ints, bools, strs := make([]int, n), make([]bool, n), make([]string, n/8)
		for i := range ints {
			ints[i], bools[i] = i, i*i%7 < 3
		}
		for i := range strs {
			strs[i] = strconv.Itoa(i * 37)
		}
		m := make(map[uint32]uint8, n/8)
		for i := 0; i < n/8; i++ {
			m[uint32(i)*2654435761] = uint8(i)
		}
		a := reflect.New(reflect.ArrayOf(n, reflect.TypeOf(int8(0))))
		a.Elem().Index(r.n(n)).SetInt(7)
		a.Elem().Index(n - 1).SetInt(-1)
		for k, v := range []any{ints, bools, strs, m, a.Interface(), struct{ A, B any }{&bools, a.Elem().Interface()}} {
			if (k+n+int(seedOfRun))%3 != 0 {
				continue
			}
			want := string(mustStd(v))
			got, err, pan := call(func() ([]byte, error) { return jettison.Marshal(v) })
			if pan != "" || err != nil || string(got) != want {
				failT(t, "%T of size %d: error %v %s\n%s", v, n, err, pan, diff(got, []byte(want)))
			}
			evalN(1)
		}
	}
	sizedValues(t, 1, noOpts, withStd, nil)
}

func sizesC16(t *testing.T) { sizedValues(t, 3, someOpts, withErr, nil) }

func sizesC15(t *testing.T) {
	flags := func(r *rng) *gen.OptSet {
		o := gen.None()
		for _, f := range gen.Flags {
			switch f.Name {
			case "NoStringEscaping", "NoCompact", "NoNumberValidation", "NoUTF8Coercion":
				continue
			}
			if r.n(3) == 0 {
				o.Add(f)
			}
		}
		return o
	}
	sizedValues(t, 4, flags, 0, func(c *tc, r *rng) {
		if c.Err == nil && !json.Valid(c.Got) {
			c.fail("invalid JSON: %.300s", c.Got)
		}
	})
}

// sizesC02: structs of many fields, deep embedding, long names.
func sizesC02(t *testing.T) {
	for _, n := range sizes(1100) {
		fs := make([]reflect.StructField, n)
		for i := range fs {
			fs[i] = reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(0)}
		}
		if n > 3 { // a conflict of names far apart
			fs[n/3].Tag = `json:"x"`
			fs[n-1].Tag = `json:"x"`
		}
		v := reflect.New(reflect.StructOf(fs))
		for i := range fs {
			v.Elem().Field(i).SetInt(int64(i))
		}
		sized(t, "fields", n, v.Interface(), gen.None(), withStd)
	}
	for _, n := range sizes(150) {
		v := reflect.ValueOf(struct{ X, Y int }{1, 2})
		for i := 0; i < n; i++ {
			fs := []reflect.StructField{{Name: "E", Type: v.Type(), Anonymous: true}, {Name: fmt.Sprintf("L%d", i), Type: reflect.TypeOf(0)}}
			if i%3 == 1 {
				fs[0].Type = reflect.PointerTo(v.Type())
			}
			x := reflect.New(gen.StructOf(fs)).Elem()
			x.Field(1).SetInt(int64(i))
			if i%3 == 1 {
				p := reflect.New(v.Type())
				p.Elem().Set(v)
				x.Field(0).Set(p)
			} else {
				x.Field(0).Set(v)
			}
			v = x
		}
		sized(t, "levels of embedding", n, v.Interface(), gen.None(), withStd)
	}
	// many structs embedded next to each other
	for _, n := range sizes(300) {
		var fs []reflect.StructField
		for i := 0; i < n; i++ {
			et := reflect.StructOf([]reflect.StructField{{Name: fmt.Sprintf("A%d", i), Type: reflect.TypeOf(0)}, {Name: "B", Type: reflect.TypeOf("")}})
			if i%4 == 3 {
				et = reflect.PointerTo(et)
			}
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("E%d", i), Type: et, Anonymous: true})
		}
		v := reflect.New(gen.StructOf(fs)).Elem()
		for i := 0; i < n; i++ {
			if f := v.Field(i); f.Kind() == reflect.Ptr {
				if i%8 == 3 {
					f.Set(reflect.New(f.Type().Elem()))
				}
			} else {
				f.Field(0).SetInt(int64(i))
			}
		}
		sized(t, "embedded structs", n, v.Interface(), gen.None(), withStd)
	}
	for _, n := range sizes(1 << 16) {
		s := strings.Repeat("n", n)
		v := reflect.New(reflect.StructOf([]reflect.StructField{
			{Name: "A", Type: reflect.TypeOf(1), Tag: reflect.StructTag(`json:"` + s + `a"`)},
			{Name: "B", Type: reflect.TypeOf(2), Tag: reflect.StructTag(`json:"` + s + `b"`)},
			{Name: "C", Type: reflect.TypeOf(3), Tag: reflect.StructTag(`json:"` + s + `"`)}})).Elem()
		for i := 0; i < 3; i++ {
			v.Field(i).SetInt(int64(i + 1))
		}
		sized(t, "length of names", n, v.Interface(), gen.None(), withStd)
	}
}

// optionFields makes a struct of n fields with an option.
func optionFields(n int, r *rng, opts []string) any {
	types := []reflect.Type{reflect.TypeOf((*int)(nil)), reflect.TypeOf([]int(nil)), reflect.TypeOf(map[string]int(nil)), reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(lib.RawJ("")), reflect.TypeOf(1.5), reflect.TypeOf(false)}
	fs := make([]reflect.StructField, n)
	for i := range fs {
		fs[i] = reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: types[r.n(len(types))]}
		if r.n(4) != 0 {
			fs[i].Tag = reflect.StructTag(`json:",` + opts[r.n(len(opts))] + `"`)
		}
	}
	v := reflect.New(reflect.StructOf(fs))
	one := 1
	for i := range fs {
		f := v.Elem().Field(i)
		if f.Kind() == reflect.String && fs[i].Type != types[5] {
			f.SetString([]string{"null", "1", " null "}[r.n(3)])
			continue
		}
		if r.n(2) == 0 {
			continue
		}
		switch f.Kind() {
		case reflect.Ptr:
			f.Set(reflect.ValueOf(&one))
		case reflect.Slice:
			f.Set(reflect.ValueOf(make([]int, r.n(2))))
		case reflect.Map:
			f.Set(reflect.ValueOf(map[string]int{}))
		case reflect.Interface:
			f.Set(reflect.ValueOf(5))
		case reflect.Int:
			f.SetInt(int64(i))
		case reflect.String:
			f.SetString("s")
		case reflect.Float64:
			f.SetFloat(0.5)
		case reflect.Bool:
			f.SetBool(true)
		}
	}
	return v.Interface()
}

func sizesC03(t *testing.T) {
	for _, n := range sizes(600) {
		r := rng(uint64(n)*7 + seedOfRun + 1)
		sized(t, "fields", n, optionFields(n, &r, []string{"omitempty", "string", "omitempty,string"}), gen.None(), withStd)
	}
	for _, n := range sizes(1 << 16) {
		r := rng(uint64(n)*5 + seedOfRun + 1)
		s := r.straddle(n)
		num := json.Number("1" + strings.Repeat("0", n))
		v := &struct {
			A string       `json:",string"`
			B *string      `json:",string,omitempty"`
			C json.Number  `json:",string"`
			D *json.Number `json:",string,omitempty"`
			E string       `json:",omitempty"`
			F []string     `json:",omitempty"`
			G gen.NStr     `json:",string,omitempty"`
		}{A: s, C: num, G: gen.NStr(s)}
		if n%2 == 0 {
			v.B, v.D, v.E, v.F = &s, &num, s, []string{s}
		}
		sized(t, "text", n, v, gen.None(), withStd)
	}
	// empty and full containers of every size
	for _, n := range sizes(1 << 12) {
		at := reflect.ArrayOf(n, reflect.TypeOf(byte(0)))
		zt := reflect.ArrayOf(n, reflect.TypeOf(struct{}{}))
		v := reflect.New(reflect.StructOf([]reflect.StructField{
			{Name: "A", Type: at, Tag: `json:",omitempty"`}, {Name: "B", Type: zt, Tag: `json:",omitempty"`}, {Name: "C", Type: reflect.TypeOf([]byte{}), Tag: `json:",omitempty"`},
			{Name: "D", Type: reflect.TypeOf(map[int]bool{}), Tag: `json:",omitempty"`}, {Name: "E", Type: reflect.TypeOf([]struct{}{}), Tag: `json:",omitempty"`}})).Elem()
		v.Field(2).Set(reflect.ValueOf(make([]byte, n)))
		m := map[int]bool{}
		for i := 0; i < n; i++ {
			m[i] = true
		}
		if n%2 == 1 { // emptied
			clear(m)
		}
		v.Field(3).Set(reflect.ValueOf(m))
		v.Field(4).Set(reflect.ValueOf(make([]struct{}, n)))
		sized(t, "containers", n, v.Interface(), gen.None(), withStd)
	}
}

func sizesC04(t *testing.T) {
	for _, n := range sizes(600) {
		r := rng(uint64(n)*7 + seedOfRun + 1)
		sized(t, "fields", n, optionFields(n, &r, []string{"omitnil", "omitnil", "omitempty", "omitempty,omitnil"}), gen.None(), 0)
	}
	for _, n := range sizes(1 << 15) { // encodings that look like null
		type st struct {
			A int
			B lib.RawJ  `json:"b,omitnil"`
			C *lib.RawJ `json:"c,omitnil"`
			D []string
			E lib.RawJ `json:"e,omitnil"`
		}
		j := lib.RawJ(`"` + strings.Repeat("x", n) + `null"`)
		k := lib.RawJ(strings.Repeat(" ", n%100) + "null" + strings.Repeat("\n", n))
		sized(t, "encodings", n, []any{st{B: j, C: &k, E: k, D: []string{string(j)}}, &st{B: k, C: &j, E: j}}, gen.None(), 0)
	}
}

// sizesC05: many marshalers, and long results of them.
func sizesC05(t *testing.T) {
	for _, n := range hugeSizes() {
		a := strings.Repeat("r", n)
		q := `"` + a + `"`
		for k, v := range []any{lib.RawA(q), lib.RawC(q), lib.RawT(a), lib.RawJ(q), lib.BufT(a), lib.BufJ(q)} {
			got, err, pan := call(func() ([]byte, error) { return jettison.Marshal([]any{v, k, v}) })
			if want := fmt.Sprintf("[%s,%d,%s]", q, k, q); pan != "" || err != nil || string(got) != want {
				failT(t, "two %T, of size %d: error %v %s\n%s", v, n, err, pan, diff(got, []byte(want)))
			}
			evalN(1)
		}
	}
	for _, n := range sizes(1 << 16) {
		r := rng(uint64(n)*3 + seedOfRun + 1)
		s := r.straddle(n)
		ss := strings.Repeat("s", n)
		x := lib.RawT(s)
		sized(t, "results", n, []any{lib.RawT(s), &x, lib.RawJ(` ["` + r.text2(n) + `" ] `), lib.RawA(`"` + ss + `"`), lib.RawC(`"` + ss + `"`), lib.BufT(s), lib.BufJ(`"` + ss + `"`), map[lib.RawT]int{x: 1}}, gen.None(), withCalls)
	}
	sets := []any{lib.LS_CpApJpTp{}, lib.LInt_Jv(0), lib.LStr_Tv(""), lib.LSP_Av{}, lib.LA1P_Cv{}, lib.LU8_Jp(0), lib.LMap_Tv{}, lib.LCh_Jp(nil)}
	for _, n := range sizes(3000) {
		et := reflect.TypeOf(sets[n%len(sets)])
		s := reflect.MakeSlice(reflect.SliceOf(et), n, n)
		for i := 0; i < n; i++ {
			switch e := s.Index(i); e.Kind() {
			case reflect.Int:
				e.SetInt(int64(i % 90))
			case reflect.String:
				e.SetString(strconv.Itoa(i))
			case reflect.Uint8:
				e.SetUint(uint64(i % 90))
			}
		}
		a := reflect.New(reflect.ArrayOf(n, et))
		reflect.Copy(a.Elem(), s)
		sized(t, "elements", n, []any{s.Interface(), a.Interface(), a.Elem().Interface()}, gen.None(), withCalls)
	}
}

// sizesC06: the failure comes late.
func sizesC06(t *testing.T) {
	fails := []any{make(chan int), func() {}, math.NaN(), math.Inf(1), float32(math.Inf(-1)), json.Number("1x"), json.RawMessage("{"), time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC), lib.RawJ("[1"), complex(1, 2), lib.LInt_Jv(lib.CodeError), lib.LStr_Tv("err"), lib.LInt_Tv(lib.CodeError), lib.LInt_Av(lib.CodeError), lib.LInt_Cv(lib.CodeError), map[bool]int{true: 1}}
	for i, n := range sizes(1 << 15) {
		bad := fails[(i+int(seedOfRun))%len(fails)]
		s := make([]any, n+1)
		s[n] = bad
		sized(t, "elements before a failure", n, s, gen.None(), withErr|withStd)
		m := map[string]any{}
		for k := 0; k < min(n, 3000); k++ {
			m[strconv.Itoa(k)] = k
		}
		m["x"] = bad
		sized(t, "members beside a failure", n, m, gen.None(), withErr|withStd)
		sm := new(sync.Map)
		for k, v := range m {
			sm.Store(k, v)
		}
		sized(t, "members of a sync.Map beside a failure", n, sm, gen.None(), withErr)
		sized(t, "text before a failure", n, []any{strings.Repeat("t", n), bad}, gen.None(), withErr|withStd)
		num := json.Number(strings.Repeat("1", n) + "x")
		sized(t, "a bad number", n, num, gen.None(), withErr|withStd)
	}
}

// sizesC07: maps of every size, and long keys that differ at their ends.
func sizesC07(t *testing.T, syncMap bool) {
	put := func(what string, n int, kv map[any]any, mapOf any) {
		if syncMap {
			m := new(sync.Map)
			for k, v := range kv {
				m.Store(k, v)
			}
			sized(t, what, n, m, gen.None(), 0)
			return
		}
		mt := reflect.TypeOf(mapOf)
		m := reflect.MakeMap(mt)
		for k, v := range kv {
			m.SetMapIndex(reflect.ValueOf(k), reflect.ValueOf(v))
		}
		sized(t, what, n, m.Interface(), gen.None(), withStd)
	}
	for _, n := range sizes(1 << 15) {
		kv := map[any]any{}
		for i := 0; i < n; i++ {
			switch n % 4 {
			case 0:
				kv[i*31] = i
			case 1:
				kv["k"+strconv.Itoa(i)] = i
			case 2:
				kv[uint16(i)] = i
			default:
				kv[lib.RawT(strconv.Itoa(i))] = i
			}
		}
		put("entries", n, kv, []any{map[int]int{}, map[string]int{}, map[uint16]int{}, map[lib.RawT]int{}}[n%4])
		r := rng(uint64(n)*3 + seedOfRun + 1)
		s := r.text(n)
		kv = map[any]any{}
		for _, e := range []string{"", "a", "b", "A", "é", "<", "aa", "\x00", "!", "~", "\"", "#"} {
			kv[s+e] = r.n(3)
		}
		put("key length", n, kv, map[string]int{})
		put("value length", n, map[any]any{"b": r.text(n), "a": "<" + s, "c": "", "!": "x"}, map[string]string{})
	}
}

// sizesC09: specials around every size, in every position.
func sizesC09(t *testing.T) {
	pos := func(s string) any {
		return &struct {
			V string
			Q string `json:",string"`
			K map[string]int
			T lib.RawT
			M map[lib.RawT]int
			B []byte
			I any
		}{s, s, map[string]int{s: 1}, lib.RawT(s), map[lib.RawT]int{lib.RawT(s): 2}, []byte(s), s}
	}
	n0 := int64(0)
	for _, n := range hugeSizes() {
		r := rng(uint64(n)*9 + seedOfRun + 1)
		checkStr(t, r.straddle(n), true, true)
		n0++
	}
	for _, n := range sizes(1 << 17) {
		r := rng(uint64(n)*9 + seedOfRun + 1)
		for k := 0; k < 4; k++ {
			o := gen.None()
			for _, f := range []string{"NoHTMLEscaping", "NoStringEscaping", "NoUTF8Coercion", "RawByteSlice"} {
				if r.n(4) == 0 {
					o.Add(gen.FlagByName(f))
				}
			}
			s := r.straddle(n)
			checkStr(t, s, true, true)
			if k == 0 || n < 5000 {
				sized(t, "text", n, pos(s), o, 0)
			}
			n0++
		}
		// every special right at, before and after the size
		for d := -4; d <= 1; d++ {
			for _, sp := range []string{"é", "\u2028", "😀", "\xff", "\xe2\x80", "\"", "\\", "<", "\x01"} {
				if n+d < 0 || n > 10000 && (d+4)%3 != n%3 {
					continue
				}
				checkStr(t, strings.Repeat("x", n+d)+sp+"y", n%2 == 0, n%3 != 0)
				n0++
			}
		}
	}
	evalN(n0)
}

// sizesC10: long number literals, with an error at the end.
func sizesC10(t *testing.T) {
	for _, n := range sizes(1 << 16) {
		r := rng(uint64(n)*9 + seedOfRun + 1)
		d := strings.Repeat("1234567890", n/10+1)[:n]
		z := strings.Repeat("0", n)
		for _, s := range []string{"1" + d, "-1" + d, "0." + z, "1e" + d, "1E-" + z, "0." + d + "e5", "1" + d + ".5E+" + d, d, z, "-" + d} {
			for k := 0; k < 3; k++ {
				x := s
				switch k {
				case 1: // broken at the end
					x += []string{"x", ".", "e", "-", "+", " ", "e+", "..", "\x00", "e1.0", "1e1e1"}[r.n(11)]
				case 2: // broken somewhere
					if n > 0 {
						i := r.n(len(x))
						x = x[:i] + []string{"x", ".", "-", "+", " ", ":", "/"}[r.n(7)] + x[i+1:]
					}
				}
				want := x
				if x == "" {
					want = "0"
				}
				got, err, pan := call(func() ([]byte, error) { return jettison.Marshal(json.Number(x)) })
				if v := ref.ValidNumber(want); pan != "" || (err == nil) != v || v && string(got) != want {
					failT(t, "json.Number of %d bytes, %.50q...%q: got %.50q, error %v, valid %v %s", len(x), x, x[max(0, len(x)-40):], got, err, v, pan)
				}
				evalN(1)
			}
		}
		if n <= 4096 {
			x := json.Number("1" + d)
			sized(t, "digits", n, map[string]any{"a": x, "b": &x, "c": []json.Number{x, "2"}, "d": struct {
				A json.Number `json:",string"`
			}{x}}, gen.None(), withStd)
		}
	}
}

// sizesC11: long layouts.
func sizesC11(t *testing.T) {
	el := []string{"2006", "01", "Jan", "January", "Monday", "Mon", "_2", "02", "15", "03", "04", "05", "PM", ".000", ".999999999", "MST", "Z07:00", "-0700", "002", "-", " ", "x", "\"", "é", "<"}
	var c int64
	for _, n := range sizes(1 << 13) {
		r := rng(uint64(n)*9 + seedOfRun + 1)
		for k := 0; k < 6; k++ {
			l := ""
			switch k {
			case 0:
				l = strings.Repeat("x", n) + "2006"
			case 1:
				l = "2006-01-02T15:04:05.999999999Z07:00" + strings.Repeat("-", n)
			case 2:
				l = strings.Repeat("January ", n/8) + "Monday"
			default:
				for len(l) < n {
					l += el[r.n(len(el))]
				}
			}
			if l == "" {
				continue
			}
			z := time.UTC
			if k%2 == 1 {
				z = time.FixedZone(strings.Repeat("Z", r.n(n+2)), r.n(86399)-43200)
			}
			x := time.Date(r.n(10000), time.Month(1+r.n(12)), 1+r.n(28), r.n(24), r.n(60), r.n(60), r.n(1e9), z)
			if y := x.Year(); y < 0 || y > 9999 {
				continue
			}
			want := `"` + ref.Escape(x.Format(l), true, true) + `"`
			got, err, pan := call(func() ([]byte, error) { return jettison.MarshalOpts(x, jettison.TimeLayout(l)) })
			if pan != "" || err != nil || string(got) != want {
				failT(t, "time %v with a layout of %d bytes, %.200q: error %v %s\n%s", x, len(l), l, err, pan, diff(got, []byte(want)))
			}
			w2 := `{` + want + `:[` + want + `]}`
			got, err, pan = call(func() ([]byte, error) {
				return jettison.MarshalOpts(map[time.Time][]time.Time{x: {x}}, jettison.TimeLayout(l))
			})
			if pan != "" || err != nil || string(got) != w2 {
				failT(t, "time %v as key with a layout of %d bytes, %.200q: error %v %s\n%s", x, len(l), l, err, pan, diff(got, []byte(w2)))
			}
			c += 2
		}
	}
	evalN(c)
	for _, n := range sizes(3000) {
		s := make([]time.Time, n)
		for i := range s {
			s[i] = time.Unix(int64(i)*12345678, int64(i%2)*500).UTC()
		}
		o := gen.None()
		if n%2 == 0 {
			o.AddLayout(gen.Layouts[n%len(gen.Layouts)])
		}
		sized(t, "times", n, s, o, 0)
	}
}

// sizesC13: bytes of every size, in every form.
func sizesC13(t *testing.T) {
	for _, n := range hugeSizes() {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i * 7 >> (i >> 16 & 3))
		}
		for k := 0; k < 2; k++ {
			want := string(mustStd(b))
			var o []jettison.Option
			if k == 1 {
				for i := range b {
					b[i] = "abcdefgh01234567"[i%16]
				}
				b[n-1] = '<'
				o = append(o, jettison.RawByteSlice())
				want = string(mustStd(string(b)))
			}
			got, err, pan := call(func() ([]byte, error) { return jettison.MarshalOpts(b, o...) })
			if pan != "" || err != nil || string(got) != want {
				failT(t, "%d bytes, raw %d: error %v %s\n%s", n, k, err, pan, diff(got, []byte(want)))
			}
			evalN(1)
		}
	}
	for _, n := range sizes(1 << 17) {
		r := rng(uint64(n)*9 + seedOfRun + 1)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.next())
		}
		if r.n(2) == 0 {
			copy(b, r.straddle(n))
		}
		for k := 0; k < 3; k++ {
			o := gen.None()
			if k == 1 {
				o.Add(gen.FlagByName("RawByteSlice"))
			} else if k == 2 {
				o.Add(gen.FlagByName("ByteArrayAsString"))
			}
			var v any = []any{b, gen.NBytes(b), "after"}
			if k != 1 && n <= 1<<15 {
				a := reflect.New(reflect.ArrayOf(n, reflect.TypeOf(byte(0))))
				reflect.Copy(a.Elem(), reflect.ValueOf(b))
				v = []any{a.Interface(), "after", a.Elem().Interface()}
			}
			m := 0
			if k == 0 {
				m = withStd
			}
			sized(t, "bytes", n, v, o, m)
		}
		// into a destination
		pre := strings.Repeat("p", r.n(10))
		want := pre + string(mustStd(b))
		for _, c := range []int{0, 1, 2, 3, n, len(want) - len(pre) - 1, len(want) - len(pre), len(want) - len(pre) + 1} {
			dst := append(make([]byte, 0, len(pre)+max(0, c)), pre...)
			got, err, pan := call(func() ([]byte, error) { return jettison.Append(dst, b) })
			if pan != "" || err != nil || string(got) != want {
				failT(t, "Append of %d bytes with %d bytes of room: error %v %s\n%s", n, c, err, pan, diff(got, []byte(want)))
			}
			evalN(1)
		}
	}
}

func mustStd(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		harness("%v", err)
	}
	return b
}

// sizesC14: long and deep documents.
func sizesC14(t *testing.T) {
	for _, n := range hugeSizes() {
		r := rng(uint64(n)*9 + seedOfRun + 1)
		hugeDoc(t, n, &r)
	}
	for _, n := range sizes(1 << 17) {
		r := rng(uint64(n)*9 + seedOfRun + 1)
		a := strings.Repeat("a", n)
		docs := []string{
			`"` + r.text2(n) + `"`,
			`[ "` + r.text2(n) + `" , 1 ]`,
			strings.Repeat(" ", n) + "[ 1 ,\t2 ]" + strings.Repeat("\n", r.n(4)),
			`{ "` + a + `" : "` + r.text2(n) + `" }`,
			`[` + strings.Repeat(`1 ,`, n/3) + `"<"]`,
			`"` + strings.Repeat(`\\`, n/2) + `" `,
			`{"a":"` + a + `\"` + ` b","c":[ ]}`,
			`-1` + strings.Repeat("0", n) + ".5 ",
			`"` + a + `"x`, `["` + a + `",]`, `"` + a, `{"` + a + `" 1}`, a, strings.Repeat(" ", n),
			`"` + a + "\xff" + `"`, `"` + a + "\x01" + `"`, `"` + a + `\q"`,
		}
		if n < 9000 {
			docs = append(docs, strings.Repeat("[ ", n)+strings.Repeat("] ", n), strings.Repeat(`{"<": `, n)+"1"+strings.Repeat("}", n), strings.Repeat("[", n+1)+strings.Repeat("]", n))
		}
		for k, s := range docs {
			if n > 20000 && (k+n)%4 != 0 {
				continue
			}
			var buf bytes.Buffer
			cerr := json.Compact(&buf, []byte(s))
			want := ref.EscapeDoc(buf.String(), true)
			for _, v := range []any{json.RawMessage(s), lib.RawJ(s)} {
				got, err, pan := call(func() ([]byte, error) { return jettison.Marshal(v) })
				if pan != "" || (err != nil) != (cerr != nil) || (err == nil && string(got) != want) {
					failT(t, "%T with a document of size %d, %.60q...%q: error %v, want error %v %s\n%s", v, n, s, s[max(0, len(s)-60):], err, cerr, pan, diff(got, []byte(want)))
				}
				evalN(1)
			}
		}
		if n < 20000 {
			sized(t, "document", n, docPos{R: json.RawMessage(docs[0]), J: lib.RawJ(docs[1]), I: lib.RawJ(docs[6]), M: map[string]json.RawMessage{"k": json.RawMessage(docs[2])}, K: new(lib.RawJ)}, gen.None(), withErr)
		}
	}
}

// sizesC17: long lists, long names.
func sizesC17(t *testing.T) {
	type in struct {
		X, Y int
		Z    *in `json:"z,omitempty"`
	}
	for _, n := range sizes(1 << 14) {
		r := rng(uint64(n)*9 + seedOfRun + 1)
		for k := 0; k < 4; k++ {
			l := make([]string, 0, n+2)
			for i := 0; i < n; i++ {
				l = append(l, fmt.Sprintf("pad%d", i))
			}
			for _, s := range []string{"X", "z", "A", "e"}[:r.n(5)] {
				if len(l) == 0 || r.n(3) == 0 {
					l = append(l, s)
				} else {
					l[r.n(len(l))] = s
				}
			}
			if len(l) > 0 && r.n(2) == 0 {
				l[len(l)-1] = "Y"
			}
			o := gen.None()
			if k%2 == 0 {
				o.AddAllow(l)
			} else {
				o.AddDeny(l)
			}
			v := map[string]any{"m": []in{{1, 2, &in{X: 3}}}, "A": struct {
				in
				A any
				E int `json:"e"`
			}{in{4, 5, nil}, in{6, 7, nil}, 8}}
			sized(t, "names", n, v, o, withErr)
		}
		// names of this length
		s := strings.Repeat("n", n)
		v := reflect.New(reflect.StructOf([]reflect.StructField{
			{Name: "A", Type: reflect.TypeOf(1), Tag: reflect.StructTag(`json:"` + s + `a"`)},
			{Name: "B", Type: reflect.TypeOf(2), Tag: reflect.StructTag(`json:"` + s + `b"`)},
			{Name: "C", Type: reflect.TypeOf(3), Tag: reflect.StructTag(`json:"` + s + `"`)},
			{Name: "D", Type: reflect.TypeOf(3), Tag: reflect.StructTag(`json:"d` + s + `"`)}}))
		o := gen.None()
		if l := []string{s + "b", "d" + s}; n%2 == 0 {
			o.AddAllow(l)
		} else {
			o.AddDeny(l)
		}
		sized(t, "length of names", n, v.Interface(), o, withErr)
	}
	// many fields
	for _, n := range sizes(600) {
		fs := make([]reflect.StructField, n)
		var allow, deny []string
		r := rng(uint64(n)*9 + seedOfRun + 1)
		for i := range fs {
			fs[i] = reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(0)}
			if r.n(2) == 0 {
				allow = append(allow, fs[i].Name)
			}
			if r.n(3) == 0 {
				deny = append(deny, fs[i].Name)
			}
		}
		o := gen.None()
		if r.n(3) != 0 {
			o.AddAllow(allow)
		}
		if r.n(3) != 0 {
			o.AddDeny(deny)
		}
		sized(t, "fields", n, reflect.New(reflect.StructOf(fs)).Interface(), o, withErr)
	}
}

// sizesC18: destinations and outputs of every size.
func sizesC18(t *testing.T) {
	try := func(c *tc, n, extra int, r *rng) {
		mem := make([]byte, n+extra+64)
		for i := range mem {
			mem[i] = byte(i*31 + 7)
		}
		before := append([]byte(nil), mem...)
		dst := mem[: n : n+extra]
		got, err, pan := appendTo(dst, c.Arg, c.Opts)
		eval()
		c.Extra += fmt.Sprintf("\ndst:     length %d, capacity %d", n, n+extra)
		switch {
		case pan != "":
			c.fail("Append panics: %s", pan)
		case (err != nil) != (c.Err != nil):
			c.fail("Append returns error %v, Marshal %v", err, c.Err)
		case !bytes.Equal(mem[:n], before[:n]):
			c.fail("the destination is modified")
		case !bytes.Equal(mem[n+extra:], before[n+extra:]):
			c.fail("memory beyond the capacity is modified")
		case err == nil && (len(got) < n || !bytes.Equal(got[:n], before[:n])):
			c.fail("the result does not begin with the destination")
		case err == nil && !c.Res.Node.Match(got[n:]):
			c.fail("Append adds something else than Marshal returns\n%s", diff(got[n:], c.Got))
		}
	}
	big := 1 << 20
	if mode != "plain" {
		big = 5000
	}
	small := []any{1, "s", []byte("abc"), map[string]int{"a": 1}, struct{ A int }{}, []int{}, nil2, lib.RawJ("[ 1 ]"), lib.RawA("1"), lib.RawT("t"), 1.5, []any{lib.LInt_Jv(lib.CodeError)}, json.Number("x")}
	for i, n := range sizes(big) {
		r := rng(uint64(n)*9 + seedOfRun + 1)
		if n > 1<<17 && r.n(4) != 0 {
			continue
		}
		c := sized(t, "destination", n, small[i%len(small)], gen.None(), 0)
		if c == nil {
			continue
		}
		for _, e := range []int{0, 1 + r.n(8), len(c.Got), 4096} {
			x := *c
			try(&x, n, e, &r)
		}
	}
	sizedValues(t, 3, noOpts, 0, func(c *tc, r *rng) {
		for _, e := range []int{0, r.n(len(c.Got) + 1), max(0, len(c.Got)-1), len(c.Got)} {
			x := *c
			try(&x, r.n(5), e, r)
		}
	})
}

var nil2 = (*int)(nil)

// sizesC19: long lists of options.
func sizesC19(t *testing.T) {
	for _, n := range sizes(3000) {
		r := rng(uint64(n)*9 + seedOfRun + 1)
		for k := 0; k < 3; k++ {
			o := gen.None()
			pad := func(n int) {
				for i := 0; i < n; i++ {
					switch {
					case k == 0:
						o.Opts = append(o.Opts, nil)
						o.Names = append(o.Names, "nil")
					case k == 1:
						o.AddLayout(gen.Layouts[r.n(len(gen.Layouts))])
					default:
						switch r.n(4) {
						case 0:
							o.AddDur(jettison.DurationFmt(r.n(6)))
						case 1:
							o.AddDeny([]string{"A"})
						case 2:
							o.AddAllow([]string{"A", "B"})
						default:
							o.AddDur(jettison.DurationFmt(77)) // overridden
						}
					}
				}
			}
			pad(n)
			o.AddDur(jettison.DurationString)
			o.AddLayout("2006")
			o.Add(gen.FlagByName("NilMapEmpty"))
			v := struct {
				A map[string]int
				B time.Duration
				C time.Time
			}{B: time.Second, C: time.Unix(0, 0).UTC()}
			c := sized(t, "options", n, v, o, withErr)
			if c == nil {
				continue
			}
			got, err, pan := call(func() ([]byte, error) { return jettison.AppendOpts([]byte("d"), v, o.Opts...) })
			if pan != "" || err != nil || string(got) != "d"+string(c.Got) {
				c.fail("AppendOpts gives %q, error %v %s", got, err, pan)
			}
			// an invalid last option
			var bad jettison.Option
			switch r.n(3) {
			case 0:
				bad = jettison.TimeLayout("")
			case 1:
				bad = jettison.DurationFormat(-1)
			default:
				bad = jettison.WithContext(nil)
			}
			got, err, pan = call(func() ([]byte, error) {
				return jettison.MarshalOpts(v, append(o.Opts[:len(o.Opts):len(o.Opts)], bad)...)
			})
			var ioe *jettison.InvalidOptionError
			if pan != "" || !errors.As(err, &ioe) || got != nil {
				c.fail("an invalid option after %d others: got %q, error %v %s", n, got, err, pan)
			}
		}
	}
	sizedValues(t, 5, noOpts, 0, func(c *tc, r *rng) {
		got, err, pan := call(func() ([]byte, error) { return jettison.Append(nil, c.Arg) })
		if pan != "" || (err != nil) != (c.Err != nil) || err == nil && !c.Res.Node.Match(got) {
			c.fail("Append: error %v, Marshal: error %v %s\n%s", err, c.Err, pan, diff(got, c.Got))
		}
	})
}

// sizesC20: a value of a size, then others, with the same buffers.
func sizesC20(t *testing.T) {
	var kept []*tc
	var outs [][]byte
	sizedValues(t, 4, someOpts, withErr, func(c *tc, r *rng) {
		for k := 0; k < 2; k++ {
			got, err, pan := marshal(c.Arg, c.Opts)
			if pan != "" || (err != nil) != (c.Err != nil) || err == nil && !c.Res.Node.Match(got) {
				c.fail("encoded again: error %v, before %v %s\n%s", err, c.Err, pan, diff(got, c.Got))
			}
			evalN(1)
		}
		for i := range kept {
			if !bytes.Equal(kept[i].Got, outs[i]) {
				kept[i].fail("the output of an earlier call is modified\n%s", diff(kept[i].Got, outs[i]))
			}
		}
		if len(c.Got) < 1<<20 {
			kept = append(kept, c)
			outs = append(outs, append([]byte(nil), c.Got...))
		}
		if len(kept) > 5 {
			kept, outs = kept[1:], outs[1:]
		}
	})
}

// sharing checks that neither the output nor what later calls use shares
// memory with bytes of a size.
func sharing(t *testing.T, n int, r *rng) {
	opts := [][]string{{}, {"NoCompact"}, {"RawByteSlice"}, {"NoStringEscaping", "RawByteSlice", "NoCompact", "NoNumberValidation"}, {"NoHTMLEscaping", "NoUTF8Coercion"}}
	for k, f := range []func(b []byte) any{
		func(b []byte) any { return json.RawMessage(b) },
		func(b []byte) any { m := json.RawMessage(b); return &m },
		func(b []byte) any { return b },
		func(b []byte) any { return gen.NRaw(b) },
		func(b []byte) any { return lib.BufJ(b) },
		func(b []byte) any { m := lib.BufJ(b); return &m },
		func(b []byte) any { return lib.BufT(b) },
		func(b []byte) any { return []json.RawMessage{b} },
		func(b []byte) any { return map[string]json.RawMessage{"": b} },
		func(b []byte) any { return struct{ B any }{lib.BufJ(b)} },
		func(b []byte) any {
			a := reflect.New(reflect.ArrayOf(len(b), reflect.TypeOf(byte(0))))
			reflect.Copy(a.Elem(), reflect.ValueOf(b))
			return a.Interface()
		},
		func(b []byte) any { return unsafe.String(unsafe.SliceData(b), len(b)) },
		func(b []byte) any { return json.Number(unsafe.String(unsafe.SliceData(b), len(b))) },
	} {
		if n > 5000 && (k+n+int(seedOfRun))%3 != 0 {
			continue
		}
		o := gen.None()
		for _, x := range opts[r.n(len(opts))] {
			o.Add(gen.FlagByName(x))
		}
		if k < 7 && r.n(2) == 0 {
			o = gen.None()
			o.Add(gen.FlagByName("NoCompact"))
		}
		b := bytes.Repeat([]byte("1"), n)
		if k == 10 && n > 1<<12 {
			continue
		}
		if r.n(3) == 0 { // pools are emptied
			runtime.GC()
			runtime.GC()
		}
		v := f(b)
		var dst []byte
		app := r.n(3) == 0
		if app && r.n(2) == 0 {
			dst = make([]byte, 0, r.n(n+8))
		}
		got, err, pan := call(func() ([]byte, error) {
			if app {
				return jettison.AppendOpts(dst, v, o.Opts...)
			}
			return jettison.MarshalOpts(v, o.Opts...)
		})
		evalN(1)
		what := fmt.Sprintf("%T of %d bytes, options %v, append %v", v, n, o, app)
		if pan != "" {
			failT(t, "%s: jettison panics: %s", what, pan)
		}
		if err != nil {
			continue
		}
		want := append([]byte(nil), got...)
		for _, s := range []string{"NN", strings.Repeat("N", n), strings.Repeat("N", n+100), strings.Repeat("N", n/2)} {
			x, err, pan := call(func() ([]byte, error) { return jettison.Marshal([]string{s}) })
			if pan != "" || err != nil || string(x) != `["`+s+`"]` {
				failT(t, "%s: after it, %.50q encodes to %.50q %v %s", what, s, x, err, pan)
			}
		}
		if !bytes.Equal(got, want) {
			failT(t, "%s: the output is modified by the next calls\n%s", what, diff(got, want))
		}
		if i := bytes.IndexFunc(b, func(r rune) bool { return r != '1' }); i >= 0 {
			failT(t, "%s: byte %d of the value is modified by the next calls", what, i)
		}
		for i := range got[:cap(got)] {
			got[:cap(got)][i] ^= 0x5a
		}
		if i := bytes.IndexFunc(b, func(r rune) bool { return r != '1' }); i >= 0 {
			failT(t, "%s: byte %d of the value is modified with the output", what, i)
		}
		copy(got, want)
		for i := range b {
			b[i] = '2'
		}
		if !bytes.Equal(got, want) {
			failT(t, "%s: the output is modified with the value\n%s", what, diff(got, want))
		}
	}
}

// sizesC22: inputs of every size are left alone.
func sizesC22(t *testing.T) {
	for _, n := range sizes(1 << 16) {
		r := rng(uint64(n)*9 + seedOfRun + 1)
		r.next()
		sharing(t, n, &r)
		if n > 1024 && n < 20000 {
			sharing(t, n, &r)
		}
	}
	sizedValues(t, 4, someOpts, 0, func(c *tc, r *rng) {
		v := reflect.ValueOf(c.Arg)
		if _, ok := c.Arg.(*sync.Map); ok || v.Kind() == reflect.Map && v.Len() > 3000 {
			return
		}
		before := gen.Dump(v, true)
		marshal(c.Arg, c.Opts)
		if after := gen.Dump(v, true); before != after {
			c.fail("the value is modified\n%s", diff([]byte(after), []byte(before)))
		}
	})
}

// sizesC23: values of a depth, whose encoding is known.
func sizesC23(t *testing.T) {
	top := 1 << 16
	if mode == "plain" {
		debug.SetMaxStack(1 << 30)
		defer debug.SetMaxStack(256 << 20)
	}
	type node struct {
		N *node `json:"n"`
	}
	type mnode struct{ M map[string]mnode }
	type inode struct {
		I any `json:",omitempty"`
	}
	rep := strings.Repeat
	for _, n := range sizes(top) {
		var (
			l  *node
			s  RSlice
			m  RMap
			a  any = 1
			mn mnode
			in inode
			p  RPtr
		)
		p = nil
		for i := 0; i < n; i++ {
			l = &node{l}
			s = RSlice{s}
			if n < 6000 {
				m = RMap{"k": m}
			}
			a = []any{a}
			q := p
			p = &q
			if n < 6000 {
				mn = mnode{map[string]mnode{"m": mn}}
				in = inode{in}
			}
		}
		cases := []struct {
			name string
			v    any
			want string
		}{
			{"list", l, rep(`{"n":`, n) + "null" + rep("}", n)},
			{"slices", s, rep("[", n) + "null" + rep("]", n)},
			{"interfaces", a, rep("[", n) + "1" + rep("]", n)},
			{"pointers", p, "null"},
		}
		if n < 6000 {
			cases = append(cases, []struct {
				name string
				v    any
				want string
			}{
				{"maps", m, rep(`{"k":`, n) + "null" + rep("}", n)},
				{"struct maps", mn, rep(`{"M":{"m":`, n) + `{"M":null}` + rep("}}", n)},
				{"omitted interfaces", in, rep(`{"I":`, n) + "{}" + rep("}", n)},
			}...)
		}
		for _, c := range cases {
			got, err, pan := call(func() ([]byte, error) { return jettison.Marshal(c.v) })
			if pan != "" || err != nil || string(got) != c.want {
				failT(t, "%s of depth %d: error %v %s\n%s", c.name, n, err, pan, diff(got, []byte(c.want)))
			}
			evalN(1)
		}
		// a cycle after n levels
		var v any
		switch n % 3 {
		case 0:
			x := []any{nil}
			x[0] = x
			v = x
		case 1:
			x := map[string]any{}
			x["c"] = x
			v = x
		default:
			x := &node{}
			x.N = x
			v = x
		}
		for i := 0; i < n; i++ {
			v = []any{v}
		}
		_, err, pan := call(func() ([]byte, error) { return jettison.Marshal(v) })
		var uve *jettison.UnsupportedValueError
		if pan != "" || !errors.As(err, &uve) {
			failT(t, "a cycle after %d levels: error %v %s", n, err, pan)
		}
		evalN(1)
		// a cycle of this length, at once
		if n > 0 && n < 20000 {
			first := &node{}
			x := first
			for i := 1; i < n; i++ {
				x = &node{x}
			}
			first.N = x
			_, err, pan := call(func() ([]byte, error) { return jettison.Marshal(first) })
			if pan != "" || !errors.As(err, &uve) {
				failT(t, "a cycle of %d pointers: error %v %s", n, err, pan)
			}
			evalN(1)
		}
	}
	// many references to one value are not a cycle
	for _, n := range sizes(3000) {
		x := &node{}
		s := make([]any, n)
		for i := range s {
			s[i] = x
		}
		var v any = s
		for i := 0; i < n; i++ {
			v = map[string]any{"k": v, "x": x}
		}
		want := `[` + strings.TrimSuffix(rep(`{"n":null},`, n), ",") + `]`
		want = rep(`{"k":`, n) + want + rep(`,"x":{"n":null}}`, n)
		got, err, pan := call(func() ([]byte, error) { return jettison.Marshal(v) })
		if pan != "" || err != nil || string(got) != want {
			failT(t, "%d levels that refer to one value %d times: error %v %s\n%s", n, n, err, pan, diff(got, []byte(want)))
		}
		evalN(1)
	}
}

// szCtx checks its context.
type szCtx struct{ id int }

var szCalls []szCall

type szCall struct {
	ctx context.Context
	n   int
	end string
}

func (c szCtx) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	szCalls = append(szCalls, szCall{ctx, len(dst), string(dst[max(0, len(dst)-20):])})
	return strconv.AppendInt(dst, int64(c.id), 10), nil
}

// sizesC24: much output before the call, many calls, and deep ones.
func sizesC24(t *testing.T) {
	try := func(what string, n int, v any, want string) {
		ctx := gen.Context(n)
		szCalls = nil
		got, err, pan := call(func() ([]byte, error) { return jettison.MarshalOpts(v, jettison.WithContext(ctx)) })
		if pan != "" || err != nil || string(got) != want {
			failT(t, "%s of size %d: error %v %s\n%s", what, n, err, pan, diff(got, []byte(want)))
		}
		calls := szCalls
		if len(calls) == 0 {
			failT(t, "%s of size %d: no call", what, n)
		}
		at := 0
		for i, c := range calls {
			if c.ctx != ctx {
				failT(t, "%s of size %d: call %d does not receive the context", what, n, i)
			}
			if strings.HasPrefix(what, "map") {
				continue
			}
			if c.n < at || c.n > len(want) || !strings.HasSuffix(want[:c.n], c.end) {
				failT(t, "%s of size %d: call %d receives a destination that is not the output so far", what, n, i)
			}
			at = c.n
		}
		evalN(1)
	}
	for _, n := range sizes(1 << 16) {
		s := strings.Repeat("a", n)
		try("output before", n, []any{s, szCtx{5}, &szCtx{6}}, `["`+s+`",5,6]`)
		l := make([]szCtx, n+1)
		var sb strings.Builder
		sb.WriteByte('[')
		for i := range l {
			l[i].id = i
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(strconv.Itoa(i))
		}
		sb.WriteByte(']')
		if n < 20000 {
			try("calls", n, l, sb.String())
		}
		if n < 3000 {
			var v any = szCtx{1}
			w := "1"
			for i := 0; i < n; i++ {
				v = []any{v}
			}
			try("depth", n, v, strings.Repeat("[", n)+w+strings.Repeat("]", n))
			v = szCtx{1}
			for i := 0; i < n; i++ {
				v = map[string]any{"k": v}
			}
			try("map depth", n, v, strings.Repeat(`{"k":`, n)+w+strings.Repeat("}", n))
		}
	}
}
