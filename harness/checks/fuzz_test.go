package checks

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/wI2L/jettison"

	"jverif/gen"
	"jverif/lib"
	"jverif/ref"
)

// The fuzz targets: the bytes and numbers chosen by a coverage-guided fuzzer
// (libFuzzer) are turned into values of static types and options, and judged
// as the generated ones.

type fuzzTarget struct {
	seeds []string
	prop  func(t tb, data []byte, aux uint64)
}

var fuzzTargets = map[string]fuzzTarget{}

func target(name string, seeds []string, prop func(t tb, data []byte, aux uint64)) {
	fuzzTargets[name] = fuzzTarget{seeds, prop}
}

// fzT is what fails in a fuzz target.
type fzT struct{}

type fzFailure string

func (fzT) Fatalf(format string, args ...any) { panic(fzFailure(fmt.Sprintf(format, args...))) }

var fuzzInit sync.Once

// RunFuzz runs a fuzz target on an input: eight bytes of auxiliary data, and
// data. It ends the process if the property does not hold.
func RunFuzz(name string, in []byte) {
	fuzzInit.Do(func() {
		debug.SetMaxStack(256 << 20)
		go watchdog()
	})
	debug.SetPanicOnFault(true)
	if trace {
		os.WriteFile(filepath.Join(outDir, "trace.txt"), []byte(fmt.Sprintf("fuzz input %q", in)), 0o644)
	}
	if !fuzzFails(name, in) {
		return
	}
	// make it smaller
	in = append([]byte(nil), in...)
	end := time.Now().Add(10 * time.Second)
	for n := len(in) / 2; n > 0; n /= 2 {
		for i := 0; i+n <= len(in) && time.Now().Before(end); {
			x := append(append([]byte(nil), in[:i]...), in[i+n:]...)
			if fuzzFails(name, x) {
				in = x
			} else {
				i += n
			}
		}
	}
	for i := range in {
		for _, c := range []byte{0, 'a'} {
			if i >= 8 && c == 0 || in[i] == c || time.Now().After(end) {
				continue
			}
			x := append([]byte(nil), in...)
			x[i] = c
			if fuzzFails(name, x) {
				in = x
			}
		}
	}
	if !fuzzFails(name, in) { // writes the description of the smallest one
		os.WriteFile(filepath.Join(outDir, "harness.txt"), []byte(fmt.Sprintf("fuzz input %q does not fail again", in)), 0o644)
	}
	os.WriteFile(filepath.Join(outDir, "input.fuzz"), in, 0o644)
	os.Exit(1)
}

func fuzzFails(name string, in []byte) (failed bool) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case fzFailure:
			failed = true
		default:
			os.WriteFile(filepath.Join(outDir, "harness.txt"), []byte(fmt.Sprintf("fuzz input %q: %v\n%s", in, r, debug.Stack())), 0o644)
			os.Exit(2)
		}
	}()
	var b [8]byte
	n := copy(b[:], in)
	data := append([]byte(nil), in[n:]...)
	fuzzTargets[name].prop(fzT{}, data, binary.LittleEndian.Uint64(b[:]))
	return false
}

// SeedFuzz writes the first inputs of a target, and a dictionary.
func SeedFuzz(name, dir string) {
	n := 0
	put := func(data string, aux uint64) {
		os.WriteFile(filepath.Join(dir, fmt.Sprintf("seed%04d", n)), append(binary.LittleEndian.AppendUint64(nil, aux), data...), 0o644)
		n++
	}
	seeds := fuzzTargets[name].seeds
	for i, s := range seeds {
		put(s, 0)
		put(s, uint64(i)*0x9e3779b97f4a7c15)
	}
	for i, x := range gen.DictInts {
		if i < 60 && len(seeds) > 0 {
			put(seeds[i%len(seeds)], uint64(x))
		}
	}
	var dict bytes.Buffer
	for i, s := range gen.DictStrs {
		if i < 500 && len(s) > 0 && len(s) <= 64 {
			dict.WriteByte('"')
			for k := 0; k < len(s); k++ {
				fmt.Fprintf(&dict, "\\x%02x", s[k])
			}
			dict.WriteString("\"\n")
		}
	}
	os.WriteFile(filepath.Join(dir, "..", "dict"), dict.Bytes(), 0o644)
}

// fz judges a value.
func fz(t tb, arg any, o *gen.OptSet, mode int) *tc {
	if len(o.Opts) != 0 {
		mode &^= withStd
	}
	c := &tc{T: t, Type: reflect.TypeOf(arg), Val: reflect.ValueOf(arg), Arg: arg, Opts: o}
	if !c.judge(mode) {
		return nil
	}
	return c
}

// fzOpts makes options of the bits.
func fzOpts(bits uint64, names ...string) *gen.OptSet {
	o := gen.None()
	for i, n := range names {
		if bits>>i&1 == 1 {
			o.Add(gen.FlagByName(n))
		}
	}
	return o
}

var fzStr = []string{"NoHTMLEscaping", "NoStringEscaping", "NoUTF8Coercion"}

func allFlags() (l []string) {
	for _, f := range gen.Flags {
		l = append(l, f.Name)
	}
	return
}

// fzText keeps the case inside of what can be said under NoStringEscaping.
func fzPieces(data []byte, sep byte, max int) []string {
	l := strings.SplitN(string(data), string([]byte{sep}), max)
	return l
}

type (
	fzNum  float32
	fzLeaf struct {
		V any
		P *fzLeaf `json:",omitempty"`
	}
	fzBase struct {
		ID   int     `json:"id"`
		Name string  `json:"name,omitempty"`
		X    *string `json:"x"`
		S    []string
	}
	fzPtr struct {
		ID  uint8 `json:"id"`
		Y   map[string]*int
		Mid *fzMid `json:"mid,omitempty"`
	}
	fzMid struct {
		*fzBase
		B bool `json:",string"`
	}
	// fzRec has something of everything a document can describe.
	fzRec struct {
		fzBase
		*fzPtr
		A   any
		B   bool              `json:"b,string"`
		I   int64             `json:"i,string,omitempty"`
		U   uint16            `json:"u<"`
		F   float64           `json:"f,omitempty"`
		F32 fzNum             `json:"f32,string"`
		St  string            `json:"st,string"`
		Pt  *string           `json:"pt,string,omitempty"`
		L   []fzLeaf          `json:"l,omitempty"`
		Ar  [3]int8           `json:"ar"`
		By  []byte            `json:"by"`
		Ba  [4]byte           `json:"ba"`
		M   map[string]any    `json:"m,omitempty"`
		Mi  map[int8]fzLeaf   `json:"mi"`
		Mt  map[lib.RawT]bool `json:"mt,omitempty"`
		T   time.Time         `json:"t"`
		Tp  *time.Time        `json:"tp,omitnil"`
		D   time.Duration     `json:"d"`
		Dp  *time.Duration    `json:"dp,omitempty"`
		N   json.Number       `json:"n,omitempty"`
		R   json.RawMessage   `json:"r,omitnil"`
		Pp  **int             `json:"pp,omitnil"`
		On  []int             `json:"on,omitnil"`
		Om  map[string]int    `json:"om,omitnil"`
		Oi  any               `json:"oi,omitnil"`
		Sub *fzRec            `json:"sub,omitempty"`
		E   struct{}          `json:"e,omitempty"`
	}
)

var fzDocs = []string{
	`{"id":1,"name":"n","x":"<&>","S":["a","b"],"Y":{"k":1,"j":null},"mid":{"id":7,"B":"true"},"A":[1,2.5e30,"\u2028",null,{"z":1,"a":{}}],"b":"true","i":"-5","u<":3,"f":1e-7,"f32":"2.5","st":"\"q\"","pt":"\"x\"","l":[{"V":1,"P":{"V":"x"}}],"ar":[1,-2,3],"by":"AAEC/w==","ba":[1,2,3,255],"m":{"é":1},"mi":{"-1":{"V":[]},"2":{"V":{}}},"mt":{"t":true},"t":"2020-02-29T23:59:59.999999999+05:30","tp":"1970-01-01T00:00:00Z","d":1500000000,"dp":61000000000,"n":1e5,"r":[ 1, "<" ],"pp":5,"on":[],"om":{},"oi":false,"sub":{"id":2}}`,
	`{}`, `null`, `[]`, `{"A":{"b":[[[]]]}}`, `"text"`, `-0.0`, `1e21`, `[1e-7,123456789012345678901234567890,0.000001]`, `{"sub":{"sub":{"sub":{}}}}`,
	`["\ud83d\ude00","\ud800","\u0000","\b\f"]`, `{"b":"false","i":"9223372036854775807"}`, `{"on":null,"om":null,"oi":null,"r":null}`, `{"":1," ":2,"a.b":3,"<":4}`,
	`{"t":"0001-01-01T00:00:00Z","d":-1,"n":-0}`,
}

// fzValue decodes a document to a value.
func fzValue(data []byte, aux uint64) any {
	dec := json.NewDecoder(bytes.NewReader(data))
	if aux&1 == 1 {
		dec.UseNumber()
	}
	var v any
	switch aux >> 1 & 3 {
	case 0:
		var a any
		if dec.Decode(&a) != nil {
			return nil
		}
		v = a
	case 1:
		var a fzRec
		dec.Decode(&a) // what could be decoded
		v = a
	case 2:
		a := new(fzRec)
		dec.Decode(a)
		v = a
	case 3:
		var a struct {
			L []fzRec
			M map[string]*fzRec
			A [2]fzLeaf
		}
		var r fzRec
		dec.Decode(&r)
		a.L = []fzRec{r, {}}
		a.M = map[string]*fzRec{"r": &r, "n": nil}
		a.A[1].V = r.M
		v = a
	}
	return v
}

func init() { // C01
	target("C01", fzDocs, func(t tb, data []byte, aux uint64) {
		if v := fzValue(data, aux); v != nil {
			fz(t, v, gen.None(), withStd|withErr)
		}
	})
}

func init() { // C03
	type opt struct {
		B   bool            `json:"b,omitempty"`
		Bs  bool            `json:"bs,omitempty,string"`
		I   int8            `json:"i,string,omitempty"`
		U   uint64          `json:"u,omitempty,string"`
		F   float32         `json:"f,omitempty"`
		G   float64         `json:"g,string"`
		S   string          `json:"s,omitempty"`
		Q   string          `json:"q,string"`
		P   *int            `json:"p,omitempty,string"`
		PS  *string         `json:"ps,string"`
		PB  *bool           `json:"pb,string"`
		L   []int           `json:"l,omitempty"`
		A   [0]int          `json:"a,omitempty"`
		A1  [1]int          `json:"a1,omitempty"`
		M   map[int]int     `json:"m,omitempty"`
		E   any             `json:"e,omitempty"`
		St  struct{ X any } `json:"st,omitempty"`
		T   time.Time       `json:"t,omitempty"`
		D   time.Duration   `json:"d,omitempty,string"`
		N   json.Number     `json:"n,omitempty,string"`
		R   json.RawMessage `json:"r,omitempty"`
		Txt lib.RawT        `json:"txt,omitempty,string"`
	}
	target("C03", []string{`{"b":true,"bs":"true","i":"-1","u":"5","f":1,"g":"-0","s":"x","q":"\"<\u2028\"","p":"1","ps":"\"\\\"\"","pb":"false","l":[],"a1":[0],"m":{},"e":0,"st":{"X":1},"t":"2000-01-01T00:00:00Z","d":"5","n":"1","r":null,"txt":"t"}`, `{}`}, func(t tb, data []byte, aux uint64) {
		var v opt
		json.Unmarshal(data, &v)
		if aux&1 == 1 {
			fz(t, &v, gen.None(), withStd)
		} else {
			fz(t, map[string]any{"k": []opt{v}}, gen.None(), withStd)
		}
	})
}

func init() { // C04
	type rec struct {
		P  *int            `json:"p,omitnil"`
		PP **string        `json:"pp,omitnil,string"`
		L  []any           `json:"l,omitnil"`
		B  []byte          `json:"b,omitnil"`
		M  map[string]any  `json:"m,omitnil"`
		E  any             `json:"e,omitnil"`
		R  json.RawMessage `json:"r,omitnil"`
		J  lib.RawJ        `json:"j,omitnil"`
		JP *lib.RawJ       `json:"jp,omitnil"`
		I  int             `json:"i,omitnil"`
		Z  *rec            `json:"z,omitnil,omitempty"`
		T  *time.Time      `json:"t,omitnil"`
		S  string          `json:"s"`
	}
	target("C04", []string{`{"p":1,"pp":"\"x\"","l":[],"b":"AA==","m":{},"e":[],"i":0,"z":{},"t":"2000-01-01T00:00:00Z","s":"null"}`, `{"r":"null"}`, `{}`, "null", " null\n", "xnull", `"null"`}, func(t tb, data []byte, aux uint64) {
		var v rec
		json.Unmarshal(data, &v)
		if aux&1 == 1 {
			v.J = lib.RawJ(data)
		}
		if aux&2 == 2 {
			j := lib.RawJ(data)
			v.JP = &j
		}
		if aux&4 == 4 {
			v.R = data
		}
		if aux&8 == 8 {
			fz(t, &v, gen.None(), withErr)
		} else {
			fz(t, []any{v, v.Z}, gen.None(), withErr)
		}
	})
}

func init() { // C06
	target("C06", []string{"1\x00[1]\x00{}\x00x", "-\x00[\x00nul\x00err", "1e\x00\"\x00{\"a\":}\x00"}, func(t tb, data []byte, aux uint64) {
		p := append(fzPieces(data, 0, 4), "", "", "", "")
		fl := math.Float64frombits(aux)
		switch aux & 3 { // often not finite
		case 1:
			fl = math.Inf(int(aux>>2&2) - 1)
		case 2:
			fl = math.NaN()
		case 3:
			fl = 1.5
		}
		type rec struct {
			N json.Number
			F any
			R json.RawMessage
			J lib.RawJ
			T time.Time
			M map[string]json.Number
		}
		sec := int64(aux>>4) % 4e11
		v := &rec{json.Number(p[0]), fl, json.RawMessage(p[1]), lib.RawJ(p[2]), time.Unix(sec-6e10, 0).UTC(), map[string]json.Number{p[3]: json.Number(p[0])}}
		if v.R != nil && len(v.R) == 0 {
			v.R = nil
		}
		if p[2] == "" {
			v.J = "1"
		}
		if aux>>3&1 == 1 {
			fz(t, v, gen.None(), withErr|withStd)
		} else {
			fz(t, []any{*v, v.N, map[string]any{p[3]: v.F, "t": v.T}}, gen.None(), withErr|withStd)
		}
	})
}

var fzKeys = []string{"a\x00b\x00c", "\xff\x00é\x00e", "b\x00a\x00ab\x00a ", "1\x0010\x002", "<\x00\\u003c\x00=", "\x00", "a\x00a\x00a", "\"\x00\\\x00/", "\u2028\x00\ue000\x00\U0001f600"}

func init() { // C07
	target("C07", fzKeys, func(t tb, data []byte, aux uint64) {
		m, mt, mi, mr := map[string]any{}, map[lib.RawT]*int{}, map[int16]string{}, map[string]map[string]int{}
		for i, k := range fzPieces(data, 0, 24) {
			m[k] = []any{i, k}
			if len(mt) < 4 {
				mt[lib.RawT(k)] = &i
			}
			mi[int16(aux>>(i%48))] = k
			if i%3 == 0 {
				mr[k] = map[string]int{k + "x": i, k + "y": i, k: 0}
			}
		}
		o := fzOpts(aux, append(fzStr[:3:3], "UnsortedMap", "NilMapEmpty")...)
		if o.Ref.Unsorted && len(m) > 6 {
			o = gen.None()
		}
		mode := withStd
		switch aux >> 5 & 3 {
		case 0:
			fz(t, m, o, mode)
		case 1:
			fz(t, []any{mt, mi}, o, mode)
		case 2:
			fz(t, struct{ A, B any }{mr, &m}, o, mode)
		case 3:
			m["\x7f"] = mr
			fz(t, m, o, mode)
		}
	})
}

func init() { // C08
	target("C08", fzKeys, func(t tb, data []byte, aux uint64) {
		sm := new(sync.Map)
		for i, k := range fzPieces(data, 0, 16) {
			var key any = k
			switch aux >> (2 * i) & 7 {
			case 1:
				key = i*7 - 20
			case 2:
				key = uint8(i)
			case 3:
				key = lib.RawT(k)
			case 4:
				key = time.Duration(i)
			}
			if len(k) > 0 && k[0] == '-' {
				sm.Delete(k[1:])
				continue
			}
			sm.Store(key, k)
		}
		n := 0
		sm.Range(func(_, _ any) bool { n++; return true })
		o := fzOpts(aux>>48, append(fzStr[:3:3], "UnsortedMap")...)
		if o.Ref.Unsorted && n > 6 {
			o = gen.None()
		}
		if aux>>60&1 == 0 {
			fz(t, sm, o, withErr)
		} else {
			fz(t, map[string]any{"sm": []any{sm, sm}, "z": struct{ M *sync.Map }{sm}}, o, withErr)
		}
	})
}

var fzTexts = []string{"plain", "<&>", "\"\\/", "é\u2028\u2029日😀", "\xff\xc0\xaf\xed\xa0\x80", "\x00\x01\b\f\n\r\t\x1f\x7f", "\xe2\x80", "\ufffd\xef\xbf\xbd", strings.Repeat("0123456789abcdef", 5) + "<"}

func init() { // C09
	target("C09", fzTexts, func(t tb, data []byte, aux uint64) {
		s := string(data)
		checkStr(t, s, aux&1 == 0, aux&2 == 0)
		o := fzOpts(aux, append(fzStr[:3:3], "RawByteSlice")...)
		if aux>>4&31 == 31 {
			fz(t, newStrPos(s), o, withStd)
		}
	})
}

func init() { // C10
	target("C10", []string{"0", "-0", "1.5", "1e5", "1E+05", "-1.0e-10", "01", "1.", ".1", "1e", "+1", "0x1", "1_0", " 1", "1 ", "--1", "", "-", "1e+", "Infinity", "NaN", "1.5.5"}, func(t tb, data []byte, aux uint64) {
		s := string(data)
		want := s
		if s == "" {
			want = "0"
		}
		ok := ref.ValidNumber(want)
		got, err, pan := call(func() ([]byte, error) { return jettison.Marshal(json.Number(s)) })
		if pan != "" || (err == nil) != ok || ok && string(got) != want {
			failT(t, "json.Number %q: got %q, error %v, valid %v %s", s, got, err, ok, pan)
		}
		switch fl := math.Float64frombits(aux); {
		case len(s)%2 == 0:
			fz(t, []any{int64(aux), aux, int32(aux), uint16(aux), int8(aux), uintptr(aux)}, gen.None(), withStd)
		default:
			fz(t, fl, gen.None(), withStd)
			fz(t, math.Float32frombits(uint32(aux>>len(s)%32)), gen.None(), withStd)
			fz(t, float64(int64(aux))/math.Pow10(len(s)), gen.None(), withStd)
		}
	})
}

func init() { // C11
	target("C11", append(append([]string{}, gen.Layouts...), gen.RFCLayouts[:60]...), func(t tb, data []byte, aux uint64) {
		if len(data) == 0 {
			return
		}
		var b [16]byte
		copy(b[:], data)
		mix := binary.LittleEndian.Uint64(b[:8]) ^ binary.LittleEndian.Uint64(b[8:])
		off := int(aux%172799) - 86399
		if aux>>62 == 0 {
			off = int(aux%49-24) * 1800
		}
		x := time.Unix(int64(aux>>8)%253402300800-aux2(aux), int64(mix%1e9)).In(time.FixedZone("Z"+string(rune('A'+aux%26)), off))
		if aux>>61&1 == 1 {
			x = x.UTC().Truncate(time.Duration(math.Pow10(int(aux % 10))))
		}
		o := gen.None()
		switch aux >> 58 & 7 {
		case 0:
		case 1:
			o.AddLayout(time.RFC3339)
		case 2:
			o.Add(gen.FlagByName("UnixTime"))
		default:
			o.AddLayout(string(data))
		}
		fz(t, []any{x, &x, map[time.Time]int{x: 1}, struct{ T time.Time }{x}}, o, withErr)
	})
}

func aux2(a uint64) int64 {
	if a&3 == 0 {
		return 62167219200
	}
	return 0
}

func init() { // C12
	target("C12", []string{"\x00", "\x01", "\x02", "\x03", "\x04", "\x05"}, func(t tb, data []byte, aux uint64) {
		d := time.Duration(aux)
		o := gen.None()
		if len(data) > 0 {
			o.AddDur(jettison.DurationFmt(data[0] % 6))
		}
		if len(data) > 1 {
			d >>= data[1] % 64
		}
		if len(data) > 2 {
			d /= time.Duration(math.Pow10(int(data[2] % 12)))
			d *= time.Duration(math.Pow10(int(data[2] >> 4)))
		}
		fz(t, []any{d, &d, map[time.Duration]int{d: 1}, struct {
			D time.Duration `json:",string"`
			E time.Duration `json:",omitempty"`
		}{d, d}}, o, withStd)
	})
}

func init() { // C13
	target("C13", fzTexts, func(t tb, data []byte, aux uint64) {
		o := fzOpts(aux, append(fzStr[:3:3], "RawByteSlice", "ByteArrayAsString")...)
		var v any = data
		switch aux >> 5 & 7 {
		case 1:
			v = []any{data, &data, gen.NBytes(data)}
		case 2:
			v = map[string][]byte{"k": data}
		case 3:
			if n := len(data); n <= 32 {
				a := reflect.New(reflect.ArrayOf(n, reflect.TypeOf(byte(0))))
				reflect.Copy(a.Elem(), reflect.ValueOf(data))
				v = []any{a.Interface(), a.Elem().Interface()}
			}
		}
		c := fz(t, v, o, withStd)
		if c == nil || c.Err != nil {
			return
		}
		pre := make([]byte, aux>>8&15, int(aux>>8&15)+int(aux>>12)%(len(c.Got)+8))
		got, err, pan := call(func() ([]byte, error) { return jettison.AppendOpts(pre, v, o.Opts...) })
		if pan != "" || err != nil || !bytes.Equal(got[:len(pre)], pre) || !bytes.Equal(got[len(pre):], c.Got) {
			c.fail("Append differs: error %v %s %q", err, pan, got)
		}
	})
}

func init() { // C14
	target("C14", append(append([]string{}, fzDocs...), ` { "a" : [ 1 , 2 ] , "b" : "x y" } `, `"\""`, `"\\" `, `["<",">","&","\u2028"]`, "\"\u2028\u2029\"", `[1,]`, `{"a":1,}`, "\"\xff\"", "\"\x01\"", `"\x"`, `tru`, `true false`, "[\t1\n,\r2 ]", "\xe2\x80", "\"\xe2\x80\xa8", "\ufeff1"), func(t tb, data []byte, aux uint64) {
		s := string(data)
		var buf bytes.Buffer
		cerr := json.Compact(&buf, data)
		for k := 0; k < 2; k++ {
			o := fzOpts(aux>>k, "NoHTMLEscaping", "NoCompact")
			want := ref.EscapeDoc(buf.String(), !o.Ref.NoHTML)
			bad := cerr != nil
			if o.Ref.NoCompact {
				want, bad = s, false
			}
			var v any = json.RawMessage(append([]byte{}, data...))
			if aux>>3&1 == uint64(k) {
				v = lib.RawJ(s)
			}
			got, err, pan := call(func() ([]byte, error) { return jettison.MarshalOpts(v, o.Opts...) })
			if pan != "" || (err != nil) != bad || err == nil && string(got) != want {
				failT(t, "%T(%q), options %v: got %q, error %v, want %q, error %v %s", v, s, o, got, err, want, cerr, pan)
			}
		}
		if aux>>4&7 == 0 && utf8.Valid(data) {
			fz(t, docPos{R: json.RawMessage(s), J: lib.RawJ(s), I: lib.RawJ(s), M: map[string]json.RawMessage{"k": json.RawMessage(s)}, K: new(lib.RawJ)}, gen.None(), withErr)
		}
	})
}

func init() { // C15
	flags := []string{"UnixTime", "UnsortedMap", "RawByteSlice", "ByteArrayAsString", "NilMapEmpty", "NilSliceEmpty", "NoHTMLEscaping"}
	target("C15", fzDocs, func(t tb, data []byte, aux uint64) {
		v := fzValue(data, aux)
		if v == nil {
			return
		}
		o := fzOpts(aux>>8, flags...)
		got, err, pan := marshal(v, o)
		if pan != "" {
			failT(t, "jettison panics: %s\n%q", pan, data)
		}
		if err != nil {
			return
		}
		if !json.Valid(got) || (aux>>1&3 == 0 || utf8.Valid(data)) && !utf8.Valid(got) { // raw messages are copied
			failT(t, "invalid JSON %q of document %q decoded with %#x, options %v", got, data, aux, o)
		}
		var x any
		if aux>>1&3 != 0 {
			return
		}
		if aux&1 == 1 {
			dec := json.NewDecoder(bytes.NewReader(got))
			dec.UseNumber()
			err = dec.Decode(&x)
		} else {
			err = json.Unmarshal(got, &x)
		}
		if err != nil || !reflect.DeepEqual(x, v) {
			failT(t, "%q decodes to %#v, error %v; the value was %#v", got, x, err, v)
		}
	})
}

func init() { // C16
	target("C16", fzDocs, func(t tb, data []byte, aux uint64) {
		v := fzValue(data, aux|2)
		o := fzOpts(aux>>8, allFlags()...)
		if d := aux >> 24 & 15; d < 6 {
			o.AddDur(jettison.DurationFmt(d))
		}
		if l := int(aux >> 28 & 63); l < len(gen.Layouts) {
			o.AddLayout(gen.Layouts[l])
		}
		fz(t, v, o, withErr)
	})
}

var fzNames = []string{"id", "name", "x", "S", "Y", "mid", "B", "A", "b", "i", "u<", "f", "f32", "st", "pt", "l", "ar", "by", "ba", "m", "mi", "mt", "t", "tp", "d", "dp", "n", "r", "pp", "on", "om", "oi", "sub", "e", "V", "P", "L", "M", "fzBase", "fzPtr", "ID", "", "u\\u003c"}

func init() { // C17
	target("C17", fzDocs, func(t tb, data []byte, aux uint64) {
		v := fzValue(data, aux|2)
		r := rng(aux>>3 | 1)
		list := func(p int) (l []string) {
			for _, n := range fzNames {
				if r.n(100) < p {
					l = append(l, n)
				}
			}
			if r.n(10) == 0 {
				l = append(l, l...)
			}
			return
		}
		o := gen.None()
		k := r.n(6)
		if k < 3 {
			o.AddAllow(list(60 + r.n(41)))
		}
		if k > 1 {
			o.AddDeny(list(r.n(60)))
		}
		if r.n(4) == 0 {
			o.Add(gen.FlagByName("NoHTMLEscaping"))
		}
		fz(t, v, o, withErr)
	})
}

func init() { // C18
	target("C18", fzDocs, func(t tb, data []byte, aux uint64) {
		v := fzValue(data, aux)
		if v == nil {
			return
		}
		o := fzOpts(aux>>8, allFlags()...)
		o2 := gen.None()
		if aux>>20&3 == 0 {
			o2 = o
		}
		want, werr, pan := marshal(v, o2)
		if pan != "" || o2.Ref.Unsorted {
			return
		}
		n, room := int(aux>>24&63), int(aux>>30&0xffff)%(len(want)+70)
		mem := make([]byte, n+room+16)
		for i := range mem {
			mem[i] = byte(i*31 + 7)
		}
		before := append([]byte(nil), mem...)
		got, err, pan := appendTo(mem[:n:n+room], v, o2)
		switch {
		case pan != "":
			failT(t, "Append panics: %s\n%q", pan, data)
		case (err != nil) != (werr != nil):
			failT(t, "Append returns error %v, Marshal %v\n%q", err, werr, data)
		case !bytes.Equal(mem[:n], before[:n]) || !bytes.Equal(mem[n+room:], before[n+room:]):
			failT(t, "memory outside of the room is modified\n%q", data)
		case err == nil && (len(got) < n || !bytes.Equal(got[:n], before[:n]) || !bytes.Equal(got[n:], want)):
			failT(t, "the document %q decoded with %#x, options %v: Append to %d bytes with room for %d gives %q, Marshal %q", data, aux, o2, n, room, got, want)
		}
	})
}

func init() { // C02
	types := []reflect.Type{
		reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(false), reflect.TypeOf(1.5), reflect.TypeOf((*int)(nil)), reflect.TypeOf([]string(nil)),
		reflect.TypeOf(map[string]int(nil)), reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf(struct{ A int }{}), reflect.TypeOf((*string)(nil)), reflect.TypeOf(time.Time{}), reflect.TypeOf(json.Number("")),
	}
	base := []reflect.Type{reflect.TypeOf(fzBase{}), reflect.TypeOf(fzMid{}), reflect.TypeOf(&fzMid{})}
	seeds := []string{"\x00a\x00b\x00c", "\x00a\x01b,omitempty\x02c,string", "\x00-\x01-,\x02,omitempty\x03,string", "\x00a\x00a", "\x00id\x01name\x02x\x80\x81", "\x00é\x00<>&\x00a b\x00a\"b\x00a\\b\x00,", "\x40json:\"x\"\x40json:\"\x40xml:\"a\" json:\"b\"\x40json:a\x40 json:\"z\"", "\x00a,omitempty,string\x00b,string,omitempty\x00c, string\x00d,omitempty,"}
	for i := 'a'; i < 'e'; i++ {
		seeds = append(seeds, "\x00"+strings.Repeat(string(i)+"\x01"+string(i-32)+"\x02", 5))
	}
	target("C02", seeds, func(t tb, data []byte, aux uint64) {
		var fs []reflect.StructField
		emb := map[byte]bool{}
		// A piece begins with a byte below 0x20 (the type, with a tag of the
		// json key), 0x40 (a whole tag), or 0x80 and more (an embedded struct).
		for i := 0; i < len(data) && len(fs) < 24; {
			b := data[i]
			j := i + 1
			for j < len(data) && !(data[j] < 0x20 || data[j] == 0x40) {
				j++
			}
			body := string(data[i+1 : j])
			i = j
			f := reflect.StructField{Name: fmt.Sprintf("F%d", len(fs)), Type: types[int(b)%len(types)]}
			switch {
			case b >= 0x80:
				k := b % byte(len(base))
				if emb[k] || k > 0 && (emb[1] || emb[2]) {
					continue
				}
				emb[k] = true
				// the names of the types are not exported
				f = reflect.StructField{Name: [...]string{"FzBase", "FzMid", "FzMidP"}[k], Type: base[k], Anonymous: true}
				if len(body) > 0 && body[0] == 't' {
					f.Tag = reflect.StructTag("json:" + strconv.Quote(body[1:]))
				}
			case b == 0x40:
				f.Tag = reflect.StructTag(body)
			default:
				f.Tag = reflect.StructTag("json:" + strconv.Quote(body))
				if strings.Contains(body, "omitnil") {
					continue // an extension
				}
			}
			if strings.Contains(string(f.Tag), "omitnil") {
				continue
			}
			fs = append(fs, f)
		}
		v := reflect.New(reflect.StructOf(fs)).Elem()
		for i := range fs {
			if aux>>i&1 == 0 {
				continue
			}
			f := v.Field(i)
			switch f.Kind() {
			case reflect.Int:
				f.SetInt(int64(i + 1))
			case reflect.String:
				f.SetString(strconv.Itoa(i))
			case reflect.Bool:
				f.SetBool(true)
			case reflect.Float64:
				f.SetFloat(float64(i))
			case reflect.Pointer:
				f.Set(reflect.New(f.Type().Elem()))
			case reflect.Slice:
				f.Set(reflect.ValueOf([]string{"<", ""}))
			case reflect.Map:
				f.Set(reflect.ValueOf(map[string]int{"k": i}))
			case reflect.Interface:
				f.Set(reflect.ValueOf(i))
			}
		}
		arg := v.Interface()
		if aux>>62&1 == 1 {
			arg = v.Addr().Interface()
		}
		fz(t, arg, gen.None(), withStd)
	})
}

func init() { // C19
	type rec struct {
		T time.Time         `json:"t"`
		D time.Duration     `json:"d"`
		S string            `json:"s<"`
		B []byte            `json:"b"`
		A [3]byte           `json:"a"`
		M map[string]string `json:"m"`
		N []int             `json:"n"`
		J json.Number       `json:"j"`
		R json.RawMessage   `json:"r"`
		I any               `json:"i"`
		C lib.RawC          `json:"c"`
	}
	v := rec{T: time.Unix(1e9, 5).UTC(), D: 90*time.Second + 5, S: "<\u2028\"\xff", B: []byte("\x01<\xff"), A: [3]byte{'"', 1, 'b'}, J: "1e3", C: "1", R: json.RawMessage(` {"a" : "<"} `), M: map[string]string{"<": "&"}}
	v.I = []any{&rec{T: v.T, R: json.RawMessage("1")}, v.D, v.T}
	target("C19", []string{"", "\x00\x01\x02\x03\x04", "\x10\x11\x12\x13\x14\x15\x16\x17\x18", "\x20\x21\x22\x23", "\x20\xff\x20\x00", "\x30\x00\x31\x01", "\x40\x41\x40", "\x50\x51\x52", "\x60\x61\x63", "\x05\x06\x07\x08\x09\x0a"}, func(t tb, data []byte, aux uint64) {
		o := gen.None()
		badCtx, badLayout, badDur := false, false, false
		add := func(name string, opt jettison.Option) {
			o.Names = append(o.Names, name)
			o.Opts = append(o.Opts, opt)
		}
		names := []string{"t", "d", "s<", "b", "a", "m", "n", "j", "r", "i", "c", "x"}
		for i := 0; i < len(data) && i < 64; i++ {
			b, k := data[i]>>4&7, int(data[i]&15)
			next := byte(0)
			if i+1 < len(data) {
				next = data[i+1]
			}
			switch b {
			case 0, 1:
				if k < len(gen.Flags) {
					o.Add(gen.Flags[k])
				} else {
					add("nil", nil)
				}
			case 2:
				d := jettison.DurationFmt(k) - 1
				if k > 9 { // of the auxiliary number
					d = jettison.DurationFmt(aux)
				}
				o.AddDur(d)
				badDur = d < 0 || d > 5
			case 3:
				l := ""
				if k > 0 {
					l = gen.Layouts[int(next)%len(gen.Layouts)]
				}
				o.AddLayout(l)
				badLayout = l == ""
			case 4:
				badCtx = k == 0
				if badCtx {
					o.Ref.Ctx = nil
				} else {
					o.Ref.Ctx = gen.Context(k)
				}
				add("WithContext", jettison.WithContext(o.Ref.Ctx))
			case 5, 6:
				var l []string
				for j, n := range names {
					if (uint(next)|uint(k)<<8)>>j&1 == 1 {
						l = append(l, n)
					}
				}
				if b == 5 {
					o.AddAllow(l)
				} else {
					o.AddDeny(l)
				}
			case 7:
				if n := len(o.Opts); n > 0 {
					o.Opts = append(o.Opts, nil, nil)
					o.Names = append(o.Names, "nil", "nil")
				}
			}
		}
		bad := ""
		switch {
		case badCtx:
			bad = "nil context"
		case badLayout:
			bad = "empty time layout"
		case badDur:
			bad = "unknown duration format"
		}
		c := &tc{T: t, Type: reflect.TypeOf(v), Val: reflect.ValueOf(v), Arg: v, Opts: o}
		if bad != "" {
			c.invalid(bad)
			return
		}
		if !c.judge(withErr) {
			return
		}
		dst := []byte("dst")
		for k := 0; k < 2; k++ {
			got, err, pan := call(func() ([]byte, error) {
				if k == 0 {
					return jettison.AppendOpts(dst[:3:3], v, o.Opts...)
				}
				return jettison.AppendOpts(nil, v, append([]jettison.Option{nil}, o.Opts...)...)
			})
			if pan != "" || (err != nil) != (c.Err != nil) {
				c.fail("AppendOpts: %s %v, MarshalOpts: %v", pan, err, c.Err)
			}
			if err == nil && !c.Res.Node.Match(got[3-3*k:]) {
				c.fail("AppendOpts and MarshalOpts differ\n%s", diff(got[3-3*k:], c.Got))
			}
		}
	})
}
