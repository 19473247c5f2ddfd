package checks

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/wI2L/jettison"
	"pgregory.net/rapid"

	"jverif/gen"
	"jverif/lib"
	"jverif/ref"
)

var byteElems = []reflect.Type{reflect.TypeOf(byte(0)), reflect.TypeOf(byte(0)), reflect.TypeOf(byte(0)), reflect.TypeOf(gen.NByte(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(lib.LU8_Jv(0)), reflect.TypeOf(lib.LU8_Jp(0)), reflect.TypeOf(lib.LU8_Tv(0)), reflect.TypeOf(lib.LU8_Tp(0)), reflect.TypeOf(lib.LU8_Av(0)), reflect.TypeOf(lib.LU8_Ap(0)), reflect.TypeOf(lib.LU8_Cv(0)), reflect.TypeOf(lib.LU8_Cp(0)), reflect.TypeOf(lib.LU8_None(0)), reflect.TypeOf(lib.LU8_CpApJpTp(0)), reflect.TypeOf(lib.LI8_Jp(0))}

// TestC13: byte slices and arrays.
func TestC13(t *testing.T) {
	run(t, func(t *rapid.T) {
		o := gen.None()
		for _, f := range []string{"RawByteSlice", "ByteArrayAsString", "NoHTMLEscaping", "NoUTF8Coercion", "NoStringEscaping", "NilSliceEmpty"} {
			pct := 20
			if f == "RawByteSlice" || f == "ByteArrayAsString" {
				pct = 45
			}
			if gen.Chance(t, pct) {
				o.Add(gen.FlagByName(f))
			}
		}
		et := gen.Of(t, byteElems)
		n := gen.Size(t, 400)
		if gen.Chance(t, 3) {
			n = 1<<(8+gen.Pick(t, 11)) + gen.Pick(t, 7) - 3
			if gen.Bool(t) {
				n += gen.Pick(t, n/2)
			}
		}
		if gen.Chance(t, 4) {
			n = max(0, gen.DictLen(t, 1<<gen.Of(t, []int{8, 12, 17})))
		}
		r := rng(gen.Bits(t, 20))
		text := gen.Bool(t)
		var s string
		if text {
			s = gen.String(t, false)
		}
		fill := func(v reflect.Value) {
			for i := 0; i < v.Len(); i++ {
				b := byte(r.next())
				if i < len(s) {
					b = s[i]
				}
				if et.PkgPath() == "jverif/lib" && et != reflect.TypeOf(lib.LU8_None(0)) && b >= 101 && b <= 108 && b != lib.CodeNull {
					b = 0
				}
				if e := v.Index(i); e.Kind() == reflect.Uint8 {
					e.SetUint(uint64(b))
				} else {
					e.SetInt(int64(int8(b)))
				}
			}
		}
		sl := reflect.MakeSlice(reflect.SliceOf(et), n, n+gen.Pick(t, 3))
		fill(sl)
		if gen.Chance(t, 8) {
			sl = reflect.Zero(sl.Type())
		}
		an := gen.Of(t, []int{0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 200, 255, 256, 257})
		if gen.Chance(t, 15) {
			an = max(0, gen.DictLen(t, 5000))
		}
		at := reflect.ArrayOf(an, et)
		arr := reflect.New(at).Elem()
		fill(arr)
		var v reflect.Value
		switch gen.Pick(t, 5) {
		case 0:
			v = reflect.New(sl.Type()).Elem()
			v.Set(sl)
		case 1:
			v = arr
		case 2: // a struct; fields before and after
			st := reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf("")}, {Name: "B", Type: sl.Type()}, {Name: "C", Type: at}, {Name: "D", Type: reflect.PointerTo(at)}, {Name: "E", Type: sl.Type(), Tag: `json:",omitempty"`}, {Name: "F", Type: reflect.TypeOf(0)}})
			v = reflect.New(st).Elem()
			v.Field(1).Set(sl)
			v.Field(2).Set(arr)
			v.Field(3).Set(arr.Addr())
			if gen.Bool(t) {
				v.Field(4).Set(sl)
			}
		case 3:
			m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), at))
			m.SetMapIndex(reflect.ValueOf("k"), arr)
			v = reflect.New(m.Type()).Elem()
			v.Set(m)
		default:
			x := []any{sl.Interface(), arr.Interface(), arr.Addr().Interface(), map[string]any{"": sl.Interface()}}
			v = reflect.ValueOf(&x).Elem()
		}
		c := newCase(t, v.Type(), v, o)
		mode := withCalls
		if len(o.Opts) == 0 {
			mode |= withStd
		}
		if c.judge(mode) && n+an > 0 {
			nontrivial(hash(v.Type(), c.Got, o), c.short)
		}
	})
	if t.Failed() || failFile != "" {
		return
	}
	// every length, in destinations of every remaining capacity
	n := int64(0)
	r := rng(seed)
	max := 260
	for l := shard; l < max; l += nShards {
		b := make([]byte, l)
		for i := range b {
			b[i] = byte(r.next())
		}
		want := `"` + base64.StdEncoding.EncodeToString(b) + `"`
		for _, pre := range []int{0, 1, 5} {
			for c := 0; c <= len(want)+3; c++ {
				if c > 12 && c < len(want)-12 && c%7 != 0 {
					continue
				}
				dst := make([]byte, pre, pre+c)
				for i := range dst {
					dst[i] = 'p'
				}
				got, err, pan := call(func() ([]byte, error) { return jettison.Append(dst, b) })
				if pan != "" || err != nil || string(got) != strings.Repeat("p", pre)+want {
					failT(t, "Append of %d bytes to a destination of length %d and capacity %d: error %v %s\n%s", l, pre, pre+c, err, pan, diff(got, []byte(strings.Repeat("p", pre)+want)))
				}
				n++
			}
		}
		got, err, pan := call(func() ([]byte, error) { return jettison.MarshalOpts(b, jettison.RawByteSlice()) })
		if w := `"` + ref.Escape(string(b), true, true) + `"`; pan != "" || err != nil || string(got) != w {
			failT(t, "RawByteSlice of %q: %v %s\n%s", b, err, pan, diff(got, []byte(w)))
		}
		n++
	}
	for i := shard; i < 256; i += nShards { // every byte at both ends
		for _, b := range [][]byte{{byte(i)}, {byte(i), 0}, {1, byte(i)}, {255, 254, byte(i)}} {
			w, _ := json.Marshal(b)
			got, err, pan := call(func() ([]byte, error) { return jettison.Marshal(b) })
			if pan != "" || err != nil || !bytes.Equal(got, w) {
				failT(t, "bytes %q: got %s, want %s (error %v) %s", b, got, w, err, pan)
			}
			n++
		}
	}
	evalN(n)
	sweep(t, sizesC13)
}

type docPos struct {
	A string
	R json.RawMessage
	P *json.RawMessage
	O json.RawMessage `json:",omitempty"`
	Q json.RawMessage `json:",string"`
	J lib.RawJ
	K *lib.RawJ
	I any
	L []any
	M map[string]json.RawMessage
	N map[string]lib.RawJ
	Z int
}

// TestC14: embedded JSON.
func TestC14(t *testing.T) {
	run(t, func(t *rapid.T) {
		var s string
		bad := gen.Chance(t, 35)
		if bad {
			s = gen.BadDoc(t)
		} else {
			s = gen.Doc(t, 3, false)
			if gen.Chance(t, 4) { // deep
				n := gen.Pick(t, 3000)
				if gen.Bool(t) {
					n = max(0, gen.DictLen(t, 9000))
				}
				s = strings.Repeat("[", n) + s + strings.Repeat("]", n)
			}
		}
		o := gen.None()
		if gen.Chance(t, 18) {
			o.Add(gen.FlagByName("NoCompact"))
		}
		for _, f := range []string{"NoHTMLEscaping", "NoStringEscaping", "NoUTF8Coercion", "RawByteSlice", "NilSliceEmpty"} {
			if gen.Chance(t, 20) {
				o.Add(gen.FlagByName(f))
			}
		}
		rm := json.RawMessage(s)
		rj := lib.RawJ(s)
		var v reflect.Value
		switch gen.Pick(t, 8) {
		case 0:
			v = reflect.ValueOf(&rm).Elem()
		case 1:
			v = reflect.ValueOf(&rj).Elem()
		case 2:
			x := map[string]json.RawMessage{"a": rm}
			v = reflect.ValueOf(&x).Elem()
		case 3:
			x := []any{rm, "x", rj, &rm}
			v = reflect.ValueOf(&x).Elem()
		case 4:
			var x [1]json.RawMessage
			if gen.Bool(t) {
				x[0] = rm
			}
			v = reflect.ValueOf(&x).Elem()
		default:
			x := &docPos{A: "<", R: rm, J: rj, I: rj, L: []any{rm}, N: map[string]lib.RawJ{"<": rj}}
			if gen.Bool(t) {
				x.O, x.Q, x.P = rm, rm, &rm
			}
			if gen.Bool(t) {
				x.M = map[string]json.RawMessage{"": rm}
			}
			if gen.Chance(t, 30) {
				x.R = nil
			}
			x.K = &rj
			v = reflect.ValueOf(x).Elem()
		}
		c := newCase(t, v.Type(), v, o)
		mode := withErr
		if len(o.Opts) == 0 {
			mode |= withStd
		}
		if c.judge(mode) {
			nontrivial(hash(s, v.Type(), o), func() string { return fmt.Sprintf("document %.300q options %v in %s: error %v", s, o, v.Type(), c.Err) })
			if c.Err != nil {
				count("invalid documents")
			}
		}
	})
	if t.Failed() || failFile != "" {
		return
	}
	// every byte at every position of some documents
	n := int64(0)
	docs := []string{`{"a":[1,-2.5e3,true],"b":"x\u00e9\\\n"}`, ` [ null , false , "" , { } ] `, `"\ud83d\ude00\/\b"`, `0`, `[[],{"":{}}]`, `tru`, ``}
	for d, doc := range docs {
		for i := 0; i <= len(doc); i++ {
			if (d+i)%nShards != shard {
				continue
			}
			for b := 0; b < 256; b++ {
				for _, s := range []string{doc[:i] + string([]byte{byte(b)}) + doc[i:], replaceAt(doc, i, byte(b))} {
					var buf bytes.Buffer
					cerr := json.Compact(&buf, []byte(s))
					want := ref.EscapeDoc(buf.String(), true)
					for _, v := range []any{json.RawMessage(s), lib.RawJ(s)} {
						got, err, pan := call(func() ([]byte, error) { return jettison.Marshal(v) })
						if pan != "" || (err != nil) != (cerr != nil) || (err == nil && string(got) != want) {
							failT(t, "%T with document %q: got %s (error %v), want %s (error %v) %s", v, s, got, err, want, cerr, pan)
						}
						n++
					}
				}
			}
		}
	}
	evalN(n)
	sweep(t, sizesC14)
}

func replaceAt(s string, i int, b byte) string {
	if i >= len(s) {
		return s + string([]byte{b, b})
	}
	return s[:i] + string([]byte{b}) + s[i+1:]
}

// TestC15: valid output, decoding back.
func TestC15(t *testing.T) {
	lib.Valid = true
	run(t, func(t *rapid.T) {
		if gen.Bool(t) {
			roundTrip(t)
			return
		}
		p := gen.General()
		p.Special = 8
		p.Fail = false
		p.Valid = true // the marshalers' own output is then valid UTF-8
		p.OmitNil = 6
		p.W[gen.Unsup], p.W[gen.SyncMap], p.W[gen.Raw], p.W[gen.Native], p.W[gen.Bytes] = 0, 2, 5, 8, 5
		typ := p.Type(t, 0)
		for i := 0; i < 3; i++ {
			o := gen.Options(t, 20, true, "NoStringEscaping", "NoCompact", "NoNumberValidation", "NoUTF8Coercion")
			v := p.Value(t, typ)
			if gen.Chance(t, 50) { // invalid UTF-8 in plain strings is coerced
				dirty(t, v, 0)
			}
			c := newCase(t, typ, v, o)
			var pan string
			c.Got, c.Err, pan = marshal(c.Arg, o)
			eval()
			if pan != "" {
				if _, _, ok := expect(c.Arg, o); ok {
					c.fail("jettison panics: %s", pan)
				}
				continue
			}
			if c.Err != nil {
				count("errors")
				continue
			}
			if !json.Valid(c.Got) {
				c.fail("output is not valid JSON: %.600q", c.Got)
			}
			if !utf8.Valid(c.Got) {
				c.fail("output is not valid UTF-8: %.600q", c.Got)
			}
			var buf bytes.Buffer
			if json.Compact(&buf, c.Got) != nil || !bytes.Equal(buf.Bytes(), c.Got) {
				c.fail("output is not compact: %.600q", c.Got)
			}
			if len(c.Got) > 12 {
				nontrivial(hash(typ, c.Got, o), c.short)
			}
		}
	})
	sweep(t, sizesC15)
}

// dirty puts invalid UTF-8 in the strings and bytes reached by v.
func dirty(t *rapid.T, v reflect.Value, d int) {
	if d > 12 || !v.IsValid() || !v.CanInterface() {
		return
	}
	if v.Type() == reflect.TypeOf(json.Number("")) || v.Type() == reflect.TypeOf(json.RawMessage(nil)) || v.Type() == reflect.TypeOf(time.Time{}) {
		return
	}
	if v.Type() == reflect.TypeOf(lib.RawT("")) {
		if v.CanSet() && gen.Chance(t, 50) {
			v.SetString(gen.String(t, false))
		}
		return
	}
	if m, _ := ref.Method(v.Type(), true); m != 0 {
		return
	}
	switch v.Kind() {
	case reflect.String:
		if v.CanSet() && gen.Chance(t, 50) {
			v.SetString(gen.String(t, false))
		}
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			dirty(t, v.Elem(), d+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			dirty(t, v.Field(i), d+1)
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			for i := 0; i < v.Len() && i < 8; i++ {
				if v.Index(i).CanSet() && v.Type().Elem().NumMethod() == 0 && reflect.PointerTo(v.Type().Elem()).NumMethod() == 0 {
					v.Index(i).SetUint(gen.Bits(t, 8))
				}
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			dirty(t, v.Index(i), d+1)
		}
	}
}

var rtLeaves = []reflect.Type{
	reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(false), reflect.TypeOf(float64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(uintptr(0)),
	reflect.TypeOf([]byte(nil)), reflect.TypeOf([3]byte{}), reflect.TypeOf(time.Time{}), reflect.TypeOf(time.Duration(0)), reflect.TypeOf(json.Number("")), reflect.TypeOf(gen.NStr("")), reflect.TypeOf(gen.NBytes(nil)), reflect.TypeOf(gen.NNBytes(nil)), reflect.TypeOf(gen.NDur(0)), reflect.TypeOf(struct{}{}),
}

var rtKeys = []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(uintptr(0)), reflect.TypeOf(gen.NStr("")), reflect.TypeOf(time.Duration(0))}

// rtType draws a type that encoding/json can round-trip.
func rtType(t *rapid.T, d int) reflect.Type {
	if d > 3 || gen.Chance(t, 30) {
		return gen.Of(t, rtLeaves)
	}
	switch gen.Pick(t, 5) {
	case 0:
		e := rtType(t, d+1)
		if k := e.Kind(); k == reflect.Ptr || k == reflect.Slice || k == reflect.Map {
			return e
		}
		return reflect.PointerTo(e)
	case 1:
		return reflect.SliceOf(rtType(t, d+1))
	case 2:
		return reflect.ArrayOf(gen.Pick(t, 4), rtType(t, d+1))
	case 3:
		return reflect.MapOf(gen.Of(t, rtKeys), rtType(t, d+1))
	}
	n := gen.Pick(t, 6)
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: fmt.Sprintf("F%c%d", 'a'+d, i), Type: rtType(t, d+1)}
		k := f.Type.Kind()
		tag := ""
		if gen.Chance(t, 25) {
			tag = gen.Of(t, []string{"a b", "<&>", "é", "x.y", "q/", "!"}) + fmt.Sprint(d, i)
		}
		if (k <= reflect.Float64 || k == reflect.String) && gen.Chance(t, 20) {
			tag += ",string"
		}
		if k != reflect.Slice && k != reflect.Map && k != reflect.Array && gen.Chance(t, 15) {
			tag += ",omitempty"
		}
		if k == reflect.Struct && f.Type.NumMethod() == 0 && f.Type.Name() == "" && tag == "" && gen.Chance(t, 30) {
			f.Anonymous = true
			f.Type = reflect.StructOf([]reflect.StructField{{Name: fmt.Sprintf("E%c%d", 'a'+d, i), Type: rtType(t, d+2)}, {Name: fmt.Sprintf("G%c%d", 'a'+d, i), Type: reflect.TypeOf("")}})
		}
		if tag != "" {
			f.Tag = reflect.StructTag(fmt.Sprintf("json:%q", tag))
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

// roundTrip decodes the output back into the same type.
func roundTrip(t *rapid.T) {
	p := gen.General()
	p.Special, p.Fail, p.Valid = 0, false, true
	p.Times = func(t *rapid.T) time.Time { return gen.Instant(t, false) }
	typ := rtType(t, 0)
	for i := 0; i < 3; i++ {
		v := p.Value(t, typ)
		c := newCase(t, typ, v, gen.None())
		var pan string
		c.Got, c.Err, pan = marshal(c.Arg, c.Opts)
		eval()
		if pan != "" || c.Err != nil {
			c.fail("error %v %s", c.Err, pan)
		}
		back := reflect.New(typ)
		if err := json.Unmarshal(c.Got, back.Interface()); err != nil {
			if _, e := json.Marshal(c.Arg); e == nil {
				sb, _ := json.Marshal(c.Arg)
				if json.Unmarshal(sb, reflect.New(typ).Interface()) != nil {
					skip() // not a type that encoding/json round-trips
					count("not round-trippable")
					continue
				}
			}
			c.fail("output %.500s does not decode into its type: %v", c.Got, err)
		}
		if why := sameValue(v, back.Elem(), "value"); why != "" {
			sb, _ := json.Marshal(c.Arg)
			sback := reflect.New(typ)
			if json.Unmarshal(sb, sback.Interface()) != nil || sameValue(v, sback.Elem(), "value") != "" {
				skip()
				count("not round-trippable")
				continue
			}
			c.fail("output %.500s decodes to another value: %s", c.Got, why)
		}
		count("decoded back")
		if len(c.Got) > 8 {
			nontrivial(hash("rt", typ, c.Got), c.short)
		}
	}
}

// sameValue compares values; times are compared as instants with their offset.
func sameValue(a, b reflect.Value, path string) string {
	t := a.Type()
	if t == reflect.TypeOf(time.Time{}) {
		x, y := a.Interface().(time.Time), b.Interface().(time.Time)
		_, ox := x.Zone()
		_, oy := y.Zone()
		if !x.Equal(y) && ox%60 == 0 || (ox%60 == 0 && ox != oy) {
			return fmt.Sprintf("%s: %v != %v", path, x, y)
		}
		return ""
	}
	if t == reflect.TypeOf(json.Number("")) {
		x, y := a.String(), b.String()
		if x == "" {
			x = "0"
		}
		if y == "" {
			y = "0"
		}
		if x != y {
			return fmt.Sprintf("%s: %q != %q", path, x, y)
		}
		return ""
	}
	switch t.Kind() {
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return path + ": nil pointer"
		}
		if a.IsNil() {
			return ""
		}
		return sameValue(a.Elem(), b.Elem(), "*"+path)
	case reflect.Slice:
		if a.IsNil() != b.IsNil() {
			return path + ": nil slice"
		}
		fallthrough
	case reflect.Array:
		if a.Len() != b.Len() {
			return path + ": length"
		}
		for i := 0; i < a.Len(); i++ {
			if s := sameValue(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); s != "" {
				return s
			}
		}
		return ""
	case reflect.Map:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return path + ": map size"
		}
		for it := a.MapRange(); it.Next(); {
			e := b.MapIndex(it.Key())
			if !e.IsValid() {
				return fmt.Sprintf("%s: no key %v", path, it.Key())
			}
			if s := sameValue(it.Value(), e, fmt.Sprintf("%s[%v]", path, it.Key())); s != "" {
				return s
			}
		}
		return ""
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if s := sameValue(a.Field(i), b.Field(i), path+"."+t.Field(i).Name); s != "" {
				return s
			}
		}
		return ""
	}
	if !reflect.DeepEqual(a.Interface(), b.Interface()) {
		return fmt.Sprintf("%s: %v != %v", path, a, b)
	}
	return ""
}
