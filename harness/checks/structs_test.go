package checks

import (
	"bytes"
	"encoding/json"
	"math"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"jverif/gen"
	"jverif/lib"
	"jverif/ref"
	"jverif/zoo"
)

// embeds counts the anonymous fields of a struct type, and looks for name conflicts.
func embeds(t reflect.Type) int {
	for t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice || t.Kind() == reflect.Array || t.Kind() == reflect.Map {
		if t == t.Elem() {
			return 0
		}
		t = t.Elem()
		if t.Name() != "" && t.Kind() != reflect.Struct {
			break
		}
	}
	n := 0
	if t.Kind() == reflect.Struct {
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).Anonymous {
				n++
			}
		}
	}
	return n
}

// TestC02: struct fields follow the encoding/json rules.
func TestC02(t *testing.T) {
	run(t, func(t *rapid.T) {
		p := gen.General()
		p.NoExt = true
		p.Special = 0
		p.Embed = 45
		p.Fields = 9
		p.Omit, p.Quote = 5, 5
		p.NilPct = 25
		p.W[gen.Prim], p.W[gen.Leaf], p.W[gen.Native], p.W[gen.Unsup], p.W[gen.Map], p.W[gen.Iface] = 30, 2, 3, 0, 2, 2
		var typ reflect.Type
		switch gen.Weighted(t, 5, 4, 1) {
		case 0:
			typ = p.StructType(t, 0)
		case 1:
			typ = gen.Of(t, zoo.Types)
		default:
			typ = reflect.SliceOf(p.StructType(t, 1))
		}
		for i := 0; i < 3; i++ {
			c := newCase(t, typ, p.Value(t, typ), gen.None())
			if c.judge(withStd) && embeds(typ) > 0 {
				nontrivial(hash(typ, c.Got), c.short)
			}
		}
	})
	if t.Failed() || failFile != "" {
		return
	}
	// a tag name with every code point, in structs of 128 fields
	n := int64(0)
	for r := rune(shard * 128); r <= 0x10ffff; r += rune(128 * nShards) {
		var fs []reflect.StructField
		for i := rune(0); i < 128; i++ {
			name := string(r+i) + "a"
			if (r+i)%3 == 1 {
				name = "a" + string(r+i)
			}
			fs = append(fs, reflect.StructField{
				Name: "F" + strconv.Itoa(int(i)), Type: reflect.TypeOf(0), Tag: reflect.StructTag(`json:` + strconv.Quote(name)),
			})
		}
		v := reflect.New(reflect.StructOf(fs)).Elem()
		got, err, pan := marshal(v.Interface(), nil)
		want, e2 := json.Marshal(v.Interface())
		if pan != "" || err != nil || e2 != nil || !bytes.Equal(got, normBF(want)) {
			failT(t, "struct with the code points from %U in the tags: error %v %s\n%s\ntype: %s", r, err, pan, diff(got, want), typeString(v.Type()))
		}
		n += 128
	}
	evalN(n)
	sweep(t, sizesC02)
}

// TestC03: omitempty and string tag options.
func TestC03(t *testing.T) {
	run(t, func(t *rapid.T) {
		p := gen.General()
		p.NoExt = gen.Chance(t, 80)
		p.Special = 2
		p.Embed = 8
		p.Omit, p.Quote = 45, 45
		p.Zero = 35
		p.NilPct = 35
		p.Depth = 3
		p.W[gen.Prim], p.W[gen.Leaf], p.W[gen.Native], p.W[gen.Unsup], p.W[gen.Ptr], p.W[gen.Zoo] = 24, 6, 10, 0, 14, 2
		typ := p.StructType(t, 0)
		for i := 0; i < 4; i++ {
			c := newCase(t, typ, p.Value(t, typ), gen.None())
			if !c.judge(withStd) {
				continue
			}
			n := 0
			for _, f := range ref.Fields(typ) {
				if f.Quoted {
					n++
				}
				if f.OmitEmpty {
					n++
				}
			}
			if n > 0 {
				nontrivial(hash(typ, c.Got, c.Err), c.short)
			}
		}
		quotedRoundTrip(t)
	})
	sweep(t, sizesC03)
}

var quotable = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(uintptr(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""), reflect.TypeOf(json.Number("")), reflect.TypeOf(gen.NInt(0)), reflect.TypeOf(gen.NStr("")), reflect.TypeOf(gen.NBool(false)), reflect.TypeOf(gen.NF32(0)), reflect.TypeOf(gen.NDur(0)),
}

// quotedRoundTrip decodes quoted fields back.
func quotedRoundTrip(t *rapid.T) {
	p := gen.General()
	p.Special, p.Valid, p.Fail = 0, true, false
	n := 1 + gen.Pick(t, 6)
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		ft := gen.Of(t, quotable)
		if gen.Chance(t, 35) {
			ft = reflect.PointerTo(ft)
		}
		tag := `json:",string"`
		if gen.Chance(t, 30) {
			tag = `json:",omitempty,string"`
		}
		fs = append(fs, reflect.StructField{Name: string(rune('A' + i)), Type: ft, Tag: reflect.StructTag(tag)})
	}
	typ := reflect.StructOf(fs)
	v := p.Value(t, typ)
	for i := 0; i < n; i++ { // the empty number decodes as 0
		f := v.Field(i)
		if f.Kind() == reflect.Ptr && !f.IsNil() {
			f = f.Elem()
		}
		if f.Type() == reflect.TypeOf(json.Number("")) && f.String() == "" {
			f.SetString("0")
		}
	}
	c := newCase(t, typ, v, gen.None())
	c.Extra = "quoted fields must decode back to the same value"
	if !c.judge(withStd) {
		return
	}
	if c.Err != nil {
		c.fail("unexpected error %v", c.Err)
	}
	back := reflect.New(typ)
	if err := json.Unmarshal(c.Got, back.Interface()); err != nil {
		c.fail("output %s does not decode: %v", c.Got, err)
	}
	if !reflect.DeepEqual(back.Elem().Interface(), v.Interface()) {
		c.fail("output %s decodes to a different value: %s", c.Got, gen.Dump(back.Elem(), false))
	}
	nontrivial(hash("rt", typ, c.Got), c.short)
}

// TestC04: omitnil.
func TestC04(t *testing.T) {
	nullers := append([]lib.Leaf{}, lib.Leaves...)
	run(t, func(t *rapid.T) {
		p := gen.General()
		p.Leaves = nullers
		p.Special = 20
		p.Fail = gen.Chance(t, 15)
		p.OmitNil, p.Omit, p.Quote = 60, 25, 8
		p.NilPct, p.Zero = 45, 15
		p.Depth = 3
		p.Embed = 12
		p.W[gen.Leaf], p.W[gen.Unsup], p.W[gen.Ptr], p.W[gen.Iface], p.W[gen.Raw], p.W[gen.SyncMap], p.W[gen.Native] = 20, 0, 12, 8, 4, 1, 8
		typ := p.StructType(t, 0)
		o := gen.None()
		if gen.Chance(t, 40) {
			o = gen.Options(t, 15, true)
		}
		for i := 0; i < 4; i++ {
			c := newCase(t, typ, p.Value(t, typ), o)
			if !c.judge(0) {
				continue
			}
			if c.Err == nil && !o.Ref.NoCompact && !o.Ref.NoStr && !o.Ref.NoNum && wellFormed(c.Res.Node) && !json.Valid(c.Got) {
				c.fail("output is not valid JSON: %s", c.Got)
			}
			n := 0
			for _, f := range ref.Fields(typ) {
				if f.OmitNil && !bytes.Contains(c.Got, []byte(`"`+f.Name+`":`)) {
					n++
				}
			}
			if n > 0 {
				count("with dropped fields")
				nontrivial(hash(typ, c.Got, o), c.short)
			}
		}
	})
	sweep(t, sizesC04)
}

// wellFormed returns whether the expected output is valid JSON.
func wellFormed(n ref.Node) bool {
	b, _ := n.Flat()
	return json.Valid(b)
}

// TestC05: dispatch of custom marshalers.
func TestC05(t *testing.T) {
	run(t, func(t *rapid.T) {
		p := gen.General()
		p.Special = 12
		p.Fail = gen.Chance(t, 20)
		p.Omit, p.Quote, p.OmitNil = 12, 12, 4
		p.Embed = 20
		p.Depth = 3
		p.NilPct = 20
		p.W[gen.Prim], p.W[gen.Leaf], p.W[gen.Native], p.W[gen.Unsup], p.W[gen.Ptr], p.W[gen.Raw], p.W[gen.Array], p.W[gen.Iface], p.W[gen.Zoo], p.W[gen.Bytes] = 3, 45, 6, 0, 12, 6, 8, 10, 10, 4
		var o *gen.OptSet
		if gen.Chance(t, 60) {
			o = gen.None()
		} else {
			o = gen.Options(t, 15, false)
		}
		typ := p.Type(t, 0)
		for i := 0; i < 3; i++ {
			c := newCase(t, typ, p.Value(t, typ), o)
			mode := withCalls
			if len(o.Opts) == 0 {
				mode |= withStd
			}
			if c.judge(mode) && len(c.Calls) > 0 {
				nontrivial(hash(typ, c.Got, c.Err, o), c.short)
			}
		}
	})
	sweep(t, sizesC05)
}

// TestC06: errors.
func TestC06(t *testing.T) {
	run(t, func(t *rapid.T) {
		p := gen.General()
		p.NoExt = gen.Chance(t, 50)
		p.Special = 25
		p.Depth = 3
		p.NilPct = 30
		p.OmitNil = 5
		p.MapMax, p.SliceMax = 4, 5
		p.BadKey = 12
		p.W[gen.Unsup], p.W[gen.Leaf], p.W[gen.Native], p.W[gen.Raw], p.W[gen.SyncMap] = 4, 12, 8, 6, 2
		typ := p.Type(t, 0)
		var o *gen.OptSet
		if gen.Chance(t, 70) {
			o = gen.None()
		} else {
			o = gen.Options(t, 15, true)
		}
		one := gen.Chance(t, 15)
		for i := 0; i < 4; i++ {
			var v reflect.Value
			if one {
				v = oneFailure(t)
				typ = v.Type()
			} else {
				v = p.Value(t, typ)
			}
			c := newCase(t, typ, v, o)
			mode := withErr
			if len(o.Opts) == 0 {
				mode |= withStd
			}
			if !c.judge(mode) {
				continue
			}
			if c.Err != nil {
				kinds := c.Res.Errs[0].Kind
				count("error " + kinds)
				nontrivial(hash(typ, c.Err.Error(), kinds), c.short)
			} else if hasUnsup(typ, 0) {
				count("unreached unsupported type")
				nontrivial(hash(typ, c.Got), c.short)
			}
		}
	})
	sweep(t, sizesC06)
}

// oneFailure draws a container of any size of which one element, anywhere, fails.
func oneFailure(t *rapid.T) reflect.Value {
	n := 1 + gen.Pick(t, []int{4, 20, 100, 700}[gen.Weighted(t, 4, 4, 3, 1)])
	at := gen.Pick(t, n+n/8+1) // maybe none
	bad := []func() any{
		func() any { return math.NaN() },
		func() any { return float32(math.Inf(-1)) },
		func() any { return make(chan int) },
		func() any { return json.Number("1e") },
		func() any { return time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC) },
		func() any { return lib.RawJ("{") },
		func() any { return json.RawMessage("[1,]") },
		func() any { return map[any]int{1: 1} },
		func() any { return map[string]any{"a": 1, "b": complex(1, 2), "c": "x"} },
		func() any { return []any{1, func() {}, 2} },
	}
	elem := func(i int) any {
		if i == at {
			return gen.Of(t, bad)()
		}
		switch i % 5 {
		case 0:
			return strings.Repeat("s", i%300)
		case 1:
			return i
		case 2:
			return map[string]int{"a": i, "b": 1}
		case 3:
			return []int{i}
		}
		return nil
	}
	homog := gen.Chance(t, 30) // elements of one type
	flt := func(i int) float64 {
		if i == at {
			return math.Inf(1)
		}
		return float64(i)
	}
	var v any
	switch gen.Pick(t, 6) {
	case 0:
		l := make([]any, n)
		for i := range l {
			l[i] = elem(i)
		}
		v = l
		if homog {
			f := make([]float64, n)
			for i := range f {
				f[i] = flt(i)
			}
			v = f
		}
	case 1:
		m := map[string]any{}
		mf := map[string]float64{}
		for i := 0; i < n; i++ {
			m["k"+strconv.Itoa(i*7919%1009)+"x"] = elem(i)
			mf[strconv.Itoa(i)] = flt(i)
		}
		v = m
		if homog {
			v = mf
		}
	case 2:
		m := map[int16]any{}
		mf := map[uint32]float64{}
		for i := 0; i < n; i++ {
			m[int16(i*31)] = elem(i)
			mf[uint32(i)] = flt(i)
		}
		v = m
		if homog {
			v = mf
		}
	case 3:
		m := &sync.Map{}
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				m.Store(i, elem(i))
			} else {
				m.Store(strconv.Itoa(i), elem(i))
			}
		}
		v = m
	case 4: // a key fails
		m := map[time.Time]int{}
		for i := 0; i < n; i++ {
			y := 1 + i
			if i == at {
				y = 10001
			}
			m[time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC)] = i
		}
		v = m
	default:
		m := &sync.Map{}
		for i := 0; i < n; i++ {
			if i == at {
				m.Store(gen.Of(t, []any{1.5, true, [1]int{}, struct{}{}, time.Date(-1, 1, 1, 0, 0, 0, 0, time.UTC)}), i)
			} else {
				m.Store(i, elem(i+n*2))
			}
		}
		v = m
	}
	switch gen.Weighted(t, 4, 1, 1, 1) {
	case 1:
		v = []any{1, v, "after"}
	case 2:
		v = struct {
			A int
			V any
			B string
		}{1, v, "b"}
	case 3:
		v = map[string]any{"a": 1, "v": v, "z": nil}
	}
	r := reflect.New(reflect.TypeOf(v)).Elem()
	r.Set(reflect.ValueOf(v))
	return r
}

func hasUnsup(t reflect.Type, d int) bool {
	if d > 8 {
		return false
	}
	switch t.Kind() {
	case reflect.Chan, reflect.Func, reflect.Complex64, reflect.Complex128, reflect.UnsafePointer:
		m, _ := ref.Method(t, true)
		return m == 0
	case reflect.Ptr, reflect.Slice, reflect.Array:
		return hasUnsup(t.Elem(), d+1)
	case reflect.Map:
		return !ref.KeyTypeOK(t.Key()) || hasUnsup(t.Elem(), d+1)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasUnsup(t.Field(i).Type, d+1) {
				return true
			}
		}
	}
	return false
}
