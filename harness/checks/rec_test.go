package checks

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/wI2L/jettison"
	"pgregory.net/rapid"

	"jverif/gen"
	"jverif/lib"
	"jverif/zoo"
)

// Recursive types.
type (
	RList struct {
		V    int
		Next *RList
	}
	RTree struct {
		L, R *RTree `json:",omitempty"`
		Kids []RTree
		M    map[string]RTree
		N    string
	}
	RFirst struct{ P *RFirst }
	RWrap  struct{ W [1]*RWrap }
	RSlice []RSlice
	RMap   map[string]RMap
	RMapP  map[string]*RMapP
	RArr   [2]*RArr
	RArr1  [1]*RArr1
	RPtr   *RPtr
	RPP    **RPP
	RSlP   []*RSlP
	RMapS  map[string][]RMapS
	RSlM   []map[int]RSlM
	RKey   map[lib.TextKey]RKey
	RMutA  struct {
		B *RMutB
		N int `json:"n,string"`
	}
	RMutB struct {
		A []RMutA
		C map[int]RMutC
	}
	RMutC struct {
		A *RMutA `json:",omitempty"`
		B []*RMutB
		S RSlice
	}
	RIface struct {
		Next any
		V    string `json:"v<"`
	}
	RNexter interface{ Code() int }
	RMeth   struct {
		Next RNexter
		V    int8
	}
	ROmit struct {
		Next *ROmit           `json:"next,omitnil"`
		M    map[string]ROmit `json:",omitnil"`
		V    *int             `json:",omitempty"`
	}
	RStr struct {
		Next *RStr `json:",string"`
		V    int   `json:",string"`
		P    *bool `json:",string"`
	}
	REmbA struct {
		*REmbB
		X int
	}
	REmbB struct {
		*REmbA
		Y    int
		Next *REmbB
	}
	RGen[T any] struct {
		V    T
		Next *RGen[T]
		More []RGen[T]
	}
	RTime struct {
		T    time.Time
		D    time.Duration
		Next []*RTime
	}
	RChan struct {
		C    *chan int `json:",omitempty"`
		Next map[string]*RChan
	}
	RPair struct{ A, B *RPair }
	RAlt1 []RAlt2
	RAlt2 map[string]RAlt3
	RAlt3 [1]*RAlt1
)

// Code makes RMeth a dynamic type of its own field.
func (r *RMeth) Code() int { return int(r.V) }

func tof[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

func recTypes() []reflect.Type {
	return []reflect.Type{
		tof[RList](), tof[RTree](), tof[RFirst](), tof[RWrap](), tof[RSlice](), tof[RMap](), tof[RMapP](), tof[RArr](), tof[RArr1](), tof[RPtr](), tof[RPP](), tof[RSlP](), tof[RMapS](), tof[RSlM](), tof[RKey](),
		tof[RMutA](), tof[RMutB](), tof[RMutC](), tof[RIface](), tof[ROmit](), tof[RStr](), tof[REmbA](), tof[REmbB](), tof[RGen[int]](), tof[RGen[string]](), tof[RGen[RList]](), tof[RGen[any]](), tof[RTime](), tof[RChan](), tof[RPair](), tof[RAlt1](), tof[RAlt2](), tof[RAlt3](), tof[RMeth](),
	}
}

// step wraps v, a value of type T, in another T.
type step struct {
	name string
	zero func() any
	wrap func(t *rapid.T, v any) any
}

func mk[T any](name string, wrap func(t *rapid.T, v T) T) step {
	return step{name, func() any { var z T; return z }, func(t *rapid.T, v any) any { return wrap(t, v.(T)) }}
}

func num(t *rapid.T) int { return gen.Pick(t, 100) }

var steps = []step{
	mk("RList", func(t *rapid.T, v RList) RList { return RList{num(t), &v} }),
	mk("RTree", func(t *rapid.T, v RTree) RTree {
		switch gen.Pick(t, 5) {
		case 0:
			return RTree{L: &v}
		case 1:
			return RTree{R: &v, N: "r<"}
		case 2:
			return RTree{Kids: []RTree{v}}
		case 3:
			return RTree{Kids: []RTree{{}, v}, N: "k"}
		}
		return RTree{M: map[string]RTree{"m": v, "z": {}}}
	}),
	mk("RFirst", func(t *rapid.T, v RFirst) RFirst { return RFirst{&v} }),
	mk("RWrap", func(t *rapid.T, v RWrap) RWrap { return RWrap{[1]*RWrap{&v}} }),
	mk("RSlice", func(t *rapid.T, v RSlice) RSlice {
		if gen.Bool(t) {
			return RSlice{v}
		}
		return RSlice{nil, v, {}}
	}),
	mk("RMap", func(t *rapid.T, v RMap) RMap { return RMap{"k": v, "a": nil} }),
	mk("RMapP", func(t *rapid.T, v RMapP) RMapP { return RMapP{"k": &v, "z": nil} }),
	mk("RArr", func(t *rapid.T, v RArr) RArr { return RArr{1: &v} }),
	mk("RArr1", func(t *rapid.T, v RArr1) RArr1 { return RArr1{&v} }),
	mk("RPtr", func(t *rapid.T, v RPtr) RPtr { return &v }),
	mk("RPP", func(t *rapid.T, v RPP) RPP { p := &v; return &p }),
	mk("RSlP", func(t *rapid.T, v RSlP) RSlP { return RSlP{&v, nil} }),
	mk("RMapS", func(t *rapid.T, v RMapS) RMapS { return RMapS{"k": {v}} }),
	mk("RSlM", func(t *rapid.T, v RSlM) RSlM { return RSlM{{num(t): v}} }),
	mk("RKey", func(t *rapid.T, v RKey) RKey { return RKey{{A: 1, B: "x"}: v} }),
	mk("RMutA", func(t *rapid.T, v RMutA) RMutA {
		switch gen.Pick(t, 3) {
		case 0:
			return RMutA{B: &RMutB{A: []RMutA{v}}}
		case 1:
			return RMutA{B: &RMutB{C: map[int]RMutC{num(t): {A: &v}}}, N: num(t)}
		}
		return RMutA{B: &RMutB{C: map[int]RMutC{3: {B: []*RMutB{nil, {A: []RMutA{v, {}}}}}}}}
	}),
	mk("RIface", func(t *rapid.T, v RIface) RIface {
		switch gen.Pick(t, 4) {
		case 0:
			return RIface{Next: v}
		case 1:
			return RIface{Next: []any{v}}
		case 2:
			return RIface{Next: map[string]any{"i": &v}, V: "x"}
		}
		return RIface{Next: &v, V: "<"}
	}),
	mk("RMeth", func(t *rapid.T, v RMeth) RMeth { return RMeth{&v, 3} }),
	mk("RStr", func(t *rapid.T, v RStr) RStr { return RStr{Next: &v, V: num(t)} }),
	mk("REmbB", func(t *rapid.T, v REmbB) REmbB {
		if gen.Bool(t) {
			return REmbB{REmbA: &REmbA{X: num(t)}, Next: &v}
		}
		return REmbB{Y: num(t), Next: &v}
	}),
	mk("RGen[int]", func(t *rapid.T, v RGen[int]) RGen[int] {
		if gen.Bool(t) {
			return RGen[int]{More: []RGen[int]{v}}
		}
		return RGen[int]{V: num(t), Next: &v}
	}),
	mk("RTime", func(t *rapid.T, v RTime) RTime { return RTime{D: 5, Next: []*RTime{&v}} }),
	mk("RChan", func(t *rapid.T, v RChan) RChan { return RChan{Next: map[string]*RChan{"c": &v}} }),
	mk("RAlt1", func(t *rapid.T, v RAlt1) RAlt1 { return RAlt1{RAlt2{"x": RAlt3{&v}}} }),
	mk("any", func(t *rapid.T, v RIface) RIface {
		switch gen.Pick(t, 6) {
		case 0:
			return RIface{Next: [1]any{v}}
		case 1:
			return RIface{Next: struct{ P *RIface }{&v}}
		case 2:
			return RIface{Next: map[int]RIface{2: v}}
		case 3:
			x := any(v)
			return RIface{Next: &x}
		case 4:
			return RIface{Next: []RIface{v, v.leaf()}}
		}
		return RIface{Next: [1]*RIface{&v}}
	}),
}

func (r RIface) leaf() RIface { return RIface{V: r.V} }

// diamond has shared parts, and no cycle.
func diamond(t *rapid.T) any {
	n := 5
	p := &n
	m := map[string]any{"a": p, "b": p}
	s := []any{p, m, m, p}
	sub := make([]any, 3)
	sub[0], sub[1] = 1, m
	sub[2] = sub[:2]
	var nilmap map[string]any
	empty := []any{}
	type first struct {
		A struct{ X int }
		P *struct{ X int }
	}
	f := &first{}
	f.P = &f.A
	l := &RList{V: 1}
	return gen.Of(t, []any{
		[]any{p, p, p}, []any{m, m}, []any{s, s, map[string]any{"s": s}}, sub, []any{nilmap, nilmap, empty, empty, []any{empty}}, f, []*RList{l, l, {2, l}}, RPair{&RPair{}, nil},
		func() any { x := &RPair{}; y := &RPair{x, x}; return &RPair{y, y} }(),
		map[string]any{"x": l, "y": l, "z": []any{l, p, s, m}},
	})
}

// ring is a cyclic value with a prefix of pre nodes and a cycle of n nodes.
// Every node has one way on.
func ring(t *rapid.T, pre, n int) (any, string) {
	type S struct{ X any }
	type U struct {
		A int
		P *U
		Z string
	}
	var desc []string
	switch gen.Pick(t, 4) {
	case 0: // containers of interfaces
		total := pre + n
		vals := make([]any, total)
		set := make([]func(any), total)
		for i := range vals {
			switch k := gen.Pick(t, 9); k {
			case 8:
				m := new(sync.Map)
				m.Store("b", 2)
				vals[i], set[i] = m, func(x any) { m.Store("k", x) }
			case 0:
				m := map[string]any{"a": 1}
				vals[i], set[i] = m, func(x any) { m["k"] = x }
			case 1:
				s := make([]any, 1+gen.Pick(t, 2))
				vals[i], set[i] = s, func(x any) { s[0] = x }
			case 2:
				p := new(any)
				vals[i], set[i] = p, func(x any) { *p = x }
			case 3:
				p := new(S)
				vals[i], set[i] = p, func(x any) { p.X = x }
			case 4:
				m := map[int]any{}
				vals[i], set[i] = m, func(x any) { m[7] = x }
			case 5:
				p := new([1]any)
				vals[i], set[i] = p, func(x any) { p[0] = x }
			case 6:
				s := make([]map[string]any, 1)
				s[0] = map[string]any{}
				vals[i], set[i] = s, func(x any) { s[0]["q"] = x }
			case 7:
				s := make([]S, 1)
				vals[i], set[i] = s, func(x any) { s[0].X = x }
			}
			desc = append(desc, fmt.Sprintf("%T", vals[i]))
		}
		for i := range vals {
			if i+1 < total {
				set[i](vals[i+1])
			} else {
				set[i](vals[pre])
			}
		}
		if len(desc) > 12 {
			desc = append(desc[:12], "...")
		}
		return vals[0], strings.Join(desc, " -> ")
	case 1: // linked list
		l := make([]RList, pre+n)
		for i := range l {
			l[i].Next = &l[(i+1)%len(l)]
		}
		l[len(l)-1].Next = &l[pre]
		return gen.Of(t, []any{&l[0], l[0], []*RList{&l[0]}}), "RList"
	case 2: // typed
		l := make([]U, pre+n)
		for i := range l {
			l[i].P = &l[(i+1)%len(l)]
		}
		l[len(l)-1].P = &l[pre]
		return &l[0], "U"
	}
	// one self-referring node in a chain
	var v any
	switch gen.Pick(t, 15) {
	case 0:
		s := make(RSlice, 1)
		s[0] = s
		v = s
	case 1:
		m := RMap{}
		m["k"] = m
		v = m
	case 2:
		var p RPtr
		p = &p
		v = p
	case 3:
		x := &RFirst{}
		x.P = x
		v = *x
	case 4:
		a := &RArr1{}
		a[0] = a
		v = *a
	case 5:
		a := &RArr{}
		a[1] = a
		v = a
	case 6:
		s := RSlP{nil}
		s[0] = &s
		v = s
	case 7:
		m := RMapP{}
		m["m"] = &m
		v = m
	case 8:
		m := RMapS{}
		m["z"] = []RMapS{m}
		v = m
	case 9:
		r := &RMeth{}
		r.Next = r
		v = *r
	case 10:
		r := &ROmit{}
		r.Next = r
		v = []any{r}
	case 11:
		r := &REmbB{}
		r.Next = r
		v = map[string]any{"r": r}
	case 12:
		r := &RStr{}
		r.Next = r
		v = r
	case 13:
		r := &RChan{Next: map[string]*RChan{}}
		r.Next["c"] = r
		v = r
	default:
		a := RAlt1{RAlt2{}}
		a[0]["x"] = RAlt3{&a}
		v = a
	}
	d := fmt.Sprintf("self-referring %T", v)
	for i := 0; i < pre; i++ {
		switch gen.Pick(t, 3) {
		case 0:
			v = []any{v}
		case 1:
			v = map[string]any{"p": v}
		default:
			v = &S{v}
		}
	}
	return v, d
}

// TestC23: recursive types and cyclic values.
func TestC23(t *testing.T) {
	run(t, func(t *rapid.T) {
		switch gen.Pick(t, 4) {
		case 0, 1:
			// generated values of recursive types, in any position
			p := gen.General()
			p.NoExt = true
			p.Special, p.Fail = 0, false
			p.NilPct = 25
			p.SliceMax, p.MapMax = 4, 4
			p.Budget = gen.Of(t, []int{10, 60, 300})
			rt := recTypes()
			typ := gen.Of(t, rt)
			if gen.Chance(t, 15) {
				typ = gen.Of(t, zoo.Types)
			}
			p.Dyn = []reflect.Type{typ, reflect.PointerTo(typ), gen.Of(t, rt)}
			for k := gen.Pick(t, 3); k > 0; k-- {
				typ = variants(t, typ)
			}
			c := newCase(t, typ, p.Value(t, typ), gen.None())
			if c.judge(withStd) && c.Err == nil && len(c.Got) > 10 {
				count("values of recursive types")
				nontrivial(hash(typ, c.Got), c.short)
			}
		case 2:
			// deep values
			v, what := deepValue(t)
			deep(t, v, what)
		default:
			v, what := cyclicValue(t)
			cyclic(t, v, what)
		}
	})
	sweep(t, sizesC23)
}

type x2 struct{ X any }

func deepValue(t *rapid.T) (any, string) {
	s := gen.Of(t, steps)
	n := gen.Of(t, []int{3, 30, 300, 990, 1000, 1001, 1500, 3000})
	n += gen.Pick(t, 20)
	if gen.Chance(t, 15) {
		n = max(1, gen.DictLen(t, 5000))
	}
	var v any = s.zero()
	first := min(n, 12)
	for i := 0; i < first; i++ {
		v = s.wrap(t, v)
	}
	for i := first; i < n; i++ {
		v = s.wrap(t, v)
		if i == 400 && gen.Chance(t, 50) { // the same way on
			break
		}
	}
	if gen.Chance(t, 40) {
		x := diamond(t)
		k := n
		for ; k > 0; k-- {
			switch k % 4 {
			case 0:
				x = []any{x}
			case 1:
				x = map[string]any{"d": x}
			case 2:
				x = &x2{x}
			default:
				y := x
				x = &y
			}
		}
		v = x
	}
	return v, fmt.Sprintf("%s nested %d times", s.name, n)
}

func cyclicValue(t *rapid.T) (any, string) {
	pre := gen.Of(t, []int{0, 0, 1, 5, 500, 999, 1000, 1001, 1200})
	n := gen.Of(t, []int{1, 1, 2, 3, 10, 400, 1000, 1300})
	if gen.Chance(t, 10) {
		pre = max(0, gen.DictLen(t, 1500))
	}
	if gen.Chance(t, 10) {
		n = max(1, gen.DictLen(t, 5000))
	}
	v, desc := ring(t, pre, n)
	return v, fmt.Sprintf("cycle of length %d after %d nodes: %s", n, pre, desc)
}

func deep(t *rapid.T, v any, what string) {
	if trace {
		os.WriteFile(filepath.Join(outDir, "trace.txt"), []byte(what), 0o644)
	}
	want, werr := json.Marshal(v)
	got, err, pan := marshal(v, nil)
	eval()
	if pan != "" {
		fail(t, "jettison panics with a deep value: %s\n%s", what, pan)
	}
	if werr != nil {
		harness("encoding/json rejects %s: %v", what, werr)
	}
	if err != nil {
		fail(t, "error with a deep value: %s: %v", what, err)
	}
	if !bytes.Equal(got, want) {
		fail(t, "wrong output for a deep value: %s\n%s", what, diff(got, want))
	}
	// and again through Append with an option
	got, err, pan = call(func() ([]byte, error) { return jettison.AppendOpts([]byte("x"), v, jettison.UnixTime()) })
	if pan != "" || err != nil {
		fail(t, "AppendOpts fails with a deep value: %s: %v %s", what, err, pan)
	}
	if !strings.Contains(what, "RTime") && !bytes.Equal(got[1:], want) {
		fail(t, "wrong output of AppendOpts for a deep value: %s\n%s", what, diff(got[1:], want))
	}
	count("deep values")
	nontrivial(hash(what, got), func() string { return what })
}

func cyclic(t *rapid.T, v any, what string) {
	if trace {
		os.WriteFile(filepath.Join(outDir, "trace.txt"), []byte(what), 0o644)
	}
	for k := 0; k < 2; k++ {
		got, err, pan := call(func() ([]byte, error) {
			if k == 0 {
				return jettison.Marshal(v)
			}
			return jettison.MarshalOpts(v, jettison.UnsortedMap(), jettison.NilMapEmpty())
		})
		eval()
		if pan != "" {
			fail(t, "jettison panics with a cyclic value: %s\n%s", what, pan)
		}
		if err == nil {
			fail(t, "no error with a cyclic value: %s: %.300s", what, got)
		}
		var uve *jettison.UnsupportedValueError
		if !errors.As(err, &uve) {
			fail(t, "a cyclic value gives %T %v instead of an UnsupportedValueError: %s", err, err, what)
		}
		if got != nil {
			fail(t, "output with the error of a cyclic value: %s: %.300s", what, got)
		}
		// the value of the error stays valid
		grow(200)
		if x := uve.Value; !x.IsValid() || !x.CanInterface() || x.IsNil() || x.Pointer() == 0 {
			fail(t, "the error of a cyclic value holds the value %v: %s", x, what)
		} else if k := x.Kind(); k != reflect.Pointer && k != reflect.Map && k != reflect.Slice {
			fail(t, "the error of a cyclic value holds a value of type %s: %s", x.Type(), what)
		} else if err := reaches(x, x); err != "" {
			fail(t, "the value of the error of a cyclic value is not part of a cycle: %s: %s", err, what)
		}
		if uve.Str == "" || err.Error() == "" {
			fail(t, "an UnsupportedValueError without message: %s", what)
		}
	}
	// what was in the buffer of Append stays there
	dst := append(make([]byte, 0, 64), "prefix"...)
	got, err, pan := call(func() ([]byte, error) { return jettison.Append(dst, v) })
	if pan != "" || err == nil || string(dst) != "prefix" {
		fail(t, "Append to %q with a cyclic value (%s): got %.100q %v %s", dst, what, got, err, pan)
	}
	// the failure leaves nothing behind
	ok := map[string]any{"a": []any{1, nil, &x2{"y"}}}
	got, err, pan = marshal(ok, nil)
	if string(got) != `{"a":[1,null,{"X":"y"}]}` || err != nil || pan != "" {
		fail(t, "after a cyclic value (%s): got %s %v %s", what, got, err, pan)
	}
	count("cyclic values")
	nontrivial(hash(what), func() string { return what })
}

// reaches reports whether the pointer, map or slice v contains itself.
func reaches(v, target reflect.Value) string {
	seen := map[[2]uintptr]bool{}
	found := false
	var walk func(x reflect.Value, d int)
	walk = func(x reflect.Value, d int) {
		if found || !x.IsValid() {
			return
		}
		switch x.Kind() {
		case reflect.Pointer, reflect.Map, reflect.Slice:
			if x.IsNil() {
				return
			}
			if d > 0 && x.Type() == target.Type() && x.Pointer() == target.Pointer() && (x.Kind() != reflect.Slice || x.Len() == target.Len()) {
				found = true
				return
			}
			id := [2]uintptr{x.Pointer(), uintptr(x.Kind())}
			if seen[id] {
				return
			}
			seen[id] = true
		}
		switch x.Kind() {
		case reflect.Pointer:
			if m, ok := x.Interface().(*sync.Map); ok {
				m.Range(func(k, v any) bool { walk(reflect.ValueOf(v), d+1); return true })
				return
			}
			walk(x.Elem(), d+1)
		case reflect.Interface:
			walk(x.Elem(), d)
		case reflect.Map:
			for it := x.MapRange(); it.Next(); {
				walk(it.Value(), d+1)
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < x.Len(); i++ {
				walk(x.Index(i), d+1)
			}
		case reflect.Struct:
			for i := 0; i < x.NumField(); i++ {
				walk(x.Field(i), d+1)
			}
		}
	}
	walk(v, 0)
	if !found {
		return fmt.Sprintf("%s is not reachable from itself", v.Type())
	}
	return ""
}
