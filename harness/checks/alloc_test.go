package checks

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/wI2L/jettison"
	"pgregory.net/rapid"

	"jverif/gen"
	"jverif/lib"
)

// live is the size of the heap that is in use.
func live() int64 {
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

type (
	lkErr   struct{ s string }
	lkFail  string // fails
	lkPanic string // panics
	lkNode  struct {
		S string
		P *lkNode
	}
	lkRec struct {
		S   string
		B   []byte
		A   [3]byte
		M   map[string]any
		I   map[int]string
		K   map[lib.RawT]int
		N   json.Number
		R   json.RawMessage
		J   lib.RawJ
		T   time.Time
		D   time.Duration
		F   float64
		P   *lkRec
		X   any
		C   lib.RawC
		App lib.RawA
		Y   *sync.Map
		O   map[string]int `json:",omitempty"`
		L   []int          `json:",omitnil"`
		Q   string         `json:",string"`
	}
)

func (e *lkErr) Error() string                 { return e.s }
func (x lkFail) MarshalJSON() ([]byte, error)  { return nil, &lkErr{string(x)} }
func (x lkPanic) MarshalText() ([]byte, error) { panic(string(x)) }
func newLkRec(i int) *lkRec {
	s := "s" + strconv.Itoa(i)
	y := new(sync.Map)
	y.Store(s, i)
	return &lkRec{S: s, B: []byte(s), A: [3]byte{byte(i), byte(i >> 8)}, M: map[string]any{s: i, "<" + s: nil, "x": []any{s}}, I: map[int]string{i: s, -i: ""}, K: map[lib.RawT]int{lib.RawT(s): i},
		N: json.Number(strconv.Itoa(i) + "e5"), R: json.RawMessage(`{ "` + s + `" : "<" }`), J: lib.RawJ(`[ "` + s + `" ]`), T: time.Unix(int64(i)*1e5, int64(i)), D: time.Duration(i) * 1e7, F: float64(i) / 3,
		X: map[string]string{s: s}, C: lib.RawC(strconv.Itoa(i)), App: lib.RawA(strconv.Itoa(i)), Y: y, Q: s}
}

// leakCalls are the calls of which nothing may stay. i tells which one.
var leakCalls = []struct {
	name string
	f    func(i int) any
}{
	{"record", func(i int) any { return newLkRec(i) }},
	{"record by value", func(i int) any { return *newLkRec(i) }},
	{"list", func(i int) any { r := newLkRec(i); r.P = newLkRec(i + 1); return []any{r, *r, i} }},
	{"map", func(i int) any { return map[string]*lkRec{strconv.Itoa(i): newLkRec(i)} }},
	{"string", func(i int) any { return "text" + strconv.Itoa(i) }},
	{"long string", func(i int) any { return strings.Repeat("x<", 20000) + strconv.Itoa(i) }},
	{"sync.Map", func(i int) any { return newLkRec(i).Y }},
	{"unsupported", func(i int) any { return []any{i, make(chan int)} }},
	{"unsupported value", func(i int) any { return map[string]float64{strconv.Itoa(i): math.Inf(1)} }},
	{"bad number", func(i int) any { return json.Number("bad" + strconv.Itoa(i)) }},
	{"bad raw", func(i int) any { return []json.RawMessage{json.RawMessage("bad" + strconv.Itoa(i))} }},
	{"bad year", func(i int) any { return map[string]any{"a": i, "t": time.Date(10000+i, 1, 1, 0, 0, 0, 0, time.UTC)} }},
	{"bad sync key", func(i int) any { m := new(sync.Map); m.Store(float64(i), 1); m.Store("a", 2); return m }},
	{"error of a method", func(i int) any { return []lkFail{lkFail(strconv.Itoa(i))} }},
	{"error in a map", func(i int) any { return map[string]any{"a": 1, "b": map[string]lkFail{"x": lkFail(strconv.Itoa(i))}} }},
	{"panic of a method", func(i int) any { return []any{newLkRec(i), lkPanic(strconv.Itoa(i))} }},
	{"panic in a map", func(i int) any { return map[string]any{"a": newLkRec(i), "b": lkPanic(strconv.Itoa(i))} }},
	{"panic in a sync.Map", func(i int) any { m := new(sync.Map); m.Store("b", lkPanic(strconv.Itoa(i))); return m }},
	{"cycle", func(i int) any { r := &lkNode{S: strconv.Itoa(i)}; r.P = r; return r }},
	{"cycle of maps", func(i int) any { m := map[string]any{"i": i}; m["m"] = m; return m }},
	{"cycle of slices", func(i int) any { s := []any{i, nil}; s[1] = s; return s }},
	{"deep", func(i int) any {
		r := newLkRec(i)
		for k := 0; k < 20; k++ {
			r = &lkRec{P: r, X: i}
		}
		return r
	}},
	{"nil", func(i int) any { return nil }},
}

// TestC26: calls retain no memory and leave no goroutine.
func TestC26(t *testing.T) {
	run(t, func(t *rapid.T) {
		type work struct {
			f    func(i int) any
			name string
		}
		var ws []work
		for n := 1 + gen.Pick(t, 3); n > 0; n-- {
			if gen.Chance(t, 30) {
				p := everything()
				p.Depth, p.Budget, p.Big = 3, 60, 0
				typ := p.Type(t, 0)
				var args []any
				for k := 1 + gen.Pick(t, 4); k > 0; k-- {
					c := newCase(t, typ, p.Value(t, typ), gen.None())
					if _, _, ok := expect(c.Arg, c.Opts); ok {
						args = append(args, c.Arg)
					}
				}
				if len(args) > 0 {
					ws = append(ws, work{func(i int) any { return args[i%len(args)] }, typeString(typ)})
				}
				continue
			}
			x := gen.Of(t, leakCalls)
			ws = append(ws, work{x.f, x.name})
		}
		if len(ws) == 0 {
			return
		}
		bits := uint(gen.Bits(t, 18))
		if gen.Chance(t, 30) {
			bits = 0
		}
		spawn, reuse, viaAppend := gen.Chance(t, 15), gen.Chance(t, 50), gen.Chance(t, 50)
		parent := context.Background()
		if gen.Chance(t, 60) { // one that may end
			var cancel func()
			parent, cancel = context.WithCancel(parent)
			defer cancel()
		}
		opts := func(i int) (l []jettison.Option) {
			for k, f := range gen.Flags {
				if bits>>k&1 == 1 {
					l = append(l, f.Opt())
				}
			}
			s := strconv.Itoa(i)
			for k, f := range []func() jettison.Option{
				func() jettison.Option { return jettison.TimeLayout("2006-01-02 x" + s) },
				func() jettison.Option { return jettison.AllowList([]string{"S", "M", "P", "R", s}) },
				func() jettison.Option { return jettison.DenyList([]string{"T", s}) },
				func() jettison.Option {
					return jettison.WithContext(context.WithValue(parent, lkErr{s}, i))
				},
				func() jettison.Option { return jettison.DurationFormat(jettison.DurationFmt(i % 6)) },
				func() jettison.Option { // invalid, now and then
					if i%3 != 0 {
						return nil
					}
					return jettison.DurationFormat(jettison.DurationFmt(i + 10))
				},
			} {
				if bits>>(11+k)&1 == 1 {
					l = append(l, f())
				}
			}
			return
		}
		i := 0
		var dst []byte
		one := func() {
			defer func() { recover() }()
			i++
			arg := ws[i%len(ws)].f(i)
			switch {
			case viaAppend && reuse:
				d, err := jettison.AppendOpts(dst[:0], arg, opts(i)...)
				if err == nil {
					dst = d
				}
			case viaAppend:
				jettison.AppendOpts(make([]byte, 3, 10), arg, opts(i)...)
			case bits == 0:
				jettison.Marshal(arg)
			default:
				jettison.MarshalOpts(arg, opts(i)...)
			}
		}
		calls := func(n int) int {
			defer callStart.Store(0)
			end := time.Now().Add(8 * time.Second)
			done := 0
			for ; n > 0 && (done&15 != 0 || time.Now().Before(end)); n-- {
				if done&15 == 0 {
					callStart.Store(time.Now().Unix())
				}
				done++
				if !spawn {
					one()
					continue
				}
				end := make(chan bool)
				go func() {
					defer close(end)
					one()
				}()
				<-end
			}
			return done
		}
		desc := func() string {
			s := fmt.Sprintf("options %#x append %v reuse %v own goroutines %v:", bits, viaAppend, reuse, spawn)
			for _, w := range ws {
				s += fmt.Sprintf(" [%.300s]", w.name)
			}
			return s
		}
		calls(70)
		g0 := runtime.NumGoroutine()
		before := live()
		var grown int64
		n := 0
		for _, n = range []int{250, 2500, 12000} {
			n = calls(n)
			for k := 0; k < n; k += 50 {
				eval()
			}
			after := live()
			grown = after - before
			before = after
			if grown < int64(n)*4 {
				grown = 0
				break
			}
			count("measured again")
		}
		if grown > 0 {
			fail(t, "%d calls leave %d bytes in use\n%s", n, grown, desc())
		}
		for k := 0; k < 100 && runtime.NumGoroutine() > g0+3; k++ {
			time.Sleep(10 * time.Millisecond)
		}
		if d := runtime.NumGoroutine() - g0; d > 3 {
			fail(t, "%d goroutines are left\n%s", d, desc())
		}
		nontrivial(hash(desc()), desc)
	})
}

var plainKeys = []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(gen.NStr("")), reflect.TypeOf(gen.NInt(0))}

var plainDyn = []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(true), reflect.TypeOf(1.5), reflect.TypeOf(time.Time{}), reflect.TypeOf(time.Duration(0)), reflect.TypeOf(new(int)),
	reflect.TypeOf([]int{}), reflect.TypeOf([]string{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf(struct{ A, B int }{}), reflect.TypeOf(&struct{ S string }{}), reflect.TypeOf(uint8(0)), reflect.TypeOf(float32(0)), reflect.TypeOf([2]string{})}

// allocs is the number of allocations of a call of Append in the long run.
func allocs(arg any, o *gen.OptSet, dst []byte) (n float64, ok bool) {
	callStart.Store(time.Now().Unix())
	defer callStart.Store(0)
	var err error
	for i := 0; i < 3; i++ {
		var out []byte
		if out, err = jettison.AppendOpts(dst, arg, o.Opts...); err != nil || len(out) > cap(dst) {
			return 0, false
		}
	}
	return testing.AllocsPerRun(3, func() { jettison.AppendOpts(dst, arg, o.Opts...) }), true
}

var bigDst = make([]byte, 0, 4<<20)

// TestC27: in the long run, hot paths do not allocate.
func TestC27(t *testing.T) {
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	done := 0
	run(t, func(t *rapid.T) {
		if done++; done%50 == 0 {
			runtime.GC()
		}
		p := gen.General()
		p.Depth = 1 + gen.Pick(t, 3)
		p.Fields, p.Special, p.Fail, p.Quote, p.BadKey, p.Embed, p.Big, p.Budget, p.MapMax, p.SliceMax = 5, 0, false, 0, 0, 15, 0, 30, 5, 5
		p.OmitNil = 10
		p.NoRaw = true
		for c := range p.W {
			p.W[c] = 0
		}
		p.W[gen.Prim], p.W[gen.Native], p.W[gen.Ptr], p.W[gen.Slice], p.W[gen.Array], p.W[gen.Map], p.W[gen.Struct], p.W[gen.SyncMap] = 14, 8, 6, 6, 5, 6, 10, 2
		p.KeyTypes, p.SyncKeys, p.Dyn, p.OnlyDyn, p.ZooTypes = plainKeys, plainKeys[:1], plainDyn, true, nil
		typ := p.Type(t, 0)
		if typ.Size() > 1<<10 {
			skip()
			return
		}
		v := p.Value(t, typ)
		o := gen.Options(t, 15, gen.Chance(t, 20))
		c := newCase(t, typ, v, o)
		if c.Arg == nil || len(o.Ref.Layout) > 40 {
			return
		}
		if r, _, ok := expect(c.Arg, o); !ok || len(r.Errs) > 0 {
			skip()
			return
		}
		one, err, pan := marshal(c.Arg, o)
		if pan != "" || err != nil || len(one) > 1<<11 {
			skip()
			return
		}
		kind := gen.Pick(t, 8)
		many := func(n int) any {
			switch kind {
			case 0:
				s := reflect.MakeSlice(reflect.SliceOf(typ), n, n)
				for i := 0; i < n; i++ {
					s.Index(i).Set(v)
				}
				return s.Interface()
			case 1:
				l := make([]any, n)
				for i := range l {
					l[i] = c.Arg
				}
				return &l
			case 2, 3:
				kt := reflect.TypeOf("")
				if kind == 3 {
					kt = reflect.TypeOf(0)
				}
				m := reflect.MakeMap(reflect.MapOf(kt, typ))
				for i := 0; i < n; i++ {
					k := reflect.New(kt).Elem()
					if kind == 3 {
						k.SetInt(int64(i))
					} else {
						k.SetString("<" + strconv.Itoa(i))
					}
					m.SetMapIndex(k, v)
				}
				return m.Interface()
			case 4:
				m := new(sync.Map)
				for i := 0; i < n; i++ {
					m.Store(strconv.Itoa(i), c.Arg)
				}
				return m
			case 5:
				s := reflect.MakeSlice(reflect.SliceOf(reflect.PointerTo(typ)), n, n)
				for i := 0; i < n; i++ {
					s.Index(i).Set(v.Addr())
				}
				return s.Interface()
			case 6:
				m := map[string]any{}
				for i := 0; i < n; i++ {
					m[strconv.Itoa(i)] = []any{c.Arg}
				}
				return m
			}
			st := reflect.StructOf([]reflect.StructField{{Name: "V", Type: typ, Tag: `json:"v,omitempty"`}, {Name: "W", Type: reflect.TypeOf("")}})
			s := reflect.MakeSlice(reflect.SliceOf(st), n, n)
			for i := 0; i < n; i++ {
				s.Index(i).Field(0).Set(v)
				s.Index(i).Field(1).SetString("<\"é")
			}
			return s.Interface()
		}
		const small, large = 5, 505
		vs, vl := many(small), many(large)
		for try := 0; ; try++ {
			a, ok1 := allocs(vs, o, bigDst)
			b, ok2 := allocs(vl, o, bigDst)
			if !ok1 || !ok2 {
				skip()
				return
			}
			eval()
			if b <= a+100 {
				break
			}
			if try == 3 {
				fail(t, "Append of %d elements into a large enough destination allocates %v times, of %d elements %v times\n%T of %s\noptions %v\n%.500s", small, a, large, b, vl, typeString(typ), o, one)
			}
		}
		nontrivial(hash(typ, one, kind, o), func() string { return fmt.Sprintf("%T, options %v: %.300s", vl, o, one) })
	})
	sweep(t, func(t *testing.T) {
		// texts of all sizes: nothing is allocated for each of them, nor of their size
		for j, n := range []int{1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 511, 513, 1000, 1023, 1025, 2000, 4095, 4097, 5000, 8193, 20000, 40000, 65537, 131073, 300000} {
			for k := -1; k < len(gen.Flags); k++ {
				if (k+1+j)%nShards != shard {
					continue
				}
				o := gen.None()
				if k >= 0 {
					o.Add(gen.Flags[k])
				}
				for _, pat := range []string{"x", "x<\u2028\xff\"", "é日", "\x01\n"} {
					s := strings.Repeat(pat, n/len(pat)+1)[:n]
					textAllocs(t, n, o, pat, "strings", s)
					textAllocs(t, n, o, pat, "bytes", []byte(s))
					textAllocs(t, n, o, pat, "keys", map[string]int{s: 1})
					textAllocs(t, n, o, pat, "fields", struct {
						A int
						S string `json:",omitempty"`
					}{1, s})
					textAllocs(t, n, o, pat, "interfaces", any(s))
				}
				textAllocs(t, n, o, "9", "numbers", json.Number(strings.Repeat("9", n)))
			}
		}
	})
}

func textAllocs[T any](t tb, n int, o *gen.OptSet, pat, kind string, x T) {
	k := min(300, len(bigDst[:cap(bigDst)])/(6*n+60))
	l := make([]T, k)
	for i := range l {
		l[i] = x
	}
	if k == 300 { // single ones count
		a, ok1 := allocs(l[:5], o, bigDst)
		b, ok2 := allocs(l, o, bigDst)
		for try := 0; try < 3 && b > a+100; try++ {
			b, _ = allocs(l, o, bigDst)
		}
		if ok1 && ok2 && b > a+100 {
			failT(t, "Append of %d %s of %d bytes (%q...) into a large enough destination allocates %v times, of 5 of them %v times, options %v", k, kind, n, pat, b, a, o)
		}
		evalN(1)
		return
	}
	if _, ok := allocs(l, o, bigDst); !ok {
		return
	}
	var m0, m1 runtime.MemStats
	best := int64(math.MaxInt64)
	for try := 0; try < 5 && best > int64(k*n)/2+8192; try++ {
		runtime.ReadMemStats(&m0)
		jettison.AppendOpts(bigDst, l, o.Opts...)
		runtime.ReadMemStats(&m1)
		best = min(best, int64(m1.TotalAlloc-m0.TotalAlloc))
	}
	if best > int64(k*n)/2+8192 {
		failT(t, "Append of %d %s of %d bytes (%q...) into a large enough destination allocates %d bytes, options %v", k, kind, n, pat, best, o)
	}
	evalN(1)
}
