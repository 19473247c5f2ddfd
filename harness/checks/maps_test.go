package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"sync"
	"testing"
	"time"

	"github.com/wI2L/jettison"
	"pgregory.net/rapid"

	"jverif/gen"
	"jverif/lib"
)

// rng is a small generator seeded by drawn bits, for bulk data.
type rng uint64

func (r *rng) next() uint64 {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

func (r *rng) n(n int) int { return int(r.next() % uint64(n)) }

var keyChunks = []string{"", "a", "b", "k", "<", ">", "&", "\"", "\\", "\x00", "\x1f", "\u2028", "é", "\xff", "\x80", "\n", "!", "~", "'", "z", "aa", "日"}

func (r *rng) key() string {
	s := ""
	for i := r.n(5); i >= 0; i-- {
		s += keyChunks[r.n(len(keyChunks))]
	}
	return s
}

var bigKeys = []reflect.Type{
	reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(uint8(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(""), reflect.TypeOf(gen.NStr("")), reflect.TypeOf(lib.TextKey{}), reflect.TypeOf(lib.BigKey{}), reflect.TypeOf(lib.LInt_Tv(0)), reflect.TypeOf(lib.LA2_Tv{}), reflect.TypeOf(lib.LStr_JvTv("")), reflect.TypeOf(time.Time{}), reflect.TypeOf(time.Duration(0)), reflect.TypeOf(lib.RawT("")), reflect.TypeOf((*lib.PtrTextKey)(nil)), reflect.TypeOf((*lib.Texter)(nil)).Elem(), reflect.TypeOf(uintptr(0)), reflect.TypeOf(lib.LI8_Tp(0)), reflect.TypeOf(lib.LBool_Tv(false)), reflect.TypeOf(lib.SharedK(0)), reflect.TypeOf(lib.SharedK(0)),
}

type fat struct {
	A [20]uint64
	P *int
}

var bigElems = []reflect.Type{
	reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(struct{}{}), reflect.TypeOf(fat{}), reflect.TypeOf((*int)(nil)), reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf([]byte(nil)), reflect.TypeOf(map[string]int(nil)), reflect.TypeOf(true),
	reflect.TypeOf(lib.LSM_Jv{}), reflect.TypeOf([1]*int{}), reflect.TypeOf(uint8(0)), reflect.TypeOf(map[int]map[string]bool(nil)), reflect.TypeOf([]any(nil)), reflect.TypeOf(lib.LInt_Tp(0)), reflect.TypeOf(lib.SharedJ(0)), reflect.TypeOf(lib.SharedK(0)),
}

// quick fills v from r, without special behaviours.
func (r *rng) fill(v reflect.Value, d int) {
	switch v.Type() {
	case reflect.TypeOf(time.Time{}):
		v.Set(reflect.ValueOf(time.Unix(int64(r.next()%(1<<40)), int64(r.n(3))*5).UTC()))
		return
	case reflect.TypeOf((*lib.Texter)(nil)).Elem():
		switch r.n(3) {
		case 0:
			v.Set(reflect.ValueOf(lib.TextKey{A: r.n(1 << 20), B: "k"}))
		case 1:
			v.Set(reflect.ValueOf(lib.LInt_Tv(1000 + r.n(1<<30))))
		default:
			v.Set(reflect.ValueOf(lib.RawT(r.key())))
		}
		return
	}
	switch v.Kind() {
	case reflect.String:
		if r.n(2) == 0 {
			v.SetString(r.key())
		} else {
			v.SetString(fmt.Sprintf("%s%x", r.key(), r.next()>>44))
		}
	case reflect.Int8:
		v.SetInt(int64(r.n(100)))
	case reflect.Uint8:
		v.SetUint(uint64(r.n(256)))
		if x := v.Uint(); x > 100 && x < 109 {
			v.SetUint(x + 50)
		}
	case reflect.Int, reflect.Int16, reflect.Int32, reflect.Int64:
		x := int64(r.next()) >> r.n(64)
		v.SetInt(x)
		if x = v.Int(); x > 100 && x < 109 {
			v.SetInt(x + 100)
		}
	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(r.next() >> r.n(64))
	case reflect.Bool:
		v.SetBool(r.n(2) == 0)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			r.fill(v.Field(i), d)
		}
	case reflect.Array:
		for i := 0; i < v.Len() && i < 2; i++ {
			r.fill(v.Index(i), d)
		}
	case reflect.Ptr:
		if r.n(8) != 0 {
			v.Set(reflect.New(v.Type().Elem()))
			r.fill(v.Elem(), d)
		}
	case reflect.Interface:
		switch r.n(6) {
		case 0:
		case 5:
			v.Set(reflect.ValueOf([]lib.SharedJ{lib.SharedJ(r.n(2000)), 3}))
		case 1:
			v.Set(reflect.ValueOf(r.n(50)))
		case 2:
			v.Set(reflect.ValueOf(r.key()))
		case 3:
			if d < 3 {
				m := map[string]any{}
				r.fillMap(reflect.ValueOf(m), r.n(4), d+1)
				v.Set(reflect.ValueOf(m))
			}
		default:
			v.Set(reflect.ValueOf(map[int]int{r.n(9): 1, 11: 2}))
		}
	case reflect.Slice:
		n := r.n(5)
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			r.fill(s.Index(i), d+1)
		}
		v.Set(s)
	case reflect.Map:
		if d > 3 || r.n(6) == 0 {
			return
		}
		m := reflect.MakeMap(v.Type())
		r.fillMap(m, r.n(5), d+1)
		v.Set(m)
	}
}

func (r *rng) fillMap(m reflect.Value, n, d int) {
	kt, et := m.Type().Key(), m.Type().Elem()
	var ks []reflect.Value
	for i := 0; i < n; i++ {
		k, e := reflect.New(kt).Elem(), reflect.New(et).Elem()
		r.fill(k, d)
		r.fill(e, d)
		m.SetMapIndex(k, e)
		ks = append(ks, k)
	}
	if r.n(3) == 0 && n > 1 { // deletions leave holes
		for i := r.n(n); i > 0; i-- {
			m.SetMapIndex(ks[r.n(n)], reflect.Value{})
		}
	}
}

// bigMap draws a map that may be large.
func bigMap(t *rapid.T) reflect.Value {
	kt, et := gen.Of(t, bigKeys), gen.Of(t, bigElems)
	n := 0
	switch gen.Weighted(t, 4, 4, 2, 1) {
	case 0:
		n = gen.Pick(t, 20)
	case 1: // around the growth thresholds of the runtime
		n = (13<<gen.Pick(t, 8))/2 + gen.Pick(t, 7) - 3
	case 2:
		n = gen.Pick(t, 600)
		if gen.Bool(t) {
			n = gen.DictLen(t, 9000)
		}
	default:
		n = gen.Pick(t, 5000)
	}
	if et.Size() > 100 || et.Kind() == reflect.Map || et.Kind() == reflect.Interface {
		n = min(n, 400)
	}
	n = max(n, 0)
	r := rng(gen.Bits(t, 24))
	m := reflect.MakeMapWithSize(reflect.MapOf(kt, et), []int{0, n, n / 2}[gen.Pick(t, 3)])
	r.fillMap(m, n, 0)
	v := reflect.New(m.Type()).Elem()
	v.Set(m)
	return v
}

// TestC07: maps.
func TestC07(t *testing.T) {
	run(t, func(t *rapid.T) {
		o := gen.None()
		switch gen.Pick(t, 4) {
		case 0:
			o.Add(gen.FlagByName("UnsortedMap"))
		case 1:
			o = gen.Options(t, 12, false)
		}
		mode := withCalls
		if len(o.Opts) == 0 {
			mode |= withStd
		}
		if gen.Bool(t) {
			v := bigMap(t)
			if gen.Chance(t, 30) { // nested
				s := reflect.MakeSlice(reflect.SliceOf(v.Type()), 0, 3)
				s = reflect.Append(s, v, bigMapOf(t, v.Type()), v)
				v = reflect.New(s.Type()).Elem()
				v.Set(s)
			}
			c := newCase(t, v.Type(), v, o)
			if c.judge(mode) && len(c.Got) > 20 {
				nontrivial(hash(v.Type(), c.Got, o), c.short)
				if len(c.Got) > 5000 {
					count("large maps")
				}
			}
			return
		}
		p := gen.General()
		p.NoExt = gen.Chance(t, 75)
		p.Special = 5
		p.Fail = gen.Chance(t, 15)
		p.BadKey = 2
		p.MapMax = 30
		p.W[gen.Map], p.W[gen.Unsup], p.W[gen.Struct], p.W[gen.Zoo] = 30, 0, 6, 2
		typ := reflect.MapOf(p.KeyType(t), p.Type(t, 1))
		if gen.Chance(t, 20) {
			typ = reflect.StructOf([]reflect.StructField{{Name: "A", Type: typ}, {Name: "B", Type: reflect.ArrayOf(1, typ)}})
		}
		for i := 0; i < 3; i++ {
			c := newCase(t, typ, p.Value(t, typ), o)
			if c.judge(mode) && len(c.Got) > 8 {
				nontrivial(hash(typ, c.Got, o), c.short)
			}
		}
	})
	sweep(t, func(t *testing.T) { sizesC07(t, false) })
}

func bigMapOf(t *rapid.T, mt reflect.Type) reflect.Value {
	r := rng(gen.Bits(t, 16))
	m := reflect.MakeMap(mt)
	r.fillMap(m, gen.Pick(t, 40), 0)
	return m
}

// TestC08: sync.Map.
func TestC08(t *testing.T) {
	tm := reflect.TypeOf((*sync.Map)(nil)).Elem()
	pm := reflect.PointerTo(tm)
	types := []reflect.Type{tm, pm, tm, pm, reflect.SliceOf(pm), reflect.SliceOf(tm), reflect.ArrayOf(2, tm), reflect.MapOf(reflect.TypeOf(""), pm), reflect.PointerTo(pm),
		reflect.TypeOf(struct {
			A int
			M sync.Map
			B *sync.Map `json:",omitempty"`
			C string
		}{}),
		reflect.TypeOf(struct{ *sync.Map }{}),
		reflect.TypeOf(struct {
			M *sync.Map `json:"m,omitnil"`
			N any
		}{}),
		reflect.TypeOf([]any(nil)),
	}
	run(t, func(t *rapid.T) {
		p := gen.General()
		p.Special = 6
		p.Fail = gen.Chance(t, 25)
		p.MapMax = 25
		p.NilPct = 12
		p.Depth = 3
		p.W[gen.Unsup], p.W[gen.Zoo], p.W[gen.SyncMap] = 0, 2, 4
		p.Dyn = []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(0), pm, tm, reflect.TypeOf(map[string]any(nil)), reflect.TypeOf([]any(nil)), reflect.TypeOf((*int)(nil)), reflect.TypeOf(lib.LInt_Jp(0)), reflect.TypeOf((*lib.LS_Jp)(nil)), reflect.TypeOf(time.Time{})}
		o := gen.None()
		switch gen.Pick(t, 4) {
		case 0:
			o.Add(gen.FlagByName("UnsortedMap"))
		case 1:
			o = gen.Options(t, 12, false)
		}
		typ := gen.Of(t, types)
		for i := 0; i < 3; i++ {
			c := newCase(t, typ, p.Value(t, typ), o)
			if c.judge(withCalls) {
				if c.Err != nil {
					count("error")
				}
				if len(c.Got) > 6 || c.Err != nil {
					nontrivial(hash(typ, c.Got, c.Err, o), c.short)
				}
			}
		}
		syncLikeMap(t, p)
		if gen.Chance(t, 50) {
			syncChanging(t, gen.Chance(t, 20))
		}
	})
	sweep(t, func(t *testing.T) { sizesC07(t, true) })
}

// syncLikeMap compares a sync.Map with the Go map with the same entries.
func syncLikeMap(t *rapid.T, p *gen.Profile) {
	kt := gen.Of(t, bigKeys)
	if kt.Kind() == reflect.Interface {
		return
	}
	r := rng(gen.Bits(t, 24))
	m := reflect.MakeMap(reflect.MapOf(kt, reflect.TypeOf((*any)(nil)).Elem()))
	r.fillMap(m, gen.Size(t, 200), 1)
	var sm sync.Map
	for it := m.MapRange(); it.Next(); {
		if r.n(4) == 0 {
			sm.Store(it.Key().Interface(), "overwritten")
		}
		sm.Store(it.Key().Interface(), it.Value().Interface())
		if r.n(8) == 0 {
			sm.Range(func(k, v any) bool { return true })
		}
		if r.n(10) == 0 {
			k := it.Key().Interface()
			v, _ := sm.LoadAndDelete(k)
			sm.Store(k, v)
		}
	}
	var opts []jettison.Option
	if gen.Chance(t, 20) {
		opts = append(opts, jettison.NoHTMLEscaping())
	}
	b1, err1, p1 := call(func() ([]byte, error) { return jettison.MarshalOpts(m.Interface(), opts...) })
	b2, err2, p2 := call(func() ([]byte, error) { return jettison.MarshalOpts(&sm, opts...) })
	eval()
	if p1+p2 != "" || (err1 != nil) != (err2 != nil) {
		fail(t, "map: %v %s, sync.Map: %v %s\nmap: %s", err1, p1, err2, p2, gen.Dump(m, false))
	}
	if !bytes.Equal(b1, b2) && !equalKeys(b1) {
		fail(t, "a sync.Map and the Go map with the same entries differ\n%s\nmap: %s", diff(b2, b1), gen.Dump(m, false))
	}
	if m.Len() > 1 {
		nontrivial(hash("like", b1), func() string { return fmt.Sprintf("sync.Map and %s with the same %d entries", m.Type(), m.Len()) })
	}
}

// equalKeys returns whether the top-level object of b has two equal keys.
func equalKeys(b []byte) bool {
	dec := json.NewDecoder(bytes.NewReader(b))
	seen := map[string]bool{}
	depth, key := 0, true
	for {
		tok, err := dec.Token()
		if err != nil {
			return false
		}
		switch x := tok.(type) {
		case json.Delim:
			if x == '{' || x == '[' {
				depth++
				if depth == 1 {
					key = true
					continue
				}
			} else {
				depth--
			}
			if depth == 1 {
				key = true
			}
			continue
		}
		if depth == 1 {
			if key {
				if s, ok := tok.(string); ok {
					if seen[s] {
						return true
					}
					seen[s] = true
				}
				key = false
			} else {
				key = true
			}
		}
	}
}
