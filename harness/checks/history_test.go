package checks

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/wI2L/jettison"
	"pgregory.net/rapid"

	"jverif/gen"
	"jverif/lib"
	"jverif/ref"
	"jverif/zoo"
)

var caseNo int

// fresh makes the struct types drawn from now on new to the process.
func fresh() {
	caseNo++
	gen.Uniq = fmt.Sprint(caseNo)
}

// variants are types made of t.
func variants(t *rapid.T, s reflect.Type) reflect.Type {
	str := reflect.TypeOf("")
	f := func(fs ...reflect.StructField) reflect.Type { return gen.StructOf(fs) }
	switch gen.Pick(t, 18) {
	case 0, 1:
		return s
	case 2, 3:
		return reflect.PointerTo(s)
	case 4:
		return reflect.SliceOf(s)
	case 5:
		return reflect.SliceOf(reflect.PointerTo(s))
	case 6:
		return reflect.ArrayOf(1+gen.Pick(t, 2), s)
	case 7:
		return reflect.ArrayOf(1, reflect.PointerTo(s))
	case 8:
		return reflect.MapOf(str, s)
	case 9:
		return reflect.MapOf(str, reflect.PointerTo(s))
	case 10:
		return reflect.PointerTo(reflect.PointerTo(s))
	case 11:
		return f(reflect.StructField{Name: "A", Type: s}, reflect.StructField{Name: "B", Type: reflect.PointerTo(s)}, reflect.StructField{Name: "C", Type: reflect.TypeOf((*any)(nil)).Elem()})
	case 12:
		return f(reflect.StructField{Name: "A", Type: s})
	case 13:
		return f(reflect.StructField{Name: "A", Type: reflect.PointerTo(s)})
	case 14:
		return f(reflect.StructField{Name: "A", Type: s, Tag: `json:",omitempty"`}, reflect.StructField{Name: "B", Type: reflect.SliceOf(s), Tag: `json:",omitnil"`}, reflect.StructField{Name: "C", Type: s, Tag: `json:",string"`})
	case 15:
		return reflect.SliceOf(reflect.SliceOf(s))
	case 16:
		return reflect.PointerTo(reflect.SliceOf(s))
	}
	return reflect.TypeOf([]any(nil))
}

// kept is an output of an earlier call.
type kept struct {
	got, copy []byte
	step      int
}

// TestC20: the result depends on the value and the options only.
func TestC20(t *testing.T) {
	run(t, func(t *rapid.T) {
		fresh()
		defer func() { gen.Uniq = "" }()
		p := everything()
		p.Depth = 2
		p.Budget = 40
		p.Special = gen.Of(t, []int{3, 10, 25})
		p.MapMax, p.SliceMax = 5, 5
		p.Embed = 25
		p.Fields = 5
		p.W[gen.Leaf], p.W[gen.Zoo] = 14, 4
		// the base types
		var base []reflect.Type
		for i := 1 + gen.Pick(t, 3); i > 0; i-- {
			switch gen.Pick(t, 5) {
			case 0:
				base = append(base, gen.Of(t, zoo.Types))
			case 1:
				base = append(base, gen.Of(t, lib.Leaves).Type)
			default:
				base = append(base, p.StructType(t, 0))
			}
		}
		p.Dyn = append([]reflect.Type(nil), base...)
		for _, b := range base {
			if b.Kind() != reflect.Interface {
				p.Dyn = append(p.Dyn, reflect.PointerTo(b))
			}
		}
		type item struct {
			c    *tc
			opts *gen.OptSet
		}
		var items []item
		var keep []kept
		var log []string
		failed, panicked, again := 0, 0, 0
		shared := gen.Options(t, 30, true) // options used by several calls
		options := func() *gen.OptSet {
			if gen.Chance(t, 60) {
				return shared.Sub(t)
			}
			return gen.Options(t, 12, true)
		}
		seen := map[reflect.Type]bool{}
		steps := 3 + gen.Size(t, 25)
		for s := 0; s < steps; s++ {
			var it item
			if len(items) > 0 && gen.Chance(t, 25) {
				it = gen.Of(t, items)
				again++
				if gen.Chance(t, 50) { // the same value with other options
					it.opts = options()
				}
				if gen.Chance(t, 50) { // the same memory with another value
					if n := change(t, p, it.c.Arg); n > 0 {
						count("values changed between the calls")
						log = append(log, fmt.Sprintf("\n  %d changes in the next value", n))
					}
				}
			} else {
				typ := variants(t, gen.Of(t, base))
				seen[typ] = true
				it.opts = gen.None()
				if gen.Bool(t) {
					it.opts = options()
				}
				v := p.Value(t, typ)
				if gen.Chance(t, 3) {
					typ, v = padded(t, typ, v)
				}
				it.c = newCase(t, typ, v, it.opts)
				items = append(items, it)
			}
			c := *it.c
			c.Opts = it.opts
			c.Extra = "history:\n  " + fmt.Sprint(log)
			var ok bool
			if c.Arg == nil {
				continue
			}
			if c.Res, c.Calls, ok = expect(c.Arg, c.Opts); !ok {
				// a marshaling method panics by itself
				marshal(c.Arg, c.Opts)
				log = append(log, fmt.Sprintf("\n  panic with %v %v", typeString(c.Type), c.Opts))
				continue
			}
			if c.Res.Ambig {
				skip()
				continue
			}
			ncalls := len(c.Calls)
			action := gen.Pick(t, 12)
			switch {
			case action == 0 && ncalls > 0: // a marshaling method panics
				k := 1 + gen.Pick(t, ncalls)
				lib.Hook = func() {
					if k--; k == 0 {
						panic("planned panic")
					}
				}
				_, _, pan := marshal(c.Arg, c.Opts)
				lib.Hook = nil
				eval()
				if pan != "" {
					panicked++
				}
				log = append(log, fmt.Sprintf("\n  planned panic with %v %v", typeString(c.Type), c.Opts))
			case action == 1 && ncalls > 0: // a marshaling method calls jettison
				if !c.reenter(t, items, 1+gen.Pick(t, ncalls)) {
					continue
				}
				log = append(log, fmt.Sprintf("\n  reentrant %v %v", typeString(c.Type), c.Opts))
			case action == 2: // appending
				dst := []byte(gen.Of(t, []string{"", "x", "[1,2,"}))
				n := len(dst)
				if len(keep) > 0 && gen.Bool(t) {
					dst = keep[len(keep)-1].got // may extend the result in place
					n = len(dst)
				}
				pre := append([]byte(nil), dst...)
				got, err, pan := appendTo(dst, c.Arg, c.Opts)
				eval()
				if pan != "" {
					c.fail("Append panics at step %d: %s", s, pan)
				}
				if err == nil && !bytes.HasPrefix(got, pre) {
					c.fail("Append loses dst at step %d", s)
				}
				c.Got, c.Err = got, err
				if err == nil {
					c.Got = got[n:]
				} else {
					c.Got = nil
				}
				c.compare(withErr, nil)
				if err == nil {
					keep = append(keep, kept{got, append([]byte(nil), got...), s})
				}
				log = append(log, fmt.Sprintf("\n  Append %v %v", typeString(c.Type), c.Opts))
			default:
				var pan string
				c.Got, c.Err, pan = marshal(c.Arg, c.Opts)
				eval()
				if pan != "" {
					c.fail("jettison panics at step %d: %s", s, pan)
				}
				c.compare(withErr, nil)
				if c.Err == nil {
					keep = append(keep, kept{c.Got, append([]byte(nil), c.Got...), s})
				} else {
					failed++
				}
				log = append(log, fmt.Sprintf("\n  Marshal %v %v error %v", typeString(c.Type), c.Opts, c.Err))
			}
			for _, k := range keep {
				if !bytes.Equal(k.got, k.copy) {
					c.fail("the output of step %d is modified by step %d\n%s", k.step, s, diff(k.got, k.copy))
				}
			}
			switch gen.Pick(t, 20) {
			case 0:
				runtime.GC()
			case 1, 2:
				if len(keep) > 0 { // the caller owns the outputs
					i := gen.Pick(t, len(keep))
					b := keep[i].got[:cap(keep[i].got)]
					// appended results share memory with their dst
					shared := false
					for j := range keep {
						if j != i && len(keep[j].got) > 0 && len(b) > 0 && &keep[j].got[0] == &b[0] {
							shared = true
						}
					}
					if !shared {
						for j := range b {
							b[j] = 0xAA
						}
						keep = append(keep[:i:i], keep[i+1:]...)
					}
				}
			}
		}
		if failed+panicked > 0 {
			count("histories with failures")
		}
		if panicked > 0 {
			count("histories with panics")
		}
		if again > 0 && len(seen) > 1 {
			h := fmt.Sprint(log)
			for _, q := range []string{`"`, `\"`} {
				h = strings.ReplaceAll(h, "u:"+q+gen.Uniq+q, "")
			}
			nontrivial(hash(h), func() string { return fmt.Sprint(log) })
		}
	})
	sweep(t, sizesC20)
}

// change changes some parts of the value of arg in place.
func change(t *rapid.T, p *gen.Profile, arg any) int {
	var locs []func()
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 30 || len(locs) > 300 {
			return
		}
		switch v.Kind() {
		case reflect.Pointer:
			if !v.IsNil() && !seen[v.Pointer()] {
				seen[v.Pointer()] = true
				walk(v.Elem(), depth+1)
			}
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), depth+1)
			}
		case reflect.Struct:
			if v.Type() == reflect.TypeOf(time.Time{}) && v.CanSet() {
				locs = append(locs, func() { v.Set(p.Value(t, v.Type())) })
			}
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), depth+1)
			}
		case reflect.Array, reflect.Slice:
			if v.Type().Elem().Kind() == reflect.Uint8 && v.Len() > 0 {
				if v.Index(0).CanSet() {
					locs = append(locs, func() {
						for k := 1 + gen.Pick(t, 3); k > 0; k-- {
							v.Index(gen.Pick(t, v.Len())).SetUint(uint64(gen.Of(t, []byte("a0\"{}[],: \n\\\x00\xff<\xe2"))))
						}
					})
				}
				return
			}
			for i := 0; i < v.Len() && i < 40; i++ {
				walk(v.Index(i), depth+1)
			}
		case reflect.Map:
			if v.Len() == 0 || !v.CanInterface() {
				return
			}
			keys := v.MapKeys()
			names := map[reflect.Value]string{}
			for _, k := range keys {
				names[k] = gen.Dump(k, false)
			}
			sort.SliceStable(keys, func(i, j int) bool { return names[keys[i]] < names[keys[j]] })
			e := v.Type().Elem()
			if k := e.Kind(); k <= reflect.Complex128 || k == reflect.String {
				locs = append(locs, func() { v.SetMapIndex(keys[0], p.Value(t, e)) })
			}
			if len(keys) > 1 {
				locs = append(locs, func() { v.SetMapIndex(keys[len(keys)-1], reflect.Value{}) })
			}
			for _, k := range keys {
				walk(v.MapIndex(k), depth+1)
			}
		default:
			if k := v.Kind(); v.CanSet() && (k <= reflect.Complex128 || k == reflect.String) {
				locs = append(locs, func() { v.Set(p.Value(t, v.Type())) })
			}
		}
	}
	walk(reflect.ValueOf(arg), 0)
	if len(locs) == 0 {
		return 0
	}
	n := 1 + gen.Pick(t, 3)
	for i := 0; i < n; i++ {
		gen.Of(t, locs)()
	}
	return n
}

// reenter encodes c, one of whose methods encodes other values.
func (c *tc) reenter(t *rapid.T, items any, k int) bool {
	inner := gen.Of(t, []any{map[string]any{"a": 1, "b": []int{1, 2}, "z": nil, "m": map[int]string{3: "x", 1: "y"}}, []string{"x", "y<"}, struct{ A *int }{}, lib.LInt_Jv(7), c.Arg, make(chan int), &struct{ C chan int }{}, lib.LInt_Jv(lib.CodeError)})
	r, _, ok := expect(inner, c.Opts)
	if !ok || r.Ambig {
		return false
	}
	bad := ""
	depth, left := 0, 20
	lib.Hook = func() {
		k--
		if k > 0 || depth > 2 || left == 0 {
			return
		}
		left--
		rec := lib.Rec
		lib.Rec = nil
		depth++
		got, err, pan := marshal2(inner, c.Opts)
		depth--
		lib.Rec = rec
		switch {
		case bad != "":
		case pan != "":
			bad = pan
		case (err != nil) != (len(r.Errs) > 0):
			bad = fmt.Sprintf("error %v, expected %v", err, r.Errs)
		case err == nil && !r.Node.Match(got):
			bad = diff(got, []byte(r.Node.String()))
		}
	}
	var pan string
	c.Got, c.Err, pan = marshal(c.Arg, c.Opts)
	lib.Hook = nil
	eval()
	if pan != "" {
		c.fail("jettison panics in a reentrant call: %s", pan)
	}
	if bad != "" {
		c.fail("a call of jettison inside of a marshaling method gives a wrong result, value %s: %s", gen.Dump(reflect.ValueOf(inner), false), bad)
	}
	c.compare(withErr, nil)
	count("reentrant calls")
	return true
}

// marshal2 is marshal inside of a call.
func marshal2(arg any, o *gen.OptSet) (b []byte, err error, pan string) {
	defer func() {
		if r := recover(); r != nil {
			pan = fmt.Sprintf("panic: %v\n%s", r, stack())
		}
	}()
	if len(o.Opts) == 0 {
		b, err = jettison.Marshal(arg)
	} else {
		b, err = jettison.MarshalOpts(arg, o.Opts...)
	}
	return
}

var _ = ref.Default
