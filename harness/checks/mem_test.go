package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/wI2L/jettison"
	"pgregory.net/rapid"

	"jverif/gen"
	"jverif/lib"
	"jverif/ref"
)

//go:noinline
func grow(n int) int {
	var a [1024]byte
	if n <= 0 {
		return int(a[n&1])
	}
	a[n&1023] = byte(n)
	return grow(n-1) + int(a[0])
}

var sink []any

// litter overwrites what the collector freed.
func litter() {
	for i := 0; i < 60; i++ {
		b := make([]byte, 16<<(i%7))
		for j := range b {
			b[j] = 0xA5
		}
		sink = append(sink, b, &struct{ a, b uintptr }{0xA5A5, 0xA5A5})
	}
	sink = sink[:0]
}

// disturb collects garbage or moves the stack.
func disturb(k int) {
	switch k {
	case 0:
		runtime.GC()
		litter()
	case 1:
		grow(20)
	case 2:
		grow(150)
		runtime.GC() // shrinks the stack
	case 3:
		runtime.GC()
		grow(40)
	case 4:
		runtime.Gosched()
	}
}

// padded puts v in a value with a large output.
func padded(t *rapid.T, typ reflect.Type, v reflect.Value) (reflect.Type, reflect.Value) {
	n := 1<<(6+gen.Pick(t, 15)) + gen.Pick(t, 100)
	if gen.Chance(t, 25) {
		n = max(1, gen.DictLen(t, 1<<17)-gen.Pick(t, 40))
	}
	l := []any{strings.Repeat("p", n)}
	if v.CanAddr() && gen.Bool(t) {
		l = append(l, v.Addr().Interface())
	} else {
		l = append(l, v.Interface())
	}
	if gen.Bool(t) {
		l[0], l[1] = l[1], l[0]
	}
	return reflect.TypeOf(l), reflect.ValueOf(&l).Elem()
}

// memCase is a case whose value only the case knows.
type memCase struct {
	arg  any
	root reflect.Value
	res  ref.Result
	opts *gen.OptSet
	dump string // before the call
	desc string
	typ  string
}

func memProfile(t *rapid.T) *gen.Profile {
	p := everything()
	p.W[gen.Leaf] = 20
	p.Special = gen.Of(t, []int{0, 4, 10})
	if gen.Chance(t, 60) {
		p.Depth, p.Budget = 3, 60
	}
	if gen.Chance(t, 40) {
		p.W[gen.Bytes], p.W[gen.Raw], p.W[gen.Prim] = 15, 15, 3
	}
	p.NilPct = gen.Of(t, []int{2, 15})
	return p
}

//go:noinline
func newMemCase(t *rapid.T, p *gen.Profile, o *gen.OptSet, typ reflect.Type) (m *memCase) {
	if typ == nil {
		typ = p.Type(t, 0)
	}
	v := p.Value(t, typ)
	if gen.Chance(t, 6) {
		typ, v = padded(t, typ, v)
	}
	c := newCase(t, typ, v, o)
	if c.Arg == nil {
		return nil
	}
	r, _, ok := expect(c.Arg, o)
	if !ok || r.Ambig {
		if ok {
			skip()
		}
		return nil
	}
	// the expectation refers to nothing of the value
	if b, det := r.Node.Flat(); det {
		r.Node = ref.Node{Lit: append([]byte(nil), b...)}
	} else {
		r.Node = r.Node.Clone()
	}
	for i := range r.Errs {
		r.Errs[i].Err = nil
	}
	return &memCase{arg: c.Arg, root: v, res: r, opts: o, desc: c.String(), typ: typeString(typ), dump: gen.Dump(v, true)}
}

func (m *memCase) tc(t *rapid.T) *tc {
	return &tc{T: t, Opts: m.opts, Res: m.res, Extra: m.desc}
}

// take moves the argument out of the case.
//
//go:noinline
func (m *memCase) take() any {
	a := m.arg
	m.arg, m.root = nil, reflect.Value{}
	return a
}

func inGoroutine(f func()) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		debug.SetPanicOnFault(true)
		f()
	}()
	<-done
}

// encodeOnce encodes without a copy of the argument in this frame.
//
//go:noinline
func encodeOnce(take func() any, dst []byte, o *gen.OptSet) (b []byte, err error, pan string) {
	if dst != nil {
		return call(func() ([]byte, error) {
			if len(o.Opts) == 0 {
				return jettison.Append(dst, take())
			}
			return jettison.AppendOpts(dst, take(), o.Opts...)
		})
	}
	return call(func() ([]byte, error) {
		if len(o.Opts) == 0 {
			return jettison.Marshal(take())
		}
		return jettison.MarshalOpts(take(), o.Opts...)
	})
}

// TestC22: memory.
func TestC22(t *testing.T) {
	defer debug.SetGCPercent(debug.SetGCPercent(50))
	run(t, func(t *rapid.T) {
		switch gen.Weighted(t, 10, 5, 3, 3, 14) {
		case 0:
			disturbed(t)
		case 1:
			aliasing(t)
		case 2:
			retention(t)
		case 3:
			onStack(t)
		case 4:
			unmodified(t)
		}
	})
	sweep(t, sizesC22)
}

// disturbed encodes while the collector runs and the stack moves.
func disturbed(t *rapid.T) {
	o := gen.None()
	if gen.Chance(t, 60) {
		o = gen.Options(t, 12, true)
	}
	m := newMemCase(t, memProfile(t), o, nil)
	if m == nil {
		return
	}
	drop := gen.Bool(t)
	pre := gen.Pick(t, 3) // stack of the goroutine
	useAppend := gen.Chance(t, 30)
	background := gen.Chance(t, 15)
	var plan []int // what happens in the calls of methods
	for i := 0; i < 6; i++ {
		plan = append(plan, gen.Pick(t, 6))
	}
	every := 1 + gen.Pick(t, 3)
	c := m.tc(t)
	var pan string
	var dst []byte
	if useAppend {
		dst = make([]byte, 0, gen.Pick(t, 64))
	}
	take := func() any { return m.arg }
	if drop {
		take = m.take
	}
	calls, moved := 0, 0
	var stop, stopped chan struct{}
	if background {
		stop, stopped = make(chan struct{}), make(chan struct{})
		go func() {
			defer close(stopped)
			for {
				select {
				case <-stop:
					return
				default:
					runtime.GC()
				}
			}
		}()
	}
	inGoroutine(func() {
		switch pre {
		case 1:
			grow(60)
		case 2:
			grow(300)
		}
		lib.Hook = func() {
			calls++
			if calls%every == 0 && calls/every <= len(plan) {
				disturb(plan[calls/every-1])
				moved++
			}
		}
		defer func() { lib.Hook = nil }()
		c.Got, c.Err, pan = encodeOnce(take, dst, m.opts)
	})
	if background {
		close(stop)
		<-stopped
	}
	eval()
	if pan != "" {
		c.fail("jettison panics: %s", pan)
	}
	if c.Err != nil {
		c.Got = nil
	}
	c.compare(0, nil)
	if !drop {
		if after := gen.Dump(m.root, true); after != m.dump {
			c.fail("the value is modified\n%s", diff([]byte(after), []byte(m.dump)))
		}
		count("value unchanged")
	}
	runtime.KeepAlive(m)
	if moved > 0 {
		count("collection or stack move in a method")
	}
	if background {
		count("collection in the background")
	}
	if moved > 0 || background || pre == 0 {
		nontrivial(hash(m.typ, c.Got, fmt.Sprint(m.opts, plan)), func() string {
			return fmt.Sprintf("plan %v drop %v: %.600s -> %.300s", plan, drop, m.desc, c.Got)
		})
	}
}

// unmodified encodes with many options, failing values included, and compares
// the value before and after.
func unmodified(t *rapid.T) {
	o := gen.Options(t, gen.Of(t, []int{0, 12, 50, 50}), gen.Chance(t, 30))
	p := memProfile(t)
	p.Fail = gen.Chance(t, 20)
	if gen.Chance(t, 60) {
		p.W[gen.Bytes], p.W[gen.Raw], p.W[gen.Map] = 40, 20, 20
	}
	typ := p.Type(t, 0)
	v := p.Value(t, typ)
	if gen.Chance(t, 40) {
		x := byte(0x80 | gen.Pick(t, 128))
		bytesOf(v, map[uintptr]bool{}, 0, func(b []byte) {
			for i := range b {
				if i%3 == 0 {
					b[i] ^= x
				}
			}
		})
	}
	c := newCase(t, typ, v, o)
	if c.Arg == nil {
		skip()
		return
	}
	before := gen.Dump(v, true)
	var dst []byte
	if gen.Chance(t, 30) {
		dst = make([]byte, 0, gen.Pick(t, 64))
	}
	var pan string
	c.Got, c.Err, pan = encodeOnce(func() any { return c.Arg }, dst, o)
	eval()
	if pan != "" {
		skip() // judged by other checks
		return
	}
	if after := gen.Dump(v, true); after != before {
		c.fail("the value is modified\n%s", diff([]byte(after), []byte(before)))
	}
	count("value unchanged")
	if len(c.Got) > 20 || c.Err != nil {
		nontrivial(hash(typ, c.Got, c.Err), c.short)
	}
}

// bytesOf collects the byte slices and arrays reachable from v.
func bytesOf(v reflect.Value, seen map[uintptr]bool, depth int, f func([]byte)) {
	if !v.IsValid() || depth > 60 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && v.Type().Elem().Kind() != reflect.Invalid {
			if seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			bytesOf(v.Elem(), seen, depth+1, f)
		}
	case reflect.Interface:
		bytesOf(v.Elem(), seen, depth+1, f)
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if v.Len() > 0 {
				f(v.Bytes())
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			bytesOf(v.Index(i), seen, depth+1, f)
		}
	case reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if v.CanAddr() && v.Len() > 0 {
				f(v.Bytes())
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			bytesOf(v.Index(i), seen, depth+1, f)
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			bytesOf(it.Value(), seen, depth+1, f)
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			return
		}
		if v.Type() == reflect.TypeOf((*sync.Map)(nil)).Elem() {
			if v.CanAddr() {
				(*sync.Map)(v.Addr().UnsafePointer()).Range(func(_, e any) bool {
					bytesOf(reflect.ValueOf(e), seen, depth+1, f)
					return true
				})
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			bytesOf(v.Field(i), seen, depth+1, f)
		}
	}
}

// bytesTypes are types whose encoding may be a copy of their memory.
var bytesTypes = []reflect.Type{tof[json.RawMessage](), tof[*json.RawMessage](), tof[[]byte](), tof[gen.NBytes](), tof[lib.BufJ](), tof[*lib.BufJ](), tof[lib.BufT](), tof[*lib.BufT](), tof[[8]byte](), tof[*[8]byte](), tof[gen.NRaw](), tof[string](), tof[json.Number](), tof[lib.RawA](), tof[lib.RawC](), tof[lib.RawJ]()}

// aliasing checks that the output shares no memory with the value.
func aliasing(t *rapid.T) {
	o := gen.None()
	if gen.Chance(t, 60) {
		o = gen.Options(t, 15, false)
	}
	p := memProfile(t)
	p.W[gen.Bytes], p.W[gen.Raw], p.W[gen.Native] = 15, 20, 10
	if gen.Chance(t, 40) { // scalar documents, where sharing would be simplest
		p.Depth = 1
	}
	var typ reflect.Type
	if gen.Chance(t, 30) { // the value is the bytes
		typ = gen.Of(t, bytesTypes)
		o = gen.None()
		for _, f := range gen.Flags {
			if gen.Chance(t, 20) {
				o.Add(f)
			}
		}
	}
	m := newMemCase(t, p, o, typ)
	if m == nil {
		return
	}
	c := m.tc(t)
	var dst []byte
	if gen.Chance(t, 40) {
		dst = make([]byte, 0, gen.Pick(t, 64))
	}
	var pan string
	c.Got, c.Err, pan = encodeOnce(func() any { return m.arg }, dst, m.opts)
	eval()
	if pan != "" {
		c.fail("jettison panics: %s", pan)
	}
	if after := gen.Dump(m.root, true); after != m.dump {
		c.fail("the value is modified\n%s", diff([]byte(after), []byte(m.dump)))
	}
	raw := c.Got
	if c.Err != nil {
		c.Got = nil
	}
	c.compare(0, nil)
	// write over the output
	orig := append([]byte(nil), raw...)
	func() {
		defer func() {
			if r := recover(); r != nil {
				c.fail("the output is in read-only memory: %v", r)
			}
		}()
		full := raw[:cap(raw)]
		for i := range full {
			full[i] ^= 0x5a
		}
	}()
	if after := gen.Dump(m.root, true); after != m.dump {
		c.fail("the output shares memory with the value: writing to it modifies the value\n%s", diff([]byte(after), []byte(m.dump)))
	}
	copy(raw, orig)
	// the next calls write to neither of them
	for _, next := range []string{"N", strings.Repeat("N", len(orig))} {
		encodeOnce(func() any { return next }, nil, gen.None())
	}
	if after := gen.Dump(m.root, true); after != m.dump {
		c.fail("the value is modified by the next call\n%s", diff([]byte(after), []byte(m.dump)))
	}
	// write over the value
	n := 0
	bytesOf(m.root, map[uintptr]bool{}, 0, func(b []byte) {
		n++
		for i := range b {
			b[i] ^= 0xa5
		}
	})
	if !bytes.Equal(raw, orig) {
		c.fail("the output shares memory with the value: it changes with the value\n%s", diff(raw, orig))
	}
	// and the next calls
	for _, next := range []string{"next", strings.Repeat("n", len(orig))} {
		b, err, pan := encodeOnce(func() any { return next }, nil, gen.None())
		if pan != "" || err != nil || string(b) != `"`+next+`"` {
			c.fail("after the value and the output were overwritten, %q encodes to %s %v %s", next, b, err, pan)
		}
		if !bytes.Equal(raw, orig) {
			c.fail("the output changes in the next call\n%s", diff(raw, orig))
		}
	}
	if n > 0 {
		count("bytes overwritten in the value")
		nontrivial(hash(m.typ, orig, fmt.Sprint(m.opts), "alias"), func() string { return fmt.Sprintf("aliasing: %.600s -> %.300s", m.desc, orig) })
	}
}

// cycle is a type of cyclic values.
type cycle struct {
	N    *cycle
	M    map[string]any `json:",omitempty"`
	S    []any          `json:",omitempty"`
	Tail *sentinel
}

type sentinel struct {
	A, B, C int
	P       *int
}

// retained is a value whose parts have finalizers.
type retained struct {
	arg           any
	desc          string
	marked, freed atomic.Int64
}

func (r *retained) mark(p any) {
	r.marked.Add(1)
	runtime.SetFinalizer(p, func(any) { r.freed.Add(1) })
}

//go:noinline
func (r *retained) take() any {
	a := r.arg
	r.arg = nil
	return a
}

//go:noinline
func newRetained(t *rapid.T, o *gen.OptSet) *retained {
	r := &retained{}
	if gen.Chance(t, 25) {
		x := &sentinel{P: new(int)}
		g := &cycle{Tail: x}
		switch gen.Pick(t, 3) {
		case 0:
			g.N = &cycle{N: g}
		case 1:
			g.M = map[string]any{"a": g}
		default:
			g.S = []any{g}
		}
		r.mark(x)
		r.arg, r.desc = g, "a cyclic value"
		return r
	}
	p := memProfile(t)
	typ := p.Type(t, 0)
	v := p.Value(t, typ)
	c := newCase(t, typ, v, o)
	if c.Arg == nil {
		return nil
	}
	if _, _, ok := expect(c.Arg, o); !ok {
		return nil
	}
	if typ.Size() >= 16 {
		r.mark(v.Addr().Interface())
	}
	if q := somePtr(v, 0); q.IsValid() && q.Pointer() != v.Addr().Pointer() {
		r.mark(q.Interface())
	}
	r.arg, r.desc = c.Arg, c.String()
	if r.marked.Load() == 0 {
		return nil
	}
	return r
}

// retention checks that the value can be collected after the call.
func retention(t *rapid.T) {
	o := gen.None()
	if gen.Chance(t, 50) {
		o = gen.Options(t, 12, false)
	}
	r := newRetained(t, o)
	if r == nil {
		return
	}
	if trace {
		os.WriteFile(filepath.Join(outDir, "trace.txt"), []byte(r.desc), 0o644)
	}
	var out []byte // stays
	var pan string
	inGoroutine(func() {
		a := r.take()
		for i := 0; i < 2 && pan == ""; i++ {
			out, _, pan = marshal(a, o)
			eval()
		}
	})
	if pan != "" {
		fail(t, "jettison panics: %s\n%s", pan, r.desc)
	}
	for i := 0; i < 60 && r.freed.Load() < r.marked.Load(); i++ {
		runtime.GC()
		for j := 0; j < 5 && r.freed.Load() < r.marked.Load(); j++ {
			runtime.Gosched()
		}
		if i > 6 {
			time.Sleep(time.Duration(i) * time.Millisecond)
		}
	}
	if n := r.marked.Load(); r.freed.Load() < n {
		fail(t, "%d of %d objects of the value are still reachable after the call and many collections\n%s", n-r.freed.Load(), n, r.desc)
	}
	count("value collected after the call")
	nontrivial(hash(out, r.desc, "retention"), func() string { return fmt.Sprintf("retention: %.600s -> %.300s", r.desc, out) })
	runtime.KeepAlive(out)
}

// somePtr returns a pointer of v made with new, or an invalid value.
func somePtr(v reflect.Value, depth int) reflect.Value {
	if depth > 8 || !v.IsValid() {
		return reflect.Value{}
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || !v.CanInterface() {
			return reflect.Value{}
		}
		e := v.Type().Elem()
		if e.Size() >= 16 && e.Kind() != reflect.Interface && v.Type().PkgPath() == "" && v.Type().Name() == "" {
			if k := e.Kind(); k == reflect.Struct && e != reflect.TypeOf((*sync.Map)(nil)).Elem() {
				return v
			}
		}
		return somePtr(v.Elem(), depth+1)
	case reflect.Interface:
		return somePtr(v.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len() && i < 3; i++ {
			if q := somePtr(v.Index(i), depth+1); q.IsValid() {
				return q
			}
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			if q := somePtr(it.Value(), depth+1); q.IsValid() {
				return q
			}
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) || v.Type() == reflect.TypeOf((*sync.Map)(nil)).Elem() {
			return reflect.Value{}
		}
		for i := 0; i < v.NumField(); i++ {
			if q := somePtr(v.Field(i), depth+1); q.IsValid() {
				return q
			}
		}
	}
	return reflect.Value{}
}

// Values in variables of the stack.
type (
	stkA struct {
		A lib.LS_JpTv
		B lib.LInt_Jp
		C string
		D *lib.LS_Jv
		M map[string]lib.LS_JvTv
	}
	stkB struct{ P *lib.LS_Tp }
	stkC [3]lib.LStr_Jv
	stkD struct {
		X any
		Y lib.ProbeBig
		T time.Time
		R json.RawMessage
		Z [4]lib.LInt_Jp
	}
	stkE map[lib.TextKey]lib.LS_JvTv
	stkF struct {
		lib.LS_Jp
		E lib.LF64_Tv
		F [2]*lib.LInt_Av
	}
	stkG []lib.LSP_Jv
	stkH struct{ M map[int]*lib.LS_Tv }
	stkI [1]*lib.LSP_Jv
	stkJ struct{ E lib.LS_Jp }
)

type stackFn func(src reflect.Value, how int, o *gen.OptSet, dst []byte) ([]byte, error)

func stackOf[T any]() stackFn {
	return func(src reflect.Value, how int, o *gen.OptSet, dst []byte) ([]byte, error) {
		p := (*T)(src.Addr().UnsafePointer())
		switch how {
		case 0:
			x := *p
			return jettison.Marshal(&x)
		case 1:
			x := *p
			return jettison.Marshal(x)
		case 2:
			x := *p
			return jettison.MarshalOpts(&x, o.Opts...)
		case 3:
			x := *p
			return jettison.AppendOpts(dst, x, o.Opts...)
		case 4:
			x := *p
			return jettison.Append(dst, &x)
		default:
			x := *p
			y := &x
			return jettison.MarshalOpts(&y, o.Opts...)
		}
	}
}

var stackTypes = []struct {
	t reflect.Type
	f stackFn
}{
	{tof[stkA](), stackOf[stkA]()}, {tof[stkB](), stackOf[stkB]()}, {tof[stkC](), stackOf[stkC]()}, {tof[stkD](), stackOf[stkD]()},
	{tof[stkE](), stackOf[stkE]()}, {tof[stkF](), stackOf[stkF]()}, {tof[stkG](), stackOf[stkG]()}, {tof[stkH](), stackOf[stkH]()},
	{tof[stkI](), stackOf[stkI]()}, {tof[stkJ](), stackOf[stkJ]()}, {tof[lib.LS_Jp](), stackOf[lib.LS_Jp]()}, {tof[lib.LSP_Jv](), stackOf[lib.LSP_Jv]()}, {tof[lib.LInt_Jp](), stackOf[lib.LInt_Jp]()},
	{tof[any](), stackOf[any]()}, {tof[time.Time](), stackOf[time.Time]()}, {tof[string](), stackOf[string]()},
}

// onStack encodes local variables of the caller.
func onStack(t *rapid.T) {
	x := gen.Of(t, stackTypes)
	p := memProfile(t)
	o := gen.None()
	how := gen.Pick(t, 6)
	if how == 2 || how == 3 || how == 5 {
		o = gen.Options(t, 12, false)
	}
	v := p.Value(t, x.t)
	arg := v.Interface()
	if how != 1 && how != 3 {
		arg = v.Addr().Interface()
	}
	if arg == nil {
		return
	}
	c := &tc{T: t, Type: x.t, Val: v, Arg: arg, Opts: o}
	var ok bool
	if c.Res, _, ok = expect(arg, o); !ok || c.Res.Ambig {
		return
	}
	if trace {
		os.WriteFile(filepath.Join(outDir, "trace.txt"), []byte(c.String()), 0o644)
	}
	before := gen.Dump(v, true)
	var plan []int
	for i := 0; i < 6; i++ {
		plan = append(plan, gen.Pick(t, 6))
	}
	pre := gen.Pick(t, 3)
	dst := make([]byte, 0, gen.Pick(t, 64))
	calls := 0
	var pan string
	inGoroutine(func() {
		if pre > 0 {
			grow(100 * pre)
		}
		lib.Hook = func() {
			if calls < len(plan) {
				disturb(plan[calls])
			}
			calls++
		}
		defer func() { lib.Hook = nil }()
		c.Got, c.Err, pan = call(func() ([]byte, error) { return x.f(v, how, o, dst) })
	})
	eval()
	if pan != "" {
		c.fail("jettison panics on a local variable: %s", pan)
	}
	if c.Err != nil {
		c.Got = nil
	}
	c.compare(0, nil)
	if after := gen.Dump(v, true); after != before {
		c.fail("the value is modified\n%s", diff([]byte(after), []byte(before)))
	}
	count("local variables")
	if calls > 0 {
		nontrivial(hash(c.Got, fmt.Sprint(x.t, plan, how)), c.short)
	}
}
