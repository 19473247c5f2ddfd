package checks

import (
	"bytes"
	"context"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/wI2L/jettison"
	"pgregory.net/rapid"

	"jverif/gen"
	"jverif/lib"
	"jverif/ref"
)

// ptrCtx is a context with a nil pointer as valid value.
type ptrCtx struct{ n int }

func (*ptrCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (*ptrCtx) Done() <-chan struct{}       { return nil }
func (*ptrCtx) Err() error                  { return nil }
func (*ptrCtx) Value(any) any               { return nil }

func drawCtx(t *rapid.T) (context.Context, string) {
	switch gen.Pick(t, 7) {
	case 0:
		return context.Background(), "Background"
	case 1:
		c, cancel := context.WithCancel(context.Background())
		cancel()
		return c, "canceled"
	case 2:
		c, cancel := context.WithTimeout(context.Background(), -time.Second)
		cancel()
		return c, "expired"
	case 3:
		return &ptrCtx{gen.Pick(t, 10)}, "custom"
	case 4:
		return (*ptrCtx)(nil), "nil pointer"
	}
	n := gen.Pick(t, 1000)
	return gen.Context(n), fmt.Sprint("value ", n)
}

// Types with embedded probes.
type (
	EmbV  struct{ lib.ProbeS }
	EmbVP struct {
		A int
		lib.ProbeSP
	}
	EmbPtr struct {
		*lib.ProbeSP
		B string
	}
	EmbI struct{ lib.ProbeI }
	EmbF struct {
		P  lib.ProbeS `json:",omitempty"`
		Q  *lib.ProbeSP
		R  lib.ProbeP    `json:"r<,string"`
		S  lib.CtxAppend `json:",omitnil"`
		T  [2]lib.ProbeN
		U  map[lib.MKey]lib.ProbeSP
		V  any
		W  []lib.ProbePP
		X  struct{ Y lib.ProbeSP }
		Z  map[lib.MKey]*lib.ProbeN
		AA *[1]lib.ProbeBig
		BB []map[lib.MKey][]lib.ProbeStr
		CC *sync.Map
	}
	EmbDeep struct {
		embInner
		*EmbF `json:"f"`
		L     *EmbDeep `json:",omitempty"`
	}
	embInner struct{ I lib.ProbeI }
)

// probeCall is a call of a probe.
type probeCall struct {
	ctx      context.Context
	dst, out []byte
}

func recordCtx(f func()) []probeCall {
	var l []probeCall
	lib.CtxCall = func(ctx context.Context, dst, out []byte) {
		l = append(l, probeCall{ctx, append([]byte(nil), dst...), append([]byte(nil), out...)})
	}
	defer func() { lib.CtxCall = nil }()
	f()
	return l
}

// valueStart is where the value of the innermost map member open at the end of
// the JSON text b begins, or 0 without one. Map keys begin with @m.
func valueStart(b []byte) int {
	type frame struct {
		obj bool
		key string
		val int
	}
	var st []frame
	expectKey := false
	for i := 0; i < len(b); i++ {
		switch b[i] {
		case '{':
			st = append(st, frame{obj: true})
			expectKey = true
		case '[':
			st = append(st, frame{})
			expectKey = false
		case '}', ']':
			if len(st) == 0 {
				return 0
			}
			st = st[:len(st)-1]
			expectKey = false
		case ',':
			expectKey = len(st) > 0 && st[len(st)-1].obj
		case '"':
			j := i + 1
			for j < len(b) && b[j] != '"' {
				if b[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(b) {
				j = len(b) - 1
			}
			if expectKey {
				st[len(st)-1].key = string(b[i+1 : max(i+1, j)])
				st[len(st)-1].val = j + 2
				expectKey = false
			}
			i = j
		}
	}
	for k := len(st) - 1; k >= 0; k-- {
		if st[k].obj && strings.HasPrefix(st[k].key, "@m") {
			return min(st[k].val, len(b))
		}
	}
	return 0
}

// TestC24: contexts and destinations of AppendJSONContext.
func TestC24(t *testing.T) {
	run(t, func(t *rapid.T) {
		o := gen.None()
		var want context.Context
		what := "default"
		opts := func() {
			o = gen.Options(t, 10, false, "NoStringEscaping", "NoUTF8Coercion", "NoNumberValidation")
			what = "default"
			if want = o.Ref.Ctx; want == context.TODO() {
				want = nil
			} else {
				what = "drawn"
			}
			if gen.Chance(t, 60) {
				want, what = drawCtx(t)
				// the last one is effective
				if gen.Chance(t, 20) {
					x, _ := drawCtx(t)
					o.Opts = append(o.Opts, jettison.WithContext(x))
				}
				o.Opts = append(o.Opts, jettison.WithContext(want))
				o.Names = append(o.Names, "WithContext("+what+")")
				o.Ref.Ctx = want
			}
		}
		checkCtx := func(c *tc, calls []probeCall) {
			for _, k := range calls {
				if want != nil && k.ctx != want {
					c.fail("AppendJSONContext receives the context %v (%T) instead of %s", k.ctx, k.ctx, what)
				}
				if k.ctx == nil {
					c.fail("AppendJSONContext receives a nil context")
				}
				if want == nil && (k.ctx.Err() != nil || k.ctx.Value("x") != nil) {
					c.fail("AppendJSONContext receives a strange default context: %v", k.ctx)
				}
			}
		}
		if gen.Chance(t, 30) {
			// any marshaler anywhere
			p := everything()
			p.W[gen.Leaf], p.W[gen.Zoo] = 25, 10
			typ := p.Type(t, 0)
			for i := 0; i < 3; i++ {
				opts()
				c := newCase(t, typ, p.Value(t, typ), o)
				if c.Arg == nil {
					continue
				}
				var ok bool
				if c.Res, c.Calls, ok = expect(c.Arg, o); !ok || c.Res.Ambig {
					continue
				}
				n := 0
				for _, k := range c.Calls {
					if k.Meth == 'C' {
						n++
					}
				}
				var pan string
				calls := recordCtx(func() { c.Got, c.Err, pan = marshal(c.Arg, o) })
				eval()
				if pan != "" {
					c.fail("jettison panics: %s", pan)
				}
				c.compare(0, nil)
				checkCtx(c, calls)
				if c.Err == nil && len(calls) != n {
					c.fail("%d calls of AppendJSONContext instead of %d", len(calls), n)
				}
				if n > 0 {
					count("with marshalers of the library")
					nontrivial(hash(typ, c.Got, what), c.short)
				}
			}
			return
		}
		p := gen.General()
		p.Special, p.Fail, p.Valid, p.Alias = 0, false, true, false
		p.NilPct = 8
		p.BadKey = 0
		p.OmitNil = 10
		p.MapMax, p.SliceMax, p.Fields = 4, 4, 5
		p.Leaves = nil
		for _, x := range gen.ProbeTypes {
			p.Leaves = append(p.Leaves, lib.Leaf{Type: x, Set: "c"})
		}
		for _, x := range []reflect.Type{tof[EmbV](), tof[EmbVP](), tof[EmbPtr](), tof[EmbI](), tof[EmbF](), tof[EmbDeep](), tof[*EmbF](), tof[*EmbVP]()} {
			p.Leaves = append(p.Leaves, lib.Leaf{Type: x, Set: "c"})
		}
		p.KeyTypes = []reflect.Type{tof[lib.MKey]()}
		p.SyncKeys = p.KeyTypes
		p.KeyPrefix = "@m" // of the string keys that remain
		for _, l := range p.Leaves {
			p.Dyn = append(p.Dyn, l.Type, reflect.PointerTo(l.Type), reflect.SliceOf(l.Type), reflect.MapOf(tof[lib.MKey](), l.Type))
			p.Impl = append(p.Impl, reflect.PointerTo(l.Type), l.Type)
		}
		p.OnlyDyn = true
		p.W[gen.Zoo], p.W[gen.Raw], p.W[gen.Unsup], p.W[gen.Native], p.W[gen.Leaf], p.W[gen.SyncMap], p.W[gen.Bytes] = 0, 0, 0, 2, 30, 2, 0
		p.ZooTypes = []reflect.Type{tof[int]()} // nothing to embed
		typ := p.Type(t, 0)
		if typ.Kind() != reflect.Struct && gen.Bool(t) {
			typ = p.StructType(t, 0)
		}
		for i := 0; i < 2; i++ {
			opts()
			c := newCase(t, typ, p.Value(t, typ), o)
			if c.Arg == nil {
				continue
			}
			var ok bool
			if c.Res, c.Calls, ok = expect(c.Arg, o); !ok || c.Res.Ambig {
				continue
			}
			pre := []byte(gen.Of(t, []string{"", "", "pre", "[", `{"@m":`}))
			useAppend := len(pre) > 0
			var pan string
			calls := recordCtx(func() {
				if useAppend {
					c.Got, c.Err, pan = appendTo(append(make([]byte, 0, gen.Pick(t, 50)), pre...), c.Arg, o)
					if c.Err == nil && len(c.Got) >= len(pre) {
						c.Got = c.Got[len(pre):]
					}
				} else {
					c.Got, c.Err, pan = marshal(c.Arg, o)
				}
			})
			eval()
			if pan != "" {
				c.fail("jettison panics: %s", pan)
			}
			if c.Err != nil {
				c.Got = nil
			}
			c.compare(0, nil)
			if c.Err != nil {
				continue
			}
			checkCtx(c, calls)
			seen := map[string]bool{}
			deepest := 0
			for _, k := range calls {
				out := string(k.out)
				pos := bytes.Index(c.Got, k.out)
				if seen[out] || pos < 0 || bytes.Count(c.Got, k.out) != 1 {
					c.fail("the output %s of a call is not there exactly once: %s", out, c.Got)
				}
				seen[out] = true
				from := valueStart(c.Got[:pos])
				if !bytes.HasSuffix(k.dst, c.Got[from:pos]) {
					c.fail("the destination given for %s does not end with the output produced so far\n  dst: %.300q\n  out: %.300q", out, k.dst, c.Got[from:pos])
				}
				deepest = max(deepest, pos-from)
			}
			if n := strings.Count(string(c.Got), `"probe-`); n != len(calls) {
				c.fail("%d calls of AppendJSONContext, but %d outputs", len(calls), n)
			}
			if len(calls) > 0 && deepest > 1 {
				count("calls with output before them")
				nontrivial(hash(typ, c.Got, what), c.short)
			}
		}
	})
	sweep(t, sizesC24)
}

var _ = ref.Default
