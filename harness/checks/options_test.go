package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand/v2"
	"reflect"
	"sync"
	"testing"
	"time"

	"github.com/wI2L/jettison"
	"pgregory.net/rapid"

	"jverif/gen"
	"jverif/ref"
	"jverif/zoo"
)

func everything() *gen.Profile {
	p := gen.General()
	p.OmitNil = 8
	p.Special = 4
	p.NilPct = 20
	p.W[gen.Native], p.W[gen.Bytes], p.W[gen.SyncMap], p.W[gen.Raw], p.W[gen.Map] = 12, 7, 2, 6, 9
	return p
}

// differs tells whether the options change the expected outcome.
func (c *tc) differs() bool {
	d, _, ok := expect(c.Arg, gen.None())
	if !ok || (len(d.Errs) > 0) != (len(c.Res.Errs) > 0) {
		return ok
	}
	return len(d.Errs) == 0 && d.Node.String() != c.Res.Node.String()
}

// allSubsets tries every subset of the boolean options, with every duration
// format, on one value with something for each of them.
func allSubsets(t *testing.T) {
	r := rand.New(rand.NewPCG(seed, 16))
	var n, diff int64
	for m := 0; m < 1<<len(gen.Flags); m++ {
		if m%nShards != shard {
			continue
		}
		for d := 0; d < 6; d++ {
			o := gen.None()
			for i, f := range gen.Flags {
				if m>>i&1 != 0 {
					o.Add(f)
				}
			}
			o.AddDur(jettison.DurationFmt(d))
			if m%3 == 1 {
				o.AddLayout(gen.Layouts[r.IntN(len(gen.Layouts))])
			}
			type in struct {
				M map[string]time.Time
				D map[time.Duration]any
				S []any
				P *time.Duration
				K map[time.Time]string
				N json.Number
			}
			tm := time.Unix(r.Int64N(1<<33), r.Int64N(1e9)).UTC()
			du := time.Duration(r.Int64() >> r.IntN(60))
			bs := make([]byte, r.IntN(12))
			for i := range bs {
				bs[i] = "ab<>&\"\\\n\xff\xe2\x80\xa8\x00é"[r.IntN(13)]
			}
			v := omni{T: tm, D: du, S: string(bs) + "<\xff>\"\u2028", B: bs, A: [3]byte{byte(r.IntN(256)), '<', '"'}, M: map[string]int{"b<": 1, "a&\xff": 2, "c": 3, string(bs): 4},
				N: json.Number([]string{"1", "x", "", "1e5", "0x1"}[r.IntN(5)]), R: json.RawMessage(" [ \"<\u2028\" ,1 ] "),
				I: in{M: map[string]time.Time{"t": tm}, D: map[time.Duration]any{du: nil, 1: []int(nil)}, S: []any{map[string]int(nil), []string(nil), []byte(nil), bs, v0}, P: &du, K: map[time.Time]string{tm: string(bs)}, N: "1"}}
			c := &tc{Type: reflect.TypeOf(v), Val: reflect.ValueOf(&v).Elem(), Arg: &v, Opts: o}
			c.Res = ref.Encode(c.Arg, o.Ref)
			var pan string
			c.Got, c.Err, pan = marshal(c.Arg, o)
			n++
			switch {
			case pan != "":
				failT(t, "jettison panics: %s\n%s", pan, c)
			case (c.Err != nil) != (len(c.Res.Errs) > 0):
				failT(t, "error %v, expected %v\n%s", c.Err, c.Res.Errs, c)
			case c.Err == nil && !c.Res.Node.Match(c.Got):
				failT(t, "wrong output\ngot:  %s\nwant: %s\n%s", c.Got, c.Res.Node.String(), c)
			}
			if c.Err == nil {
				diff++
			}
		}
	}
	evalN(n)
	st.Counters["subsets of the boolean options that encode"] += diff
}

var v0 = [2]byte{'<', 0xff}

// TestC16: options change what they document, together.
func TestC16(t *testing.T) {
	allSubsets(t)
	if t.Failed() {
		return
	}
	run(t, func(t *rapid.T) {
		p := everything()
		var typ reflect.Type
		if gen.Chance(t, 75) {
			p.Fields = 10
			p.W[gen.Native], p.W[gen.Bytes], p.W[gen.Raw] = 25, 10, 8
			typ = p.StructType(t, 0)
		} else {
			typ = p.Type(t, 0)
		}
		pct := gen.Of(t, []int{6, 12, 25, 50})
		for i := 0; i < 4; i++ {
			o := gen.Options(t, pct, true)
			c := newCase(t, typ, p.Value(t, typ), o)
			if !c.judge(withErr) {
				continue
			}
			if c.differs() {
				count("options change the output")
				nontrivial(hash(typ, c.Got, c.Err, o), c.short)
			}
		}
		// every option alone on the same value
		v := p.Value(t, typ)
		for k := 0; k < 3; k++ {
			o := gen.None()
			switch k := gen.Pick(t, len(gen.Flags)+2); {
			case k < len(gen.Flags):
				o.Add(gen.Flags[k])
			case k == len(gen.Flags):
				o.AddLayout(gen.Of(t, gen.Layouts))
			default:
				o.AddDur(jettison.DurationFmt(gen.Pick(t, 6)))
			}
			c := newCase(t, typ, v, o)
			if c.judge(withErr) && c.differs() {
				count("single option changes the output")
				nontrivial(hash(typ, c.Got, c.Err, o), c.short)
			}
		}
	})
	sweep(t, sizesC16)
}

// names collects the JSON names of the structs reached by v.
func names(v reflect.Value, d int, out map[string]bool) {
	if d > 10 || len(out) > 300 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			names(v.Elem(), d+1, out)
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) || v.Type() == reflect.TypeOf(sync.Map{}) {
			return
		}
		for _, f := range ref.Fields(v.Type()) {
			out[f.Name] = true
		}
		for i := 0; i < v.NumField(); i++ {
			names(v.Field(i), d+1, out)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len() && i < 5; i++ {
			names(v.Index(i), d+1, out)
		}
	case reflect.Map:
		n := 0
		for it := v.MapRange(); it.Next() && n < 8; n++ {
			names(it.Value(), d+1, out)
		}
	}
}

func sortedKeys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	for i := range l { // no order dependence on the map
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	return l
}

// drawList draws a list of field names.
func drawList(t *rapid.T, all []string, keep int) []string {
	l := []string{}
	for _, n := range all {
		if gen.Chance(t, keep) {
			l = append(l, n)
			if gen.Chance(t, 5) {
				l = append(l, n)
			}
			continue
		}
		switch gen.Pick(t, 12) { // names that are nearly right
		case 0:
			l = append(l, n+" ")
		case 1:
			l = append(l, `"`+n+`"`)
		case 2:
			if len(n) > 0 {
				l = append(l, n[:len(n)-1])
			}
		case 3:
			l = append(l, string(bytes.ToUpper([]byte(n))), string(bytes.ToLower([]byte(n))))
		}
	}
	if gen.Chance(t, 15) {
		i := gen.Pick(t, 400)
		if gen.Bool(t) {
			i = gen.DictLen(t, 5000)
		}
		for ; i > 0; i-- {
			l = append(l, fmt.Sprint("pad", i))
		}
	}
	if gen.Chance(t, 25) {
		l = append(l, gen.NameList(t)...)
	}
	return l
}

// TestC17: allow and deny lists.
func TestC17(t *testing.T) {
	run(t, func(t *rapid.T) {
		p := gen.General()
		p.OmitNil = 5
		p.Special = 3
		p.Embed = 25
		p.Fields = 6
		p.NilPct = 10
		p.Fail = gen.Chance(t, 30)
		p.W[gen.Struct], p.W[gen.Zoo], p.W[gen.Iface], p.W[gen.Map], p.W[gen.SyncMap], p.W[gen.Unsup] = 20, 8, 8, 8, 2, 1
		p.Dyn = []reflect.Type{gen.Of(t, zoo.Types), gen.Of(t, zoo.Types)}
		typ := p.Type(t, 0)
		for i := 0; i < 4; i++ {
			v := p.Value(t, typ)
			set := map[string]bool{}
			names(v, 0, set)
			all := sortedKeys(set)
			o := gen.None()
			if gen.Chance(t, 20) {
				o = gen.Options(t, 20, false)
			}
			c := newCase(t, typ, v, o)
			mode := gen.Pick(t, 5)
			if mode != 1 {
				o.AddDeny(drawList(t, all, gen.Of(t, []int{10, 30, 0, 100})))
			}
			if mode != 0 {
				o.AddAllow(drawList(t, all, gen.Of(t, []int{30, 70, 100, 90, 10, 0})))
			}
			if gen.Bool(t) {
				l := len(o.Opts) - 1
				if l > 0 {
					o.Opts[l], o.Opts[0] = o.Opts[0], o.Opts[l]
				}
			}
			if c.judge(withErr) && len(all) > 1 && c.differs() {
				count(fmt.Sprintf("lists %v", []string{"deny", "allow", "both", "both", "both"}[mode]))
				nontrivial(hash(typ, c.Got, c.Err, o), c.short)
			}
		}
	})
	sweep(t, sizesC17)
}

// arena is memory with a slice in its middle.
type arena struct {
	mem      []byte
	off, n   int
	capacity int
	before   []byte
}

const guard = 64

func newArena(t *rapid.T, n, capacity int) *arena {
	a := &arena{mem: make([]byte, guard+capacity+guard*4), off: guard, n: n, capacity: capacity}
	x := byte(gen.Pick(t, 256))
	for i := range a.mem {
		a.mem[i] = x ^ byte(i*13)
		if a.mem[i] == ',' || a.mem[i] == 'n' {
			a.mem[i] = '?'
		}
	}
	if n > 0 && gen.Chance(t, 40) { // prefixes that look like JSON
		pre := bytes.Repeat([]byte(gen.Of(t, []string{",", "{", "[", "null", `{"a":`, `"`, ":", "}", "\\", "e-0", "1", "-", ".", "0", "\xe2\x80", "nul", "\xff", " "})), n)
		if gen.Bool(t) { // the end of the prefix is the end of the text
			copy(a.mem[a.off:a.off+n], pre[len(pre)-n:])
		} else {
			copy(a.mem[a.off:a.off+n], pre)
		}
	}
	a.before = append([]byte(nil), a.mem...)
	return a
}

func (a *arena) dst() []byte {
	if a.capacity == 0 && a.n == 0 && a.mem[0]%2 == 0 {
		return nil
	}
	return a.mem[a.off : a.off+a.n : a.off+a.capacity]
}

// check tells what was overwritten.
func (a *arena) check() string {
	for i, b := range a.mem {
		if b == a.before[i] {
			continue
		}
		switch {
		case i < a.off:
			return fmt.Sprintf("memory before dst is overwritten, at %d", i-a.off)
		case i < a.off+a.n:
			return fmt.Sprintf("byte %d of dst (length %d, capacity %d) changes from %q to %q", i-a.off, a.n, a.capacity, a.before[i], b)
		case i >= a.off+a.capacity:
			return fmt.Sprintf("memory beyond the capacity is overwritten, at %d (length %d, capacity %d)", i-a.off, a.n, a.capacity)
		}
	}
	return ""
}

func (a *arena) prefix() []byte { return a.before[a.off : a.off+a.n] }

// appendTo calls Append or AppendOpts.
func appendTo(dst []byte, arg any, o *gen.OptSet) ([]byte, error, string) {
	if len(o.Opts) == 0 {
		return call(func() ([]byte, error) { return jettison.Append(dst, arg) })
	}
	return call(func() ([]byte, error) { return jettison.AppendOpts(dst, arg, o.Opts...) })
}

// TestC18: Append extends dst.
func TestC18(t *testing.T) {
	run(t, func(t *rapid.T) {
		p := everything()
		if gen.Chance(t, 40) {
			p.Depth = 2
			p.Budget = 20
		}
		p.Special = gen.Of(t, []int{0, 4, 15})
		typ := p.Type(t, 0)
		for i := 0; i < 3; i++ {
			o := gen.None()
			if gen.Bool(t) {
				o = gen.Options(t, 15, true)
			}
			ct, v := typ, p.Value(t, typ)
			if gen.Chance(t, 2) {
				ct, v = padded(t, ct, v)
			}
			c := newCase(t, ct, v, o)
			if gen.Chance(t, 3) {
				c.Arg = nil
			}
			if !c.judge(withErr) {
				continue
			}
			var combos [][2]int
			n := len(c.Got)
			if c.Err != nil {
				n = gen.Pick(t, 200)
			}
			if n <= 24 && gen.Chance(t, 50) {
				l := gen.Pick(t, 4)
				for k := 0; k <= n+2; k++ {
					combos = append(combos, [2]int{l, l + k})
				}
			} else {
				for k := 0; k < 6; k++ {
					l := gen.Size(t, 100)
					if gen.Chance(t, 10) {
						l = 1000 + gen.Pick(t, 4000)
						if gen.Bool(t) {
							l = max(0, gen.DictLen(t, 10000))
						}
					}
					extra := 0
					switch gen.Pick(t, 4) {
					case 0:
						extra = n + gen.Pick(t, 5) - 2
					case 1:
						extra = gen.Pick(t, n+2)
					case 2:
						extra = gen.Size(t, 64)
					}
					combos = append(combos, [2]int{l, l + max(0, extra)})
				}
			}
			for _, lc := range combos {
				a := newArena(t, lc[0], lc[1])
				dst := a.dst()
				got, err, pan := appendTo(dst, c.Arg, o)
				eval()
				c.Extra = fmt.Sprintf("dst:     length %d, capacity %d, contents %.100q", lc[0], lc[1], a.prefix())
				if pan != "" {
					c.fail("Append panics: %s", pan)
				}
				if why := a.check(); why != "" {
					c.fail("%s", why)
				}
				if len(c.Res.Errs) > 0 {
					if err == nil {
						c.fail("Append returns no error, but Marshal does: %v", c.Err)
					}
					if why := ref.CheckErr(err, c.Res.Errs); why != "" {
						c.fail("wrong error of Append: %s", why)
					}
					count("errors")
				} else {
					if err != nil {
						c.fail("Append returns error %v, but Marshal does not", err)
					}
					if !bytes.HasPrefix(got, a.prefix()) {
						c.fail("the result of Append does not start with dst: %.300q", got)
					}
					if !c.Res.Node.Match(got[lc[0]:]) {
						c.fail("Append adds something else than the output of Marshal\n%s", diff(got[lc[0]:], c.Got))
					}
				}
				if lc[0] > 0 && n > 2 {
					nontrivial(hash(typ, c.Got, c.Err, lc[0], lc[1]), func() string { return c.short() + fmt.Sprintf(" | len %d cap %d", lc[0], lc[1]) })
				}
			}
			c.Extra = ""
			// a chain of appends to the same slice
			if c.Err == nil && gen.Chance(t, 30) {
				var dst []byte
				var ends []int
				for k := 0; k < 6; k++ {
					var err error
					var pan string
					dst, err, pan = appendTo(dst, c.Arg, o)
					eval()
					if err != nil || pan != "" {
						c.fail("append %d to the same slice fails: %v %s", k, err, pan)
					}
					ends = append(ends, len(dst))
				}
				from := 0
				for k, e := range ends {
					if e < from || !c.Res.Node.Match(dst[from:e]) {
						c.fail("part %d of a chain of appends is wrong\n%s", k, diff(dst[from:max(from, e)], c.Got))
					}
					from = e
				}
				count("chains")
			}
		}
	})
	sweep(t, sizesC18)
}

// optSeq draws a sequence of options; a later one overrides an earlier one of
// the same kind. bad tells why the effective settings are invalid.
func optSeq(t *rapid.T) (o *gen.OptSet, bad string) {
	o = gen.None()
	badCtx, badLayout, badDur := false, false, false
	invalid := gen.Chance(t, 40)
	add := func(name string, opt jettison.Option) {
		o.Names = append(o.Names, name)
		o.Opts = append(o.Opts, opt)
	}
	n := gen.Pick(t, 9)
	for i := 0; i < n; i++ {
		switch gen.Pick(t, 9) {
		case 0:
			add("nil", nil)
		case 1, 2:
			o.Add(gen.Of(t, gen.Flags))
		case 3:
			l := gen.Of(t, gen.Layouts)
			if invalid && gen.Chance(t, 40) {
				l = ""
			}
			o.AddLayout(l)
			badLayout = l == ""
		case 4:
			d := gen.Pick(t, 6)
			if invalid && gen.Chance(t, 40) {
				d = int(gen.Of(t, []int64{-1, 6, 7, 100, -100, 1 << 40, -1 << 62, 255, 256, 257, 1 << 8, 1 << 32}))
			}
			o.AddDur(jettison.DurationFmt(d))
			badDur = d < 0 || d > 5
		case 5:
			var ctx context.Context
			if !invalid || gen.Chance(t, 60) {
				ctx = gen.Context(gen.Pick(t, 1000))
			}
			o.Ref.Ctx = ctx
			add(fmt.Sprintf("WithContext(%v)", ctx), jettison.WithContext(ctx))
			badCtx = ctx == nil
		case 6:
			o.AddAllow(gen.NameList(t))
		case 7:
			o.AddDeny(gen.NameList(t))
		case 8: // the same option again
			if len(o.Opts) > 0 && o.Opts[len(o.Opts)-1] != nil {
				add("same", o.Opts[len(o.Opts)-1])
			}
		}
	}
	switch {
	case badCtx:
		bad = "nil context"
	case badLayout:
		bad = "empty time layout"
	case badDur:
		bad = "unknown duration format"
	}
	return o, bad
}

// sameErr compares the errors of two entry points.
func sameErr(a, b error) bool {
	return reflect.TypeOf(a) == reflect.TypeOf(b) && a.Error() == b.Error()
}

// TestC19: entry points agree, options are validated.
func TestC19(t *testing.T) {
	run(t, func(t *rapid.T) {
		p := everything()
		p.Depth = 3
		p.Budget = 80
		typ := p.Type(t, 0)
		for i := 0; i < 5; i++ {
			o, bad := optSeq(t)
			c := newCase(t, typ, p.Value(t, typ), o)
			if gen.Chance(t, 4) {
				c.Arg = nil
			}
			if c.Arg == nil && bad != "" { // not specified
				skip()
				continue
			}
			if bad != "" {
				c.invalid(bad)
				continue
			}
			if !c.judge(withErr) {
				continue
			}
			dst := []byte(gen.Of(t, []string{"", "x", "[1,", `{"a":`, "null"}))
			type ep struct {
				name string
				f    func() ([]byte, error)
				pre  int
			}
			eps := []ep{
				{"MarshalOpts", func() ([]byte, error) { return jettison.MarshalOpts(c.Arg, o.Opts...) }, 0},
				{"AppendOpts", func() ([]byte, error) { return jettison.AppendOpts(append([]byte(nil), dst...), c.Arg, o.Opts...) }, len(dst)},
				{"AppendOpts(nil)", func() ([]byte, error) { return jettison.AppendOpts(nil, c.Arg, o.Opts...) }, 0},
				{"MarshalOpts with nil options", func() ([]byte, error) {
					l := []jettison.Option{nil}
					for _, x := range o.Opts {
						l = append(l, x, nil)
					}
					return jettison.MarshalOpts(c.Arg, l...)
				}, 0},
			}
			if len(o.Opts) == 0 {
				eps = append(eps,
					ep{"Marshal", func() ([]byte, error) { return jettison.Marshal(c.Arg) }, 0},
					ep{"Append", func() ([]byte, error) { return jettison.Append(append([]byte(nil), dst...), c.Arg) }, len(dst)},
					ep{"MarshalOpts(nil)", func() ([]byte, error) { return jettison.MarshalOpts(c.Arg, nil, nil) }, 0})
			}
			for _, e := range eps {
				got, err, pan := call(e.f)
				eval()
				if pan != "" {
					c.fail("%s panics: %s", e.name, pan)
				}
				if c.Err != nil {
					if err == nil {
						c.fail("%s returns no error, another entry point returns %v", e.name, c.Err)
					}
					if why := ref.CheckErr(err, c.Res.Errs); why != "" {
						c.fail("%s: wrong error: %s", e.name, why)
					}
					if len(c.Res.Errs) == 1 && !sameErr(err, c.Err) {
						c.fail("%s returns error %T %v, another entry point %T %v", e.name, err, err, c.Err, c.Err)
					}
					continue
				}
				if err != nil {
					c.fail("%s returns error %v, another entry point does not", e.name, err)
				}
				if e.pre > 0 && !bytes.HasPrefix(got, dst) {
					c.fail("%s loses dst: %.200q", e.name, got)
				}
				if !c.Res.Node.Match(got[e.pre:]) {
					c.fail("%s gives another output\n%s", e.name, diff(got[e.pre:], c.Got))
				}
			}
			// the order of options of different kinds
			if len(o.Opts) > 1 {
				nontrivial(hash(typ, c.Got, c.Err, o), c.short)
			} else {
				count("at most one option")
			}
		}
		// an option list around values of every class
		if gen.Chance(t, 20) {
			orderFree(t)
		}
	})
	sweep(t, sizesC19)
}

// invalid expects an InvalidOptionError.
func (c *tc) invalid(bad string) {
	dst := []byte("dst")
	for k := 0; k < 3; k++ {
		got, err, pan := call(func() ([]byte, error) {
			switch k {
			case 0:
				return jettison.MarshalOpts(c.Arg, c.Opts.Opts...)
			case 1:
				return jettison.AppendOpts(dst, c.Arg, c.Opts.Opts...)
			}
			return jettison.AppendOpts(nil, c.Arg, c.Opts.Opts...)
		})
		eval()
		if pan != "" {
			c.fail("panics with invalid options: %s", pan)
		}
		var ioe *jettison.InvalidOptionError
		if !errors.As(err, &ioe) {
			c.fail("the effective setting (%s) is invalid, but the error is %T %v", bad, err, err)
		}
		if err.Error() == "" || ioe.Err == nil {
			c.fail("an InvalidOptionError without cause")
		}
		if len(got) != 0 && !(k == 1 && bytes.Equal(got, dst)) || string(dst) != "dst" {
			c.fail("invalid options, but output %.200q", got)
		}
	}
	count("invalid options")
	nontrivial(hash(c.Type, c.Opts, bad), func() string { return fmt.Sprintf("type %s | options %v | %s", typeString(c.Type), c.Opts, bad) })
}

type omni struct {
	T  time.Time
	D  time.Duration
	S  string
	B  []byte
	A  [3]byte
	M  map[string]int
	NM map[string]int
	NS []int
	N  json.Number
	R  json.RawMessage
	I  any
}

// orderFree: the order of options of different kinds is irrelevant.
func orderFree(t *rapid.T) {
	v := omni{T: gen.Instant(t, false), D: gen.Duration(t), S: gen.String(t, false), B: []byte(gen.String(t, false)), M: map[string]int{"k<": 1}, N: "1e3", R: json.RawMessage(gen.Doc(t, 1, false))}
	copy(v.A[:], gen.String(t, false))
	v.I = []any{v.T, v.D, map[string]int(nil), []int(nil)}
	o := gen.Options(t, 50, true)
	c := newCase(t, reflect.TypeOf(v), reflect.ValueOf(&v).Elem(), o)
	if !c.judge(withErr) {
		return
	}
	first := c.Got
	for k := 0; k < 3; k++ {
		for i := len(o.Opts) - 1; i > 0; i-- {
			j := gen.Pick(t, i+1)
			o.Opts[i], o.Opts[j] = o.Opts[j], o.Opts[i]
			o.Names[i], o.Names[j] = o.Names[j], o.Names[i]
		}
		got, err, pan := marshal(c.Arg, o)
		eval()
		if pan != "" || (err != nil) != (c.Err != nil) || err == nil && !bytes.Equal(got, first) {
			c.fail("another order of the options changes the result: %s %v %s\n%s", got, err, pan, diff(got, first))
		}
	}
	if len(o.Opts) > 1 {
		nontrivial(hash("order", first, o), c.short)
	}
}
