package checks

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/wI2L/jettison"
	"pgregory.net/rapid"

	"jverif/gen"
	"jverif/lib"
	"jverif/zoo"
)

// together runs the functions at the same time.
func together(fs []func()) {
	var ready, done sync.WaitGroup
	var start atomic.Bool
	ready.Add(len(fs))
	done.Add(len(fs))
	for _, f := range fs {
		go func() {
			defer done.Done()
			ready.Done()
			for i := 0; !start.Load(); i++ {
				if i%100 == 99 {
					runtime.Gosched()
				}
			}
			f()
		}()
	}
	ready.Wait()
	callStart.Store(time.Now().Unix())
	start.Store(true)
	done.Wait()
	callStart.Store(0)
}

// outcome of a concurrent call.
type outcome struct {
	got []byte
	err error
	pan string
	c   *tc
}

func (r *outcome) check(what string) {
	c := *r.c
	c.Got, c.Err = r.got, r.err
	c.Extra = what
	if r.pan != "" {
		c.fail("jettison used concurrently: %s", r.pan)
	}
	c.compare(withErr, nil)
}

// prepare draws a case for concurrent use.
func prepare(t *rapid.T, p *gen.Profile, typ reflect.Type, o *gen.OptSet) *tc {
	c := newCase(t, typ, p.Value(t, typ), o)
	if c.Arg == nil {
		return nil
	}
	var ok bool
	if c.Res, _, ok = expect(c.Arg, o); !ok || c.Res.Ambig {
		return nil
	}
	return c
}

// runAll runs the lists of cases, one goroutine each, and checks the outcomes.
func runAll(t *rapid.T, lists [][]*tc, what string) {
	outs := make([][]outcome, len(lists))
	var fs []func()
	// Destinations: the goroutines share the bytes of one, and have neighbouring
	// parts of an arena.
	const slot = 48
	shared := []byte("dst*")[:3:3]
	arena := bytes.Repeat([]byte("dst"), len(lists)*slot/3+1)
	for i, l := range lists {
		outs[i] = make([]outcome, len(l))
		fs = append(fs, func() {
			for j, c := range l {
				r := outcome{c: c}
				if j%3 != 0 {
					dst := shared
					if j%3 == 1 {
						dst = arena[i*slot : i*slot+3 : (i+1)*slot]
					}
					r.got, r.err, r.pan = append2(dst, c.Arg, c.Opts)
					r.got = bytes.Clone(r.got)
					if len(r.got) >= 3 && string(r.got[:3]) != "dst" {
						r.pan = fmt.Sprintf("the bytes of the destination are %q, not \"dst\"", r.got[:3])
					}
					if r.err == nil && len(r.got) >= 3 {
						r.got = r.got[3:]
					} else {
						r.got = nil
					}
				} else {
					r.got, r.err, r.pan = marshal2(c.Arg, c.Opts)
				}
				outs[i][j] = r
			}
		})
	}
	if trace {
		s := what + "\n"
		for _, l := range lists {
			s += "goroutine:\n"
			for _, c := range l {
				s += c.String() + "\n"
			}
		}
		os.WriteFile(filepath.Join(outDir, "trace.txt"), []byte(s), 0o644)
	}
	together(fs)
	if string(shared) != "dst" {
		fail(t, "%s: the shared destination is changed to %q", what, shared)
	}
	for i := range outs {
		for j := range outs[i] {
			eval()
			outs[i][j].check(fmt.Sprintf("%s: call %d of goroutine %d of %d", what, j, i, len(lists)))
		}
	}
}

func append2(dst []byte, arg any, o *gen.OptSet) (b []byte, err error, pan string) {
	defer func() {
		if r := recover(); r != nil {
			pan = fmt.Sprintf("panic: %v\n%s", r, stack())
		}
	}()
	if len(o.Opts) == 0 {
		b, err = jettison.Append(dst, arg)
	} else {
		b, err = jettison.AppendOpts(dst, arg, o.Opts...)
	}
	return
}

func shuffle[T any](t *rapid.T, l []T) {
	for i := len(l) - 1; i > 0; i-- {
		j := gen.Pick(t, i+1)
		l[i], l[j] = l[j], l[i]
	}
}

// TestC21: concurrent use. The first cases of a process see the recursive and
// static types for the first time; all cases have fresh struct types.
func TestC21(t *testing.T) {
	procs := runtime.GOMAXPROCS(0)
	rest := append([]reflect.Type(nil), zoo.Types...)
	for _, l := range lib.Leaves {
		if l.Set != "" {
			rest = append(rest, l.Type)
		}
	}
	rest = append(rest, recTypes()...)
	rs := rng(seed | 1)
	for i := len(rest) - 1; i > 0; i-- {
		j := rs.n(i + 1)
		rest[i], rest[j] = rest[j], rest[i]
	}
	run(t, func(t *rapid.T) {
		fresh()
		defer func() { gen.Uniq = ""; lib.Hook = nil }()
		runtime.GOMAXPROCS(gen.Of(t, []int{1, 2, 4, procs, procs, 2 * procs}))
		defer runtime.GOMAXPROCS(procs)
		if gen.Chance(t, 10) {
			deepTogether(t)
			return
		}
		if gen.Chance(t, 15) {
			syncChanging(t, true)
			return
		}
		p := everything()
		p.Depth = 2
		p.Budget = 30
		p.MapMax, p.SliceMax, p.Fields = 5, 5, 6
		p.NilPct = 10
		// the types: never seen before
		var types []reflect.Type
		for i := gen.Pick(t, 4); i > 0 && len(rest) > 0; i-- {
			types = append(types, rest[len(rest)-1])
			rest = rest[:len(rest)-1]
		}
		for i := 1 + gen.Pick(t, 3); i > 0; i-- {
			types = append(types, p.StructType(t, 0))
		}
		for i := gen.Pick(t, 4); i > 0; i-- {
			types = append(types, variants(t, gen.Of(t, types)))
		}
		p.Dyn = types
		opts := []*gen.OptSet{gen.None(), gen.Options(t, 15, true)}
		var pool []*tc
		for i := 2 + gen.Pick(t, 8); i > 0; i-- {
			if c := prepare(t, p, gen.Of(t, types), gen.Of(t, opts)); c != nil {
				pool = append(pool, c)
			}
		}
		if len(pool) == 0 {
			skip()
			return
		}
		n := 2 + gen.Pick(t, 9)
		if gen.Chance(t, 4) {
			n = gen.Of(t, []int{16, 17, 33, 64, 65, 100, 130, 260})
			count("many goroutines")
		}
		lists := make([][]*tc, n)
		same := gen.Chance(t, 50) // everyone begins with the same type
		for i := range lists {
			l := append([]*tc(nil), pool...)
			if !same || i%2 == 1 && gen.Bool(t) {
				shuffle(t, l)
			}
			lists[i] = l[:1+gen.Pick(t, len(l))]
		}
		if gen.Chance(t, 40) {
			lib.Hook = runtime.Gosched
		}
		runAll(t, lists, "concurrent calls")
		nontrivial(hash(pool[0].Type, len(pool), n, pool[0].Res.Node.String()), func() string {
			s := fmt.Sprintf("%d goroutines over %d values:", n, len(pool))
			for _, c := range pool {
				s += " " + c.short()
			}
			return s
		})
		if same {
			count("same first type")
		}
	})
}

// deepTogether encodes deep and cyclic values, shared by the goroutines or not.
func deepTogether(t *rapid.T) {
	type job struct {
		v    any
		what string
		want []byte // nil for a cycle
		got  []byte
		err  error
		pan  string
	}
	var pool []job
	for i := 1 + gen.Pick(t, 3); i > 0; i-- {
		var j job
		if gen.Chance(t, 70) {
			j.v, j.what = deepValue(t)
			var err error
			if j.want, err = json.Marshal(j.v); err != nil {
				harness("encoding/json rejects %s: %v", j.what, err)
			}
		} else {
			j.v, j.what = cyclicValue(t)
		}
		pool = append(pool, j)
	}
	n := 2 + gen.Pick(t, 7)
	lists := make([][]job, n)
	var fs []func()
	all := ""
	for i := range lists {
		for k := 1 + gen.Pick(t, 4); k > 0; k-- {
			lists[i] = append(lists[i], gen.Of(t, pool))
			all += lists[i][len(lists[i])-1].what + "\n"
		}
		all += "\n"
		fs = append(fs, func() {
			for k := range lists[i] {
				j := &lists[i][k]
				if k%2 == 0 {
					j.got, j.err, j.pan = marshal2(j.v, gen.None())
				} else {
					j.got, j.err, j.pan = append2(nil, j.v, gen.None())
				}
			}
		})
	}
	if trace {
		os.WriteFile(filepath.Join(outDir, "trace.txt"), []byte(all), 0o644)
	}
	together(fs)
	for i := range lists {
		for _, j := range lists[i] {
			eval()
			var uve *jettison.UnsupportedValueError
			switch {
			case j.pan != "":
				fail(t, "jettison panics with deep values used concurrently: %s\n%s", j.what, j.pan)
			case j.want == nil && !errors.As(j.err, &uve):
				fail(t, "a cyclic value encoded concurrently gives the error %v: %s", j.err, j.what)
			case j.want != nil && j.err != nil:
				fail(t, "error with deep values used concurrently: %s: %v", j.what, j.err)
			case j.want != nil && !bytes.Equal(j.got, j.want):
				fail(t, "wrong output for deep values used concurrently: %s\n%s", j.what, diff(j.got, j.want))
			}
		}
	}
	count("deep values together")
	nontrivial(hash(all), func() string { return all })
}
