package checks

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"slices"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/wI2L/jettison"
	"pgregory.net/rapid"

	"jverif/gen"
	"jverif/lib"
	"jverif/ref"
)

// Environment of a shard.
var (
	outDir   = env("VERIF_OUT", "")
	shard    = envInt("VERIF_SHARD", 0)
	nShards  = envInt("VERIF_SHARDS", 1)
	seed     = uint64(envInt("VERIF_SHARDSEED", 1))
	nCases   = envInt("VERIF_CASES", 300)
	thorough = env("VERIF_TIER", "quick") == "thorough"
	trace    = env("VERIF_TRACE", "") != ""
	failFile = env("VERIF_FAILFILE", "")
)

func env(k, d string) string {
	if s := os.Getenv(k); s != "" {
		return s
	}
	return d
}

func envInt(k string, d int) int {
	if n, err := strconv.ParseInt(os.Getenv(k), 10, 64); err == nil {
		return int(n)
	}
	return d
}

// stats of the shard.
type statistics struct {
	Evals    int64
	Nontriv  int64
	Skipped  int64
	Counters map[string]int64
	Samples  []string
	hashes   map[uint64]struct{}
	frozen   bool
	lastSamp int64
}

var st = statistics{Counters: map[string]int64{}, hashes: map[uint64]struct{}{}}

func hash(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		switch x := p.(type) {
		case []byte:
			h.Write(x)
		case string:
			h.Write([]byte(x))
		default:
			fmt.Fprint(h, x)
		}
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// eval counts an evaluation.
func eval() {
	if !st.frozen {
		st.Evals++
	}
}

// nontrivial counts a non-trivial case.
func nontrivial(h uint64, sample func() string) {
	if st.frozen {
		return
	}
	if _, ok := st.hashes[h]; ok {
		return
	}
	st.hashes[h] = struct{}{}
	st.Nontriv++
	// samples spread over the run
	if n := st.Nontriv; len(st.Samples) < 3 && n >= st.lastSamp {
		st.lastSamp = n*7 + 5
		s := sample()
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		st.Samples = append(st.Samples, s)
	}
}

// evalN counts enumerated cases that are distinct by construction.
func evalN(n int64) {
	if !st.frozen {
		st.Evals += n
		st.Counters["enumerated"] += n
	}
}

func count(k string) {
	if !st.frozen {
		st.Counters[k]++
	}
}

func skip() {
	if !st.frozen {
		st.Skipped++
	}
}

// callStart is the start of the running call of jettison, in Unix seconds.
var callStart atomic.Int64

func TestMain(m *testing.M) {
	flag.Parse()
	if outDir == "" {
		d, err := os.MkdirTemp("", "jverif")
		if err != nil {
			panic(err)
		}
		outDir = d
		defer os.RemoveAll(d)
	}
	debug.SetPanicOnFault(true)
	debug.SetMaxStack(256 << 20)
	go watchdog()
	code := m.Run()
	writeStats()
	os.Exit(code)
}

func writeStats() {
	if ref.Inconclusive > 0 {
		st.Counters["matches given up"] = int64(ref.Inconclusive)
	}
	b, err := json.Marshal(&st)
	if err != nil {
		panic(err)
	}
	os.WriteFile(filepath.Join(outDir, "stats.json"), b, 0o644)
	var buf bytes.Buffer
	for h := range st.hashes {
		for i := 0; i < 8; i++ {
			buf.WriteByte(byte(h >> (8 * i)))
		}
	}
	os.WriteFile(filepath.Join(outDir, "hashes.bin"), buf.Bytes(), 0o644)
}

// watchdog ends the process if a call does not return or eats the memory.
func watchdog() {
	limit := int64(envInt("VERIF_HANG", 100))
	heap := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(150 * time.Millisecond)
		s := callStart.Load()
		if s == 0 {
			continue
		}
		why := ""
		if time.Now().Unix()-s > limit {
			why = fmt.Sprintf("a call has not returned after %d s", limit)
		}
		if metrics.Read(heap); heap[0].Value.Uint64() > 2500<<20 {
			why = "a call allocates more than 2.5 GB"
		}
		if why == "" {
			continue
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		os.WriteFile(filepath.Join(outDir, "hang.txt"), append([]byte(why+"\n\n"), buf...), 0o644)
		os.Exit(7)
	}
}

// tb is what can fail: a test, or a case of rapid.
type tb interface{ Fatalf(string, ...any) }

// fail reports a violation. The last report is the minimal one.
func fail(t tb, format string, args ...any) {
	st.frozen = true
	msg := fmt.Sprintf(format, args...)
	os.WriteFile(filepath.Join(outDir, "violation.txt"), []byte(msg), 0o644)
	t.Fatalf("VIOLATION: %s", msg)
}

// failT reports a violation of an enumerated case.
func failT(t tb, format string, args ...any) {
	st.frozen = true
	msg := fmt.Sprintf(format, args...)
	os.WriteFile(filepath.Join(outDir, "violation.txt"), []byte(msg), 0o644)
	t.Fatalf("VIOLATION: %s", msg)
}

// harness reports an error of the harness itself.
func harness(format string, args ...any) {
	st.frozen = true
	msg := fmt.Sprintf(format, args...)
	os.WriteFile(filepath.Join(outDir, "harness.txt"), []byte(msg), 0o644)
	panic("HARNESS-ERROR " + msg)
}

// run checks prop with nCases cases, in batches.
func run(t *testing.T, prop func(*rapid.T)) { runN(t, nCases, prop) }

func runN(t *testing.T, n int, f func(*rapid.T)) {
	prop := func(t *rapid.T) {
		defer func() {
			if r := recover(); r != nil {
				if s := fmt.Sprintf("%T", r); !strings.HasPrefix(s, "rapid.") && !strings.HasPrefix(s, "*rapid.") && !strings.HasPrefix(fmt.Sprint(r), "HARNESS-ERROR") {
					st.frozen = true
					os.WriteFile(filepath.Join(outDir, "harness.txt"), []byte(fmt.Sprintf("%v\n%s", r, debug.Stack())), 0o644)
				}
				panic(r)
			}
		}()
		f(t)
	}
	flag.Set("rapid.shrinktime", env("VERIF_SHRINK", "20s"))
	if failFile != "" {
		flag.Set("rapid.failfile", failFile)
		flag.Set("rapid.checks", "1")
		rapid.Check(t, prop)
		return
	}
	const batch = 100
	for i := 0; n > 0; i++ {
		b := min(n, batch)
		n -= b
		flag.Set("rapid.checks", strconv.Itoa(b))
		flag.Set("rapid.seed", strconv.FormatUint((seed*1_000_003+uint64(i)*7+1)&0x7fffffffffffffff, 10))
		rapid.Check(t, prop)
		if t.Failed() {
			return
		}
	}
}

// sweep runs a deterministic part of a test, after the generated part.
func sweep(t *testing.T, f func(*testing.T)) {
	if t.Failed() || failFile != "" {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			st.frozen = true
			os.WriteFile(filepath.Join(outDir, "harness.txt"), []byte(fmt.Sprintf("%v\n%s", r, debug.Stack())), 0o644)
			panic(r)
		}
	}()
	f(t)
}

// call runs f, which calls jettison, and recovers its panics.
func call(f func() ([]byte, error)) (b []byte, err error, pan string) {
	callStart.Store(time.Now().Unix())
	defer callStart.Store(0)
	defer func() {
		if r := recover(); r != nil {
			b, err = nil, nil
			pan = fmt.Sprintf("panic: %v\n%s", r, stack())
		}
	}()
	b, err = f()
	return
}

func stack() string {
	s := string(debug.Stack())
	if i := strings.Index(s, "panic("); i >= 0 {
		s = s[i:]
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// marshal calls jettison.
func marshal(arg any, o *gen.OptSet) ([]byte, error, string) {
	if o == nil || len(o.Opts) == 0 {
		return call(func() ([]byte, error) { return jettison.Marshal(arg) })
	}
	return call(func() ([]byte, error) { return jettison.MarshalOpts(arg, o.Opts...) })
}

// record returns the calls of marshaling methods made by f.
func record(f func()) []lib.Call {
	var l []lib.Call
	lib.Rec = &l
	defer func() { lib.Rec = nil }()
	f()
	return l
}

// expect returns the reference result; ok is false if the case is outside of
// the domain (a marshaling method panics, or the value is too big).
func expect(arg any, o *gen.OptSet) (r ref.Result, calls []lib.Call, ok bool) {
	defer func() {
		if p := recover(); p != nil {
			if s, isStr := p.(string); isStr && strings.HasPrefix(s, "HARNESS-ERROR") {
				panic(p)
			}
			if e, isErr := p.(error); isErr && errors.Is(e, ref.ErrTooBig) {
				count("too big")
			} else {
				count("method panics")
				if trace {
					fmt.Fprintf(os.Stderr, "ref panic %v\n%s\n", p, debug.Stack())
				}
			}
			skip()
			ok = false
		}
	}()
	calls = record(func() { r = ref.Encode(arg, o.Ref) })
	return r, calls, true
}

// stdMarshal calls encoding/json.
func stdMarshal(arg any) (b []byte, err error, pan bool) {
	defer func() {
		if r := recover(); r != nil {
			pan = true
		}
	}()
	b, err = json.Marshal(arg)
	return
}

// normBF spells backspace and form feed escapes in the long form.
func normBF(b []byte) []byte {
	if !bytes.Contains(b, []byte(`\b`)) && !bytes.Contains(b, []byte(`\f`)) {
		return b
	}
	out := make([]byte, 0, len(b)+16)
	for i := 0; i < len(b); i++ {
		if b[i] != '\\' || i+1 == len(b) {
			out = append(out, b[i])
			continue
		}
		i++
		switch b[i] {
		case 'b':
			out = append(out, `\u0008`...)
		case 'f':
			out = append(out, `\u000c`...)
		case '\\': // maybe an escape inside of a quoted string
			out = append(out, `\\`...)
			if i+1 < len(b) && b[i+1] == 'b' {
				out = append(out, `u0008`...)
				i++
			} else if i+1 < len(b) && b[i+1] == 'f' {
				out = append(out, `u000c`...)
				i++
			}
		default:
			out = append(out, '\\', b[i])
		}
	}
	return out
}

// diff shows the first difference of two outputs.
func diff(got, want []byte) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	cut := func(b []byte) string {
		lo, hi := max(0, i-200), min(len(b), i+400)
		s := string(b[lo:hi])
		if lo > 0 {
			s = "..." + s
		}
		if hi < len(b) {
			s += "..."
		}
		return s
	}
	return fmt.Sprintf("  first difference at byte %d\n  got:  %s\n  want: %s", i, cut(got), cut(want))
}

func typeString(t reflect.Type) string {
	if t == nil {
		return "nil"
	}
	s := t.String()
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	return s
}

// tc is a case: a value and options.
type tc struct {
	T     tb
	Type  reflect.Type
	Val   reflect.Value // addressable
	Arg   any
	Opts  *gen.OptSet
	Res   ref.Result
	Calls []lib.Call // made by the reference
	Got   []byte
	Err   error
	Extra string
}

func (c *tc) String() string {
	if c.Arg == nil {
		return fmt.Sprintf("value:   nil\noptions: %v\n%s", c.Opts, c.Extra)
	}
	s := fmt.Sprintf("type:    %s\nvalue:   %s\noptions: %v", typeString(reflect.TypeOf(c.Arg)), gen.Dump(reflect.ValueOf(c.Arg), false), c.Opts)
	if c.Extra != "" {
		s += "\n" + c.Extra
	}
	return s
}

func (c *tc) fail(format string, args ...any) {
	fail(c.T, "%s\n%s", fmt.Sprintf(format, args...), c)
}

func (c *tc) short() string {
	s := typeString(c.Type)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	v := gen.Dump(c.Val, false)
	if len(v) > 300 {
		v = v[:300] + "..."
	}
	var o string
	if c.Err != nil {
		o = "error: " + c.Err.Error()
	} else {
		o = string(c.Got)
	}
	if len(o) > 400 {
		o = o[:400] + "..."
	}
	return fmt.Sprintf("type %s | value %s | options %v | output %s", s, v, c.Opts, o)
}

// newCase draws the argument: the value or a pointer to it.
func newCase(t *rapid.T, typ reflect.Type, v reflect.Value, o *gen.OptSet) *tc {
	c := &tc{T: t, Type: typ, Val: v, Opts: o}
	if gen.Bool(t) {
		c.Arg = v.Addr().Interface()
	} else {
		c.Arg = v.Interface()
	}
	if trace {
		os.WriteFile(filepath.Join(outDir, "trace.txt"), []byte(c.String()), 0o644)
	}
	return c
}

// flags of judge.
const (
	withCalls = 1 << iota // compare the recorded method calls
	withErr               // check the error types and messages
	withStd               // compare with encoding/json (no options)
)

// judge compares jettison with the reference. It returns false if the case is
// outside of the domain.
func (c *tc) judge(mode int) bool {
	if c.Arg == nil {
		c.Res = ref.Result{Node: ref.Node{Lit: []byte("null")}}
	} else {
		var ok bool
		if c.Res, c.Calls, ok = expect(c.Arg, c.Opts); !ok {
			return false
		}
	}
	if c.Res.Ambig {
		skip()
		count("unspecified")
		return false
	}
	if mode&withStd != 0 && !c.Res.Ext {
		if !c.judgeStd() {
			return false
		}
	}
	var pan string
	calls := record(func() { c.Got, c.Err, pan = marshal(c.Arg, c.Opts) })
	eval()
	if pan != "" {
		c.fail("jettison panics: %s", pan)
	}
	c.compare(mode, calls)
	if rt, ok := c.T.(*rapid.T); ok && gen.Chance(rt, 2) {
		c.deep(rt, mode)
	}
	return true
}

// deep encodes the value again below about 1000 levels of other values, where
// the encoder begins to detect cycles.
func (c *tc) deep(t *rapid.T, mode int) {
	n := gen.Of(t, []int{20, 980, 990, 999, 1000, 1001, 1002, 1010, 1100, 2500}) + gen.Pick(t, 8)
	kinds := make([]int, 1+gen.Pick(t, 3))
	for i := range kinds {
		kinds[i] = gen.Pick(t, 6)
	}
	v := c.Arg
	var pre, post []byte // pre is reversed
	for i := 0; i < n; i++ {
		open, end := "", ""
		switch kinds[i%len(kinds)] {
		case 0:
			v, open, end = []any{v}, "[", "]"
		case 1:
			v, open, end = map[string]any{"k": v}, `:"k"{`, "}"
		case 2:
			x := v
			v = &x
		case 3:
			v, open, end = [1]any{v}, "[", "]"
		case 4:
			v, open, end = map[int][]any{7: {1, v}}, `,1[:"7"{`, "]}"
		default:
			v, open, end = []map[string]any{{"k": v}}, `:"k"{[`, "}]"
		}
		pre, post = append(pre, open...), append(post, end...)
	}
	slices.Reverse(pre)
	d := *c
	d.Arg = v
	var pan string
	calls := record(func() { d.Got, d.Err, pan = marshal(d.Arg, d.Opts) })
	eval()
	count("values below many levels")
	d.Arg = c.Arg
	d.Extra = fmt.Sprintf("%s\nbelow %d levels of the kinds %v", c.Extra, n, kinds)
	if pan != "" {
		d.fail("jettison panics: %s", pan)
	}
	if d.Err == nil && len(d.Res.Errs) == 0 {
		if !bytes.HasPrefix(d.Got, pre) || !bytes.HasSuffix(d.Got, post) || len(d.Got) < len(pre)+len(post) {
			d.fail("wrong output of the levels: %.300s ... %.300s", d.Got, d.Got[max(0, len(d.Got)-300):])
		}
		d.Got = d.Got[len(pre) : len(d.Got)-len(post)]
	}
	d.compare(mode, calls)
}

// compare compares the outcome with the reference.
func (c *tc) compare(mode int, calls []lib.Call) {
	if len(c.Res.Errs) > 0 {
		count("errors")
		if c.Err == nil {
			c.fail("no error, but one of %v was expected\n  got: %.500s", c.Res.Errs, c.Got)
		}
		if c.Got != nil {
			c.fail("output %.300q returned with error %v", c.Got, c.Err)
		}
		if mode&withErr != 0 {
			if why := ref.CheckErr(c.Err, c.Res.Errs); why != "" {
				c.fail("wrong error: %s", why)
			}
		}
		return
	}
	if c.Err != nil {
		c.fail("unexpected error %T: %v", c.Err, c.Err)
	}
	c.match(c.Got)
	if mode&withCalls != 0 {
		if why := sameCalls(calls, c.Calls); why != "" {
			c.fail("wrong method calls: %s", why)
		}
	}
}

func (c *tc) match(got []byte) {
	if !c.Res.Node.Match(got) {
		want, det := c.Res.Node.Flat()
		if !det {
			want = []byte(c.Res.Node.String())
		}
		c.fail("wrong output\n%s", diff(got, want))
	}
}

// judgeStd checks the reference itself against encoding/json.
func (c *tc) judgeStd() bool {
	b, err, pan := stdMarshal(c.Arg)
	if pan {
		skip()
		count("encoding/json panics")
		return false
	}
	if (err != nil) != (len(c.Res.Errs) > 0) {
		harness("reference and encoding/json disagree on the error: std %v, ref %v %s\n%s", err, c.Res.Errs, c.Res.Node, c)
	}
	if err != nil {
		if len(c.Res.Errs) == 1 && !c.Res.Errs[0].Key {
			if e := c.Res.Errs[0]; e.Msg != "" && e.Kind != ref.Number && e.Msg != err.Error() {
				harness("reference and encoding/json disagree on the message: std %q, ref %q\n%s", err, e.Msg, c)
			}
		}
		return true
	}
	if c.Res.Dup {
		return true
	}
	want, det := c.Res.Node.Flat()
	if !det {
		return true
	}
	if !bytes.Equal(normBF(want), normBF(b)) {
		harness("reference and encoding/json disagree\n%s\n%s", diff(normBF(want), normBF(b)), c)
	}
	count("equal to encoding/json")
	return true
}

// sameCalls compares call records as multisets.
func sameCalls(got, want []lib.Call) string {
	m := map[lib.Call]int{}
	for _, c := range want {
		m[c]++
	}
	for _, c := range got {
		m[c]--
	}
	for c, n := range m {
		if n > 0 {
			return fmt.Sprintf("%v is missing %d times", c, n)
		}
		if n < 0 {
			return fmt.Sprintf("%v is made %d times too many", c, -n)
		}
	}
	return ""
}

// depthOf counts the composite levels of a type.
func depthOf(t reflect.Type) int {
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
		return 1 + depthOf2(t.Elem(), 6)
	case reflect.Struct:
		return depthOf2(t, 6)
	}
	return 0
}

func depthOf2(t reflect.Type, max int) int {
	if max == 0 {
		return 0
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
		return 1 + depthOf2(t.Elem(), max-1)
	case reflect.Struct:
		d := 0
		for i := 0; i < t.NumField(); i++ {
			d = maxInt(d, depthOf2(t.Field(i).Type, max-1))
		}
		return d + 1
	}
	return 0
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}
