package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/wI2L/jettison"
	"pgregory.net/rapid"

	"jverif/gen"
)

// A sync.Map that changes while it is encoded. The keys are either stable,
// stored once before the call, or volatile. Whatever the changes are, Range
// visits a stable key exactly once and a volatile key at most once, with a
// value it had at some point.

type chMap struct {
	m      sync.Map
	keys   []any    // the volatile ones
	names  []string // their names in JSON
	steps  [][]chOp // of the methods
	at     atomic.Int64
	script string
}

type chOp struct{ kind, key, ver int }

var chKinds = []string{"Store", "Delete", "LoadAndDelete", "LoadOrStore", "Swap", "Range", "CompareAndDelete"}

func (c *chMap) do(o chOp) {
	k := c.keys[o.key]
	v := c.value(c.names[o.key], o.ver)
	switch o.kind {
	case 0:
		c.m.Store(k, v)
	case 1:
		c.m.Delete(k)
	case 2:
		c.m.LoadAndDelete(k)
	case 3:
		c.m.LoadOrStore(k, v)
	case 4:
		c.m.Swap(k, v)
	case 5:
		n := 0
		c.m.Range(func(_, _ any) bool { n++; return n < o.ver })
	case 6:
		if v, ok := c.m.Load(k); ok {
			c.m.CompareAndDelete(k, v)
		}
	}
}

// value returns a value of the key, which encodes to "name#ver".
func (c *chMap) value(name string, ver int) any {
	s := name + "#" + strconv.Itoa(ver)
	switch ver % 6 {
	case 0:
		return s
	case 1:
		return &s
	case 2:
		return chJSON{s, c}
	case 3:
		return &chText{s, c}
	case 4:
		return chAppend{s, c}
	default:
		return chStr(s)
	}
}

func (c *chMap) step() {
	if c == nil || len(c.steps) == 0 {
		return
	}
	if i := int(c.at.Add(1)) - 1; i < len(c.steps) {
		for _, o := range c.steps[i] {
			c.do(o)
		}
	}
}

type (
	chJSON struct {
		s string
		c *chMap
	}
	chText   chJSON
	chStr    string
	chAppend chJSON
)

func (x chJSON) MarshalJSON() ([]byte, error)  { x.c.step(); return []byte(strconv.Quote(x.s)), nil }
func (x *chText) MarshalText() ([]byte, error) { x.c.step(); return []byte(x.s), nil }
func (x chAppend) AppendJSON(dst []byte) ([]byte, error) {
	x.c.step()
	return append(dst, strconv.Quote(x.s)...), nil
}

// chKey returns a key and its name.
func chKey(t *rapid.T, pre string, i int) (any, string) {
	n := pre + strconv.Itoa(i)
	if pre == "v" {
		i += 1000
	}
	switch gen.Pick(t, 4) {
	case 0:
		return i, strconv.Itoa(i)
	case 1:
		return uint16(i), strconv.Itoa(i)
	case 2:
		return chTextKey{n}, "k" + n
	}
	return n, n
}

type chTextKey struct{ s string }

func (k chTextKey) MarshalText() ([]byte, error) { return []byte("k" + k.s), nil }

// syncChanging encodes a sync.Map which its methods change, and goroutines if
// threads is true.
func syncChanging(t *rapid.T, threads bool) {
	c := new(chMap)
	stable := map[string]bool{}
	var script strings.Builder
	for i, n := 0, gen.Size(t, 40); i < n; i++ {
		k, name := chKey(t, "s", i)
		ver := gen.Pick(t, 6)
		c.m.Store(k, c.value(name, ver))
		stable[name+"#"+strconv.Itoa(ver)] = true
		fmt.Fprintf(&script, "Store(%#v, %T #%d)\n", k, c.value(name, ver), ver)
		if gen.Chance(t, 5) {
			c.m.Range(func(_, _ any) bool { return true })
		}
	}
	vol := map[string]bool{}
	for i, n := 0, 1+gen.Pick(t, 12); i < n; i++ {
		k, name := chKey(t, "v", i)
		c.keys = append(c.keys, k)
		c.names = append(c.names, name)
		vol[name] = true
		if gen.Bool(t) {
			c.do(chOp{0, i, gen.Pick(t, 6)})
			fmt.Fprintf(&script, "Store(%#v, ...)\n", k)
		}
	}
	ops := func(n int) (l []chOp) {
		for ; n > 0; n-- {
			o := chOp{gen.Weighted(t, 4, 3, 1, 1, 1, 1, 1), gen.Pick(t, len(c.keys)), gen.Pick(t, 24)}
			fmt.Fprintf(&script, " %s(%#v, #%d)", chKinds[o.kind], c.keys[o.key], o.ver)
			l = append(l, o)
		}
		return l
	}
	for i := gen.Pick(t, 20); i > 0; i-- {
		fmt.Fprintf(&script, "in call %d of a method:", len(c.steps))
		c.steps = append(c.steps, ops(gen.Pick(t, 4)))
		script.WriteString("\n")
	}
	sorted := gen.Chance(t, 60)
	var opts []jettison.Option
	if !sorted {
		opts = append(opts, jettison.UnsortedMap())
	}
	var arg any
	open, end := "", ""
	switch gen.Pick(t, 4) {
	case 0:
		arg = &c.m
	case 1:
		arg, open, end = []any{1, &c.m, "end"}, `[1,`, `,"end"]`
	case 2:
		arg, open, end = struct {
			A int
			M *sync.Map `json:",omitempty"`
			Z string
		}{1, &c.m, "z"}, `{"A":1,"M":`, `,"Z":"z"}`
	case 3:
		arg, open, end = map[string]any{"m": &c.m}, `{"m":`, `}`
	}
	type res struct {
		b   []byte
		err error
		pan string
	}
	enc, chg := 1, 0
	if threads {
		enc, chg = 1+gen.Pick(t, 4), 1+gen.Pick(t, 3)
	}
	outs := make([]res, enc)
	var fs []func()
	for i := range outs {
		fs = append(fs, func() {
			r := &outs[i]
			r.b, r.err, r.pan = call(func() ([]byte, error) { return jettison.MarshalOpts(arg, opts...) })
		})
	}
	for ; chg > 0; chg-- {
		script.WriteString("goroutine:")
		l := ops(1 + gen.Pick(t, 30))
		script.WriteString("\n")
		fs = append(fs, func() {
			for i := 0; i < 4; i++ {
				for _, o := range l {
					c.do(o)
				}
			}
		})
	}
	c.script = script.String()
	if trace {
		os.WriteFile(filepath.Join(outDir, "trace.txt"), []byte("a sync.Map that changes:\n"+c.script), 0o644)
	}
	if threads {
		together(fs)
	} else {
		fs[0]()
	}
	for _, r := range outs {
		eval()
		if r.pan != "" {
			fail(t, "jettison panics on a sync.Map that changes during the call: %s\n%s", r.pan, c.script)
		}
		if r.err != nil {
			fail(t, "error on a sync.Map that changes during the call: %v\n%s", r.err, c.script)
		}
		if why := chCheck(r.b, open, end, stable, vol, sorted); why != "" {
			fail(t, "sync.Map that changes during the call, sorted %v: %s\noutput: %s\n%s", sorted, why, r.b, c.script)
		}
	}
	if len(c.steps) > 1 && c.at.Load() > 1 || threads {
		count("sync.Map changing during the call")
		nontrivial(hash("changing", c.script), func() string {
			return fmt.Sprintf("sync.Map with %d stable and %d volatile keys, %d method calls that change it, %d goroutines", len(stable), len(vol), c.at.Load(), len(fs))
		})
	}
}

func chCheck(b []byte, open, end string, stable, vol map[string]bool, sorted bool) string {
	if !json.Valid(b) {
		return "invalid JSON"
	}
	if !bytes.HasPrefix(b, []byte(open)) || !bytes.HasSuffix(b, []byte(end)) || len(b) < len(open)+len(end) {
		return fmt.Sprintf("want %s...%s", open, end)
	}
	b = b[len(open) : len(b)-len(end)]
	dec := json.NewDecoder(bytes.NewReader(b))
	if tok, err := dec.Token(); err != nil || tok != json.Delim('{') {
		return "not an object"
	}
	var keys []string
	seen := map[string]bool{}
	left := len(stable)
	for dec.More() {
		k, err := dec.Token()
		if err != nil {
			return err.Error()
		}
		v, err := dec.Token()
		if err != nil {
			return err.Error()
		}
		key, _ := k.(string)
		val, ok := v.(string)
		if !ok {
			return fmt.Sprintf("value of %q is %v", key, v)
		}
		if seen[key] {
			return fmt.Sprintf("key %q is written twice", key)
		}
		seen[key] = true
		keys = append(keys, key)
		name, ver, _ := strings.Cut(val, "#")
		if name != key {
			return fmt.Sprintf("key %q has the value %q of another key", key, val)
		}
		if n, err := strconv.Atoi(ver); err != nil || n < 0 || n > 24 {
			return fmt.Sprintf("key %q has the value %q, which was never stored", key, val)
		}
		switch {
		case stable[val]:
			left--
		case !vol[key]:
			return fmt.Sprintf("key %q with the value %q was never stored", key, val)
		}
	}
	if left != 0 {
		return fmt.Sprintf("%d keys that stay in the map are missing", left)
	}
	if sorted && !sort.StringsAreSorted(keys) {
		return "the keys are not sorted"
	}
	return ""
}
