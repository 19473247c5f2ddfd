package gen

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/wI2L/jettison"
	"pgregory.net/rapid"

	"jverif/ref"
)

// OptSet is a list of options with their effective settings.
type OptSet struct {
	Ref   *ref.Opts
	Opts  []jettison.Option
	Names []string
	set   []func(*ref.Opts)
}

// put appends an option and applies its setting.
func (o *OptSet) put(name string, opt jettison.Option, set func(*ref.Opts)) {
	o.Opts = append(o.Opts, opt)
	o.Names = append(o.Names, name)
	o.set = append(o.set, set)
	set(o.Ref)
}

// Sub is a selection of the options of o, which are the same Option values.
func (o *OptSet) Sub(t *rapid.T) *OptSet {
	n := None()
	k := Of(t, []int{20, 50, 80})
	for i := range o.Opts {
		if Chance(t, k) {
			n.put(o.Names[i], o.Opts[i], o.set[i])
		}
	}
	n.shuffle(t)
	return n
}

func (o *OptSet) String() string { return "[" + strings.Join(o.Names, " ") + "]" }

// None has no option.
func None() *OptSet { return &OptSet{Ref: ref.Default()} }

// Layouts of times.
var Layouts = []string{
	time.RFC3339Nano, time.RFC3339, time.ANSIC, time.UnixDate, time.RFC822, time.RFC822Z, time.RFC850, time.RFC1123, time.RFC1123Z, time.Kitchen,
	time.Stamp, time.StampNano, "2006-01-02", `"2006"`, "2006\\01", "<Jan> & _2", "\t15h\n", "2006-01-02T15:04:05.000Z07:00", "2006-01-02T15:04:05Z0700", "Mon Monday MST -07", "\u2028x", "\xff2006", "plain text", "02/01/06 03:04:05PM .999999999", "2006-01-02T15:04:05.999999Z07:00", "002 __2 Z07:00:00 -07:00:00",
}

func init() {
	for _, l := range []string{time.Layout, time.DateTime, time.DateOnly, time.TimeOnly, time.StampMilli, time.StampMicro, "20060102T150405Z", "20060102T150405Z0700", "1136239445", "2006-01-02 15:04:05.999999999 -0700 MST", "2006-002"} {
		Layouts = append(Layouts, l)
	}
}

// RFCLayouts are the layouts close to RFC 3339.
var RFCLayouts = func() (l []string) {
	for _, a := range []string{"2006-01-02T15:04:05", "2006-01-02 15:04:05", "2006-1-2T15:04:05", "2006-01-02t15:04:05", "06-01-02T15:04:05", "2006-01-02T03:04:05", "2006-01-02T15:04", "2006-01-02T15:4:5"} {
		for _, b := range []string{"", ".9", ".999", ".999999", ".999999999", ".0", ".000", ".000000", ".000000000", ",999999999", ",000", ".9999999999"} {
			for _, c := range []string{"Z07:00", "-07:00", "Z0700", "-0700", "Z07", "-07", "Z07:00:00", "-07:00:00", "Z070000", "MST", "", "Z", "z07:00", " Z07:00"} {
				l = append(l, a+b+c)
			}
		}
	}
	return
}()

// Flag is a boolean option.
type Flag struct {
	Name string
	Opt  func() jettison.Option
	Set  func(*ref.Opts)
}

// Flags are the boolean options.
var Flags = []Flag{
	{"UnixTime", jettison.UnixTime, func(o *ref.Opts) { o.Unix = true }},
	{"UnsortedMap", jettison.UnsortedMap, func(o *ref.Opts) { o.Unsorted = true }},
	{"RawByteSlice", jettison.RawByteSlice, func(o *ref.Opts) { o.RawBytes = true }},
	{"ByteArrayAsString", jettison.ByteArrayAsString, func(o *ref.Opts) { o.ByteArr = true }},
	{"NilMapEmpty", jettison.NilMapEmpty, func(o *ref.Opts) { o.NilMap = true }},
	{"NilSliceEmpty", jettison.NilSliceEmpty, func(o *ref.Opts) { o.NilSlice = true }},
	{"NoHTMLEscaping", jettison.NoHTMLEscaping, func(o *ref.Opts) { o.NoHTML = true }},
	{"NoStringEscaping", jettison.NoStringEscaping, func(o *ref.Opts) { o.NoStr = true }},
	{"NoUTF8Coercion", jettison.NoUTF8Coercion, func(o *ref.Opts) { o.NoUTF8 = true }},
	{"NoCompact", jettison.NoCompact, func(o *ref.Opts) { o.NoCompact = true }},
	{"NoNumberValidation", jettison.NoNumberValidation, func(o *ref.Opts) { o.NoNum = true }},
}

// FlagByName returns a boolean option.
func FlagByName(n string) Flag {
	for _, f := range Flags {
		if f.Name == n {
			return f
		}
	}
	panic(n)
}

// Add appends a boolean option.
func (o *OptSet) Add(f Flag) {
	o.put(f.Name, f.Opt(), f.Set)
}

// AddLayout appends a time layout.
func (o *OptSet) AddLayout(l string) {
	o.put(fmt.Sprintf("TimeLayout(%q)", l), jettison.TimeLayout(l), func(o *ref.Opts) { o.Layout = l })
}

// AddDur appends a duration format.
func (o *OptSet) AddDur(d jettison.DurationFmt) {
	o.put(fmt.Sprintf("DurationFormat(%d)", int(d)), jettison.DurationFormat(d), func(o *ref.Opts) { o.Dur = d })
}

func set(l []string) map[string]bool {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return m
}

// AddAllow appends an allow list.
func (o *OptSet) AddAllow(l []string) {
	o.put(fmt.Sprintf("AllowList(%q)", l), jettison.AllowList(l), func(o *ref.Opts) { o.Allow = set(l) })
}

// AddDeny appends a deny list.
func (o *OptSet) AddDeny(l []string) {
	o.put(fmt.Sprintf("DenyList(%q)", l), jettison.DenyList(l), func(o *ref.Opts) { o.Deny = set(l) })
}

type ctxKey struct{}

// Context returns a fresh context.
func Context(n int) context.Context { return context.WithValue(context.Background(), ctxKey{}, n) }

// Options draws an option list. skip lists boolean options not to draw.
func Options(t *rapid.T, pct int, lists bool, skip ...string) *OptSet {
	o := None()
	sk := set(skip)
	for _, f := range Flags {
		if !sk[f.Name] && Chance(t, pct) {
			o.Add(f)
		}
	}
	if !sk["TimeLayout"] && Chance(t, pct) {
		l := Of(t, Layouts)
		if Chance(t, 5) {
			l = DictStr(t)
		} else if Chance(t, 5) {
			l = Of(t, RFCLayouts)
		}
		o.AddLayout(l)
	}
	if !sk["DurationFormat"] && Chance(t, pct) {
		o.AddDur(jettison.DurationFmt(Pick(t, 6)))
	}
	if Chance(t, pct) {
		ctx := Context(Pick(t, 1000))
		o.put("WithContext", jettison.WithContext(ctx), func(o *ref.Opts) { o.Ctx = ctx })
	}
	if lists && Chance(t, pct/2) {
		o.AddAllow(NameList(t))
	}
	if lists && Chance(t, pct/2) {
		o.AddDeny(NameList(t))
	}
	o.shuffle(t)
	return o
}

// shuffle changes the order, which is irrelevant.
func (o *OptSet) shuffle(t *rapid.T) {
	for i := len(o.Opts) - 1; i > 0; i-- {
		if Chance(t, 30) {
			j := Pick(t, i+1)
			o.Opts[i], o.Opts[j] = o.Opts[j], o.Opts[i]
			o.Names[i], o.Names[j] = o.Names[j], o.Names[i]
			o.set[i], o.set[j] = o.set[j], o.set[i]
		}
	}
}

// NameList draws a list of field names.
func NameList(t *rapid.T) []string {
	var l []string
	for i := Size(t, 30); i > 0; i-- {
		l = append(l, Of(t, allNames))
	}
	if Chance(t, 40) { // nearly everything
		for _, n := range allNames {
			if !Chance(t, 20) {
				l = append(l, n)
			}
		}
	}
	return l
}

var allNames = append(append([]string{"", "X", "Y", "Z", "P", "Q", "k1", "key"}, fieldNames...), tagNames...)
