// Package ref is a reference encoder for jettison: a plain reflect walk over
// the value that applies the documented meaning of every option.
package ref

import (
	"bytes"
	"context"
	"encoding"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/wI2L/jettison"
)

// Opts are the effective settings of a call.
type Opts struct {
	Unix, Unsorted, RawBytes, ByteArr, NilMap, NilSlice bool
	NoStr, NoHTML, NoUTF8, NoCompact, NoNum             bool
	Layout                                              string
	Dur                                                 jettison.DurationFmt
	Ctx                                                 context.Context
	Allow, Deny                                         map[string]bool
}

// Default returns the settings without options.
func Default() *Opts {
	return &Opts{Layout: time.RFC3339Nano, Dur: jettison.DurationNanoseconds, Ctx: context.TODO()}
}

// Kinds of errors.
const (
	UnsupType  = "UnsupportedType"
	UnsupValue = "UnsupportedValue"
	Marshaler  = "Marshaler"
	Number     = "Number"
	Time       = "Time"
	SyncKey    = "SyncKey"
)

// ErrSpec describes an admissible error.
type ErrSpec struct {
	Kind string
	Type reflect.Type
	Func string // marshaler function
	Err  error  // error returned by the method, nil if its output was invalid
	Msg  string // message, "" if unspecified
	Key  bool   // the error comes from a map key
}

func (e ErrSpec) String() string {
	return fmt.Sprintf("{%s %v %s %v %q}", e.Kind, e.Type, e.Func, e.Err, e.Msg)
}

// Result is the expected outcome.
type Result struct {
	Node  Node
	Errs  []ErrSpec // admissible errors, empty when encoding succeeds
	Ext   bool      // uses an extension, not comparable with encoding/json
	Dup   bool      // has equal map keys
	Ambig bool      // the expected output is not specified
	N     int       // number of values visited
}

// Encode returns the expected encoding of v.
func Encode(v any, o *Opts) Result {
	e := &enc{o: o}
	if v == nil {
		return Result{Node: lit("null")}
	}
	n, errs := e.value(reflect.ValueOf(v), false, false)
	return Result{Node: n, Errs: errs, Ext: e.ext, Dup: e.dup, Ambig: e.ambig, N: e.n}
}

// ErrTooBig is the panic value of Encode for huge values.
var ErrTooBig = errors.New("value too big")

type enc struct {
	o     *Opts
	ext   bool
	dup   bool
	n     int
	ambig bool
}

var (
	tTime     = reflect.TypeOf(time.Time{})
	tTimePtr  = reflect.TypeOf((*time.Time)(nil))
	tDur      = reflect.TypeOf(time.Duration(0))
	tNumber   = reflect.TypeOf(json.Number(""))
	tRaw      = reflect.TypeOf(json.RawMessage(nil))
	tSync     = reflect.TypeOf((*sync.Map)(nil)).Elem()
	iJSON     = reflect.TypeOf((*json.Marshaler)(nil)).Elem()
	iText     = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
	iApp      = reflect.TypeOf((*jettison.AppendMarshaler)(nil)).Elem()
	iCtx      = reflect.TypeOf((*jettison.AppendMarshalerCtx)(nil)).Elem()
	marshIfcs = []struct {
		m byte
		t reflect.Type
	}{{'C', iCtx}, {'A', iApp}, {'J', iJSON}, {'T', iText}}
)

type methKey struct {
	t    reflect.Type
	addr bool
}

var methCache sync.Map

// Method returns which marshaling method encodes a value of type t (0 for none)
// and whether it is called on its address.
func Method(t reflect.Type, addr bool) (m byte, onAddr bool) {
	type res struct {
		m byte
		a bool
	}
	k := methKey{t, addr}
	if r, ok := methCache.Load(k); ok {
		return r.(res).m, r.(res).a
	}
	var r res
	for _, mi := range marshIfcs {
		if t.Implements(mi.t) {
			r = res{mi.m, false}
			break
		}
		if addr && t.Kind() != reflect.Ptr && reflect.PointerTo(t).Implements(mi.t) {
			r = res{mi.m, true}
			break
		}
	}
	methCache.Store(k, r)
	return r.m, r.a
}

func isNilable(k reflect.Kind) bool {
	return k == reflect.Ptr || k == reflect.Interface || k == reflect.Slice || k == reflect.Map
}

func isInt(k reflect.Kind) bool  { return k >= reflect.Int && k <= reflect.Int64 }
func isUint(k reflect.Kind) bool { return k >= reflect.Uint && k <= reflect.Uintptr }
func isBasic(k reflect.Kind) bool {
	return k == reflect.Bool || k == reflect.String || isInt(k) || isUint(k) || k == reflect.Float32 || k == reflect.Float64
}

// value returns the encoding of v. addr tells if v is addressable for the
// purpose of pointer receivers.
func (e *enc) value(v reflect.Value, addr, quoted bool) (Node, []ErrSpec) {
	if e.n++; e.n > 300_000 {
		panic(ErrTooBig)
	}
	t := v.Type()
	if !v.CanAddr() {
		// Physical copy, so that fields of unexported embedded structs can be used.
		c := reflect.New(t).Elem()
		c.Set(v)
		v = c
	} else if !v.CanInterface() {
		v = reflect.NewAt(t, v.Addr().UnsafePointer()).Elem()
	}
	o := e.o
	switch t {
	case tTime:
		return e.time(*(v.Addr().Interface().(*time.Time)), false)
	case tTimePtr:
		if v.IsNil() {
			return lit("null"), nil
		}
		return e.value(v.Elem(), true, false)
	case tDur:
		return litB(e.dur(time.Duration(v.Int()), quoted)), nil
	case tNumber:
		s := v.String()
		if s == "" {
			s = "0"
		}
		if !o.NoNum && !ValidNumber(s) {
			return Node{}, []ErrSpec{{Kind: Number, Msg: fmt.Sprintf("json: invalid number literal %q", s)}}
		}
		if quoted {
			s = `"` + s + `"`
		}
		return lit(s), nil
	case tRaw:
		if v.IsNil() {
			return lit("null"), nil
		}
		return e.compact(v.Bytes(), t)
	case tSync:
		e.ext = true
		return e.syncMap(v.Addr().Interface().(*sync.Map))
	}
	if m, onAddr := Method(t, addr); m != 0 {
		k := t.Kind()
		if (k == reflect.Ptr || k == reflect.Interface) && v.IsNil() {
			if m == 'C' || m == 'A' {
				e.ext = true
			}
			return lit("null"), nil
		}
		recv := v
		if onAddr {
			recv = v.Addr()
		}
		return e.marshaler(recv.Interface(), m, t)
	}
	switch k := t.Kind(); {
	case k == reflect.Bool:
		return lit(quoteIf(strconv.FormatBool(v.Bool()), quoted)), nil
	case isInt(k):
		return lit(quoteIf(big.NewInt(v.Int()).String(), quoted)), nil
	case isUint(k):
		return lit(quoteIf(new(big.Int).SetUint64(v.Uint()).String(), quoted)), nil
	case k == reflect.Float32 || k == reflect.Float64:
		bits := t.Bits()
		f := v.Float()
		if math.IsNaN(f) || math.IsInf(f, 0) {
			s := strconv.FormatFloat(f, 'g', -1, bits)
			return Node{}, []ErrSpec{{Kind: UnsupValue, Msg: "json: unsupported value: " + s}}
		}
		return lit(quoteIf(Float(f, bits), quoted)), nil
	case k == reflect.String:
		s := e.escape(v.String())
		if quoted {
			// A JSON string holding a JSON string.
			if o.NoStr {
				return lit(`"\"` + s + `\""`), nil
			}
			return lit(`"` + e.escape(`"`+s+`"`) + `"`), nil
		}
		return lit(`"` + s + `"`), nil
	case k == reflect.Interface:
		if v.IsNil() {
			return lit("null"), nil
		}
		return e.value(v.Elem(), false, false)
	case k == reflect.Ptr:
		if v.IsNil() {
			return lit("null"), nil
		}
		return e.value(v.Elem(), true, quoted)
	case k == reflect.Struct:
		return e.structure(v, addr)
	case k == reflect.Map:
		return e.mapping(v)
	case k == reflect.Slice:
		if IsByteElem(t.Elem()) {
			if v.IsNil() {
				return lit("null"), nil
			}
			return e.byteSlice(v.Bytes()), nil
		}
		if et := t.Elem(); et.Kind() == reflect.Uint8 {
			if p := reflect.PointerTo(et); !p.Implements(iJSON) && !p.Implements(iText) {
				e.ext = true // not a base64 string
			}
		}
		if v.IsNil() {
			if o.NilSlice {
				return lit("[]"), nil
			}
			return lit("null"), nil
		}
		return e.list(v, true)
	case k == reflect.Array:
		if o.ByteArr && IsByteElem(t.Elem()) {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			return lit(`"` + e.escape(string(b)) + `"`), nil
		}
		return e.list(v, addr)
	}
	return Node{}, []ErrSpec{{Kind: UnsupType, Type: t, Msg: "json: unsupported type: " + t.String()}}
}

// IsByteElem returns whether slices of t are encoded as strings.
func IsByteElem(t reflect.Type) bool {
	if t.Kind() != reflect.Uint8 {
		return false
	}
	p := reflect.PointerTo(t)
	return !p.Implements(iJSON) && !p.Implements(iText) && !p.Implements(iApp) && !p.Implements(iCtx)
}

func quoteIf(s string, q bool) string {
	if q {
		return `"` + s + `"`
	}
	return s
}

func (e *enc) byteSlice(b []byte) Node {
	if e.o.RawBytes {
		return lit(`"` + e.escape(string(b)) + `"`)
	}
	return lit(`"` + base64.StdEncoding.EncodeToString(b) + `"`)
}

func (e *enc) list(v reflect.Value, addr bool) (Node, []ErrSpec) {
	var b builder
	b.str("[")
	for i := 0; i < v.Len(); i++ {
		if i != 0 {
			b.str(",")
		}
		n, errs := e.value(v.Index(i), addr, false)
		if errs != nil {
			return Node{}, errs
		}
		b.node(n)
	}
	b.str("]")
	return b.done(), nil
}

var funcNames = map[byte]string{'C': "AppendJSONContext", 'A': "AppendJSON", 'J': "MarshalJSON", 'T': "MarshalText"}

func (e *enc) merr(t reflect.Type, m byte, err error) []ErrSpec {
	s := ErrSpec{Kind: Marshaler, Type: t, Func: funcNames[m], Err: err}
	if err != nil {
		s.Msg = fmt.Sprintf("json: error calling %s for type %s: %s", s.Func, t, err)
	}
	return []ErrSpec{s}
}

func (e *enc) marshaler(i any, m byte, t reflect.Type) (Node, []ErrSpec) {
	switch m {
	case 'C', 'A':
		e.ext = true
		var (
			b   []byte
			err error
		)
		if m == 'C' {
			b, err = i.(jettison.AppendMarshalerCtx).AppendJSONContext(e.o.Ctx, nil)
		} else {
			b, err = i.(jettison.AppendMarshaler).AppendJSON(nil)
		}
		if err != nil {
			return Node{}, e.merr(t, m, err)
		}
		return litB(b), nil
	case 'J':
		b, err := i.(json.Marshaler).MarshalJSON()
		if err != nil {
			return Node{}, e.merr(t, m, err)
		}
		return e.compact(b, t)
	default:
		b, err := i.(encoding.TextMarshaler).MarshalText()
		if err != nil {
			return Node{}, e.merr(t, m, err)
		}
		return lit(`"` + e.escape(string(b)) + `"`), nil
	}
}

// compact returns the encoding of an embedded JSON document.
func (e *enc) compact(b []byte, t reflect.Type) (Node, []ErrSpec) {
	if e.o.NoCompact {
		return lit(string(b)), nil
	}
	var buf bytes.Buffer
	if json.Compact(&buf, b) != nil {
		return Node{}, e.merr(t, 'J', nil)
	}
	return lit(EscapeDoc(buf.String(), !e.o.NoHTML)), nil
}

// EscapeDoc escapes the separators, and the HTML characters if html is true,
// of a JSON document.
func EscapeDoc(s string, html bool) string {
	s = strings.ReplaceAll(s, "\u2028", `\u2028`)
	s = strings.ReplaceAll(s, "\u2029", `\u2029`)
	if html {
		s = strings.NewReplacer("<", `\u003c`, ">", `\u003e`, "&", `\u0026`).Replace(s)
	}
	return s
}

func (e *enc) escape(s string) string {
	if e.o.NoStr {
		return s
	}
	return Escape(s, !e.o.NoHTML, !e.o.NoUTF8)
}

// Escape returns the content of the JSON string literal for s.
func Escape(s string, html, coerce bool) string {
	var sb strings.Builder
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		c := s[:n]
		s = s[n:]
		switch {
		case r == utf8.RuneError && n == 1:
			if coerce {
				sb.WriteString(`\ufffd`)
			} else {
				sb.WriteString(c)
			}
		case r == '"' || r == '\\':
			sb.WriteString(`\` + c)
		case r == '\n':
			sb.WriteString(`\n`)
		case r == '\r':
			sb.WriteString(`\r`)
		case r == '\t':
			sb.WriteString(`\t`)
		case r < 0x20, r == 0x2028, r == 0x2029, html && (r == '<' || r == '>' || r == '&'):
			fmt.Fprintf(&sb, `\u%04x`, r)
		default:
			sb.WriteString(c)
		}
	}
	return sb.String()
}

// Float formats a finite float like encoding/json (ES6 number to string).
func Float(f float64, bits int) string {
	a := math.Abs(f)
	if bits == 32 {
		a = float64(float32(a))
	}
	lo, hi := 1e-6, 1e21
	if bits == 32 {
		lo, hi = float64(float32(1e-6)), float64(float32(1e21))
	}
	if a == 0 || (a >= lo && a < hi) {
		return strconv.FormatFloat(f, 'f', -1, bits)
	}
	s := strconv.FormatFloat(f, 'e', -1, bits)
	// Exponents have at least two digits; negative ones are shortened.
	if i := strings.Index(s, "e-0"); i >= 0 {
		s = s[:i] + "e-" + s[i+3:]
	}
	return s
}

// ValidNumber is a recogniser of the JSON number grammar.
func ValidNumber(s string) bool {
	i := 0
	digits := func() bool {
		j := i
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		return i > j
	}
	if i < len(s) && s[i] == '-' {
		i++
	}
	if i < len(s) && s[i] == '0' {
		i++
	} else if !digits() {
		return false
	}
	if i < len(s) && s[i] == '.' {
		i++
		if !digits() {
			return false
		}
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			i++
		}
		if !digits() {
			return false
		}
	}
	return i == len(s)
}

func (e *enc) time(t time.Time, key bool) (Node, []ErrSpec) {
	if y := t.Year(); y < 0 || y > 9999 {
		return Node{}, []ErrSpec{{Kind: Time}}
	}
	if e.o.Unix {
		return lit(quoteIf(strconv.FormatInt(t.Unix(), 10), key)), nil
	}
	return lit(`"` + e.escape(t.Format(e.o.Layout)) + `"`), nil
}

func (e *enc) dur(d time.Duration, quoted bool) []byte {
	var s string
	switch e.o.Dur {
	case jettison.DurationString:
		return []byte(`"` + d.String() + `"`)
	case jettison.DurationMinutes:
		s = Float(d.Minutes(), 64)
	case jettison.DurationSeconds:
		s = Float(d.Seconds(), 64)
	case jettison.DurationMilliseconds:
		s = strconv.FormatInt(d.Milliseconds(), 10)
	case jettison.DurationMicroseconds:
		s = strconv.FormatInt(d.Microseconds(), 10)
	default:
		s = strconv.FormatInt(d.Nanoseconds(), 10)
	}
	return []byte(quoteIf(s, quoted))
}

func (e *enc) structure(v reflect.Value, addr bool) (Node, []ErrSpec) {
	var b builder
	b.str("{")
	first := true
fields:
	for _, f := range Fields(v.Type()) {
		if e.o.Deny != nil && e.o.Deny[f.Name] {
			continue
		}
		if e.o.Allow != nil && !e.o.Allow[f.Name] {
			continue
		}
		fv, fa := v, addr
		for i, x := range f.Index {
			if i != 0 && fv.Kind() == reflect.Ptr {
				if fv.IsNil() {
					continue fields
				}
				fv, fa = fv.Elem(), true
			}
			fv = fv.Field(x)
		}
		if f.OmitNil && isNilable(fv.Kind()) && fv.IsNil() {
			e.ext = true
			continue
		}
		if f.OmitEmpty && IsEmpty(fv) {
			continue
		}
		n, errs := e.value(fv, fa, f.Quoted)
		if errs != nil {
			return Node{}, errs
		}
		if f.OmitNil && (f.Type.Implements(iJSON) || reflect.PointerTo(f.Type).Implements(iJSON)) && n.det() {
			if string(n.Lit) == "null" {
				e.ext = true
				continue
			}
			if e.o.NoCompact && strings.HasSuffix(strings.TrimSpace(string(n.Lit)), "null") {
				e.ambig = true // unspecified: null with white space around, or invalid JSON
			}
		}
		if !first {
			b.str(",")
		}
		first = false
		name := f.Name
		if !e.o.NoHTML {
			name = EscapeDoc(name, true)
		}
		b.str(`"` + name + `":`)
		b.node(n)
	}
	b.str("}")
	return b.done(), nil
}

// IsEmpty is the omitempty rule.
func IsEmpty(v reflect.Value) bool {
	switch k := v.Kind(); {
	case k == reflect.Array || k == reflect.Map || k == reflect.Slice || k == reflect.String:
		return v.Len() == 0
	case k == reflect.Bool:
		return !v.Bool()
	case isInt(k):
		return v.Int() == 0
	case isUint(k):
		return v.Uint() == 0
	case k == reflect.Float32 || k == reflect.Float64:
		return v.Float() == 0
	case k == reflect.Ptr || k == reflect.Interface:
		return v.IsNil()
	}
	return false
}

type entry struct {
	key string
	n   Node
}

// KeyTypeOK returns whether t can be a map key type.
func KeyTypeOK(t reflect.Type) bool {
	k := t.Kind()
	return k == reflect.String || isInt(k) || isUint(k) || t.Implements(iText)
}

func (e *enc) key(k reflect.Value) (string, []ErrSpec) {
	t := k.Type()
	switch {
	case t.Kind() == reflect.String:
		return k.String(), nil
	case t == tTime:
		n, errs := e.time(k.Interface().(time.Time), true)
		if errs != nil {
			errs[0].Key = true
			return "", errs
		}
		if e.o.Unix {
			return strings.Trim(string(n.Lit), `"`), nil
		}
		return k.Interface().(time.Time).Format(e.o.Layout), nil
	case t == tDur:
		return strings.Trim(string(e.dur(time.Duration(k.Int()), true)), `"`), nil
	case t.Implements(iText):
		if (t.Kind() == reflect.Ptr || t.Kind() == reflect.Interface) && k.IsNil() {
			if t.Kind() == reflect.Interface {
				e.ext = true // encoding/json panics
			}
			return "", nil
		}
		b, err := k.Interface().(encoding.TextMarshaler).MarshalText()
		if err != nil {
			errs := e.merr(t, 'T', err)
			errs[0].Key = true
			return "", errs
		}
		return string(b), nil
	case isInt(t.Kind()):
		return big.NewInt(k.Int()).String(), nil
	default:
		return new(big.Int).SetUint64(k.Uint()).String(), nil
	}
}

func (e *enc) entries(es []entry) Node {
	var b builder
	b.str("{")
	sort.SliceStable(es, func(i, j int) bool { return es[i].key < es[j].key })
	for i := 1; i < len(es); i++ {
		if es[i].key == es[i-1].key {
			e.dup = true
		}
	}
	if e.o.Unsorted {
		if len(es) > 0 {
			p := make([]Node, len(es))
			for i := range es {
				p[i] = es[i].n
			}
			if len(p) == 1 {
				b.node(p[0])
			} else {
				b.node(Node{Perm: p})
			}
		}
	} else {
		for i := 0; i < len(es); {
			j := i + 1
			for j < len(es) && es[j].key == es[i].key {
				j++
			}
			if i != 0 {
				b.str(",")
			}
			if j-i == 1 {
				b.node(es[i].n)
			} else {
				p := make([]Node, 0, j-i)
				for _, x := range es[i:j] {
					p = append(p, x.n)
				}
				b.node(Node{Perm: p})
			}
			i = j
		}
	}
	b.str("}")
	return b.done()
}

func (e *enc) mapping(v reflect.Value) (Node, []ErrSpec) {
	t := v.Type()
	if !KeyTypeOK(t.Key()) {
		return Node{}, []ErrSpec{{Kind: UnsupType, Type: t, Msg: "json: unsupported type: " + t.String()}}
	}
	if v.IsNil() {
		if e.o.NilMap {
			return lit("{}"), nil
		}
		return lit("null"), nil
	}
	var (
		es   []entry
		errs []ErrSpec
	)
	for it := v.MapRange(); it.Next(); {
		k, er := e.key(it.Key())
		if er != nil {
			errs = append(errs, er...)
			continue
		}
		n, er := e.value(it.Value(), false, false)
		if er != nil {
			errs = append(errs, er...)
			continue
		}
		es = append(es, e.pair(k, n))
	}
	if errs != nil {
		return Node{}, errs
	}
	return e.entries(es), nil
}

func (e *enc) pair(k string, n Node) entry {
	var b builder
	b.str(`"` + e.escape(k) + `":`)
	b.node(n)
	return entry{k, b.done()}
}

func (e *enc) syncMap(m *sync.Map) (Node, []ErrSpec) {
	var (
		es   []entry
		errs []ErrSpec
	)
	m.Range(func(key, val any) bool {
		if key == nil {
			errs = append(errs, ErrSpec{Kind: SyncKey})
			return true
		}
		kv := reflect.ValueOf(key)
		if !KeyTypeOK(kv.Type()) {
			errs = append(errs, ErrSpec{Kind: SyncKey})
			return true
		}
		k, er := e.key(kv)
		if er != nil {
			errs = append(errs, er...)
			return true
		}
		n := lit("null")
		if val != nil {
			if n, er = e.value(reflect.ValueOf(val), false, false); er != nil {
				errs = append(errs, er...)
				return true
			}
		}
		es = append(es, e.pair(k, n))
		return true
	})
	if errs != nil {
		return Node{}, errs
	}
	return e.entries(es), nil
}
