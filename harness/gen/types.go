package gen

import (
	"context"
	"encoding"
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"
	"unsafe"

	"github.com/wI2L/jettison"
	"pgregory.net/rapid"

	alt "jverif/alt/lib"
	"jverif/lib"
	"jverif/zoo"
)

func validUTF8(s string) bool { return utf8.ValidString(s) }

// Cat is a category of types.
type Cat int

const (
	Prim Cat = iota
	Leaf
	Native
	Ptr
	Slice
	Array
	Map
	Struct
	Iface
	Zoo
	Bytes
	SyncMap
	Unsup
	Raw
	nCat
)

// Profile sets what is drawn.
type Profile struct {
	W         [nCat]int // weights of the categories
	Depth     int       // nesting depth of types
	Fields    int       // max fields of drawn structs
	Special   int       // percentage of leaf values with a special behaviour (errors, null, ...)
	Fail      bool      // specials may fail
	Valid     bool      // strings are valid UTF-8 only
	Zero      int       // percentage of zero values
	NilPct    int       // percentage of nil pointers, slices, maps, interfaces
	Omit      int       // percentage of fields with omitempty
	OmitNil   int
	Quote     int
	Embed     int // percentage of anonymous fields
	MapMax    int
	SliceMax  int
	BadKey    int // percentage of unsupported map key types
	Leaves    []lib.Leaf
	ZooTypes  []reflect.Type
	NoExt     bool // no append marshalers, sync.Map
	KeyTypes  []reflect.Type
	Times     func(*rapid.T) time.Time
	Budget    int // number of values
	Big       int // percentage of big values
	Dyn       []reflect.Type
	Alias     bool
	RoundTrip bool
	SyncKeys  []reflect.Type // of sync.Map
	Impl      []reflect.Type // dynamic types of interfaces with methods
	NoRaw     bool           // no raw messages among the native types
	OnlyDyn   bool           // dynamic types of empty interfaces are in Dyn
	KeyPrefix string         // of string keys
}

// General is a profile over everything.
func General() *Profile {
	p := &Profile{Depth: 4, Fields: 7, Special: 6, Fail: true, NilPct: 15, Omit: 20, OmitNil: 0, Quote: 15, Embed: 20,
		MapMax: 12, SliceMax: 20, BadKey: 2, Leaves: lib.Leaves, ZooTypes: zoo.Types, Budget: 250, Big: 3, Alias: true}
	p.W = [nCat]int{Prim: 12, Leaf: 10, Native: 6, Ptr: 8, Slice: 6, Array: 5, Map: 7, Struct: 12, Iface: 6, Zoo: 5, Bytes: 3, SyncMap: 0, Unsup: 1, Raw: 3}
	return p
}

func typ[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

// Named types without methods.
type (
	NBool   bool
	NInt    int
	NStr    string
	NF32    float32
	NByte   byte
	NBytes  []byte
	NSlice  []string
	NMap    map[string]any
	NPtr    *int
	NArr    [2]string
	NBArr   [5]byte
	NNBytes []NByte
	NDur    time.Duration
	NNum    json.Number
	NU16    uint16
	NUptr   uintptr
	NRaw    json.RawMessage
	NTime   time.Time
)

var (
	primTypes = []reflect.Type{
		typ[int](), typ[string](), typ[bool](), typ[float64](), typ[int8](), typ[int16](), typ[int32](), typ[int64](),
		typ[uint](), typ[uint8](), typ[uint16](), typ[uint32](), typ[uint64](), typ[uintptr](), typ[float32](), typ[string](),
		typ[NBool](), typ[NInt](), typ[NStr](), typ[NF32](), typ[NByte](), typ[NDur](), typ[NNum](), typ[NU16](), typ[NUptr](),
		typ[struct{}](), typ[NArr](), typ[NSlice](), typ[NPtr](), typ[NMap](), typ[NTime](),
	}
	nativeTypes = []reflect.Type{typ[time.Time](), typ[time.Duration](), typ[json.Number](), typ[json.RawMessage](), typ[*time.Time](), typ[*json.Number](), typ[*json.RawMessage](), typ[*time.Duration]()}
	bytesTypes  = []reflect.Type{typ[[]byte](), typ[[4]byte](), typ[NBytes](), typ[NBArr](), typ[NNBytes](), typ[[1]byte](), typ[[0]byte](), typ[[3]NByte](), typ[[]int8](),
		typ[[]lib.LU8_Jv](), typ[[]lib.LU8_Jp](), typ[[3]lib.LU8_Tv](), typ[[2]lib.LU8_Ap](), typ[[]lib.LU8_Cv](), typ[[]lib.LU8_Ap](), typ[[]lib.LU8_Tp](), typ[[2]lib.LU8_Jp]()}
	unsupTypes = []reflect.Type{typ[chan int](), typ[func()](), typ[complex64](), typ[complex128](), typ[unsafe.Pointer](), typ[map[bool]int](), typ[map[float64]string](), typ[map[any]int]()}
	rawTypes   = []reflect.Type{typ[lib.RawJ](), typ[lib.RawT](), typ[lib.RawA](), typ[lib.RawC](), typ[*lib.RawJ](), typ[*lib.RawT](), typ[NRaw](), typ[lib.BufJ](), typ[lib.BufT](), typ[*lib.BufJ]()}
	ifaceTypes = []reflect.Type{typ[any](), typ[lib.Coder](), typ[error](), typ[lib.JSONer](), typ[lib.Texter](), typ[lib.Appender](), typ[lib.CtxAppend](), typ[lib.JSONText](), typ[fmt.Stringer](), lib.Hidden, typ[lib.Anything](), typ[any]()}

	tTime   = typ[time.Time]()
	tDur    = typ[time.Duration]()
	tNumber = typ[json.Number]()
	tRawMsg = typ[json.RawMessage]()
	tSync   = typ[sync.Map]()
	tAny    = typ[any]()
	tText   = typ[encoding.TextMarshaler]()
	iApp    = typ[jettison.AppendMarshaler]()
	iCtx    = typ[jettison.AppendMarshalerCtx]()
	_       context.Context
)

// types that may be the dynamic type of an interface with methods.
var dynTypes = func() []reflect.Type {
	l := []reflect.Type{
		typ[lib.CodeInt](), typ[lib.CodeStr](), typ[lib.CodeMap](), typ[lib.CodeStruct](), typ[lib.CodePtr](), typ[lib.CodeArr](),
		typ[*lib.CodeInt](), typ[*lib.CodeMap](), typ[*lib.CodeStruct](), typ[*lib.CodePtr](),
		typ[lib.ErrStruct](), typ[*lib.ErrStruct](), typ[lib.ErrString](), typ[time.Time](), typ[time.Duration](), typ[*time.Time](), typ[json.Number](), typ[json.RawMessage](), typ[*json.RawMessage](),
		typ[lib.RawJ](), typ[lib.RawT](), typ[lib.RawA](), typ[lib.RawC](), typ[lib.BufJ](), typ[lib.BufT](), typ[lib.TextKey](), typ[*lib.PtrTextKey](),
		typ[lib.GJ[int]](), typ[*lib.GJ[string]](), typ[lib.GK[bool]](), typ[*lib.GT[int]](), typ[*lib.GA[int]](),
	}
	for _, x := range lib.Leaves {
		if x.Set != "" {
			l = append(l, x.Type, reflect.PointerTo(x.Type))
		}
	}
	for _, x := range alt.Types {
		l = append(l, x, reflect.PointerTo(x))
	}
	return l
}()

var implCache sync.Map

// Implementers returns the dynamic types usable in interface type it.
func Implementers(it reflect.Type) []reflect.Type {
	if l, ok := implCache.Load(it); ok {
		return l.([]reflect.Type)
	}
	var l []reflect.Type
	for _, x := range dynTypes {
		if x.Implements(it) {
			l = append(l, x)
		}
	}
	implCache.Store(it, l)
	return l
}

// KeyTypes are the supported map key types.
var KeyTypes = func() []reflect.Type {
	l := []reflect.Type{
		typ[string](), typ[int](), typ[NStr](), typ[int8](), typ[int16](), typ[int32](), typ[int64](), typ[uint](), typ[uint8](), typ[uint16](),
		typ[uint32](), typ[uint64](), typ[uintptr](), typ[NInt](), typ[NByte](), typ[NDur](), typ[NNum](), typ[time.Duration](), typ[time.Time](), typ[json.Number](),
		typ[string](), typ[string](), typ[lib.TextKey](), typ[*lib.PtrTextKey](), typ[lib.Texter](), typ[lib.JSONText](), typ[lib.RawT](), typ[*lib.RawT](),
		typ[string](), typ[int](), typ[lib.RawJ](), typ[*time.Time](), typ[lib.BigKey](), typ[alt.TextKey](), typ[alt.LInt_Jv](), typ[alt.LStr_Tv](), typ[lib.GK[int]](), typ[lib.GInt[string]](),
	}
	for _, x := range lib.Leaves {
		for _, kt := range []reflect.Type{x.Type, reflect.PointerTo(x.Type)} {
			if !kt.Comparable() {
				continue
			}
			k := kt.Kind()
			if kt.Implements(tText) || k == reflect.String || k == reflect.Int8 || k == reflect.Uint64 {
				if k == reflect.Float64 {
					continue
				}
				l = append(l, kt)
			}
		}
	}
	return l
}()

var badKeyTypes = []reflect.Type{typ[bool](), typ[float64](), typ[struct{ A int }](), typ[any](), typ[[2]string](), typ[*int](), typ[PlainKey](), typ[lib.LBool_Jv](), typ[lib.LF64_Tp](), typ[lib.Coder]()}

// PlainKey is an unsupported key type.
type PlainKey struct{ X int }

func isAppender(t reflect.Type) bool {
	return t.Implements(iApp) || t.Implements(iCtx) || reflect.PointerTo(t).Implements(iApp) || reflect.PointerTo(t).Implements(iCtx)
}

var extCache sync.Map

// HasExt returns whether t statically contains an append marshaler or a sync.Map.
func HasExt(t reflect.Type) bool {
	if b, ok := extCache.Load(t); ok {
		return b.(bool)
	}
	b := hasExt(t, map[reflect.Type]bool{})
	extCache.Store(t, b)
	return b
}

func hasExt(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t == tSync || isAppender(t) {
		return true
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
		return hasExt(t.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasExt(t.Field(i).Type, seen) {
				return true
			}
		}
	}
	return false
}

// zoo draws a zoo type.
func (p *Profile) zoo(t *rapid.T) reflect.Type {
	if len(p.ZooTypes) == 0 {
		return typ[int]()
	}
	z := Of(t, p.ZooTypes)
	for i := 0; p.NoExt && i < 6 && HasExt(z); i++ {
		z = Of(t, p.ZooTypes)
	}
	if p.NoExt && HasExt(z) {
		return typ[int]()
	}
	return z
}

func (p *Profile) leaves() []lib.Leaf { return p.Leaves }

// Type draws a type.
func (p *Profile) Type(t *rapid.T, depth int) reflect.Type {
	w := p.W
	if depth >= p.Depth {
		for _, c := range []Cat{Ptr, Slice, Array, Map, Struct, Iface, Zoo} {
			w[c] = 0
		}
		if w[Prim] == 0 {
			w[Prim] = 1
		}
	}
	c := Cat(Weighted(t, w[:]...))
	switch c {
	case Leaf:
		l := Of(t, p.leaves()).Type
		if p.NoExt && isAppender(l) {
			l = typ[int]()
		}
		return l
	case Native:
		if p.NoRaw {
			return Of(t, []reflect.Type{tTime, tDur, tNumber, typ[*time.Time](), typ[*time.Duration]()})
		}
		return Of(t, nativeTypes)
	case Ptr:
		return reflect.PointerTo(p.Type(t, depth+1))
	case Slice:
		return reflect.SliceOf(p.Type(t, depth+1))
	case Array:
		n := Weighted(t, 2, 5, 3, 2, 1)
		et := p.Type(t, depth+1)
		if Chance(t, 3) && cheap(et, 3) && et.Size() < 100 {
			n = max1(DictLen(t, 1<<Of(t, []int{6, 9, 12})), 1<<12)
			if n*int(et.Size()) > 1<<15 {
				n = 300
			}
		}
		return reflect.ArrayOf(n, et)
	case Map:
		return reflect.MapOf(p.KeyType(t), p.Type(t, depth+1))
	case Struct:
		return p.StructType(t, depth)
	case Iface:
		it := Of(t, ifaceTypes)
		if p.NoExt && (it.Implements(iApp) || it.Implements(iCtx)) {
			it = tAny
		}
		return it
	case Zoo:
		z := p.zoo(t)
		if Chance(t, 25) {
			return reflect.PointerTo(z)
		}
		return z
	case Bytes:
		b := Of(t, bytesTypes)
		if p.NoExt && isAppender(b.Elem()) {
			b = typ[[]byte]()
		}
		if Chance(t, 20) {
			n := Of(t, []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 20, 32, 33, 64, 100})
			if Chance(t, 5) {
				n = max1(DictLen(t, 1<<10), 1<<10)
			}
			return reflect.ArrayOf(n, b.Elem())
		}
		return b
	case SyncMap:
		if Bool(t) {
			return reflect.PointerTo(tSync)
		}
		return tSync
	case Unsup:
		return Of(t, unsupTypes)
	case Raw:
		r := Of(t, rawTypes)
		if p.NoExt && isAppender(r) {
			r = typ[lib.RawJ]()
		}
		return r
	}
	return Of(t, primTypes)
}

// KeyType draws a map key type.
func (p *Profile) KeyType(t *rapid.T) reflect.Type {
	if Chance(t, p.BadKey) {
		return Of(t, badKeyTypes)
	}
	if p.KeyTypes != nil {
		return Of(t, p.KeyTypes)
	}
	if Chance(t, 40) {
		return typ[string]()
	}
	return Of(t, KeyTypes)
}

var tagNames = []string{"a", "b", "A", "B", "c", "x y", "é", "<&>", "a;b", "a b", "日本", "-", "omitempty", "Aa", "$%-/", "!#$%&()*+-./:;<=>?@[]^_{|}~ ", `bad"quote`, `back\slash`, "a'b", "\u2028", "z\x01", "\xff", "C", "D"}

// Tag draws a json struct tag; simple leaves out the names.
func (p *Profile) Tag(t *rapid.T, named bool) reflect.StructTag {
	var opts []string
	if Chance(t, p.Omit) {
		opts = append(opts, "omitempty")
	}
	if Chance(t, p.OmitNil) {
		opts = append(opts, "omitnil")
	}
	if Chance(t, p.Quote) {
		opts = append(opts, "string")
	}
	if Chance(t, 6) {
		opts = append(opts, Of(t, []string{"", "omitEmpty", " omitempty", "omitempty ", "foo", "stringx", "omitzero0", "xomitnil"}))
	}
	if len(opts) > 1 && Bool(t) {
		opts[0], opts[len(opts)-1] = opts[len(opts)-1], opts[0]
	}
	name := ""
	if named && Chance(t, 40) {
		name = tagName(t)
	}
	if name == "" && len(opts) == 0 {
		return ""
	}
	tag := name
	if len(opts) > 0 || Chance(t, 10) {
		tag += "," + strings.Join(opts, ",")
	}
	s := reflect.StructTag("json:" + strconv.Quote(tag))
	if Chance(t, 5) {
		s = `xml:"q,omitempty" ` + s + ` yaml:"z"`
	}
	return s
}

// runes of all the classes that matter to names.
var nameRunes = []rune("aZ_9٣५²½Ⅷǅʰªπéß中アञ\u0301\u0903€+±©😀\u00a0\u2003\u200d\u0085\u00ad\ue000\ufffd𝟘𐒠𝒜")

// tagName draws a name: a common one, for conflicts, or one of any runes.
func tagName(t *rapid.T) string {
	if !Chance(t, 15) {
		return Of(t, tagNames)
	}
	if Chance(t, 10) {
		if s := DictStr(t); !strings.Contains(s, ",") {
			return s
		}
	}
	n := 1 + Pick(t, 4)
	r := make([]rune, n)
	for i := range r {
		switch Weighted(t, 3, 3, 1, 1) {
		case 0:
			r[i] = 'a'
		case 1:
			r[i] = Of(t, nameRunes)
		case 2:
			r[i] = rune(Bits(t, 7))
		default:
			r[i] = rune(Bits(t, 1+Pick(t, 20)))
		}
		if r[i] == ',' {
			r[i] = 'b'
		}
	}
	return string(r)
}

var fieldNames = []string{"A", "B", "C", "D", "E", "F", "G", "H", "Aa", "É", "Bb", "I", "J", "K", "L", "M"}

// StructType draws a struct type.
func (p *Profile) StructType(t *rapid.T, depth int) reflect.Type {
	n := Pick(t, p.Fields+1)
	if Chance(t, 2) {
		n = Size(t, 80)
		if Chance(t, 10) {
			n = max1(DictLen(t, 400), 400)
		}
	}
	used := map[string]bool{}
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		name := Of(t, fieldNames)
		if used[name] {
			name = fmt.Sprintf("%s%d", name, i)
		}
		if used[name] {
			continue
		}
		if Chance(t, 4) {
			name = fmt.Sprintf("u%d", i)
			used[name] = true
			fs = append(fs, reflect.StructField{Name: name, PkgPath: "jverif/gen", Type: p.Type(t, depth+1), Tag: p.Tag(t, true)})
			continue
		}
		used[name] = true
		if Chance(t, p.Embed) {
			if f, ok := p.embedded(t, name, depth); ok {
				fs = append(fs, f)
				continue
			}
		}
		fs = append(fs, reflect.StructField{Name: name, Type: p.Type(t, depth+1), Tag: p.Tag(t, true)})
	}
	if Chance(t, 1) { // the fields after it are far from the start
		fs = append([]reflect.StructField{{Name: "Pad", Type: reflect.ArrayOf(Of(t, []int{100, 300, 5000, 40000, 70000, 140000, max1(DictLen(t, 140000), 140000)}), typ[byte]()), Tag: `json:"-"`}}, fs...)
	}
	return structOf(fs)
}

// Uniq, when not empty, makes the drawn struct types distinct from those drawn
// with other values of it.
var Uniq string

// StructOf is reflect.StructOf with Uniq.
func StructOf(fs []reflect.StructField) reflect.Type { return structOf(fs) }

// structOf is reflect.StructOf, without embedding when it is not implemented.
func structOf(fs []reflect.StructField) (t reflect.Type) {
	if Uniq != "" && len(fs) > 0 {
		fs = append([]reflect.StructField(nil), fs...)
		fs[0].Tag += reflect.StructTag(` u:"` + Uniq + `"`)
	}
	defer func() {
		if recover() != nil {
			for i := range fs {
				fs[i].Anonymous = false
			}
			t = reflect.StructOf(fs)
		}
	}()
	return reflect.StructOf(fs)
}

func methodless(t reflect.Type) bool {
	return t.NumMethod() == 0 && reflect.PointerTo(t).NumMethod() == 0
}

func (p *Profile) embedded(t *rapid.T, name string, depth int) (reflect.StructField, bool) {
	var et reflect.Type
	switch Weighted(t, 5, 4, 1) {
	case 0:
		if depth > p.Depth+3 {
			return reflect.StructField{}, false
		}
		et = p.StructType(t, depth+1)
	case 1:
		if et = p.zoo(t); et.Kind() != reflect.Struct {
			return reflect.StructField{}, false
		}
	default:
		et = Of(t, []reflect.Type{typ[NInt](), typ[NStr](), typ[NMap](), typ[NSlice](), typ[NArr]()})
	}
	if et.Kind() == reflect.Ptr || !methodless(et) {
		return reflect.StructField{}, false
	}
	if Chance(t, 35) {
		et = reflect.PointerTo(et)
	}
	f := reflect.StructField{Name: name, Type: et, Anonymous: true}
	if Chance(t, 20) {
		f.Tag = p.Tag(t, true)
	}
	return f, true
}
