package gen

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"time"
	_ "time/tzdata" // locations do not depend on the system

	"pgregory.net/rapid"

	alt "jverif/alt/lib"
	"jverif/lib"
	"jverif/ref"
)

// Filler fills values.
type Filler struct {
	t     *rapid.T
	p     *Profile
	left  int
	alias map[reflect.Type][]reflect.Value
	depth int
	noTop bool
	Nodes int
	ids   int // of the probes
}

var probes = map[reflect.Type]func(reflect.Value, int){
	typ[lib.ProbeI]():   func(v reflect.Value, id int) { v.SetInt(int64(id)) },
	typ[lib.ProbeN]():   func(v reflect.Value, id int) { v.SetInt(int64(id)) },
	typ[lib.ProbeS]():   func(v reflect.Value, id int) { v.Set(reflect.ValueOf(lib.ProbeS{ID: id})) },
	typ[lib.ProbeSP]():  func(v reflect.Value, id int) { v.Set(reflect.ValueOf(lib.ProbeSP{ID: id})) },
	typ[lib.ProbeP]():   func(v reflect.Value, id int) { v.Set(reflect.ValueOf(lib.ProbeP{P: &id})) },
	typ[lib.ProbePP]():  func(v reflect.Value, id int) { v.Set(reflect.ValueOf(lib.ProbePP{P: &id})) },
	typ[lib.ProbeA]():   func(v reflect.Value, id int) { v.Set(reflect.ValueOf(lib.ProbeA{&id})) },
	typ[lib.ProbeM]():   func(v reflect.Value, id int) { v.Set(reflect.ValueOf(lib.ProbeM{"id": id})) },
	typ[lib.ProbeMP]():  func(v reflect.Value, id int) { v.Set(reflect.ValueOf(lib.ProbeMP{"id": id})) },
	typ[lib.ProbeSl]():  func(v reflect.Value, id int) { v.Set(reflect.ValueOf(lib.ProbeSl{id})) },
	typ[lib.ProbeStr](): func(v reflect.Value, id int) { v.SetString(strings.Repeat("p", id)) },
	typ[lib.ProbeBig](): func(v reflect.Value, id int) { v.Set(reflect.ValueOf(lib.ProbeBig{ID: id})) },
	typ[lib.ProbeCA]():  func(v reflect.Value, id int) { v.Set(reflect.ValueOf(lib.ProbeCA{ID: id})) },
}

// ProbeTypes are the types of the probes.
var ProbeTypes = func() []reflect.Type {
	return []reflect.Type{typ[lib.ProbeI](), typ[lib.ProbeN](), typ[lib.ProbeS](), typ[lib.ProbeSP](), typ[lib.ProbeP](), typ[lib.ProbePP](), typ[lib.ProbeA](), typ[lib.ProbeM](), typ[lib.ProbeMP](), typ[lib.ProbeSl](), typ[lib.ProbeStr](), typ[lib.ProbeBig](), typ[lib.ProbeCA]()}
}()

// Value draws a value of type typ, as an addressable reflect.Value.
func (p *Profile) Value(t *rapid.T, typ reflect.Type) reflect.Value {
	if p.Big > 0 && Chance(t, p.Big) {
		q := *p
		q.Budget *= 6
		q.SliceMax = 40 + Pick(t, 1000)
		q.MapMax = 20 + Pick(t, 300)
		q.Special = min(p.Special, 1)
		p = &q
	}
	f := &Filler{t: t, p: p, left: p.Budget, alias: map[reflect.Type][]reflect.Value{}}
	v := reflect.New(typ).Elem()
	f.fill(v)
	return v
}

func (f *Filler) special() bool { return Chance(f.t, f.p.Special) }

func (f *Filler) code() int {
	for {
		c := Of(f.t, lib.Special)
		if !f.p.Fail && (c == lib.CodeError || c == lib.CodeInvalid) {
			c = lib.CodeNull
		}
		if f.p.Valid && c == lib.CodeBadUTF8 {
			c = lib.CodeHTML
		}
		return c
	}
}

func (f *Filler) null() bool {
	return f.left <= 0 || f.depth > 40 || Chance(f.t, f.p.NilPct)
}

func (f *Filler) size(max int) int {
	if f.left <= 0 {
		return 0
	}
	n := Size(f.t, max)
	if max > 40 && f.depth <= 2 { // a big value
		n = Pick(f.t, max+1)
	}
	if n > f.left {
		n = f.left
	}
	return n
}

// Str draws a string for a leaf.
func (f *Filler) str() string {
	if f.special() {
		s := lib.StrSpecialName[f.code()]
		return s
	}
	return String(f.t, f.p.Valid)
}

var numberLits = []string{"0", "-0", "1", "12", "-1.5", "1e5", "1E+5", "1.25e-7", "123456789012345678901234567890", "0.1", "", "-0.0e0", "1e400"}
var badNumbers = []string{"01", "1.", ".5", "+1", "-", "1e", "1e+", "0x10", " 1", "1 ", "NaN", "Infinity", "--1", "1.2.3", "1e5.0", "a", "1_000", "٣", "1e5x", "0e", "-.5", "00", "1.e5", "\"1\"", "null", "1,2"}

// Number draws a json.Number.
func Number(t *rapid.T, bad bool) string {
	if bad {
		if Bool(t) { // one wrong character
			s := Number(t, false) + " "
			i := Pick(t, len(s))
			c := Of(t, []string{"/", ":", ";", "?", "@", "`", "f", "d", ",", "-", "+", ".", "\x00", "\xff", "\x10", "\x19", "\xb1", string(rune(Pick(t, 256)))})
			if Bool(t) {
				return s[:i] + c + strings.TrimSuffix(s[i:], " ")
			}
			return s[:i] + c + strings.TrimSuffix(s[i+1:], " ")
		}
		return Of(t, badNumbers)
	}
	switch Weighted(t, 2, 3) {
	case 0:
		return Of(t, numberLits)
	default:
		s := ""
		if Bool(t) {
			s = "-"
		}
		if Chance(t, 20) {
			s += "0"
		} else {
			s += fmt.Sprint(1 + Pick(t, 9))
			for i := Pick(t, 6); i > 0; i-- {
				s += fmt.Sprint(Pick(t, 10))
			}
		}
		if Bool(t) {
			s += "."
			for i := 1 + Pick(t, 5); i > 0; i-- {
				s += fmt.Sprint(Pick(t, 10))
			}
		}
		if Bool(t) {
			s += Of(t, []string{"e", "E", "e+", "e-", "E+", "E-"})
			for i := 1 + Pick(t, 3); i > 0; i-- {
				s += fmt.Sprint(Pick(t, 10))
			}
		}
		return s
	}
}

// Doc draws a JSON document with insignificant white space.
func Doc(t *rapid.T, depth int, valid bool) string {
	ws := func() string {
		if Chance(t, 30) {
			return Of(t, []string{" ", "\n", "\t", "\r\n", "  ", " \t "})
		}
		return ""
	}
	str := func() string {
		n := Pick(t, 6)
		s := `"`
		for i := 0; i < n; i++ {
			c := Of(t, []string{"a", "b c", " ", `\"`, `\\`, `\n`, `\u003c`, "<", ">", "&", "\u2028", "\u2029", "é", "\u202a", `\ud83d\ude00`, "{", "}", "[", "]", ",", ":", `\\\"`, `\/`, "\xff", "\xe2\x80", "\x7f", "'", "null"})
			if Chance(t, 8) {
				c = near2028(t)
			}
			if valid && !validUTF8(c) {
				c = "u"
			}
			s += c
		}
		return s + `"`
	}
	var doc func(d int) string
	doc = func(d int) string {
		n := 6
		if d <= 0 {
			n = 4
		}
		switch Pick(t, n) {
		case 0:
			return ws() + Of(t, []string{"null", "true", "false"}) + ws()
		case 1:
			return ws() + str() + ws()
		case 2:
			x := Number(t, false)
			if x == "" {
				x = "7"
			}
			return ws() + x + ws()
		case 3:
			return ws() + Of(t, []string{"{" + ws() + "}", "[" + ws() + "]"}) + ws()
		case 4:
			var l []string
			for i := Pick(t, 4); i >= 0; i-- {
				l = append(l, doc(d-1))
			}
			return ws() + "[" + strings.Join(l, ",") + "]" + ws()
		default:
			var l []string
			for i := Pick(t, 4); i >= 0; i-- {
				l = append(l, ws()+str()+ws()+":"+doc(d-1))
			}
			return ws() + "{" + strings.Join(l, ",") + "}" + ws()
		}
	}
	s := doc(depth)
	if Chance(t, 3) { // a long one
		n := 1<<(6+Pick(t, 11)) + Pick(t, 9)
		if Chance(t, 30) {
			n = max1(DictLen(t, 1<<17)-Pick(t, 8), 1<<17)
		}
		s = ws() + "[" + s + `,"` + strings.Repeat("p", n) + `"` + Of(t, []string{"", "," + s}) + ws() + "]" + ws()
	}
	return s
}

// BadDoc draws a document that is not valid JSON, most of the time.
func BadDoc(t *rapid.T) string {
	d := Doc(t, 2, false)
	switch Pick(t, 5) {
	case 0:
		return Of(t, []string{"", " ", "{", "nul", "tru", "{]", "[1,]", "{\"a\":}", "{\"a\" 1}", "\"abc", "01", "1 2", "{} {}", "'a'", "[1 2]", "\"\\x\"", "\"\x01\"", "\"\n\"", "{a:1}", "nan", "+1", "[,1]", "\"\\u12g4\"", "//x\n1", "1.", "{\"a\":1,}", "\x00", "\ufeff1"})
	case 1: // truncate
		if len(d) > 0 {
			return d[:Pick(t, len(d))]
		}
		return d
	case 2: // insert
		i := Pick(t, len(d)+1)
		return d[:i] + Of(t, []string{",", ":", "]", "}", "\"", "\\", "x", "\x00", "1", "\x0b", "\u00a0"}) + d[i:]
	case 3: // delete
		if len(d) > 0 {
			i := Pick(t, len(d))
			return d[:i] + d[i+1:]
		}
		return d
	default: // duplicate the tail
		i := Pick(t, len(d)+1)
		return d + d[i:]
	}
}

// Instant draws a time in years 0 to 9999 (bad: outside).
func Instant(t *rapid.T, bad bool) time.Time {
	y := 0
	switch Weighted(t, 3, 3, 2, 2) {
	case 0:
		y = 1970 + Pick(t, 80)
	case 1:
		y = 2 + Pick(t, 9997)
	case 2:
		y = Of(t, []int{0, 1, 4, 100, 400, 1900, 2000, 2004, 2100, 9999, 1582, 1600, 1969, 1970, 1, 0, 9998, 800, 399, 401})
	default:
		y = 100 * Pick(t, 100)
	}
	if bad {
		y = Of(t, []int{-1, 10000, -400, 12345, 292277026, -5})
	} else if Chance(t, 5) {
		y = int(uint64(DictInt(t)) % 10000)
	}
	mo, d := 1+Pick(t, 12), 1+Pick(t, 31)
	if Chance(t, 30) { // month edges
		x := Of(t, [][2]int{{2, 28}, {2, 29}, {3, 1}, {12, 31}, {1, 1}, {2, 30}, {4, 31}})
		mo, d = x[0], x[1]
	}
	h, m, s := Pick(t, 24), Pick(t, 60), Pick(t, 60)
	if Chance(t, 30) {
		x := Of(t, [][3]int{{0, 0, 0}, {23, 59, 59}, {0, 0, 1}, {12, 0, 0}, {11, 59, 59}})
		h, m, s = x[0], x[1], x[2]
	}
	ns := 0
	switch Weighted(t, 2, 2, 2, 1) {
	case 1:
		ns = Pick(t, 1e9)
	case 2:
		p := 1
		for i := Pick(t, 9); i > 0; i-- {
			p *= 10
		}
		ns = (1 + Pick(t, 999)) * p % 1e9
	case 3:
		ns = Of(t, []int{int(uint64(DictInt(t)) % 1e9), 1, 999999999, 100000000, 1000, 999999000, 10, 123000000, 1000000, 500})
	}
	loc := time.UTC
	switch Weighted(t, 4, 3, 3, 1, 4) {
	case 4: // the offset depends on the time
		loc = Of(t, Locations)
	case 1:
		loc = time.FixedZone("X", (Pick(t, 2*86399+1) - 86399))
	case 2:
		loc = time.FixedZone(Of(t, []string{"", "CET", "a\"b", "UTC", "<z>"}), Of(t, []int{0, 3600, -3600, 19800, -12600, 86340, -86340, 1800, -1800, 45 * 60, 60, -60, 30, -30, 1, -1, 3599, -3599, 50400, -43200, 86399, -86399, 59, -59, 61, -61}))
	case 3:
		loc = time.Local
		if Bool(t) {
			loc = time.FixedZone("D", int(DictInt(t)%86400))
		}
	}
	if !bad && Chance(t, 3) {
		k := []int64{1, 60, 3600, 86400, -1}[Pick(t, 5)]
		tm := time.Unix(DictInt(t)%(1<<34)*k, int64(ns)).In(loc)
		if Bool(t) {
			tm = time.Unix(DictInt(t)%(1<<40)*k-62167219200, int64(ns)).In(loc)
		}
		if tm.Year() >= 0 && tm.Year() <= 9999 {
			return tm
		}
	}
	tm := time.Date(y, time.Month(mo), d, h, m, s, ns, loc)
	if Chance(t, 20) { // near a transition
		from, to := tm.ZoneBounds()
		if x := Of(t, []time.Time{from, to}); !x.IsZero() {
			tm = x.Add(time.Duration(Pick(t, 5)-2) * Of(t, []time.Duration{1, time.Second, time.Hour}))
		}
	}
	if !bad && (tm.Year() < 0 || tm.Year() > 9999) {
		tm = time.Date(2001, 2, 3, h, m, s, ns, loc)
	}
	if tm.Year() > 1900 && tm.Year() < 2150 && Chance(t, 10) { // with a monotonic clock reading
		now := time.Now() // In would drop it
		tm = now.Add(tm.Sub(now))
	}
	return tm
}

// Locations have transitions, offsets with seconds and partial hours, and days
// that never were.
var Locations = func() []*time.Location {
	var l []*time.Location
	for _, n := range []string{"America/New_York", "Europe/London", "Europe/Dublin", "Europe/Amsterdam", "Australia/Lord_Howe", "Asia/Kolkata",
		"Asia/Kathmandu", "Pacific/Apia", "Pacific/Kiritimati", "America/St_Johns", "Africa/Monrovia", "Africa/Casablanca", "America/Sao_Paulo", "Antarctica/Troll", "Etc/GMT+12"} {
		loc, err := time.LoadLocation(n)
		if err != nil {
			panic("HARNESS-ERROR " + err.Error())
		}
		l = append(l, loc)
	}
	return append(l, time.Local)
}()

// Duration draws a duration.
func Duration(t *rapid.T) time.Duration {
	switch Weighted(t, 3, 3, 2, 1) {
	case 3:
		return time.Duration(DictInt(t)) * Of(t, []time.Duration{1, -1, 1e3, 1e6, 1e9, 60e9, 3600e9})
	case 0:
		return time.Duration(Int64(t))
	case 1:
		u := Of(t, []time.Duration{time.Nanosecond, time.Microsecond, time.Millisecond, time.Second, time.Minute, time.Hour})
		d := time.Duration(Pick(t, 2000))*u + time.Duration(Pick(t, 5)-2)
		if Chance(t, 30) {
			d = -d
		}
		return d
	default:
		return Of(t, []time.Duration{0, 1, -1, 1<<63 - 1, -1 << 63, 999, 1000, 1001, 999999, 1000000, 999999999, 1000000000, 1000000001, 59999999999, 60000000000, 3599999999999, 3600000000000, 1500000, 90 * time.Minute, -999, -1000000001})
	}
}

func (f *Filler) fill(v reflect.Value) {
	f.left--
	f.Nodes++
	f.depth++
	defer func() { f.depth-- }()
	t, p := f.t, f.p
	if !v.CanSet() {
		v = reflect.NewAt(v.Type(), v.Addr().UnsafePointer()).Elem()
	}
	typ := v.Type()
	switch typ {
	case tTime:
		bad := p.Fail && f.special() && Chance(t, 30)
		if p.Times != nil {
			v.Set(reflect.ValueOf(p.Times(t)))
		} else {
			v.Set(reflect.ValueOf(Instant(t, bad)))
		}
		return
	case tDur:
		v.SetInt(int64(Duration(t)))
		return
	case tNumber:
		v.SetString(Number(t, p.Fail && f.special()))
		return
	case tRawMsg:
		switch {
		case f.null():
			v.SetZero()
		case p.Fail && f.special():
			v.Set(reflect.ValueOf(json.RawMessage(BadDoc(t))))
		default:
			v.Set(reflect.ValueOf(json.RawMessage(Doc(t, 2, p.Valid))))
		}
		return
	case tSync:
		f.syncMap(v.Addr().Interface().(*sync.Map))
		return
	case typRawJ, typRawNRaw, typBufJ:
		s := Doc(t, 2, p.Valid)
		if p.Fail && f.special() {
			s = BadDoc(t)
		}
		if typ == typRawJ {
			v.SetString(s)
		} else {
			v.SetBytes(append(make([]byte, 0, len(s)+Pick(t, 9)), s...))
		}
		return
	case typBufT:
		s := String(t, p.Valid)
		v.SetBytes(append(make([]byte, 0, len(s)+Pick(t, 9)), s...))
		return
	case typRawT:
		v.SetString(String(t, p.Valid))
		return
	case typRawA, typRawC:
		v.SetString(Of(t, []string{"1", `"a"`, "{}", "null", `{"a":[1,2,{"b":"c\"d"}]}`, "true"}))
		return
	}
	if set, ok := probes[typ]; ok {
		f.ids++
		set(v, f.ids)
		return
	}
	if p.Zero > 0 && Chance(t, p.Zero) {
		switch typ.Kind() {
		case reflect.Slice:
			v.Set(reflect.MakeSlice(typ, 0, Pick(t, 2)))
			return
		case reflect.Map:
			v.Set(reflect.MakeMap(typ))
			return
		case reflect.Func, reflect.Interface, reflect.Ptr:
		case reflect.Struct:
			if m, _ := ref.Method(reflect.PointerTo(typ), true); m == 0 {
				return
			}
		default:
			return
		}
	}
	switch k := typ.Kind(); k {
	case reflect.Bool:
		v.SetBool(Bool(t))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if f.special() {
			v.SetInt(int64(f.code()))
		} else {
			v.SetInt(f.noCode(Int64(t)))
			if !p.Fail { // truncation may give a code
				v.SetInt(f.noCode(v.Int()))
			}
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if f.special() {
			v.SetUint(uint64(f.code()))
		} else {
			v.SetUint(Uint64(t))
			v.SetUint(uint64(f.noCode(int64(v.Uint()))))
		}
	case reflect.Float32:
		if f.special() {
			if p.Fail && Chance(t, 40) {
				v.SetFloat(float64(Float32(t, true)))
			} else {
				v.SetFloat(float64(f.code()))
			}
		} else {
			v.SetFloat(float64(Float32(t, false)))
		}
	case reflect.Float64:
		if f.special() {
			if p.Fail && Chance(t, 40) {
				v.SetFloat(Float64(t, true))
			} else {
				v.SetFloat(float64(f.code()))
			}
		} else {
			x := Float64(t, false)
			if c := int64(x); c >= 101 && c <= 108 {
				x = 5.25
			}
			v.SetFloat(x)
		}
	case reflect.String:
		v.SetString(f.str())
	case reflect.Ptr:
		f.pointer(v, p)
	case reflect.Slice:
		f.slice(v)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if i >= 40 && p.Alias { // repeated elements
				v.Index(i).Set(v.Index(i % 40))
				continue
			}
			f.fill(v.Index(i))
		}
	case reflect.Map:
		f.mapping(v)
	case reflect.Interface:
		f.iface(v)
	case reflect.Struct:
		m, _ := ref.Method(reflect.PointerTo(typ), true)
		for i := 0; i < v.NumField(); i++ {
			fv := v.Field(i)
			if sf := typ.Field(i); m != 0 && sf.Anonymous && f.depth < 20 {
				// Promoted methods must have a receiver.
				if sf.Type.Kind() == reflect.Ptr {
					e := reflect.New(sf.Type.Elem())
					f.fill(e.Elem())
					reflect.NewAt(sf.Type, fv.Addr().UnsafePointer()).Elem().Set(e)
					continue
				}
				if sf.Type.Kind() == reflect.Interface {
					for k := 0; k < 6; k++ {
						f.fill(fv)
						if !fv.IsNil() {
							break
						}
					}
					continue
				}
			}
			f.fill(fv)
		}
	case reflect.Func:
		if Chance(t, 15) {
			v.SetZero()
			return
		}
		if typ.ConvertibleTo(typFunc) {
			c := Pick(t, 50)
			if f.special() {
				c = f.code()
			}
			v.Set(reflect.ValueOf(lib.FuncOf(c)).Convert(typ))
		} else {
			v.Set(reflect.MakeFunc(typ, func([]reflect.Value) []reflect.Value { return nil }))
		}
	case reflect.Chan:
		if Chance(t, 15) {
			v.SetZero()
			return
		}
		c := Pick(t, 20)
		if f.special() {
			c = f.code()
		}
		v.Set(reflect.MakeChan(typ, c))
	}
}

// noCode avoids the codes with a special behaviour.
func (f *Filler) noCode(i int64) int64 {
	if i >= 101 && i <= 108 {
		return i - 100
	}
	return i
}

var (
	typFunc    = typ[func() int]()
	typRawJ    = typ[lib.RawJ]()
	typBufJ    = typ[lib.BufJ]()
	typBufT    = typ[lib.BufT]()
	typRawT    = typ[lib.RawT]()
	typRawA    = typ[lib.RawA]()
	typRawC    = typ[lib.RawC]()
	typRawNRaw = typ[NRaw]()
)

func (f *Filler) pointer(v reflect.Value, p *Profile) {
	typ := v.Type()
	if f.null() {
		v.SetZero()
		return
	}
	if l := f.alias[typ]; p.Alias && len(l) > 0 && Chance(f.t, 20) {
		v.Set(Of(f.t, l))
		return
	}
	e := reflect.New(typ.Elem())
	f.fill(e.Elem())
	v.Set(e.Convert(typ))
	f.alias[typ] = append(f.alias[typ], v)
}

func (f *Filler) slice(v reflect.Value) {
	typ := v.Type()
	if f.null() {
		v.SetZero()
		return
	}
	max := f.p.SliceMax
	if typ.Elem().Kind() == reflect.Uint8 {
		max = 60
		if Chance(f.t, 5) {
			max = 5000
			if Chance(f.t, 10) {
				max = 1 << (13 + Pick(f.t, 6))
			}
		}
		n := Size(f.t, max)
		if Chance(f.t, 5) {
			n = max1(DictLen(f.t, 1<<Of(f.t, []int{8, 13, 17})), 1<<17)
		}
		s := reflect.MakeSlice(typ, n, n+Pick(f.t, 3))
		special := f.p.Fail || ref.IsByteElem(typ.Elem())
		for i := 0; i < n; i++ {
			b := uint64(i * 37)
			if i < 64 {
				b = Bits(f.t, 8)
			}
			if !special && b >= 101 && b <= 108 {
				b -= 100
			}
			if f.p.Valid {
				b &= 0x7f
			}
			s.Index(i).SetUint(b & 0xff)
		}
		v.Set(s)
		return
	}
	n := f.size(max)
	if l := f.alias[typ]; f.p.Alias && len(l) > 0 && Chance(f.t, 10) {
		s := Of(f.t, l)
		v.Set(s.Slice(0, Pick(f.t, s.Len()+1)))
		return
	}
	big := n
	if n > 0 && f.p.Alias && f.depth < 4 && typ.Elem() != tSync && Chance(f.t, 2) { // long, with repeated elements
		n = min(n, 5)
		big = DictLen(f.t, 1<<Of(f.t, []int{6, 9, 11, 12, 13, 14}))
		if big < n {
			big = n
		}
		if sz := int(typ.Elem().Size()); big*sz > 1<<18 || !cheap(typ.Elem(), 3) {
			big = min(big, 300)
		}
	}
	s := reflect.MakeSlice(typ, big, big+Pick(f.t, 3))
	for i := 0; i < n; i++ {
		f.fill(s.Index(i))
	}
	for i := n; i < big; i++ {
		s.Index(i).Set(s.Index(i % n))
	}
	v.Set(s)
	f.alias[typ] = append(f.alias[typ], s)
}

// cheap returns whether the values of t are small.
func cheap(t reflect.Type, d int) bool {
	switch t.Kind() {
	case reflect.Slice, reflect.Map, reflect.Interface:
		return false
	case reflect.Ptr, reflect.Array:
		return d > 0 && cheap(t.Elem(), d-1)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if d == 0 || !cheap(t.Field(i).Type, d-1) {
				return false
			}
		}
	}
	return true
}

func (f *Filler) mapping(v reflect.Value) {
	typ := v.Type()
	if f.null() {
		v.SetZero()
		return
	}
	n := f.size(f.p.MapMax)
	m := reflect.MakeMapWithSize(typ, Pick(f.t, 3)*n)
	var ks []reflect.Value
	for i := 0; i < n; i++ {
		k := reflect.New(typ.Key()).Elem()
		f.key(k)
		if !hashable(k) {
			continue
		}
		e := reflect.New(typ.Elem()).Elem()
		f.fill(e)
		m.SetMapIndex(k, e)
		ks = append(ks, k)
	}
	if len(ks) > 2 && Chance(f.t, 20) { // churn
		for i := 0; i < len(ks)/2; i++ {
			m.SetMapIndex(Of(f.t, ks), reflect.Value{})
		}
	}
	v.Set(m)
}

func hashable(k reflect.Value) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	m := map[any]struct{}{}
	m[k.Interface()] = struct{}{}
	return true
}

func (f *Filler) key(k reflect.Value) {
	f.left--
	if k.Type() == tTime {
		k.Set(reflect.ValueOf(Instant(f.t, f.p.Fail && f.special() && Chance(f.t, 30))))
		return
	}
	if k.Kind() == reflect.Interface && f.p.NoExt {
		// nil keys make encoding/json panic
		for i := 0; i < 5 && k.IsNil(); i++ {
			f.fill(k)
		}
		if k.IsNil() && typ[lib.TextKey]().Implements(k.Type()) {
			k.Set(reflect.ValueOf(lib.TextKey{A: 1, B: "dflt"}))
		}
		return
	}
	f.fill(k)
	if f.p.KeyPrefix != "" && k.Kind() == reflect.String {
		k.SetString(f.p.KeyPrefix + k.String())
	}
}

func (f *Filler) iface(v reflect.Value) {
	if f.null() {
		v.SetZero()
		return
	}
	it := v.Type()
	var dt reflect.Type
	if it.NumMethod() == 0 {
		switch {
		case len(f.p.Dyn) > 0 && (f.p.OnlyDyn || Chance(f.t, 60)):
			dt = Of(f.t, f.p.Dyn)
		case Chance(f.t, 30):
			q := *f.p
			q.W[Zoo], q.W[Struct] = 0, 0 // do not multiply the struct types
			dt = q.Type(f.t, f.p.Depth-2)
		default:
			dt = Of(f.t, commonDyn)
		}
		if f.p.NoExt && isAppender(dt) {
			dt = typ[string]()
		}
		if dt.Kind() == reflect.Interface {
			dt = typ[map[string]any]()
		}
	} else {
		l := Implementers(it)
		if f.p.Impl != nil {
			l = nil
			for _, x := range f.p.Impl {
				if x.Implements(it) {
					l = append(l, x)
				}
			}
		}
		if len(l) == 0 {
			v.SetZero()
			return
		}
		dt = Of(f.t, l)
		if f.p.NoExt && isAppender(dt) {
			// try the ones that are not
			for i := 0; i < 8 && isAppender(dt); i++ {
				dt = Of(f.t, l)
			}
			if isAppender(dt) {
				v.SetZero()
				return
			}
		}
	}
	d := reflect.New(dt).Elem()
	f.fill(d)
	if dt.Kind() == reflect.Ptr && d.IsNil() && it.NumMethod() != 0 {
		// A nil pointer in an interface: methods with a value receiver would panic.
		e := reflect.New(dt.Elem())
		f.fill(e.Elem())
		d.Set(e)
	}
	v.Set(d)
}

var commonDyn = []reflect.Type{
	typ[string](), typ[int](), typ[float64](), typ[bool](), typ[[]any](), typ[map[string]any](), typ[*int](), typ[*string](), typ[[]int](), typ[map[int]string](),
	typ[[1]*int](), typ[struct{ P *int }](), typ[struct{ A, B int }](), typ[*struct{ A any }](), typ[NMap](), typ[NPtr](), typ[[]byte](), typ[[2]byte](), typ[time.Time](), typ[*time.Time](), typ[time.Duration](),
	typ[json.Number](), typ[json.RawMessage](), typ[[1]map[string]int](), typ[struct{ M map[string]*int }](), typ[[1][1]*string](), typ[struct{ X [1]struct{ P *int } }](), typ[struct{ A any }](), typ[[1]any](), typ[uint8](), typ[struct{}](), typ[[0]int](), typ[**int](), typ[map[string]string](), typ[[]string](), typ[error](),
	typ[lib.CodeMap](), typ[lib.CodePtr](), typ[lib.CodeArr](), typ[*lib.LS_Jp](), typ[lib.LSP_Jv](), typ[lib.LMap_Tv](), typ[lib.LFn_Jv](), typ[*lib.LInt_Tp](), typ[lib.LInt_Jp](), typ[*lib.LA1P_CvApJpTv](), typ[lib.LCh_Tv](), typ[*lib.LCh_Jp](),
	typ[alt.LInt_Jv](), typ[alt.LStr_Tv](), typ[*alt.LS_Jp](), typ[alt.LMap_None](), typ[lib.LInt_Jv](), typ[lib.LMap_None](), typ[alt.LInt_Jp](), typ[alt.LS_None](),
}

var syncKeys = []reflect.Type{typ[string](), typ[string](), typ[int](), typ[NStr](), typ[uint8](), typ[int64](), tDur, tTime, typ[lib.TextKey](), typ[*lib.PtrTextKey](), typ[lib.LInt_JvTv](), typ[lib.LInt_Jv](), typ[lib.LStr_CvAvJvTv](), typ[lib.LSP_Tv](), typ[*lib.LS_Tp](), typ[lib.LA1P_Tv](), typ[lib.LI8_AvTv](), typ[lib.LCh_Tv](), typ[json.Number](), typ[uintptr](), typ[*lib.LInt_Tv]()}
var badSyncKeys = []reflect.Type{typ[bool](), typ[float64](), typ[PlainKey](), typ[*int](), typ[lib.LBool_Jv]()}

func (f *Filler) syncMap(m *sync.Map) {
	n := f.size(f.p.MapMax)
	var ks []any
	for i := 0; i < n; i++ {
		kt := Of(f.t, syncKeys)
		if f.p.SyncKeys != nil {
			kt = Of(f.t, f.p.SyncKeys)
		}
		if f.p.Fail && f.special() && Chance(f.t, 30) {
			kt = Of(f.t, badSyncKeys)
		}
		k := reflect.New(kt).Elem()
		f.key(k)
		if !hashable(k) {
			continue
		}
		if f.p.Fail && Chance(f.t, 1) {
			k = reflect.New(tAny).Elem() // nil key
		}
		e := reflect.New(tAny).Elem()
		f.fill(e)
		switch Pick(f.t, 8) {
		case 0:
			m.LoadOrStore(k.Interface(), e.Interface())
		case 1:
			m.Swap(k.Interface(), e.Interface())
		default:
			m.Store(k.Interface(), e.Interface())
		}
		ks = append(ks, k.Interface())
		switch Pick(f.t, 16) {
		case 1:
			m.Delete(Of(f.t, ks))
		case 2:
			m.Range(func(k, v any) bool { return true })
		case 3:
			m.Load(Of(f.t, ks))
		case 4:
			m.LoadAndDelete(Of(f.t, ks))
		}
	}
}
