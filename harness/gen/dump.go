package gen

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Dump describes a value. With addr, it includes addresses and the whole
// backing arrays, so that two dumps are equal only if nothing was modified.
func Dump(v reflect.Value, addr bool) string {
	d := &dumper{addr: addr, seen: &seenSet{m: map[seenKey]bool{}}, left: 4000}
	if addr {
		d.left = 1 << 20
	}
	d.dump(v, false, 0)
	return d.sb.String()
}

type seenKey struct {
	t reflect.Type
	p uintptr
	n int
}

type dumper struct {
	sb   strings.Builder
	addr bool
	seen *seenSet
	left int
}

func (d *dumper) sub() *dumper { return &dumper{addr: d.addr, seen: d.seen, left: d.left} }

func typeName(t reflect.Type) string {
	s := t.String()
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func (d *dumper) dump(v reflect.Value, typed bool, depth int) {
	w := func(f string, a ...any) { fmt.Fprintf(&d.sb, f, a...) }
	if !v.IsValid() {
		w("nil")
		return
	}
	if d.left--; d.left < 0 || depth > 200 && (!d.addr || depth > 6000) {
		w("...")
		return
	}
	t := v.Type()
	if t == tSync {
		if d.addr {
			if !v.CanAddr() {
				w("sync.Map")
				return
			}
			w("sync.Map@%x", v.UnsafeAddr())
		}
		var l []string
		m := (*sync.Map)(nil)
		if v.CanAddr() {
			m = (*sync.Map)(v.Addr().UnsafePointer())
		} else {
			if !v.CanInterface() {
				w("sync.Map")
				return
			}
			c := reflect.New(t)
			c.Elem().Set(v)
			m = c.Interface().(*sync.Map)
		}
		m.Range(func(k, e any) bool {
			s := d.sub()
			s.seen = &seenSet{map[seenKey]bool{}, d.seen}
			s.dump(reflect.ValueOf(k), true, depth+1)
			s.sb.WriteString(":")
			s.dump(reflect.ValueOf(e), true, depth+1)
			l = append(l, s.sb.String())
			return true
		})
		sort.Strings(l)
		w("sync.Map{%s}", strings.Join(l, ", "))
		return
	}
	named := t.PkgPath() != "" || typed
	switch t.Kind() {
	case reflect.Bool:
		if named {
			w("%s(%v)", typeName(t), v.Bool())
		} else {
			w("%v", v.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		w("%s(%d)", typeName(t), v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		w("%s(%d)", typeName(t), v.Uint())
	case reflect.Float32, reflect.Float64:
		w("%s(%s)", typeName(t), strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.String:
		s := v.String()
		if !d.addr && len(s) > 400 {
			s = s[:200] + fmt.Sprintf("...(%d bytes)", len(s))
		}
		if named {
			w("%s(%q)", typeName(t), s)
		} else {
			w("%q", s)
		}
	case reflect.Ptr:
		if v.IsNil() {
			w("(%s)(nil)", typeName(t))
			return
		}
		k := seenKey{t, v.Pointer(), 0}
		if d.addr {
			w("@%x", v.Pointer())
		}
		if d.seen.has(k) {
			w("&(seen)")
			return
		}
		d.seen.m[k] = true
		w("&")
		d.dump(v.Elem(), true, depth+1)
		if !d.addr {
			delete(d.seen.m, k)
		}
	case reflect.Interface:
		if v.IsNil() {
			w("nil")
			return
		}
		d.dump(v.Elem(), true, depth+1)
	case reflect.Slice:
		if v.IsNil() {
			w("%s(nil)", typeName(t))
			return
		}
		k := seenKey{t, v.Pointer(), v.Len()}
		if d.seen.has(k) && v.Len() > 0 {
			w("%s(seen)", typeName(t))
			return
		}
		d.seen.m[k] = true
		if d.addr {
			w("@%x,%d,%d", v.Pointer(), v.Len(), v.Cap())
			v = v.Slice(0, v.Cap())
		}
		w("%s", typeName(t))
		if t.Elem().Kind() == reflect.Uint8 {
			b := v.Bytes()
			if !d.addr && len(b) > 100 {
				w("(%q...%d bytes)", b[:50], len(b))
			} else {
				w("(%q)", b)
			}
		} else {
			d.elems(v, depth)
		}
		if !d.addr {
			delete(d.seen.m, k)
		}
	case reflect.Array:
		w("%s", typeName(t))
		d.elems(v, depth)
	case reflect.Map:
		if v.IsNil() {
			w("%s(nil)", typeName(t))
			return
		}
		k := seenKey{t, v.Pointer(), 0}
		if d.addr {
			w("@%x", v.Pointer())
		}
		if d.seen.has(k) {
			w("map(seen)")
			return
		}
		d.seen.m[k] = true
		var l []string
		for it := v.MapRange(); it.Next(); {
			s := d.sub()
			if v.Len() > 1 { // the order must not matter
				s.seen = &seenSet{map[seenKey]bool{}, d.seen}
			}
			s.dump(it.Key(), false, depth+1)
			s.sb.WriteString(":")
			s.dump(it.Value(), false, depth+1)
			l = append(l, s.sb.String())
		}
		sort.Strings(l)
		w("%s{%s}", typeName(t), strings.Join(l, ", "))
		if !d.addr {
			delete(d.seen.m, k)
		}
	case reflect.Struct:
		if t == tTime {
			if v.CanInterface() {
				w("time.Time(%v)", v.Interface())
				return
			}
		}
		w("%s{", typeName(t))
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				w(", ")
			}
			w("%s:", t.Field(i).Name)
			d.dump(v.Field(i), false, depth+1)
		}
		w("}")
	case reflect.Chan:
		w("%s(nil=%v,cap=%d)", typeName(t), v.IsNil(), v.Cap())
	default:
		if d.addr && (t.Kind() == reflect.Func || t.Kind() == reflect.UnsafePointer) {
			w("%s@%x", typeName(t), v.Pointer())
			return
		}
		w("%s(%s)", typeName(t), t.Kind())
	}
}

// seenSet is what has been seen, here and in what encloses it.
type seenSet struct {
	m  map[seenKey]bool
	up *seenSet
}

func (s *seenSet) has(k seenKey) bool {
	for ; s != nil; s = s.up {
		if s.m[k] {
			return true
		}
	}
	return false
}

func (d *dumper) elems(v reflect.Value, depth int) {
	d.sb.WriteString("{")
	for i := 0; i < v.Len(); i++ {
		if i > 0 {
			d.sb.WriteString(", ")
		}
		d.dump(v.Index(i), false, depth+1)
		if d.left < 0 {
			break
		}
	}
	d.sb.WriteString("}")
}
