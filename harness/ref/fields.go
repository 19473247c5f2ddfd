package ref

import (
	"reflect"
	"sort"
	"strings"
	"sync"
	"unicode"
)

// Field is a struct field to encode.
type Field struct {
	Name                       string
	Index                      []int
	Type                       reflect.Type
	Tagged                     bool
	OmitEmpty, OmitNil, Quoted bool
}

var fieldCache sync.Map

// Fields returns the fields of t to encode, in order.
func Fields(t reflect.Type) []Field {
	if f, ok := fieldCache.Load(t); ok {
		return f.([]Field)
	}
	f := fields(t)
	fieldCache.Store(t, f)
	return f
}

type embed struct {
	t     reflect.Type
	index []int
}

func fields(t reflect.Type) []Field {
	byName := map[string][]Field{} // candidates
	level := []embed{{t, nil}}
	mult := map[reflect.Type]int{t: 1} // occurrences of a type at this level
	seen := map[reflect.Type]bool{}
	for len(level) > 0 {
		var next []embed
		nmult := map[reflect.Type]int{}
		for _, em := range level {
			if seen[em.t] {
				continue
			}
			seen[em.t] = true
			for i := 0; i < em.t.NumField(); i++ {
				sf := em.t.Field(i)
				st := sf.Type
				dt := st // dereferenced
				if dt.Kind() == reflect.Ptr {
					dt = dt.Elem()
				}
				if !sf.IsExported() && !(sf.Anonymous && dt.Kind() == reflect.Struct) {
					continue
				}
				tag := sf.Tag.Get("json")
				if tag == "-" {
					continue
				}
				parts := strings.Split(tag, ",")
				name := parts[0]
				if !validName(name) {
					name = ""
				}
				opt := map[string]bool{}
				for _, p := range parts[1:] {
					opt[p] = true
				}
				index := append(append([]int{}, em.index...), i)
				if st.Name() != "" {
					dt = st // a named pointer type is not an embedded struct
				}
				if sf.Anonymous && name == "" && dt.Kind() == reflect.Struct {
					nmult[dt]++
					if nmult[dt] == 1 {
						next = append(next, embed{dt, index})
					}
					continue
				}
				f := Field{
					Name: name, Index: index, Type: st, Tagged: name != "",
					OmitEmpty: opt["omitempty"], OmitNil: opt["omitnil"],
					Quoted: opt["string"] && isBasic(dt.Kind()),
				}
				if name == "" {
					f.Name = sf.Name
				}
				byName[f.Name] = append(byName[f.Name], f)
				if mult[em.t] > 1 {
					byName[f.Name] = append(byName[f.Name], f)
				}
			}
		}
		level, mult = next, nmult
	}
	var out []Field
	for _, c := range byName {
		depth := len(c[0].Index)
		for _, f := range c {
			if len(f.Index) < depth {
				depth = len(f.Index)
			}
		}
		var tagged, plain []Field
		for _, f := range c {
			if len(f.Index) != depth {
				continue
			}
			if f.Tagged {
				tagged = append(tagged, f)
			} else {
				plain = append(plain, f)
			}
		}
		switch {
		case len(tagged) == 1:
			out = append(out, tagged[0])
		case len(tagged) == 0 && len(plain) == 1:
			out = append(out, plain[0])
		}
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i].Index, out[j].Index
		for k := range a {
			if k >= len(b) {
				return false
			}
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
	return out
}

func validName(s string) bool {
	for _, c := range s {
		if !unicode.IsLetter(c) && !unicode.IsDigit(c) && !strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c) {
			return false
		}
	}
	return s != ""
}
