// Package lib has types with the same names as types of jverif/lib, and with
// other kinds and methods.
package lib

import (
	"encoding/json"
	"reflect"
	"strconv"
)

type (
	LInt_Jv   int
	LInt_None string
	LStr_Tv   string
	LS_Jp     struct{ Q string }
	LMap_None map[int]bool
	TextKey   struct{ B int }
	CodeInt   string
	CodeMap   []string
	RawJ      string
	LInt_Jp   struct{ P *int }
	LStr_None int8
	LS_None   [1]map[string]int
)

func (x LStr_Tv) MarshalJSON() ([]byte, error) { return json.Marshal("alt " + string(x)) }
func (x *LS_Jp) MarshalText() ([]byte, error)  { return []byte("alt " + x.Q), nil }
func (x TextKey) MarshalText() ([]byte, error) {
	return strconv.AppendInt([]byte("alt"), int64(x.B), 10), nil
}
func (x CodeInt) Code() int { return len(x) }
func (x CodeMap) Code() int { return len(x) }

// Types are the types of the package.
var Types = []reflect.Type{
	reflect.TypeOf(LInt_Jv(0)), reflect.TypeOf(LInt_None("")), reflect.TypeOf(LStr_Tv("")), reflect.TypeOf(LS_Jp{}), reflect.TypeOf(LMap_None(nil)), reflect.TypeOf(TextKey{}),
	reflect.TypeOf(CodeInt("")), reflect.TypeOf(CodeMap(nil)), reflect.TypeOf(RawJ("")), reflect.TypeOf(LInt_Jp{}), reflect.TypeOf(LStr_None(0)), reflect.TypeOf(LS_None{}),
}
