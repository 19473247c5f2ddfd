// Package lib has leaf types with every combination of underlying kind,
// marshaling methods and receivers, and a recorder of the calls made to them.
package lib

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"strconv"
	"unsafe"
)

// Leaf describes a generated type. Set has one letter per method (J, T, A, C),
// upper case for a value receiver, lower case for a pointer receiver.
type Leaf struct {
	Type reflect.Type
	Kind string
	Set  string
}

// Codes that make a marshaling method do something special.
const (
	CodeError   = 101 // returns an error
	CodeNull    = 102 // returns null (text: "null")
	CodeInvalid = 103 // MarshalJSON returns invalid JSON
	CodeSpace   = 104 // MarshalJSON returns indented JSON
	CodeHTML    = 105 // output with characters to escape
	CodeEmpty   = 106 // MarshalText returns nothing
	CodeBadUTF8 = 107 // text with invalid UTF-8, control characters
	CodeLong    = 108 // long output
)

var Special = []int{CodeError, CodeNull, CodeInvalid, CodeSpace, CodeHTML, CodeEmpty, CodeBadUTF8, CodeLong}

// StrSpecial are the strings with a special code.
var StrSpecial = map[string]int{
	"!err": CodeError, "!null": CodeNull, "!bad": CodeInvalid, "!sp": CodeSpace,
	"!html": CodeHTML, "!empty": CodeEmpty, "!utf8": CodeBadUTF8, "!long": CodeLong,
}

var StrSpecialName = func() map[int]string {
	m := map[int]string{}
	for k, v := range StrSpecial {
		m[v] = k
	}
	return m
}()

// ErrBoom is wrapped by every error that the methods return.
var ErrBoom = errors.New("boom")

// BoomError is the error returned by the methods.
type BoomError struct{ Type, Meth string }

func (e *BoomError) Error() string { return "boom from " + e.Meth + " of " + e.Type }
func (e *BoomError) Unwrap() error { return ErrBoom }

// ErrMakers make the errors that the methods return, besides BoomError.
var ErrMakers = []func(base *BoomError) error{
	func(b *BoomError) error { return fmt.Errorf("wrapped: %w", b) },
	func(b *BoomError) error { return errors.Join(io.ErrUnexpectedEOF, b) },
	func(*BoomError) error { return io.EOF },
	func(*BoomError) error { return context.Canceled },
	func(b *BoomError) error { return &json.MarshalerError{Type: reflect.TypeOf(0), Err: b} },
	func(b *BoomError) error { return &json.UnsupportedTypeError{Type: reflect.TypeOf(0)} },
	func(b *BoomError) error { return ErrSlice{b} },
	func(b *BoomError) error { return (*NilError)(nil) },
	func(b *BoomError) error { return os.NewSyscallError("call", b) },
}

// ErrSlice is an error type that is not comparable.
type ErrSlice []error

func (e ErrSlice) Error() string   { return "errors: " + e[0].Error() }
func (e ErrSlice) Unwrap() []error { return e }

// NilError is an error when it is nil.
type NilError struct{}

func (e *NilError) Error() string { return "nil error <&>\n\"" }

// ErrOf returns the error that a method returns.
func ErrOf(typ, meth string) error {
	b := &BoomError{typ, meth}
	h := strCode(typ+"."+meth) - 1000
	if h %= len(ErrMakers) * 3 / 2; h < len(ErrMakers) {
		return ErrMakers[h](b)
	}
	return b
}

// Call is one call of a marshaling method.
type Call struct {
	Type string
	Meth byte
	Code int
	Ptr  unsafe.Pointer // address of a pointer receiver
}

// Rec, when not nil, records the calls. Single goroutine use only.
var Rec *[]Call

// Valid makes every output of MarshalJSON valid UTF-8.
var Valid bool

// Hook, when not nil, is called by every method.
var Hook func()

// CtxCall, when not nil, is called by every AppendJSONContext method.
var CtxCall func(ctx context.Context, dst []byte, out []byte)

func note(typ string, meth byte, code int, p unsafe.Pointer) {
	if Rec != nil {
		*Rec = append(*Rec, Call{typ, meth, code, p})
	}
	if Hook != nil {
		Hook()
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func strCode(s string) int {
	if c, ok := StrSpecial[s]; ok {
		return c
	}
	h := 0
	for i := 0; i < len(s); i++ {
		h = (h*31 + int(s[i])) & 0xffff
	}
	return 1000 + h
}

func slCode(x []int) int {
	if len(x) == 0 {
		return -len(x)
	}
	return x[0]
}

func bsCode(x []byte) int {
	if len(x) == 0 {
		return 0
	}
	return int(x[0])
}

func pCode(p *int) int {
	if p == nil {
		return -1
	}
	return *p
}

func fnCode(f func() int) int {
	if f == nil {
		return -2
	}
	return f()
}

func long(typ string) string {
	b := make([]byte, 0, 6000)
	for len(b) < 5000 {
		b = append(b, typ...)
		b = append(b, '.')
	}
	return string(b)
}

func doJSON(typ string, code int, p unsafe.Pointer) ([]byte, error) {
	note(typ, 'J', code, p)
	switch code {
	case CodeError:
		return []byte(`"partial"`), ErrOf(typ, "J")
	case CodeNull:
		return []byte("null"), nil
	case CodeInvalid:
		return []byte(`{"a":[1,2}`), nil
	case CodeSpace:
		return []byte(" {\n\t\"J\" : \"a b\\\" c \\\\\" , \"" + typ + "\" :\r\n [ 1 , 2 , { } ] } \n"), nil
	case CodeHTML:
		return []byte(`{"J<>&":"` + typ + " \u2028\u2029 é<b> " + `\u003c\"&"}`), nil
	case CodeEmpty:
		return []byte(`""`), nil
	case CodeBadUTF8:
		if Valid {
			return []byte("[\"a\u00ffb\", \"\xe2\x80\xa8\"]"), nil
		}
		return []byte("[\"a\xffb\xe2\x80\", \"\xe2\x80\xa8\"]"), nil
	case CodeLong:
		return []byte(`"` + long(typ) + `"`), nil
	}
	return []byte(`{"J":"` + typ + `","c":` + strconv.Itoa(code) + `}`), nil
}

func doText(typ string, code int, p unsafe.Pointer) ([]byte, error) {
	note(typ, 'T', code, p)
	switch code {
	case CodeError:
		return []byte(`partial`), ErrOf(typ, "T")
	case CodeNull:
		return []byte("null"), nil
	case CodeInvalid:
		return []byte(`a"b\c`), nil
	case CodeSpace:
		return []byte(" a b\t\n\r"), nil
	case CodeHTML:
		return []byte("T<>&" + typ + "\u2028"), nil
	case CodeEmpty:
		return nil, nil
	case CodeBadUTF8:
		return []byte("T\xff\x00\x1f\x7f\xe2\x80"), nil
	case CodeLong:
		return []byte(long(typ)), nil
	}
	return []byte("T:" + typ + ":" + strconv.Itoa(code)), nil
}

func appendOut(dst []byte, m byte, typ string, code int) ([]byte, error) {
	switch code {
	case CodeError:
		return append(dst, `"partial`...), ErrOf(typ, string(m))
	case CodeNull:
		return append(dst, "null"...), nil
	case CodeSpace:
		return append(dst, `{"`+string(m)+`":"a b\" c","x":[]}`...), nil
	case CodeHTML:
		return append(dst, "\"<>&\u2028"+typ+`"`...), nil
	case CodeEmpty:
		return append(dst, `""`...), nil
	case CodeLong:
		return append(dst, `"`+long(typ)+`"`...), nil
	}
	dst = append(dst, `{"`...)
	dst = append(dst, m)
	dst = append(dst, `":"`...)
	dst = append(dst, typ...)
	dst = append(dst, `","c":`...)
	dst = strconv.AppendInt(dst, int64(code), 10)
	return append(dst, '}'), nil
}

func doAppend(dst []byte, typ string, code int, p unsafe.Pointer) ([]byte, error) {
	note(typ, 'A', code, p)
	return appendOut(dst, 'A', typ, code)
}

func doCtx(ctx context.Context, dst []byte, typ string, code int, p unsafe.Pointer) ([]byte, error) {
	note(typ, 'C', code, p)
	n := len(dst)
	out, err := appendOut(dst, 'C', typ, code)
	if CtxCall != nil {
		CtxCall(ctx, out[:n], out[n:])
	}
	return out, err
}

// FuncOf returns a func() int returning code.
func FuncOf(code int) func() int { return func() int { return code } }

func (c Call) String() string {
	return fmt.Sprintf("%s.%c(code=%d ptr=%v)", c.Type, c.Meth, c.Code, c.Ptr)
}

// ByName returns the leaf with the given type name.
func ByName(name string) Leaf {
	for _, l := range Leaves {
		if l.Type.Name() == name {
			return l
		}
	}
	panic("no leaf " + name)
}

// Interfaces with methods, used as static types.
type (
	Coder     interface{ Code() int }
	Empty     interface{}
	Anything  any
	JSONer    interface{ MarshalJSON() ([]byte, error) }
	Texter    interface{ MarshalText() ([]byte, error) }
	Appender  interface{ AppendJSON([]byte) ([]byte, error) }
	CtxAppend interface {
		AppendJSONContext(context.Context, []byte) ([]byte, error)
	}
	JSONText interface {
		JSONer
		Texter
	}
	hidden interface{ hidden() }
)

// Hidden is an interface type with an unexported method.
var Hidden = reflect.TypeOf((*hidden)(nil)).Elem()

// Types implementing Coder and hidden, without marshaling methods.
type (
	CodeInt    int
	CodeStr    string
	CodeMap    map[string]int
	CodeStruct struct{ X, Y int }
	CodePtr    struct{ P *int }
	CodeArr    [1]*int
)

func (x CodeInt) Code() int    { return int(x) }
func (x CodeStr) Code() int    { return len(x) }
func (x CodeMap) Code() int    { return len(x) }
func (x CodeStruct) Code() int { return x.X }
func (x CodePtr) Code() int    { return pCode(x.P) }
func (x CodeArr) Code() int    { return pCode(x[0]) }

func (x CodeInt) hidden()     {}
func (x CodeMap) hidden()     {}
func (x *CodeStruct) hidden() {}
func (x CodePtr) hidden()     {}

// Errors used as values of type error.
type ErrStruct struct {
	Msg  string
	Code int
}

func (e ErrStruct) Error() string { return e.Msg }

type ErrString string

func (e ErrString) Error() string { return string(e) }

// RawJ, RawT, RawA and RawC return their own content.
type (
	RawJ string
	RawT string
	RawA string
	RawC string
)

func (x RawJ) MarshalJSON() ([]byte, error) { note("RawJ", 'J', len(x), nil); return []byte(x), nil }
func (x RawT) MarshalText() ([]byte, error) { note("RawT", 'T', len(x), nil); return []byte(x), nil }
func (x RawA) AppendJSON(dst []byte) ([]byte, error) {
	note("RawA", 'A', len(x), nil)
	return append(dst, x...), nil
}
func (x RawC) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	note("RawC", 'C', len(x), nil)
	n := len(dst)
	out := append(dst, x...)
	if CtxCall != nil {
		CtxCall(ctx, out[:n], out[n:])
	}
	return out, nil
}

// BufJ and BufT return their own memory.
type (
	BufJ []byte
	BufT []byte
)

func (x BufJ) MarshalJSON() ([]byte, error) { note("BufJ", 'J', len(x), nil); return x, nil }
func (x BufT) MarshalText() ([]byte, error) { note("BufT", 'T', len(x), nil); return x, nil }

// TextKey, TextPtrKey are struct map keys.
type TextKey struct {
	A int
	B string
}

func (x TextKey) MarshalText() ([]byte, error) {
	note("TextKey", 'T', x.A, nil)
	if x.B == "!err" {
		return nil, ErrOf("TextKey", "T")
	}
	return []byte(x.B + "/" + strconv.Itoa(x.A)), nil
}

// PtrTextKey implements TextMarshaler on its pointer only.
type PtrTextKey struct{ S string }

func (x *PtrTextKey) MarshalText() ([]byte, error) {
	note("PtrTextKey", 'T', len(x.S), unsafe.Pointer(x))
	return []byte(x.S), nil
}

// BigKey is a map key of more than 128 bytes.
type BigKey struct {
	A [16]uint64
	B string
}

func (x BigKey) MarshalText() ([]byte, error) {
	note("BigKey", 'T', int(x.A[0]), nil)
	return []byte("B" + strconv.FormatUint(x.A[0], 36) + x.B), nil
}

// SharedK and SharedJ return the same memory at every call. Single goroutine
// use only.
type (
	SharedK int
	SharedJ int
)

var sharedK, sharedJ = make([]byte, 0, 64), make([]byte, 0, 64)

func (x SharedK) MarshalText() ([]byte, error) {
	note("SharedK", 'T', int(x), nil)
	sharedK = append(strconv.AppendInt(sharedK[:0], int64(x), 7), 'k')
	return sharedK, nil
}

func (x SharedJ) MarshalJSON() ([]byte, error) {
	note("SharedJ", 'J', int(x), nil)
	sharedJ = append(append(strconv.AppendInt(append(sharedJ[:0], '['), int64(x), 10), ' '), ']')
	return sharedJ, nil
}
