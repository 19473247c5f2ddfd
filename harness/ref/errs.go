package ref

import (
	"context"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/wI2L/jettison"

	"jverif/lib"
)

func init() {
	lib.ErrMakers = append(lib.ErrMakers,
		func(b *lib.BoomError) error { return &jettison.MarshalerError{Type: reflect.TypeOf(""), Err: b} },
		func(b *lib.BoomError) error { return &jettison.UnsupportedTypeError{Type: reflect.TypeOf("")} },
		func(b *lib.BoomError) error { return &jettison.UnsupportedValueError{Str: "inner"} },
		func(b *lib.BoomError) error { return &jettison.InvalidOptionError{Err: b} },
		func(b *lib.BoomError) error { // of a nested call
			_, err := jettison.Marshal(b2(b.Type))
			return err
		},
	)
}

type b2 string

func (x b2) MarshalText() ([]byte, error) {
	return nil, &lib.BoomError{Type: string(x), Meth: "nested"}
}

// CheckErr returns "" if err is one of the admissible errors, or else why not.
func CheckErr(err error, specs []ErrSpec) string {
	if err == nil {
		return fmt.Sprintf("no error, want one of %v", specs)
	}
	var why string
	for _, s := range specs {
		if why = s.check(err); why == "" {
			return ""
		}
	}
	return fmt.Sprintf("error %T %q is none of %v (%s)", err, err, specs, why)
}

func (s ErrSpec) check(err error) string {
	if s.Msg != "" && err.Error() != s.Msg {
		return fmt.Sprintf("message is not %q", s.Msg)
	}
	var (
		ute *jettison.UnsupportedTypeError
		uve *jettison.UnsupportedValueError
		me  *jettison.MarshalerError
	)
	switch s.Kind {
	case UnsupType:
		if !errors.As(err, &ute) {
			return "not an UnsupportedTypeError"
		}
		if ute.Type != s.Type {
			return fmt.Sprintf("names %v, not %v", ute.Type, s.Type)
		}
	case UnsupValue:
		if !errors.As(err, &uve) {
			return "not an UnsupportedValueError"
		}
	case Marshaler:
		if !errors.As(err, &me) {
			return "not a MarshalerError"
		}
		if me.Type != s.Type {
			return fmt.Sprintf("names %v, not %v", me.Type, s.Type)
		}
		if pre := fmt.Sprintf("json: error calling %s for type %v: ", s.Func, s.Type); !strings.HasPrefix(err.Error(), pre) {
			return fmt.Sprintf("the text does not start with %q", pre)
		}
		if s.Err != nil {
			// The error of the method must be reachable.
			if me.Err == nil || me.Err.Error() != s.Err.Error() {
				return fmt.Sprintf("wraps %v, not %v", me.Err, s.Err)
			}
			if reflect.TypeOf(me.Err) != reflect.TypeOf(s.Err) {
				return fmt.Sprintf("wraps a %T, not a %T", me.Err, s.Err)
			}
			for _, x := range []error{lib.ErrBoom, io.EOF, io.ErrUnexpectedEOF, context.Canceled} {
				if errors.Is(s.Err, x) && !errors.Is(err, x) {
					return fmt.Sprintf("errors.Is does not reach %v, the error of the method", x)
				}
			}
		}
	default:
		if errors.As(err, &ute) || errors.As(err, &uve) {
			return "unexpected error type"
		}
	}
	return ""
}
