// Code generated by gen.py. DO NOT EDIT.

package lib

import (
	"context"
	"reflect"
	"unsafe"
)

var _ unsafe.Pointer

type LBool_None bool

type LBool_Jv bool

func (x LBool_Jv) MarshalJSON() ([]byte, error) { return doJSON("LBool_Jv", b2i(bool(x)), nil) }

type LBool_Jp bool

func (x *LBool_Jp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LBool_Jp", -1, nil)
	}
	return doJSON("LBool_Jp", b2i(bool(*x)), unsafe.Pointer(x))
}

type LBool_Tv bool

func (x LBool_Tv) MarshalText() ([]byte, error) { return doText("LBool_Tv", b2i(bool(x)), nil) }

type LBool_Tp bool

func (x *LBool_Tp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LBool_Tp", -1, nil)
	}
	return doText("LBool_Tp", b2i(bool(*x)), unsafe.Pointer(x))
}

type LBool_Av bool

func (x LBool_Av) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LBool_Av", b2i(bool(x)), nil)
}

type LBool_Ap bool

func (x *LBool_Ap) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LBool_Ap", -1, nil)
	}
	return doAppend(dst, "LBool_Ap", b2i(bool(*x)), unsafe.Pointer(x))
}

type LBool_Cv bool

func (x LBool_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LBool_Cv", b2i(bool(x)), nil)
}

type LBool_Cp bool

func (x *LBool_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LBool_Cp", -1, nil)
	}
	return doCtx(ctx, dst, "LBool_Cp", b2i(bool(*x)), unsafe.Pointer(x))
}

type LBool_JvTv bool

func (x LBool_JvTv) MarshalJSON() ([]byte, error) { return doJSON("LBool_JvTv", b2i(bool(x)), nil) }
func (x LBool_JvTv) MarshalText() ([]byte, error) { return doText("LBool_JvTv", b2i(bool(x)), nil) }

type LBool_JvTp bool

func (x LBool_JvTp) MarshalJSON() ([]byte, error) { return doJSON("LBool_JvTp", b2i(bool(x)), nil) }
func (x *LBool_JvTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LBool_JvTp", -1, nil)
	}
	return doText("LBool_JvTp", b2i(bool(*x)), unsafe.Pointer(x))
}

type LBool_JpTv bool

func (x *LBool_JpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LBool_JpTv", -1, nil)
	}
	return doJSON("LBool_JpTv", b2i(bool(*x)), unsafe.Pointer(x))
}
func (x LBool_JpTv) MarshalText() ([]byte, error) { return doText("LBool_JpTv", b2i(bool(x)), nil) }

type LBool_JpTp bool

func (x *LBool_JpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LBool_JpTp", -1, nil)
	}
	return doJSON("LBool_JpTp", b2i(bool(*x)), unsafe.Pointer(x))
}
func (x *LBool_JpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LBool_JpTp", -1, nil)
	}
	return doText("LBool_JpTp", b2i(bool(*x)), unsafe.Pointer(x))
}

type LBool_AvJv bool

func (x LBool_AvJv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LBool_AvJv", b2i(bool(x)), nil)
}
func (x LBool_AvJv) MarshalJSON() ([]byte, error) { return doJSON("LBool_AvJv", b2i(bool(x)), nil) }

type LBool_ApJv bool

func (x *LBool_ApJv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LBool_ApJv", -1, nil)
	}
	return doAppend(dst, "LBool_ApJv", b2i(bool(*x)), unsafe.Pointer(x))
}
func (x LBool_ApJv) MarshalJSON() ([]byte, error) { return doJSON("LBool_ApJv", b2i(bool(x)), nil) }

type LBool_AvJp bool

func (x LBool_AvJp) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LBool_AvJp", b2i(bool(x)), nil)
}
func (x *LBool_AvJp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LBool_AvJp", -1, nil)
	}
	return doJSON("LBool_AvJp", b2i(bool(*x)), unsafe.Pointer(x))
}

type LBool_AvTv bool

func (x LBool_AvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LBool_AvTv", b2i(bool(x)), nil)
}
func (x LBool_AvTv) MarshalText() ([]byte, error) { return doText("LBool_AvTv", b2i(bool(x)), nil) }

type LBool_ApTp bool

func (x *LBool_ApTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LBool_ApTp", -1, nil)
	}
	return doAppend(dst, "LBool_ApTp", b2i(bool(*x)), unsafe.Pointer(x))
}
func (x *LBool_ApTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LBool_ApTp", -1, nil)
	}
	return doText("LBool_ApTp", b2i(bool(*x)), unsafe.Pointer(x))
}

type LBool_CvAv bool

func (x LBool_CvAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LBool_CvAv", b2i(bool(x)), nil)
}
func (x LBool_CvAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LBool_CvAv", b2i(bool(x)), nil)
}

type LBool_CpAv bool

func (x *LBool_CpAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LBool_CpAv", -1, nil)
	}
	return doCtx(ctx, dst, "LBool_CpAv", b2i(bool(*x)), unsafe.Pointer(x))
}
func (x LBool_CpAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LBool_CpAv", b2i(bool(x)), nil)
}

type LBool_CvAp bool

func (x LBool_CvAp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LBool_CvAp", b2i(bool(x)), nil)
}
func (x *LBool_CvAp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LBool_CvAp", -1, nil)
	}
	return doAppend(dst, "LBool_CvAp", b2i(bool(*x)), unsafe.Pointer(x))
}

type LBool_CvJv bool

func (x LBool_CvJv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LBool_CvJv", b2i(bool(x)), nil)
}
func (x LBool_CvJv) MarshalJSON() ([]byte, error) { return doJSON("LBool_CvJv", b2i(bool(x)), nil) }

type LBool_CpTv bool

func (x *LBool_CpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LBool_CpTv", -1, nil)
	}
	return doCtx(ctx, dst, "LBool_CpTv", b2i(bool(*x)), unsafe.Pointer(x))
}
func (x LBool_CpTv) MarshalText() ([]byte, error) { return doText("LBool_CpTv", b2i(bool(x)), nil) }

type LBool_ApJpTp bool

func (x *LBool_ApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LBool_ApJpTp", -1, nil)
	}
	return doAppend(dst, "LBool_ApJpTp", b2i(bool(*x)), unsafe.Pointer(x))
}
func (x *LBool_ApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LBool_ApJpTp", -1, nil)
	}
	return doJSON("LBool_ApJpTp", b2i(bool(*x)), unsafe.Pointer(x))
}
func (x *LBool_ApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LBool_ApJpTp", -1, nil)
	}
	return doText("LBool_ApJpTp", b2i(bool(*x)), unsafe.Pointer(x))
}

type LBool_CvAvJvTv bool

func (x LBool_CvAvJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LBool_CvAvJvTv", b2i(bool(x)), nil)
}
func (x LBool_CvAvJvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LBool_CvAvJvTv", b2i(bool(x)), nil)
}
func (x LBool_CvAvJvTv) MarshalJSON() ([]byte, error) {
	return doJSON("LBool_CvAvJvTv", b2i(bool(x)), nil)
}
func (x LBool_CvAvJvTv) MarshalText() ([]byte, error) {
	return doText("LBool_CvAvJvTv", b2i(bool(x)), nil)
}

type LBool_CpApJpTp bool

func (x *LBool_CpApJpTp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LBool_CpApJpTp", -1, nil)
	}
	return doCtx(ctx, dst, "LBool_CpApJpTp", b2i(bool(*x)), unsafe.Pointer(x))
}
func (x *LBool_CpApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LBool_CpApJpTp", -1, nil)
	}
	return doAppend(dst, "LBool_CpApJpTp", b2i(bool(*x)), unsafe.Pointer(x))
}
func (x *LBool_CpApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LBool_CpApJpTp", -1, nil)
	}
	return doJSON("LBool_CpApJpTp", b2i(bool(*x)), unsafe.Pointer(x))
}
func (x *LBool_CpApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LBool_CpApJpTp", -1, nil)
	}
	return doText("LBool_CpApJpTp", b2i(bool(*x)), unsafe.Pointer(x))
}

type LBool_CvApJpTv bool

func (x LBool_CvApJpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LBool_CvApJpTv", b2i(bool(x)), nil)
}
func (x *LBool_CvApJpTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LBool_CvApJpTv", -1, nil)
	}
	return doAppend(dst, "LBool_CvApJpTv", b2i(bool(*x)), unsafe.Pointer(x))
}
func (x *LBool_CvApJpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LBool_CvApJpTv", -1, nil)
	}
	return doJSON("LBool_CvApJpTv", b2i(bool(*x)), unsafe.Pointer(x))
}
func (x LBool_CvApJpTv) MarshalText() ([]byte, error) {
	return doText("LBool_CvApJpTv", b2i(bool(x)), nil)
}

type LBool_CpApJvTv bool

func (x *LBool_CpApJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LBool_CpApJvTv", -1, nil)
	}
	return doCtx(ctx, dst, "LBool_CpApJvTv", b2i(bool(*x)), unsafe.Pointer(x))
}
func (x *LBool_CpApJvTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LBool_CpApJvTv", -1, nil)
	}
	return doAppend(dst, "LBool_CpApJvTv", b2i(bool(*x)), unsafe.Pointer(x))
}
func (x LBool_CpApJvTv) MarshalJSON() ([]byte, error) {
	return doJSON("LBool_CpApJvTv", b2i(bool(x)), nil)
}
func (x LBool_CpApJvTv) MarshalText() ([]byte, error) {
	return doText("LBool_CpApJvTv", b2i(bool(x)), nil)
}

type LInt_None int

type LInt_Jv int

func (x LInt_Jv) MarshalJSON() ([]byte, error) { return doJSON("LInt_Jv", int(x), nil) }

type LInt_Jp int

func (x *LInt_Jp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LInt_Jp", -1, nil)
	}
	return doJSON("LInt_Jp", int(*x), unsafe.Pointer(x))
}

type LInt_Tv int

func (x LInt_Tv) MarshalText() ([]byte, error) { return doText("LInt_Tv", int(x), nil) }

type LInt_Tp int

func (x *LInt_Tp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LInt_Tp", -1, nil)
	}
	return doText("LInt_Tp", int(*x), unsafe.Pointer(x))
}

type LInt_Av int

func (x LInt_Av) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LInt_Av", int(x), nil) }

type LInt_Ap int

func (x *LInt_Ap) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LInt_Ap", -1, nil)
	}
	return doAppend(dst, "LInt_Ap", int(*x), unsafe.Pointer(x))
}

type LInt_Cv int

func (x LInt_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LInt_Cv", int(x), nil)
}

type LInt_Cp int

func (x *LInt_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LInt_Cp", -1, nil)
	}
	return doCtx(ctx, dst, "LInt_Cp", int(*x), unsafe.Pointer(x))
}

type LInt_JvTv int

func (x LInt_JvTv) MarshalJSON() ([]byte, error) { return doJSON("LInt_JvTv", int(x), nil) }
func (x LInt_JvTv) MarshalText() ([]byte, error) { return doText("LInt_JvTv", int(x), nil) }

type LInt_JvTp int

func (x LInt_JvTp) MarshalJSON() ([]byte, error) { return doJSON("LInt_JvTp", int(x), nil) }
func (x *LInt_JvTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LInt_JvTp", -1, nil)
	}
	return doText("LInt_JvTp", int(*x), unsafe.Pointer(x))
}

type LInt_JpTv int

func (x *LInt_JpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LInt_JpTv", -1, nil)
	}
	return doJSON("LInt_JpTv", int(*x), unsafe.Pointer(x))
}
func (x LInt_JpTv) MarshalText() ([]byte, error) { return doText("LInt_JpTv", int(x), nil) }

type LInt_JpTp int

func (x *LInt_JpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LInt_JpTp", -1, nil)
	}
	return doJSON("LInt_JpTp", int(*x), unsafe.Pointer(x))
}
func (x *LInt_JpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LInt_JpTp", -1, nil)
	}
	return doText("LInt_JpTp", int(*x), unsafe.Pointer(x))
}

type LInt_AvJv int

func (x LInt_AvJv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LInt_AvJv", int(x), nil)
}
func (x LInt_AvJv) MarshalJSON() ([]byte, error) { return doJSON("LInt_AvJv", int(x), nil) }

type LInt_ApJv int

func (x *LInt_ApJv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LInt_ApJv", -1, nil)
	}
	return doAppend(dst, "LInt_ApJv", int(*x), unsafe.Pointer(x))
}
func (x LInt_ApJv) MarshalJSON() ([]byte, error) { return doJSON("LInt_ApJv", int(x), nil) }

type LInt_AvJp int

func (x LInt_AvJp) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LInt_AvJp", int(x), nil)
}
func (x *LInt_AvJp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LInt_AvJp", -1, nil)
	}
	return doJSON("LInt_AvJp", int(*x), unsafe.Pointer(x))
}

type LInt_AvTv int

func (x LInt_AvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LInt_AvTv", int(x), nil)
}
func (x LInt_AvTv) MarshalText() ([]byte, error) { return doText("LInt_AvTv", int(x), nil) }

type LInt_ApTp int

func (x *LInt_ApTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LInt_ApTp", -1, nil)
	}
	return doAppend(dst, "LInt_ApTp", int(*x), unsafe.Pointer(x))
}
func (x *LInt_ApTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LInt_ApTp", -1, nil)
	}
	return doText("LInt_ApTp", int(*x), unsafe.Pointer(x))
}

type LInt_CvAv int

func (x LInt_CvAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LInt_CvAv", int(x), nil)
}
func (x LInt_CvAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LInt_CvAv", int(x), nil)
}

type LInt_CpAv int

func (x *LInt_CpAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LInt_CpAv", -1, nil)
	}
	return doCtx(ctx, dst, "LInt_CpAv", int(*x), unsafe.Pointer(x))
}
func (x LInt_CpAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LInt_CpAv", int(x), nil)
}

type LInt_CvAp int

func (x LInt_CvAp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LInt_CvAp", int(x), nil)
}
func (x *LInt_CvAp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LInt_CvAp", -1, nil)
	}
	return doAppend(dst, "LInt_CvAp", int(*x), unsafe.Pointer(x))
}

type LInt_CvJv int

func (x LInt_CvJv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LInt_CvJv", int(x), nil)
}
func (x LInt_CvJv) MarshalJSON() ([]byte, error) { return doJSON("LInt_CvJv", int(x), nil) }

type LInt_CpTv int

func (x *LInt_CpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LInt_CpTv", -1, nil)
	}
	return doCtx(ctx, dst, "LInt_CpTv", int(*x), unsafe.Pointer(x))
}
func (x LInt_CpTv) MarshalText() ([]byte, error) { return doText("LInt_CpTv", int(x), nil) }

type LInt_ApJpTp int

func (x *LInt_ApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LInt_ApJpTp", -1, nil)
	}
	return doAppend(dst, "LInt_ApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LInt_ApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LInt_ApJpTp", -1, nil)
	}
	return doJSON("LInt_ApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LInt_ApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LInt_ApJpTp", -1, nil)
	}
	return doText("LInt_ApJpTp", int(*x), unsafe.Pointer(x))
}

type LInt_CvAvJvTv int

func (x LInt_CvAvJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LInt_CvAvJvTv", int(x), nil)
}
func (x LInt_CvAvJvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LInt_CvAvJvTv", int(x), nil)
}
func (x LInt_CvAvJvTv) MarshalJSON() ([]byte, error) { return doJSON("LInt_CvAvJvTv", int(x), nil) }
func (x LInt_CvAvJvTv) MarshalText() ([]byte, error) { return doText("LInt_CvAvJvTv", int(x), nil) }

type LInt_CpApJpTp int

func (x *LInt_CpApJpTp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LInt_CpApJpTp", -1, nil)
	}
	return doCtx(ctx, dst, "LInt_CpApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LInt_CpApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LInt_CpApJpTp", -1, nil)
	}
	return doAppend(dst, "LInt_CpApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LInt_CpApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LInt_CpApJpTp", -1, nil)
	}
	return doJSON("LInt_CpApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LInt_CpApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LInt_CpApJpTp", -1, nil)
	}
	return doText("LInt_CpApJpTp", int(*x), unsafe.Pointer(x))
}

type LInt_CvApJpTv int

func (x LInt_CvApJpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LInt_CvApJpTv", int(x), nil)
}
func (x *LInt_CvApJpTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LInt_CvApJpTv", -1, nil)
	}
	return doAppend(dst, "LInt_CvApJpTv", int(*x), unsafe.Pointer(x))
}
func (x *LInt_CvApJpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LInt_CvApJpTv", -1, nil)
	}
	return doJSON("LInt_CvApJpTv", int(*x), unsafe.Pointer(x))
}
func (x LInt_CvApJpTv) MarshalText() ([]byte, error) { return doText("LInt_CvApJpTv", int(x), nil) }

type LInt_CpApJvTv int

func (x *LInt_CpApJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LInt_CpApJvTv", -1, nil)
	}
	return doCtx(ctx, dst, "LInt_CpApJvTv", int(*x), unsafe.Pointer(x))
}
func (x *LInt_CpApJvTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LInt_CpApJvTv", -1, nil)
	}
	return doAppend(dst, "LInt_CpApJvTv", int(*x), unsafe.Pointer(x))
}
func (x LInt_CpApJvTv) MarshalJSON() ([]byte, error) { return doJSON("LInt_CpApJvTv", int(x), nil) }
func (x LInt_CpApJvTv) MarshalText() ([]byte, error) { return doText("LInt_CpApJvTv", int(x), nil) }

type LI8_None int8

type LI8_Jv int8

func (x LI8_Jv) MarshalJSON() ([]byte, error) { return doJSON("LI8_Jv", int(x), nil) }

type LI8_Jp int8

func (x *LI8_Jp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LI8_Jp", -1, nil)
	}
	return doJSON("LI8_Jp", int(*x), unsafe.Pointer(x))
}

type LI8_Tv int8

func (x LI8_Tv) MarshalText() ([]byte, error) { return doText("LI8_Tv", int(x), nil) }

type LI8_Tp int8

func (x *LI8_Tp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LI8_Tp", -1, nil)
	}
	return doText("LI8_Tp", int(*x), unsafe.Pointer(x))
}

type LI8_Av int8

func (x LI8_Av) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LI8_Av", int(x), nil) }

type LI8_Ap int8

func (x *LI8_Ap) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LI8_Ap", -1, nil)
	}
	return doAppend(dst, "LI8_Ap", int(*x), unsafe.Pointer(x))
}

type LI8_Cv int8

func (x LI8_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LI8_Cv", int(x), nil)
}

type LI8_Cp int8

func (x *LI8_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LI8_Cp", -1, nil)
	}
	return doCtx(ctx, dst, "LI8_Cp", int(*x), unsafe.Pointer(x))
}

type LI8_JvTv int8

func (x LI8_JvTv) MarshalJSON() ([]byte, error) { return doJSON("LI8_JvTv", int(x), nil) }
func (x LI8_JvTv) MarshalText() ([]byte, error) { return doText("LI8_JvTv", int(x), nil) }

type LI8_JvTp int8

func (x LI8_JvTp) MarshalJSON() ([]byte, error) { return doJSON("LI8_JvTp", int(x), nil) }
func (x *LI8_JvTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LI8_JvTp", -1, nil)
	}
	return doText("LI8_JvTp", int(*x), unsafe.Pointer(x))
}

type LI8_JpTv int8

func (x *LI8_JpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LI8_JpTv", -1, nil)
	}
	return doJSON("LI8_JpTv", int(*x), unsafe.Pointer(x))
}
func (x LI8_JpTv) MarshalText() ([]byte, error) { return doText("LI8_JpTv", int(x), nil) }

type LI8_JpTp int8

func (x *LI8_JpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LI8_JpTp", -1, nil)
	}
	return doJSON("LI8_JpTp", int(*x), unsafe.Pointer(x))
}
func (x *LI8_JpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LI8_JpTp", -1, nil)
	}
	return doText("LI8_JpTp", int(*x), unsafe.Pointer(x))
}

type LI8_AvJv int8

func (x LI8_AvJv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LI8_AvJv", int(x), nil)
}
func (x LI8_AvJv) MarshalJSON() ([]byte, error) { return doJSON("LI8_AvJv", int(x), nil) }

type LI8_ApJv int8

func (x *LI8_ApJv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LI8_ApJv", -1, nil)
	}
	return doAppend(dst, "LI8_ApJv", int(*x), unsafe.Pointer(x))
}
func (x LI8_ApJv) MarshalJSON() ([]byte, error) { return doJSON("LI8_ApJv", int(x), nil) }

type LI8_AvJp int8

func (x LI8_AvJp) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LI8_AvJp", int(x), nil)
}
func (x *LI8_AvJp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LI8_AvJp", -1, nil)
	}
	return doJSON("LI8_AvJp", int(*x), unsafe.Pointer(x))
}

type LI8_AvTv int8

func (x LI8_AvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LI8_AvTv", int(x), nil)
}
func (x LI8_AvTv) MarshalText() ([]byte, error) { return doText("LI8_AvTv", int(x), nil) }

type LI8_ApTp int8

func (x *LI8_ApTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LI8_ApTp", -1, nil)
	}
	return doAppend(dst, "LI8_ApTp", int(*x), unsafe.Pointer(x))
}
func (x *LI8_ApTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LI8_ApTp", -1, nil)
	}
	return doText("LI8_ApTp", int(*x), unsafe.Pointer(x))
}

type LI8_CvAv int8

func (x LI8_CvAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LI8_CvAv", int(x), nil)
}
func (x LI8_CvAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LI8_CvAv", int(x), nil)
}

type LI8_CpAv int8

func (x *LI8_CpAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LI8_CpAv", -1, nil)
	}
	return doCtx(ctx, dst, "LI8_CpAv", int(*x), unsafe.Pointer(x))
}
func (x LI8_CpAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LI8_CpAv", int(x), nil)
}

type LI8_CvAp int8

func (x LI8_CvAp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LI8_CvAp", int(x), nil)
}
func (x *LI8_CvAp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LI8_CvAp", -1, nil)
	}
	return doAppend(dst, "LI8_CvAp", int(*x), unsafe.Pointer(x))
}

type LI8_CvJv int8

func (x LI8_CvJv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LI8_CvJv", int(x), nil)
}
func (x LI8_CvJv) MarshalJSON() ([]byte, error) { return doJSON("LI8_CvJv", int(x), nil) }

type LI8_CpTv int8

func (x *LI8_CpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LI8_CpTv", -1, nil)
	}
	return doCtx(ctx, dst, "LI8_CpTv", int(*x), unsafe.Pointer(x))
}
func (x LI8_CpTv) MarshalText() ([]byte, error) { return doText("LI8_CpTv", int(x), nil) }

type LI8_ApJpTp int8

func (x *LI8_ApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LI8_ApJpTp", -1, nil)
	}
	return doAppend(dst, "LI8_ApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LI8_ApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LI8_ApJpTp", -1, nil)
	}
	return doJSON("LI8_ApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LI8_ApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LI8_ApJpTp", -1, nil)
	}
	return doText("LI8_ApJpTp", int(*x), unsafe.Pointer(x))
}

type LI8_CvAvJvTv int8

func (x LI8_CvAvJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LI8_CvAvJvTv", int(x), nil)
}
func (x LI8_CvAvJvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LI8_CvAvJvTv", int(x), nil)
}
func (x LI8_CvAvJvTv) MarshalJSON() ([]byte, error) { return doJSON("LI8_CvAvJvTv", int(x), nil) }
func (x LI8_CvAvJvTv) MarshalText() ([]byte, error) { return doText("LI8_CvAvJvTv", int(x), nil) }

type LI8_CpApJpTp int8

func (x *LI8_CpApJpTp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LI8_CpApJpTp", -1, nil)
	}
	return doCtx(ctx, dst, "LI8_CpApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LI8_CpApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LI8_CpApJpTp", -1, nil)
	}
	return doAppend(dst, "LI8_CpApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LI8_CpApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LI8_CpApJpTp", -1, nil)
	}
	return doJSON("LI8_CpApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LI8_CpApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LI8_CpApJpTp", -1, nil)
	}
	return doText("LI8_CpApJpTp", int(*x), unsafe.Pointer(x))
}

type LI8_CvApJpTv int8

func (x LI8_CvApJpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LI8_CvApJpTv", int(x), nil)
}
func (x *LI8_CvApJpTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LI8_CvApJpTv", -1, nil)
	}
	return doAppend(dst, "LI8_CvApJpTv", int(*x), unsafe.Pointer(x))
}
func (x *LI8_CvApJpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LI8_CvApJpTv", -1, nil)
	}
	return doJSON("LI8_CvApJpTv", int(*x), unsafe.Pointer(x))
}
func (x LI8_CvApJpTv) MarshalText() ([]byte, error) { return doText("LI8_CvApJpTv", int(x), nil) }

type LI8_CpApJvTv int8

func (x *LI8_CpApJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LI8_CpApJvTv", -1, nil)
	}
	return doCtx(ctx, dst, "LI8_CpApJvTv", int(*x), unsafe.Pointer(x))
}
func (x *LI8_CpApJvTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LI8_CpApJvTv", -1, nil)
	}
	return doAppend(dst, "LI8_CpApJvTv", int(*x), unsafe.Pointer(x))
}
func (x LI8_CpApJvTv) MarshalJSON() ([]byte, error) { return doJSON("LI8_CpApJvTv", int(x), nil) }
func (x LI8_CpApJvTv) MarshalText() ([]byte, error) { return doText("LI8_CpApJvTv", int(x), nil) }

type LU8_None uint8

type LU8_Jv uint8

func (x LU8_Jv) MarshalJSON() ([]byte, error) { return doJSON("LU8_Jv", int(x), nil) }

type LU8_Jp uint8

func (x *LU8_Jp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LU8_Jp", -1, nil)
	}
	return doJSON("LU8_Jp", int(*x), unsafe.Pointer(x))
}

type LU8_Tv uint8

func (x LU8_Tv) MarshalText() ([]byte, error) { return doText("LU8_Tv", int(x), nil) }

type LU8_Tp uint8

func (x *LU8_Tp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LU8_Tp", -1, nil)
	}
	return doText("LU8_Tp", int(*x), unsafe.Pointer(x))
}

type LU8_Av uint8

func (x LU8_Av) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LU8_Av", int(x), nil) }

type LU8_Ap uint8

func (x *LU8_Ap) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LU8_Ap", -1, nil)
	}
	return doAppend(dst, "LU8_Ap", int(*x), unsafe.Pointer(x))
}

type LU8_Cv uint8

func (x LU8_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LU8_Cv", int(x), nil)
}

type LU8_Cp uint8

func (x *LU8_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LU8_Cp", -1, nil)
	}
	return doCtx(ctx, dst, "LU8_Cp", int(*x), unsafe.Pointer(x))
}

type LU8_JvTv uint8

func (x LU8_JvTv) MarshalJSON() ([]byte, error) { return doJSON("LU8_JvTv", int(x), nil) }
func (x LU8_JvTv) MarshalText() ([]byte, error) { return doText("LU8_JvTv", int(x), nil) }

type LU8_JvTp uint8

func (x LU8_JvTp) MarshalJSON() ([]byte, error) { return doJSON("LU8_JvTp", int(x), nil) }
func (x *LU8_JvTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LU8_JvTp", -1, nil)
	}
	return doText("LU8_JvTp", int(*x), unsafe.Pointer(x))
}

type LU8_JpTv uint8

func (x *LU8_JpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LU8_JpTv", -1, nil)
	}
	return doJSON("LU8_JpTv", int(*x), unsafe.Pointer(x))
}
func (x LU8_JpTv) MarshalText() ([]byte, error) { return doText("LU8_JpTv", int(x), nil) }

type LU8_JpTp uint8

func (x *LU8_JpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LU8_JpTp", -1, nil)
	}
	return doJSON("LU8_JpTp", int(*x), unsafe.Pointer(x))
}
func (x *LU8_JpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LU8_JpTp", -1, nil)
	}
	return doText("LU8_JpTp", int(*x), unsafe.Pointer(x))
}

type LU8_AvJv uint8

func (x LU8_AvJv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LU8_AvJv", int(x), nil)
}
func (x LU8_AvJv) MarshalJSON() ([]byte, error) { return doJSON("LU8_AvJv", int(x), nil) }

type LU8_ApJv uint8

func (x *LU8_ApJv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LU8_ApJv", -1, nil)
	}
	return doAppend(dst, "LU8_ApJv", int(*x), unsafe.Pointer(x))
}
func (x LU8_ApJv) MarshalJSON() ([]byte, error) { return doJSON("LU8_ApJv", int(x), nil) }

type LU8_AvJp uint8

func (x LU8_AvJp) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LU8_AvJp", int(x), nil)
}
func (x *LU8_AvJp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LU8_AvJp", -1, nil)
	}
	return doJSON("LU8_AvJp", int(*x), unsafe.Pointer(x))
}

type LU8_AvTv uint8

func (x LU8_AvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LU8_AvTv", int(x), nil)
}
func (x LU8_AvTv) MarshalText() ([]byte, error) { return doText("LU8_AvTv", int(x), nil) }

type LU8_ApTp uint8

func (x *LU8_ApTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LU8_ApTp", -1, nil)
	}
	return doAppend(dst, "LU8_ApTp", int(*x), unsafe.Pointer(x))
}
func (x *LU8_ApTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LU8_ApTp", -1, nil)
	}
	return doText("LU8_ApTp", int(*x), unsafe.Pointer(x))
}

type LU8_CvAv uint8

func (x LU8_CvAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LU8_CvAv", int(x), nil)
}
func (x LU8_CvAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LU8_CvAv", int(x), nil)
}

type LU8_CpAv uint8

func (x *LU8_CpAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LU8_CpAv", -1, nil)
	}
	return doCtx(ctx, dst, "LU8_CpAv", int(*x), unsafe.Pointer(x))
}
func (x LU8_CpAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LU8_CpAv", int(x), nil)
}

type LU8_CvAp uint8

func (x LU8_CvAp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LU8_CvAp", int(x), nil)
}
func (x *LU8_CvAp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LU8_CvAp", -1, nil)
	}
	return doAppend(dst, "LU8_CvAp", int(*x), unsafe.Pointer(x))
}

type LU8_CvJv uint8

func (x LU8_CvJv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LU8_CvJv", int(x), nil)
}
func (x LU8_CvJv) MarshalJSON() ([]byte, error) { return doJSON("LU8_CvJv", int(x), nil) }

type LU8_CpTv uint8

func (x *LU8_CpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LU8_CpTv", -1, nil)
	}
	return doCtx(ctx, dst, "LU8_CpTv", int(*x), unsafe.Pointer(x))
}
func (x LU8_CpTv) MarshalText() ([]byte, error) { return doText("LU8_CpTv", int(x), nil) }

type LU8_ApJpTp uint8

func (x *LU8_ApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LU8_ApJpTp", -1, nil)
	}
	return doAppend(dst, "LU8_ApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LU8_ApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LU8_ApJpTp", -1, nil)
	}
	return doJSON("LU8_ApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LU8_ApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LU8_ApJpTp", -1, nil)
	}
	return doText("LU8_ApJpTp", int(*x), unsafe.Pointer(x))
}

type LU8_CvAvJvTv uint8

func (x LU8_CvAvJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LU8_CvAvJvTv", int(x), nil)
}
func (x LU8_CvAvJvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LU8_CvAvJvTv", int(x), nil)
}
func (x LU8_CvAvJvTv) MarshalJSON() ([]byte, error) { return doJSON("LU8_CvAvJvTv", int(x), nil) }
func (x LU8_CvAvJvTv) MarshalText() ([]byte, error) { return doText("LU8_CvAvJvTv", int(x), nil) }

type LU8_CpApJpTp uint8

func (x *LU8_CpApJpTp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LU8_CpApJpTp", -1, nil)
	}
	return doCtx(ctx, dst, "LU8_CpApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LU8_CpApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LU8_CpApJpTp", -1, nil)
	}
	return doAppend(dst, "LU8_CpApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LU8_CpApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LU8_CpApJpTp", -1, nil)
	}
	return doJSON("LU8_CpApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LU8_CpApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LU8_CpApJpTp", -1, nil)
	}
	return doText("LU8_CpApJpTp", int(*x), unsafe.Pointer(x))
}

type LU8_CvApJpTv uint8

func (x LU8_CvApJpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LU8_CvApJpTv", int(x), nil)
}
func (x *LU8_CvApJpTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LU8_CvApJpTv", -1, nil)
	}
	return doAppend(dst, "LU8_CvApJpTv", int(*x), unsafe.Pointer(x))
}
func (x *LU8_CvApJpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LU8_CvApJpTv", -1, nil)
	}
	return doJSON("LU8_CvApJpTv", int(*x), unsafe.Pointer(x))
}
func (x LU8_CvApJpTv) MarshalText() ([]byte, error) { return doText("LU8_CvApJpTv", int(x), nil) }

type LU8_CpApJvTv uint8

func (x *LU8_CpApJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LU8_CpApJvTv", -1, nil)
	}
	return doCtx(ctx, dst, "LU8_CpApJvTv", int(*x), unsafe.Pointer(x))
}
func (x *LU8_CpApJvTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LU8_CpApJvTv", -1, nil)
	}
	return doAppend(dst, "LU8_CpApJvTv", int(*x), unsafe.Pointer(x))
}
func (x LU8_CpApJvTv) MarshalJSON() ([]byte, error) { return doJSON("LU8_CpApJvTv", int(x), nil) }
func (x LU8_CpApJvTv) MarshalText() ([]byte, error) { return doText("LU8_CpApJvTv", int(x), nil) }

type LU64_None uint64

type LU64_Jv uint64

func (x LU64_Jv) MarshalJSON() ([]byte, error) { return doJSON("LU64_Jv", int(x), nil) }

type LU64_Jp uint64

func (x *LU64_Jp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LU64_Jp", -1, nil)
	}
	return doJSON("LU64_Jp", int(*x), unsafe.Pointer(x))
}

type LU64_Tv uint64

func (x LU64_Tv) MarshalText() ([]byte, error) { return doText("LU64_Tv", int(x), nil) }

type LU64_Tp uint64

func (x *LU64_Tp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LU64_Tp", -1, nil)
	}
	return doText("LU64_Tp", int(*x), unsafe.Pointer(x))
}

type LU64_Av uint64

func (x LU64_Av) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LU64_Av", int(x), nil) }

type LU64_Ap uint64

func (x *LU64_Ap) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LU64_Ap", -1, nil)
	}
	return doAppend(dst, "LU64_Ap", int(*x), unsafe.Pointer(x))
}

type LU64_Cv uint64

func (x LU64_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LU64_Cv", int(x), nil)
}

type LU64_Cp uint64

func (x *LU64_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LU64_Cp", -1, nil)
	}
	return doCtx(ctx, dst, "LU64_Cp", int(*x), unsafe.Pointer(x))
}

type LU64_JvTv uint64

func (x LU64_JvTv) MarshalJSON() ([]byte, error) { return doJSON("LU64_JvTv", int(x), nil) }
func (x LU64_JvTv) MarshalText() ([]byte, error) { return doText("LU64_JvTv", int(x), nil) }

type LU64_JvTp uint64

func (x LU64_JvTp) MarshalJSON() ([]byte, error) { return doJSON("LU64_JvTp", int(x), nil) }
func (x *LU64_JvTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LU64_JvTp", -1, nil)
	}
	return doText("LU64_JvTp", int(*x), unsafe.Pointer(x))
}

type LU64_JpTv uint64

func (x *LU64_JpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LU64_JpTv", -1, nil)
	}
	return doJSON("LU64_JpTv", int(*x), unsafe.Pointer(x))
}
func (x LU64_JpTv) MarshalText() ([]byte, error) { return doText("LU64_JpTv", int(x), nil) }

type LU64_JpTp uint64

func (x *LU64_JpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LU64_JpTp", -1, nil)
	}
	return doJSON("LU64_JpTp", int(*x), unsafe.Pointer(x))
}
func (x *LU64_JpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LU64_JpTp", -1, nil)
	}
	return doText("LU64_JpTp", int(*x), unsafe.Pointer(x))
}

type LU64_AvJv uint64

func (x LU64_AvJv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LU64_AvJv", int(x), nil)
}
func (x LU64_AvJv) MarshalJSON() ([]byte, error) { return doJSON("LU64_AvJv", int(x), nil) }

type LU64_ApJv uint64

func (x *LU64_ApJv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LU64_ApJv", -1, nil)
	}
	return doAppend(dst, "LU64_ApJv", int(*x), unsafe.Pointer(x))
}
func (x LU64_ApJv) MarshalJSON() ([]byte, error) { return doJSON("LU64_ApJv", int(x), nil) }

type LU64_AvJp uint64

func (x LU64_AvJp) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LU64_AvJp", int(x), nil)
}
func (x *LU64_AvJp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LU64_AvJp", -1, nil)
	}
	return doJSON("LU64_AvJp", int(*x), unsafe.Pointer(x))
}

type LU64_AvTv uint64

func (x LU64_AvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LU64_AvTv", int(x), nil)
}
func (x LU64_AvTv) MarshalText() ([]byte, error) { return doText("LU64_AvTv", int(x), nil) }

type LU64_ApTp uint64

func (x *LU64_ApTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LU64_ApTp", -1, nil)
	}
	return doAppend(dst, "LU64_ApTp", int(*x), unsafe.Pointer(x))
}
func (x *LU64_ApTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LU64_ApTp", -1, nil)
	}
	return doText("LU64_ApTp", int(*x), unsafe.Pointer(x))
}

type LU64_CvAv uint64

func (x LU64_CvAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LU64_CvAv", int(x), nil)
}
func (x LU64_CvAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LU64_CvAv", int(x), nil)
}

type LU64_CpAv uint64

func (x *LU64_CpAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LU64_CpAv", -1, nil)
	}
	return doCtx(ctx, dst, "LU64_CpAv", int(*x), unsafe.Pointer(x))
}
func (x LU64_CpAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LU64_CpAv", int(x), nil)
}

type LU64_CvAp uint64

func (x LU64_CvAp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LU64_CvAp", int(x), nil)
}
func (x *LU64_CvAp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LU64_CvAp", -1, nil)
	}
	return doAppend(dst, "LU64_CvAp", int(*x), unsafe.Pointer(x))
}

type LU64_CvJv uint64

func (x LU64_CvJv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LU64_CvJv", int(x), nil)
}
func (x LU64_CvJv) MarshalJSON() ([]byte, error) { return doJSON("LU64_CvJv", int(x), nil) }

type LU64_CpTv uint64

func (x *LU64_CpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LU64_CpTv", -1, nil)
	}
	return doCtx(ctx, dst, "LU64_CpTv", int(*x), unsafe.Pointer(x))
}
func (x LU64_CpTv) MarshalText() ([]byte, error) { return doText("LU64_CpTv", int(x), nil) }

type LU64_ApJpTp uint64

func (x *LU64_ApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LU64_ApJpTp", -1, nil)
	}
	return doAppend(dst, "LU64_ApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LU64_ApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LU64_ApJpTp", -1, nil)
	}
	return doJSON("LU64_ApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LU64_ApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LU64_ApJpTp", -1, nil)
	}
	return doText("LU64_ApJpTp", int(*x), unsafe.Pointer(x))
}

type LU64_CvAvJvTv uint64

func (x LU64_CvAvJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LU64_CvAvJvTv", int(x), nil)
}
func (x LU64_CvAvJvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LU64_CvAvJvTv", int(x), nil)
}
func (x LU64_CvAvJvTv) MarshalJSON() ([]byte, error) { return doJSON("LU64_CvAvJvTv", int(x), nil) }
func (x LU64_CvAvJvTv) MarshalText() ([]byte, error) { return doText("LU64_CvAvJvTv", int(x), nil) }

type LU64_CpApJpTp uint64

func (x *LU64_CpApJpTp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LU64_CpApJpTp", -1, nil)
	}
	return doCtx(ctx, dst, "LU64_CpApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LU64_CpApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LU64_CpApJpTp", -1, nil)
	}
	return doAppend(dst, "LU64_CpApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LU64_CpApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LU64_CpApJpTp", -1, nil)
	}
	return doJSON("LU64_CpApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LU64_CpApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LU64_CpApJpTp", -1, nil)
	}
	return doText("LU64_CpApJpTp", int(*x), unsafe.Pointer(x))
}

type LU64_CvApJpTv uint64

func (x LU64_CvApJpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LU64_CvApJpTv", int(x), nil)
}
func (x *LU64_CvApJpTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LU64_CvApJpTv", -1, nil)
	}
	return doAppend(dst, "LU64_CvApJpTv", int(*x), unsafe.Pointer(x))
}
func (x *LU64_CvApJpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LU64_CvApJpTv", -1, nil)
	}
	return doJSON("LU64_CvApJpTv", int(*x), unsafe.Pointer(x))
}
func (x LU64_CvApJpTv) MarshalText() ([]byte, error) { return doText("LU64_CvApJpTv", int(x), nil) }

type LU64_CpApJvTv uint64

func (x *LU64_CpApJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LU64_CpApJvTv", -1, nil)
	}
	return doCtx(ctx, dst, "LU64_CpApJvTv", int(*x), unsafe.Pointer(x))
}
func (x *LU64_CpApJvTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LU64_CpApJvTv", -1, nil)
	}
	return doAppend(dst, "LU64_CpApJvTv", int(*x), unsafe.Pointer(x))
}
func (x LU64_CpApJvTv) MarshalJSON() ([]byte, error) { return doJSON("LU64_CpApJvTv", int(x), nil) }
func (x LU64_CpApJvTv) MarshalText() ([]byte, error) { return doText("LU64_CpApJvTv", int(x), nil) }

type LI16_None int16

type LI16_Jv int16

func (x LI16_Jv) MarshalJSON() ([]byte, error) { return doJSON("LI16_Jv", int(x), nil) }

type LI16_Jp int16

func (x *LI16_Jp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LI16_Jp", -1, nil)
	}
	return doJSON("LI16_Jp", int(*x), unsafe.Pointer(x))
}

type LI16_Tv int16

func (x LI16_Tv) MarshalText() ([]byte, error) { return doText("LI16_Tv", int(x), nil) }

type LI16_Tp int16

func (x *LI16_Tp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LI16_Tp", -1, nil)
	}
	return doText("LI16_Tp", int(*x), unsafe.Pointer(x))
}

type LI16_Av int16

func (x LI16_Av) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LI16_Av", int(x), nil) }

type LI16_Ap int16

func (x *LI16_Ap) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LI16_Ap", -1, nil)
	}
	return doAppend(dst, "LI16_Ap", int(*x), unsafe.Pointer(x))
}

type LI16_Cv int16

func (x LI16_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LI16_Cv", int(x), nil)
}

type LI16_Cp int16

func (x *LI16_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LI16_Cp", -1, nil)
	}
	return doCtx(ctx, dst, "LI16_Cp", int(*x), unsafe.Pointer(x))
}

type LI16_JvTv int16

func (x LI16_JvTv) MarshalJSON() ([]byte, error) { return doJSON("LI16_JvTv", int(x), nil) }
func (x LI16_JvTv) MarshalText() ([]byte, error) { return doText("LI16_JvTv", int(x), nil) }

type LI16_JvTp int16

func (x LI16_JvTp) MarshalJSON() ([]byte, error) { return doJSON("LI16_JvTp", int(x), nil) }
func (x *LI16_JvTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LI16_JvTp", -1, nil)
	}
	return doText("LI16_JvTp", int(*x), unsafe.Pointer(x))
}

type LI16_JpTv int16

func (x *LI16_JpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LI16_JpTv", -1, nil)
	}
	return doJSON("LI16_JpTv", int(*x), unsafe.Pointer(x))
}
func (x LI16_JpTv) MarshalText() ([]byte, error) { return doText("LI16_JpTv", int(x), nil) }

type LI16_JpTp int16

func (x *LI16_JpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LI16_JpTp", -1, nil)
	}
	return doJSON("LI16_JpTp", int(*x), unsafe.Pointer(x))
}
func (x *LI16_JpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LI16_JpTp", -1, nil)
	}
	return doText("LI16_JpTp", int(*x), unsafe.Pointer(x))
}

type LI16_AvJv int16

func (x LI16_AvJv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LI16_AvJv", int(x), nil)
}
func (x LI16_AvJv) MarshalJSON() ([]byte, error) { return doJSON("LI16_AvJv", int(x), nil) }

type LI16_ApJv int16

func (x *LI16_ApJv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LI16_ApJv", -1, nil)
	}
	return doAppend(dst, "LI16_ApJv", int(*x), unsafe.Pointer(x))
}
func (x LI16_ApJv) MarshalJSON() ([]byte, error) { return doJSON("LI16_ApJv", int(x), nil) }

type LI16_AvJp int16

func (x LI16_AvJp) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LI16_AvJp", int(x), nil)
}
func (x *LI16_AvJp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LI16_AvJp", -1, nil)
	}
	return doJSON("LI16_AvJp", int(*x), unsafe.Pointer(x))
}

type LI16_AvTv int16

func (x LI16_AvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LI16_AvTv", int(x), nil)
}
func (x LI16_AvTv) MarshalText() ([]byte, error) { return doText("LI16_AvTv", int(x), nil) }

type LI16_ApTp int16

func (x *LI16_ApTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LI16_ApTp", -1, nil)
	}
	return doAppend(dst, "LI16_ApTp", int(*x), unsafe.Pointer(x))
}
func (x *LI16_ApTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LI16_ApTp", -1, nil)
	}
	return doText("LI16_ApTp", int(*x), unsafe.Pointer(x))
}

type LI16_CvAv int16

func (x LI16_CvAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LI16_CvAv", int(x), nil)
}
func (x LI16_CvAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LI16_CvAv", int(x), nil)
}

type LI16_CpAv int16

func (x *LI16_CpAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LI16_CpAv", -1, nil)
	}
	return doCtx(ctx, dst, "LI16_CpAv", int(*x), unsafe.Pointer(x))
}
func (x LI16_CpAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LI16_CpAv", int(x), nil)
}

type LI16_CvAp int16

func (x LI16_CvAp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LI16_CvAp", int(x), nil)
}
func (x *LI16_CvAp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LI16_CvAp", -1, nil)
	}
	return doAppend(dst, "LI16_CvAp", int(*x), unsafe.Pointer(x))
}

type LI16_CvJv int16

func (x LI16_CvJv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LI16_CvJv", int(x), nil)
}
func (x LI16_CvJv) MarshalJSON() ([]byte, error) { return doJSON("LI16_CvJv", int(x), nil) }

type LI16_CpTv int16

func (x *LI16_CpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LI16_CpTv", -1, nil)
	}
	return doCtx(ctx, dst, "LI16_CpTv", int(*x), unsafe.Pointer(x))
}
func (x LI16_CpTv) MarshalText() ([]byte, error) { return doText("LI16_CpTv", int(x), nil) }

type LI16_ApJpTp int16

func (x *LI16_ApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LI16_ApJpTp", -1, nil)
	}
	return doAppend(dst, "LI16_ApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LI16_ApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LI16_ApJpTp", -1, nil)
	}
	return doJSON("LI16_ApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LI16_ApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LI16_ApJpTp", -1, nil)
	}
	return doText("LI16_ApJpTp", int(*x), unsafe.Pointer(x))
}

type LI16_CvAvJvTv int16

func (x LI16_CvAvJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LI16_CvAvJvTv", int(x), nil)
}
func (x LI16_CvAvJvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LI16_CvAvJvTv", int(x), nil)
}
func (x LI16_CvAvJvTv) MarshalJSON() ([]byte, error) { return doJSON("LI16_CvAvJvTv", int(x), nil) }
func (x LI16_CvAvJvTv) MarshalText() ([]byte, error) { return doText("LI16_CvAvJvTv", int(x), nil) }

type LI16_CpApJpTp int16

func (x *LI16_CpApJpTp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LI16_CpApJpTp", -1, nil)
	}
	return doCtx(ctx, dst, "LI16_CpApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LI16_CpApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LI16_CpApJpTp", -1, nil)
	}
	return doAppend(dst, "LI16_CpApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LI16_CpApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LI16_CpApJpTp", -1, nil)
	}
	return doJSON("LI16_CpApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LI16_CpApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LI16_CpApJpTp", -1, nil)
	}
	return doText("LI16_CpApJpTp", int(*x), unsafe.Pointer(x))
}

type LI16_CvApJpTv int16

func (x LI16_CvApJpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LI16_CvApJpTv", int(x), nil)
}
func (x *LI16_CvApJpTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LI16_CvApJpTv", -1, nil)
	}
	return doAppend(dst, "LI16_CvApJpTv", int(*x), unsafe.Pointer(x))
}
func (x *LI16_CvApJpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LI16_CvApJpTv", -1, nil)
	}
	return doJSON("LI16_CvApJpTv", int(*x), unsafe.Pointer(x))
}
func (x LI16_CvApJpTv) MarshalText() ([]byte, error) { return doText("LI16_CvApJpTv", int(x), nil) }

type LI16_CpApJvTv int16

func (x *LI16_CpApJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LI16_CpApJvTv", -1, nil)
	}
	return doCtx(ctx, dst, "LI16_CpApJvTv", int(*x), unsafe.Pointer(x))
}
func (x *LI16_CpApJvTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LI16_CpApJvTv", -1, nil)
	}
	return doAppend(dst, "LI16_CpApJvTv", int(*x), unsafe.Pointer(x))
}
func (x LI16_CpApJvTv) MarshalJSON() ([]byte, error) { return doJSON("LI16_CpApJvTv", int(x), nil) }
func (x LI16_CpApJvTv) MarshalText() ([]byte, error) { return doText("LI16_CpApJvTv", int(x), nil) }

type LF64_None float64

type LF64_Jv float64

func (x LF64_Jv) MarshalJSON() ([]byte, error) { return doJSON("LF64_Jv", int(x), nil) }

type LF64_Jp float64

func (x *LF64_Jp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LF64_Jp", -1, nil)
	}
	return doJSON("LF64_Jp", int(*x), unsafe.Pointer(x))
}

type LF64_Tv float64

func (x LF64_Tv) MarshalText() ([]byte, error) { return doText("LF64_Tv", int(x), nil) }

type LF64_Tp float64

func (x *LF64_Tp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LF64_Tp", -1, nil)
	}
	return doText("LF64_Tp", int(*x), unsafe.Pointer(x))
}

type LF64_Av float64

func (x LF64_Av) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LF64_Av", int(x), nil) }

type LF64_Ap float64

func (x *LF64_Ap) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LF64_Ap", -1, nil)
	}
	return doAppend(dst, "LF64_Ap", int(*x), unsafe.Pointer(x))
}

type LF64_Cv float64

func (x LF64_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LF64_Cv", int(x), nil)
}

type LF64_Cp float64

func (x *LF64_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LF64_Cp", -1, nil)
	}
	return doCtx(ctx, dst, "LF64_Cp", int(*x), unsafe.Pointer(x))
}

type LF64_JvTv float64

func (x LF64_JvTv) MarshalJSON() ([]byte, error) { return doJSON("LF64_JvTv", int(x), nil) }
func (x LF64_JvTv) MarshalText() ([]byte, error) { return doText("LF64_JvTv", int(x), nil) }

type LF64_JvTp float64

func (x LF64_JvTp) MarshalJSON() ([]byte, error) { return doJSON("LF64_JvTp", int(x), nil) }
func (x *LF64_JvTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LF64_JvTp", -1, nil)
	}
	return doText("LF64_JvTp", int(*x), unsafe.Pointer(x))
}

type LF64_JpTv float64

func (x *LF64_JpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LF64_JpTv", -1, nil)
	}
	return doJSON("LF64_JpTv", int(*x), unsafe.Pointer(x))
}
func (x LF64_JpTv) MarshalText() ([]byte, error) { return doText("LF64_JpTv", int(x), nil) }

type LF64_JpTp float64

func (x *LF64_JpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LF64_JpTp", -1, nil)
	}
	return doJSON("LF64_JpTp", int(*x), unsafe.Pointer(x))
}
func (x *LF64_JpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LF64_JpTp", -1, nil)
	}
	return doText("LF64_JpTp", int(*x), unsafe.Pointer(x))
}

type LF64_AvJv float64

func (x LF64_AvJv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LF64_AvJv", int(x), nil)
}
func (x LF64_AvJv) MarshalJSON() ([]byte, error) { return doJSON("LF64_AvJv", int(x), nil) }

type LF64_ApJv float64

func (x *LF64_ApJv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LF64_ApJv", -1, nil)
	}
	return doAppend(dst, "LF64_ApJv", int(*x), unsafe.Pointer(x))
}
func (x LF64_ApJv) MarshalJSON() ([]byte, error) { return doJSON("LF64_ApJv", int(x), nil) }

type LF64_AvJp float64

func (x LF64_AvJp) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LF64_AvJp", int(x), nil)
}
func (x *LF64_AvJp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LF64_AvJp", -1, nil)
	}
	return doJSON("LF64_AvJp", int(*x), unsafe.Pointer(x))
}

type LF64_AvTv float64

func (x LF64_AvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LF64_AvTv", int(x), nil)
}
func (x LF64_AvTv) MarshalText() ([]byte, error) { return doText("LF64_AvTv", int(x), nil) }

type LF64_ApTp float64

func (x *LF64_ApTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LF64_ApTp", -1, nil)
	}
	return doAppend(dst, "LF64_ApTp", int(*x), unsafe.Pointer(x))
}
func (x *LF64_ApTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LF64_ApTp", -1, nil)
	}
	return doText("LF64_ApTp", int(*x), unsafe.Pointer(x))
}

type LF64_CvAv float64

func (x LF64_CvAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LF64_CvAv", int(x), nil)
}
func (x LF64_CvAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LF64_CvAv", int(x), nil)
}

type LF64_CpAv float64

func (x *LF64_CpAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LF64_CpAv", -1, nil)
	}
	return doCtx(ctx, dst, "LF64_CpAv", int(*x), unsafe.Pointer(x))
}
func (x LF64_CpAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LF64_CpAv", int(x), nil)
}

type LF64_CvAp float64

func (x LF64_CvAp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LF64_CvAp", int(x), nil)
}
func (x *LF64_CvAp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LF64_CvAp", -1, nil)
	}
	return doAppend(dst, "LF64_CvAp", int(*x), unsafe.Pointer(x))
}

type LF64_CvJv float64

func (x LF64_CvJv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LF64_CvJv", int(x), nil)
}
func (x LF64_CvJv) MarshalJSON() ([]byte, error) { return doJSON("LF64_CvJv", int(x), nil) }

type LF64_CpTv float64

func (x *LF64_CpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LF64_CpTv", -1, nil)
	}
	return doCtx(ctx, dst, "LF64_CpTv", int(*x), unsafe.Pointer(x))
}
func (x LF64_CpTv) MarshalText() ([]byte, error) { return doText("LF64_CpTv", int(x), nil) }

type LF64_ApJpTp float64

func (x *LF64_ApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LF64_ApJpTp", -1, nil)
	}
	return doAppend(dst, "LF64_ApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LF64_ApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LF64_ApJpTp", -1, nil)
	}
	return doJSON("LF64_ApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LF64_ApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LF64_ApJpTp", -1, nil)
	}
	return doText("LF64_ApJpTp", int(*x), unsafe.Pointer(x))
}

type LF64_CvAvJvTv float64

func (x LF64_CvAvJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LF64_CvAvJvTv", int(x), nil)
}
func (x LF64_CvAvJvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LF64_CvAvJvTv", int(x), nil)
}
func (x LF64_CvAvJvTv) MarshalJSON() ([]byte, error) { return doJSON("LF64_CvAvJvTv", int(x), nil) }
func (x LF64_CvAvJvTv) MarshalText() ([]byte, error) { return doText("LF64_CvAvJvTv", int(x), nil) }

type LF64_CpApJpTp float64

func (x *LF64_CpApJpTp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LF64_CpApJpTp", -1, nil)
	}
	return doCtx(ctx, dst, "LF64_CpApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LF64_CpApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LF64_CpApJpTp", -1, nil)
	}
	return doAppend(dst, "LF64_CpApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LF64_CpApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LF64_CpApJpTp", -1, nil)
	}
	return doJSON("LF64_CpApJpTp", int(*x), unsafe.Pointer(x))
}
func (x *LF64_CpApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LF64_CpApJpTp", -1, nil)
	}
	return doText("LF64_CpApJpTp", int(*x), unsafe.Pointer(x))
}

type LF64_CvApJpTv float64

func (x LF64_CvApJpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LF64_CvApJpTv", int(x), nil)
}
func (x *LF64_CvApJpTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LF64_CvApJpTv", -1, nil)
	}
	return doAppend(dst, "LF64_CvApJpTv", int(*x), unsafe.Pointer(x))
}
func (x *LF64_CvApJpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LF64_CvApJpTv", -1, nil)
	}
	return doJSON("LF64_CvApJpTv", int(*x), unsafe.Pointer(x))
}
func (x LF64_CvApJpTv) MarshalText() ([]byte, error) { return doText("LF64_CvApJpTv", int(x), nil) }

type LF64_CpApJvTv float64

func (x *LF64_CpApJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LF64_CpApJvTv", -1, nil)
	}
	return doCtx(ctx, dst, "LF64_CpApJvTv", int(*x), unsafe.Pointer(x))
}
func (x *LF64_CpApJvTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LF64_CpApJvTv", -1, nil)
	}
	return doAppend(dst, "LF64_CpApJvTv", int(*x), unsafe.Pointer(x))
}
func (x LF64_CpApJvTv) MarshalJSON() ([]byte, error) { return doJSON("LF64_CpApJvTv", int(x), nil) }
func (x LF64_CpApJvTv) MarshalText() ([]byte, error) { return doText("LF64_CpApJvTv", int(x), nil) }

type LStr_None string

type LStr_Jv string

func (x LStr_Jv) MarshalJSON() ([]byte, error) { return doJSON("LStr_Jv", strCode(string(x)), nil) }

type LStr_Jp string

func (x *LStr_Jp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LStr_Jp", -1, nil)
	}
	return doJSON("LStr_Jp", strCode(string(*x)), unsafe.Pointer(x))
}

type LStr_Tv string

func (x LStr_Tv) MarshalText() ([]byte, error) { return doText("LStr_Tv", strCode(string(x)), nil) }

type LStr_Tp string

func (x *LStr_Tp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LStr_Tp", -1, nil)
	}
	return doText("LStr_Tp", strCode(string(*x)), unsafe.Pointer(x))
}

type LStr_Av string

func (x LStr_Av) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LStr_Av", strCode(string(x)), nil)
}

type LStr_Ap string

func (x *LStr_Ap) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LStr_Ap", -1, nil)
	}
	return doAppend(dst, "LStr_Ap", strCode(string(*x)), unsafe.Pointer(x))
}

type LStr_Cv string

func (x LStr_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LStr_Cv", strCode(string(x)), nil)
}

type LStr_Cp string

func (x *LStr_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LStr_Cp", -1, nil)
	}
	return doCtx(ctx, dst, "LStr_Cp", strCode(string(*x)), unsafe.Pointer(x))
}

type LStr_JvTv string

func (x LStr_JvTv) MarshalJSON() ([]byte, error) { return doJSON("LStr_JvTv", strCode(string(x)), nil) }
func (x LStr_JvTv) MarshalText() ([]byte, error) { return doText("LStr_JvTv", strCode(string(x)), nil) }

type LStr_JvTp string

func (x LStr_JvTp) MarshalJSON() ([]byte, error) { return doJSON("LStr_JvTp", strCode(string(x)), nil) }
func (x *LStr_JvTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LStr_JvTp", -1, nil)
	}
	return doText("LStr_JvTp", strCode(string(*x)), unsafe.Pointer(x))
}

type LStr_JpTv string

func (x *LStr_JpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LStr_JpTv", -1, nil)
	}
	return doJSON("LStr_JpTv", strCode(string(*x)), unsafe.Pointer(x))
}
func (x LStr_JpTv) MarshalText() ([]byte, error) { return doText("LStr_JpTv", strCode(string(x)), nil) }

type LStr_JpTp string

func (x *LStr_JpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LStr_JpTp", -1, nil)
	}
	return doJSON("LStr_JpTp", strCode(string(*x)), unsafe.Pointer(x))
}
func (x *LStr_JpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LStr_JpTp", -1, nil)
	}
	return doText("LStr_JpTp", strCode(string(*x)), unsafe.Pointer(x))
}

type LStr_AvJv string

func (x LStr_AvJv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LStr_AvJv", strCode(string(x)), nil)
}
func (x LStr_AvJv) MarshalJSON() ([]byte, error) { return doJSON("LStr_AvJv", strCode(string(x)), nil) }

type LStr_ApJv string

func (x *LStr_ApJv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LStr_ApJv", -1, nil)
	}
	return doAppend(dst, "LStr_ApJv", strCode(string(*x)), unsafe.Pointer(x))
}
func (x LStr_ApJv) MarshalJSON() ([]byte, error) { return doJSON("LStr_ApJv", strCode(string(x)), nil) }

type LStr_AvJp string

func (x LStr_AvJp) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LStr_AvJp", strCode(string(x)), nil)
}
func (x *LStr_AvJp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LStr_AvJp", -1, nil)
	}
	return doJSON("LStr_AvJp", strCode(string(*x)), unsafe.Pointer(x))
}

type LStr_AvTv string

func (x LStr_AvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LStr_AvTv", strCode(string(x)), nil)
}
func (x LStr_AvTv) MarshalText() ([]byte, error) { return doText("LStr_AvTv", strCode(string(x)), nil) }

type LStr_ApTp string

func (x *LStr_ApTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LStr_ApTp", -1, nil)
	}
	return doAppend(dst, "LStr_ApTp", strCode(string(*x)), unsafe.Pointer(x))
}
func (x *LStr_ApTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LStr_ApTp", -1, nil)
	}
	return doText("LStr_ApTp", strCode(string(*x)), unsafe.Pointer(x))
}

type LStr_CvAv string

func (x LStr_CvAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LStr_CvAv", strCode(string(x)), nil)
}
func (x LStr_CvAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LStr_CvAv", strCode(string(x)), nil)
}

type LStr_CpAv string

func (x *LStr_CpAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LStr_CpAv", -1, nil)
	}
	return doCtx(ctx, dst, "LStr_CpAv", strCode(string(*x)), unsafe.Pointer(x))
}
func (x LStr_CpAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LStr_CpAv", strCode(string(x)), nil)
}

type LStr_CvAp string

func (x LStr_CvAp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LStr_CvAp", strCode(string(x)), nil)
}
func (x *LStr_CvAp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LStr_CvAp", -1, nil)
	}
	return doAppend(dst, "LStr_CvAp", strCode(string(*x)), unsafe.Pointer(x))
}

type LStr_CvJv string

func (x LStr_CvJv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LStr_CvJv", strCode(string(x)), nil)
}
func (x LStr_CvJv) MarshalJSON() ([]byte, error) { return doJSON("LStr_CvJv", strCode(string(x)), nil) }

type LStr_CpTv string

func (x *LStr_CpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LStr_CpTv", -1, nil)
	}
	return doCtx(ctx, dst, "LStr_CpTv", strCode(string(*x)), unsafe.Pointer(x))
}
func (x LStr_CpTv) MarshalText() ([]byte, error) { return doText("LStr_CpTv", strCode(string(x)), nil) }

type LStr_ApJpTp string

func (x *LStr_ApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LStr_ApJpTp", -1, nil)
	}
	return doAppend(dst, "LStr_ApJpTp", strCode(string(*x)), unsafe.Pointer(x))
}
func (x *LStr_ApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LStr_ApJpTp", -1, nil)
	}
	return doJSON("LStr_ApJpTp", strCode(string(*x)), unsafe.Pointer(x))
}
func (x *LStr_ApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LStr_ApJpTp", -1, nil)
	}
	return doText("LStr_ApJpTp", strCode(string(*x)), unsafe.Pointer(x))
}

type LStr_CvAvJvTv string

func (x LStr_CvAvJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LStr_CvAvJvTv", strCode(string(x)), nil)
}
func (x LStr_CvAvJvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LStr_CvAvJvTv", strCode(string(x)), nil)
}
func (x LStr_CvAvJvTv) MarshalJSON() ([]byte, error) {
	return doJSON("LStr_CvAvJvTv", strCode(string(x)), nil)
}
func (x LStr_CvAvJvTv) MarshalText() ([]byte, error) {
	return doText("LStr_CvAvJvTv", strCode(string(x)), nil)
}

type LStr_CpApJpTp string

func (x *LStr_CpApJpTp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LStr_CpApJpTp", -1, nil)
	}
	return doCtx(ctx, dst, "LStr_CpApJpTp", strCode(string(*x)), unsafe.Pointer(x))
}
func (x *LStr_CpApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LStr_CpApJpTp", -1, nil)
	}
	return doAppend(dst, "LStr_CpApJpTp", strCode(string(*x)), unsafe.Pointer(x))
}
func (x *LStr_CpApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LStr_CpApJpTp", -1, nil)
	}
	return doJSON("LStr_CpApJpTp", strCode(string(*x)), unsafe.Pointer(x))
}
func (x *LStr_CpApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LStr_CpApJpTp", -1, nil)
	}
	return doText("LStr_CpApJpTp", strCode(string(*x)), unsafe.Pointer(x))
}

type LStr_CvApJpTv string

func (x LStr_CvApJpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LStr_CvApJpTv", strCode(string(x)), nil)
}
func (x *LStr_CvApJpTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LStr_CvApJpTv", -1, nil)
	}
	return doAppend(dst, "LStr_CvApJpTv", strCode(string(*x)), unsafe.Pointer(x))
}
func (x *LStr_CvApJpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LStr_CvApJpTv", -1, nil)
	}
	return doJSON("LStr_CvApJpTv", strCode(string(*x)), unsafe.Pointer(x))
}
func (x LStr_CvApJpTv) MarshalText() ([]byte, error) {
	return doText("LStr_CvApJpTv", strCode(string(x)), nil)
}

type LStr_CpApJvTv string

func (x *LStr_CpApJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LStr_CpApJvTv", -1, nil)
	}
	return doCtx(ctx, dst, "LStr_CpApJvTv", strCode(string(*x)), unsafe.Pointer(x))
}
func (x *LStr_CpApJvTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LStr_CpApJvTv", -1, nil)
	}
	return doAppend(dst, "LStr_CpApJvTv", strCode(string(*x)), unsafe.Pointer(x))
}
func (x LStr_CpApJvTv) MarshalJSON() ([]byte, error) {
	return doJSON("LStr_CpApJvTv", strCode(string(x)), nil)
}
func (x LStr_CpApJvTv) MarshalText() ([]byte, error) {
	return doText("LStr_CpApJvTv", strCode(string(x)), nil)
}

type LInts_None []int

type LInts_Jv []int

func (x LInts_Jv) MarshalJSON() ([]byte, error) { return doJSON("LInts_Jv", slCode([]int(x)), nil) }

type LInts_Jp []int

func (x *LInts_Jp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LInts_Jp", -1, nil)
	}
	return doJSON("LInts_Jp", slCode([]int(*x)), unsafe.Pointer(x))
}

type LInts_Tv []int

func (x LInts_Tv) MarshalText() ([]byte, error) { return doText("LInts_Tv", slCode([]int(x)), nil) }

type LInts_Tp []int

func (x *LInts_Tp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LInts_Tp", -1, nil)
	}
	return doText("LInts_Tp", slCode([]int(*x)), unsafe.Pointer(x))
}

type LInts_Av []int

func (x LInts_Av) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LInts_Av", slCode([]int(x)), nil)
}

type LInts_Ap []int

func (x *LInts_Ap) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LInts_Ap", -1, nil)
	}
	return doAppend(dst, "LInts_Ap", slCode([]int(*x)), unsafe.Pointer(x))
}

type LInts_Cv []int

func (x LInts_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LInts_Cv", slCode([]int(x)), nil)
}

type LInts_Cp []int

func (x *LInts_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LInts_Cp", -1, nil)
	}
	return doCtx(ctx, dst, "LInts_Cp", slCode([]int(*x)), unsafe.Pointer(x))
}

type LInts_JvTv []int

func (x LInts_JvTv) MarshalJSON() ([]byte, error) { return doJSON("LInts_JvTv", slCode([]int(x)), nil) }
func (x LInts_JvTv) MarshalText() ([]byte, error) { return doText("LInts_JvTv", slCode([]int(x)), nil) }

type LInts_JvTp []int

func (x LInts_JvTp) MarshalJSON() ([]byte, error) { return doJSON("LInts_JvTp", slCode([]int(x)), nil) }
func (x *LInts_JvTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LInts_JvTp", -1, nil)
	}
	return doText("LInts_JvTp", slCode([]int(*x)), unsafe.Pointer(x))
}

type LInts_JpTv []int

func (x *LInts_JpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LInts_JpTv", -1, nil)
	}
	return doJSON("LInts_JpTv", slCode([]int(*x)), unsafe.Pointer(x))
}
func (x LInts_JpTv) MarshalText() ([]byte, error) { return doText("LInts_JpTv", slCode([]int(x)), nil) }

type LInts_JpTp []int

func (x *LInts_JpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LInts_JpTp", -1, nil)
	}
	return doJSON("LInts_JpTp", slCode([]int(*x)), unsafe.Pointer(x))
}
func (x *LInts_JpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LInts_JpTp", -1, nil)
	}
	return doText("LInts_JpTp", slCode([]int(*x)), unsafe.Pointer(x))
}

type LInts_AvJv []int

func (x LInts_AvJv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LInts_AvJv", slCode([]int(x)), nil)
}
func (x LInts_AvJv) MarshalJSON() ([]byte, error) { return doJSON("LInts_AvJv", slCode([]int(x)), nil) }

type LInts_ApJv []int

func (x *LInts_ApJv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LInts_ApJv", -1, nil)
	}
	return doAppend(dst, "LInts_ApJv", slCode([]int(*x)), unsafe.Pointer(x))
}
func (x LInts_ApJv) MarshalJSON() ([]byte, error) { return doJSON("LInts_ApJv", slCode([]int(x)), nil) }

type LInts_AvJp []int

func (x LInts_AvJp) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LInts_AvJp", slCode([]int(x)), nil)
}
func (x *LInts_AvJp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LInts_AvJp", -1, nil)
	}
	return doJSON("LInts_AvJp", slCode([]int(*x)), unsafe.Pointer(x))
}

type LInts_AvTv []int

func (x LInts_AvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LInts_AvTv", slCode([]int(x)), nil)
}
func (x LInts_AvTv) MarshalText() ([]byte, error) { return doText("LInts_AvTv", slCode([]int(x)), nil) }

type LInts_ApTp []int

func (x *LInts_ApTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LInts_ApTp", -1, nil)
	}
	return doAppend(dst, "LInts_ApTp", slCode([]int(*x)), unsafe.Pointer(x))
}
func (x *LInts_ApTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LInts_ApTp", -1, nil)
	}
	return doText("LInts_ApTp", slCode([]int(*x)), unsafe.Pointer(x))
}

type LInts_CvAv []int

func (x LInts_CvAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LInts_CvAv", slCode([]int(x)), nil)
}
func (x LInts_CvAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LInts_CvAv", slCode([]int(x)), nil)
}

type LInts_CpAv []int

func (x *LInts_CpAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LInts_CpAv", -1, nil)
	}
	return doCtx(ctx, dst, "LInts_CpAv", slCode([]int(*x)), unsafe.Pointer(x))
}
func (x LInts_CpAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LInts_CpAv", slCode([]int(x)), nil)
}

type LInts_CvAp []int

func (x LInts_CvAp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LInts_CvAp", slCode([]int(x)), nil)
}
func (x *LInts_CvAp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LInts_CvAp", -1, nil)
	}
	return doAppend(dst, "LInts_CvAp", slCode([]int(*x)), unsafe.Pointer(x))
}

type LInts_CvJv []int

func (x LInts_CvJv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LInts_CvJv", slCode([]int(x)), nil)
}
func (x LInts_CvJv) MarshalJSON() ([]byte, error) { return doJSON("LInts_CvJv", slCode([]int(x)), nil) }

type LInts_CpTv []int

func (x *LInts_CpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LInts_CpTv", -1, nil)
	}
	return doCtx(ctx, dst, "LInts_CpTv", slCode([]int(*x)), unsafe.Pointer(x))
}
func (x LInts_CpTv) MarshalText() ([]byte, error) { return doText("LInts_CpTv", slCode([]int(x)), nil) }

type LInts_ApJpTp []int

func (x *LInts_ApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LInts_ApJpTp", -1, nil)
	}
	return doAppend(dst, "LInts_ApJpTp", slCode([]int(*x)), unsafe.Pointer(x))
}
func (x *LInts_ApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LInts_ApJpTp", -1, nil)
	}
	return doJSON("LInts_ApJpTp", slCode([]int(*x)), unsafe.Pointer(x))
}
func (x *LInts_ApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LInts_ApJpTp", -1, nil)
	}
	return doText("LInts_ApJpTp", slCode([]int(*x)), unsafe.Pointer(x))
}

type LInts_CvAvJvTv []int

func (x LInts_CvAvJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LInts_CvAvJvTv", slCode([]int(x)), nil)
}
func (x LInts_CvAvJvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LInts_CvAvJvTv", slCode([]int(x)), nil)
}
func (x LInts_CvAvJvTv) MarshalJSON() ([]byte, error) {
	return doJSON("LInts_CvAvJvTv", slCode([]int(x)), nil)
}
func (x LInts_CvAvJvTv) MarshalText() ([]byte, error) {
	return doText("LInts_CvAvJvTv", slCode([]int(x)), nil)
}

type LInts_CpApJpTp []int

func (x *LInts_CpApJpTp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LInts_CpApJpTp", -1, nil)
	}
	return doCtx(ctx, dst, "LInts_CpApJpTp", slCode([]int(*x)), unsafe.Pointer(x))
}
func (x *LInts_CpApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LInts_CpApJpTp", -1, nil)
	}
	return doAppend(dst, "LInts_CpApJpTp", slCode([]int(*x)), unsafe.Pointer(x))
}
func (x *LInts_CpApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LInts_CpApJpTp", -1, nil)
	}
	return doJSON("LInts_CpApJpTp", slCode([]int(*x)), unsafe.Pointer(x))
}
func (x *LInts_CpApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LInts_CpApJpTp", -1, nil)
	}
	return doText("LInts_CpApJpTp", slCode([]int(*x)), unsafe.Pointer(x))
}

type LInts_CvApJpTv []int

func (x LInts_CvApJpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LInts_CvApJpTv", slCode([]int(x)), nil)
}
func (x *LInts_CvApJpTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LInts_CvApJpTv", -1, nil)
	}
	return doAppend(dst, "LInts_CvApJpTv", slCode([]int(*x)), unsafe.Pointer(x))
}
func (x *LInts_CvApJpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LInts_CvApJpTv", -1, nil)
	}
	return doJSON("LInts_CvApJpTv", slCode([]int(*x)), unsafe.Pointer(x))
}
func (x LInts_CvApJpTv) MarshalText() ([]byte, error) {
	return doText("LInts_CvApJpTv", slCode([]int(x)), nil)
}

type LInts_CpApJvTv []int

func (x *LInts_CpApJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LInts_CpApJvTv", -1, nil)
	}
	return doCtx(ctx, dst, "LInts_CpApJvTv", slCode([]int(*x)), unsafe.Pointer(x))
}
func (x *LInts_CpApJvTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LInts_CpApJvTv", -1, nil)
	}
	return doAppend(dst, "LInts_CpApJvTv", slCode([]int(*x)), unsafe.Pointer(x))
}
func (x LInts_CpApJvTv) MarshalJSON() ([]byte, error) {
	return doJSON("LInts_CpApJvTv", slCode([]int(x)), nil)
}
func (x LInts_CpApJvTv) MarshalText() ([]byte, error) {
	return doText("LInts_CpApJvTv", slCode([]int(x)), nil)
}

type LByts_None []byte

type LByts_Jv []byte

func (x LByts_Jv) MarshalJSON() ([]byte, error) { return doJSON("LByts_Jv", bsCode([]byte(x)), nil) }

type LByts_Jp []byte

func (x *LByts_Jp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LByts_Jp", -1, nil)
	}
	return doJSON("LByts_Jp", bsCode([]byte(*x)), unsafe.Pointer(x))
}

type LByts_Tv []byte

func (x LByts_Tv) MarshalText() ([]byte, error) { return doText("LByts_Tv", bsCode([]byte(x)), nil) }

type LByts_Tp []byte

func (x *LByts_Tp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LByts_Tp", -1, nil)
	}
	return doText("LByts_Tp", bsCode([]byte(*x)), unsafe.Pointer(x))
}

type LByts_Av []byte

func (x LByts_Av) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LByts_Av", bsCode([]byte(x)), nil)
}

type LByts_Ap []byte

func (x *LByts_Ap) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LByts_Ap", -1, nil)
	}
	return doAppend(dst, "LByts_Ap", bsCode([]byte(*x)), unsafe.Pointer(x))
}

type LByts_Cv []byte

func (x LByts_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LByts_Cv", bsCode([]byte(x)), nil)
}

type LByts_Cp []byte

func (x *LByts_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LByts_Cp", -1, nil)
	}
	return doCtx(ctx, dst, "LByts_Cp", bsCode([]byte(*x)), unsafe.Pointer(x))
}

type LByts_JvTv []byte

func (x LByts_JvTv) MarshalJSON() ([]byte, error) {
	return doJSON("LByts_JvTv", bsCode([]byte(x)), nil)
}
func (x LByts_JvTv) MarshalText() ([]byte, error) {
	return doText("LByts_JvTv", bsCode([]byte(x)), nil)
}

type LByts_JvTp []byte

func (x LByts_JvTp) MarshalJSON() ([]byte, error) {
	return doJSON("LByts_JvTp", bsCode([]byte(x)), nil)
}
func (x *LByts_JvTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LByts_JvTp", -1, nil)
	}
	return doText("LByts_JvTp", bsCode([]byte(*x)), unsafe.Pointer(x))
}

type LByts_JpTv []byte

func (x *LByts_JpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LByts_JpTv", -1, nil)
	}
	return doJSON("LByts_JpTv", bsCode([]byte(*x)), unsafe.Pointer(x))
}
func (x LByts_JpTv) MarshalText() ([]byte, error) {
	return doText("LByts_JpTv", bsCode([]byte(x)), nil)
}

type LByts_JpTp []byte

func (x *LByts_JpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LByts_JpTp", -1, nil)
	}
	return doJSON("LByts_JpTp", bsCode([]byte(*x)), unsafe.Pointer(x))
}
func (x *LByts_JpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LByts_JpTp", -1, nil)
	}
	return doText("LByts_JpTp", bsCode([]byte(*x)), unsafe.Pointer(x))
}

type LByts_AvJv []byte

func (x LByts_AvJv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LByts_AvJv", bsCode([]byte(x)), nil)
}
func (x LByts_AvJv) MarshalJSON() ([]byte, error) {
	return doJSON("LByts_AvJv", bsCode([]byte(x)), nil)
}

type LByts_ApJv []byte

func (x *LByts_ApJv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LByts_ApJv", -1, nil)
	}
	return doAppend(dst, "LByts_ApJv", bsCode([]byte(*x)), unsafe.Pointer(x))
}
func (x LByts_ApJv) MarshalJSON() ([]byte, error) {
	return doJSON("LByts_ApJv", bsCode([]byte(x)), nil)
}

type LByts_AvJp []byte

func (x LByts_AvJp) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LByts_AvJp", bsCode([]byte(x)), nil)
}
func (x *LByts_AvJp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LByts_AvJp", -1, nil)
	}
	return doJSON("LByts_AvJp", bsCode([]byte(*x)), unsafe.Pointer(x))
}

type LByts_AvTv []byte

func (x LByts_AvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LByts_AvTv", bsCode([]byte(x)), nil)
}
func (x LByts_AvTv) MarshalText() ([]byte, error) {
	return doText("LByts_AvTv", bsCode([]byte(x)), nil)
}

type LByts_ApTp []byte

func (x *LByts_ApTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LByts_ApTp", -1, nil)
	}
	return doAppend(dst, "LByts_ApTp", bsCode([]byte(*x)), unsafe.Pointer(x))
}
func (x *LByts_ApTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LByts_ApTp", -1, nil)
	}
	return doText("LByts_ApTp", bsCode([]byte(*x)), unsafe.Pointer(x))
}

type LByts_CvAv []byte

func (x LByts_CvAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LByts_CvAv", bsCode([]byte(x)), nil)
}
func (x LByts_CvAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LByts_CvAv", bsCode([]byte(x)), nil)
}

type LByts_CpAv []byte

func (x *LByts_CpAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LByts_CpAv", -1, nil)
	}
	return doCtx(ctx, dst, "LByts_CpAv", bsCode([]byte(*x)), unsafe.Pointer(x))
}
func (x LByts_CpAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LByts_CpAv", bsCode([]byte(x)), nil)
}

type LByts_CvAp []byte

func (x LByts_CvAp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LByts_CvAp", bsCode([]byte(x)), nil)
}
func (x *LByts_CvAp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LByts_CvAp", -1, nil)
	}
	return doAppend(dst, "LByts_CvAp", bsCode([]byte(*x)), unsafe.Pointer(x))
}

type LByts_CvJv []byte

func (x LByts_CvJv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LByts_CvJv", bsCode([]byte(x)), nil)
}
func (x LByts_CvJv) MarshalJSON() ([]byte, error) {
	return doJSON("LByts_CvJv", bsCode([]byte(x)), nil)
}

type LByts_CpTv []byte

func (x *LByts_CpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LByts_CpTv", -1, nil)
	}
	return doCtx(ctx, dst, "LByts_CpTv", bsCode([]byte(*x)), unsafe.Pointer(x))
}
func (x LByts_CpTv) MarshalText() ([]byte, error) {
	return doText("LByts_CpTv", bsCode([]byte(x)), nil)
}

type LByts_ApJpTp []byte

func (x *LByts_ApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LByts_ApJpTp", -1, nil)
	}
	return doAppend(dst, "LByts_ApJpTp", bsCode([]byte(*x)), unsafe.Pointer(x))
}
func (x *LByts_ApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LByts_ApJpTp", -1, nil)
	}
	return doJSON("LByts_ApJpTp", bsCode([]byte(*x)), unsafe.Pointer(x))
}
func (x *LByts_ApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LByts_ApJpTp", -1, nil)
	}
	return doText("LByts_ApJpTp", bsCode([]byte(*x)), unsafe.Pointer(x))
}

type LByts_CvAvJvTv []byte

func (x LByts_CvAvJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LByts_CvAvJvTv", bsCode([]byte(x)), nil)
}
func (x LByts_CvAvJvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LByts_CvAvJvTv", bsCode([]byte(x)), nil)
}
func (x LByts_CvAvJvTv) MarshalJSON() ([]byte, error) {
	return doJSON("LByts_CvAvJvTv", bsCode([]byte(x)), nil)
}
func (x LByts_CvAvJvTv) MarshalText() ([]byte, error) {
	return doText("LByts_CvAvJvTv", bsCode([]byte(x)), nil)
}

type LByts_CpApJpTp []byte

func (x *LByts_CpApJpTp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LByts_CpApJpTp", -1, nil)
	}
	return doCtx(ctx, dst, "LByts_CpApJpTp", bsCode([]byte(*x)), unsafe.Pointer(x))
}
func (x *LByts_CpApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LByts_CpApJpTp", -1, nil)
	}
	return doAppend(dst, "LByts_CpApJpTp", bsCode([]byte(*x)), unsafe.Pointer(x))
}
func (x *LByts_CpApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LByts_CpApJpTp", -1, nil)
	}
	return doJSON("LByts_CpApJpTp", bsCode([]byte(*x)), unsafe.Pointer(x))
}
func (x *LByts_CpApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LByts_CpApJpTp", -1, nil)
	}
	return doText("LByts_CpApJpTp", bsCode([]byte(*x)), unsafe.Pointer(x))
}

type LByts_CvApJpTv []byte

func (x LByts_CvApJpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LByts_CvApJpTv", bsCode([]byte(x)), nil)
}
func (x *LByts_CvApJpTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LByts_CvApJpTv", -1, nil)
	}
	return doAppend(dst, "LByts_CvApJpTv", bsCode([]byte(*x)), unsafe.Pointer(x))
}
func (x *LByts_CvApJpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LByts_CvApJpTv", -1, nil)
	}
	return doJSON("LByts_CvApJpTv", bsCode([]byte(*x)), unsafe.Pointer(x))
}
func (x LByts_CvApJpTv) MarshalText() ([]byte, error) {
	return doText("LByts_CvApJpTv", bsCode([]byte(x)), nil)
}

type LByts_CpApJvTv []byte

func (x *LByts_CpApJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LByts_CpApJvTv", -1, nil)
	}
	return doCtx(ctx, dst, "LByts_CpApJvTv", bsCode([]byte(*x)), unsafe.Pointer(x))
}
func (x *LByts_CpApJvTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LByts_CpApJvTv", -1, nil)
	}
	return doAppend(dst, "LByts_CpApJvTv", bsCode([]byte(*x)), unsafe.Pointer(x))
}
func (x LByts_CpApJvTv) MarshalJSON() ([]byte, error) {
	return doJSON("LByts_CpApJvTv", bsCode([]byte(x)), nil)
}
func (x LByts_CpApJvTv) MarshalText() ([]byte, error) {
	return doText("LByts_CpApJvTv", bsCode([]byte(x)), nil)
}

type LMap_None map[string]int

type LMap_Jv map[string]int

func (x LMap_Jv) MarshalJSON() ([]byte, error) { return doJSON("LMap_Jv", int(x["k"]), nil) }

type LMap_Jp map[string]int

func (x *LMap_Jp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LMap_Jp", -1, nil)
	}
	return doJSON("LMap_Jp", int((*x)["k"]), unsafe.Pointer(x))
}

type LMap_Tv map[string]int

func (x LMap_Tv) MarshalText() ([]byte, error) { return doText("LMap_Tv", int(x["k"]), nil) }

type LMap_Tp map[string]int

func (x *LMap_Tp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LMap_Tp", -1, nil)
	}
	return doText("LMap_Tp", int((*x)["k"]), unsafe.Pointer(x))
}

type LMap_Av map[string]int

func (x LMap_Av) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LMap_Av", int(x["k"]), nil)
}

type LMap_Ap map[string]int

func (x *LMap_Ap) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LMap_Ap", -1, nil)
	}
	return doAppend(dst, "LMap_Ap", int((*x)["k"]), unsafe.Pointer(x))
}

type LMap_Cv map[string]int

func (x LMap_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LMap_Cv", int(x["k"]), nil)
}

type LMap_Cp map[string]int

func (x *LMap_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LMap_Cp", -1, nil)
	}
	return doCtx(ctx, dst, "LMap_Cp", int((*x)["k"]), unsafe.Pointer(x))
}

type LMap_JvTv map[string]int

func (x LMap_JvTv) MarshalJSON() ([]byte, error) { return doJSON("LMap_JvTv", int(x["k"]), nil) }
func (x LMap_JvTv) MarshalText() ([]byte, error) { return doText("LMap_JvTv", int(x["k"]), nil) }

type LMap_JvTp map[string]int

func (x LMap_JvTp) MarshalJSON() ([]byte, error) { return doJSON("LMap_JvTp", int(x["k"]), nil) }
func (x *LMap_JvTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LMap_JvTp", -1, nil)
	}
	return doText("LMap_JvTp", int((*x)["k"]), unsafe.Pointer(x))
}

type LMap_JpTv map[string]int

func (x *LMap_JpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LMap_JpTv", -1, nil)
	}
	return doJSON("LMap_JpTv", int((*x)["k"]), unsafe.Pointer(x))
}
func (x LMap_JpTv) MarshalText() ([]byte, error) { return doText("LMap_JpTv", int(x["k"]), nil) }

type LMap_JpTp map[string]int

func (x *LMap_JpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LMap_JpTp", -1, nil)
	}
	return doJSON("LMap_JpTp", int((*x)["k"]), unsafe.Pointer(x))
}
func (x *LMap_JpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LMap_JpTp", -1, nil)
	}
	return doText("LMap_JpTp", int((*x)["k"]), unsafe.Pointer(x))
}

type LMap_AvJv map[string]int

func (x LMap_AvJv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LMap_AvJv", int(x["k"]), nil)
}
func (x LMap_AvJv) MarshalJSON() ([]byte, error) { return doJSON("LMap_AvJv", int(x["k"]), nil) }

type LMap_ApJv map[string]int

func (x *LMap_ApJv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LMap_ApJv", -1, nil)
	}
	return doAppend(dst, "LMap_ApJv", int((*x)["k"]), unsafe.Pointer(x))
}
func (x LMap_ApJv) MarshalJSON() ([]byte, error) { return doJSON("LMap_ApJv", int(x["k"]), nil) }

type LMap_AvJp map[string]int

func (x LMap_AvJp) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LMap_AvJp", int(x["k"]), nil)
}
func (x *LMap_AvJp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LMap_AvJp", -1, nil)
	}
	return doJSON("LMap_AvJp", int((*x)["k"]), unsafe.Pointer(x))
}

type LMap_AvTv map[string]int

func (x LMap_AvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LMap_AvTv", int(x["k"]), nil)
}
func (x LMap_AvTv) MarshalText() ([]byte, error) { return doText("LMap_AvTv", int(x["k"]), nil) }

type LMap_ApTp map[string]int

func (x *LMap_ApTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LMap_ApTp", -1, nil)
	}
	return doAppend(dst, "LMap_ApTp", int((*x)["k"]), unsafe.Pointer(x))
}
func (x *LMap_ApTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LMap_ApTp", -1, nil)
	}
	return doText("LMap_ApTp", int((*x)["k"]), unsafe.Pointer(x))
}

type LMap_CvAv map[string]int

func (x LMap_CvAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LMap_CvAv", int(x["k"]), nil)
}
func (x LMap_CvAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LMap_CvAv", int(x["k"]), nil)
}

type LMap_CpAv map[string]int

func (x *LMap_CpAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LMap_CpAv", -1, nil)
	}
	return doCtx(ctx, dst, "LMap_CpAv", int((*x)["k"]), unsafe.Pointer(x))
}
func (x LMap_CpAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LMap_CpAv", int(x["k"]), nil)
}

type LMap_CvAp map[string]int

func (x LMap_CvAp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LMap_CvAp", int(x["k"]), nil)
}
func (x *LMap_CvAp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LMap_CvAp", -1, nil)
	}
	return doAppend(dst, "LMap_CvAp", int((*x)["k"]), unsafe.Pointer(x))
}

type LMap_CvJv map[string]int

func (x LMap_CvJv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LMap_CvJv", int(x["k"]), nil)
}
func (x LMap_CvJv) MarshalJSON() ([]byte, error) { return doJSON("LMap_CvJv", int(x["k"]), nil) }

type LMap_CpTv map[string]int

func (x *LMap_CpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LMap_CpTv", -1, nil)
	}
	return doCtx(ctx, dst, "LMap_CpTv", int((*x)["k"]), unsafe.Pointer(x))
}
func (x LMap_CpTv) MarshalText() ([]byte, error) { return doText("LMap_CpTv", int(x["k"]), nil) }

type LMap_ApJpTp map[string]int

func (x *LMap_ApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LMap_ApJpTp", -1, nil)
	}
	return doAppend(dst, "LMap_ApJpTp", int((*x)["k"]), unsafe.Pointer(x))
}
func (x *LMap_ApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LMap_ApJpTp", -1, nil)
	}
	return doJSON("LMap_ApJpTp", int((*x)["k"]), unsafe.Pointer(x))
}
func (x *LMap_ApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LMap_ApJpTp", -1, nil)
	}
	return doText("LMap_ApJpTp", int((*x)["k"]), unsafe.Pointer(x))
}

type LMap_CvAvJvTv map[string]int

func (x LMap_CvAvJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LMap_CvAvJvTv", int(x["k"]), nil)
}
func (x LMap_CvAvJvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LMap_CvAvJvTv", int(x["k"]), nil)
}
func (x LMap_CvAvJvTv) MarshalJSON() ([]byte, error) {
	return doJSON("LMap_CvAvJvTv", int(x["k"]), nil)
}
func (x LMap_CvAvJvTv) MarshalText() ([]byte, error) {
	return doText("LMap_CvAvJvTv", int(x["k"]), nil)
}

type LMap_CpApJpTp map[string]int

func (x *LMap_CpApJpTp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LMap_CpApJpTp", -1, nil)
	}
	return doCtx(ctx, dst, "LMap_CpApJpTp", int((*x)["k"]), unsafe.Pointer(x))
}
func (x *LMap_CpApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LMap_CpApJpTp", -1, nil)
	}
	return doAppend(dst, "LMap_CpApJpTp", int((*x)["k"]), unsafe.Pointer(x))
}
func (x *LMap_CpApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LMap_CpApJpTp", -1, nil)
	}
	return doJSON("LMap_CpApJpTp", int((*x)["k"]), unsafe.Pointer(x))
}
func (x *LMap_CpApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LMap_CpApJpTp", -1, nil)
	}
	return doText("LMap_CpApJpTp", int((*x)["k"]), unsafe.Pointer(x))
}

type LMap_CvApJpTv map[string]int

func (x LMap_CvApJpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LMap_CvApJpTv", int(x["k"]), nil)
}
func (x *LMap_CvApJpTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LMap_CvApJpTv", -1, nil)
	}
	return doAppend(dst, "LMap_CvApJpTv", int((*x)["k"]), unsafe.Pointer(x))
}
func (x *LMap_CvApJpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LMap_CvApJpTv", -1, nil)
	}
	return doJSON("LMap_CvApJpTv", int((*x)["k"]), unsafe.Pointer(x))
}
func (x LMap_CvApJpTv) MarshalText() ([]byte, error) {
	return doText("LMap_CvApJpTv", int(x["k"]), nil)
}

type LMap_CpApJvTv map[string]int

func (x *LMap_CpApJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LMap_CpApJvTv", -1, nil)
	}
	return doCtx(ctx, dst, "LMap_CpApJvTv", int((*x)["k"]), unsafe.Pointer(x))
}
func (x *LMap_CpApJvTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LMap_CpApJvTv", -1, nil)
	}
	return doAppend(dst, "LMap_CpApJvTv", int((*x)["k"]), unsafe.Pointer(x))
}
func (x LMap_CpApJvTv) MarshalJSON() ([]byte, error) {
	return doJSON("LMap_CpApJvTv", int(x["k"]), nil)
}
func (x LMap_CpApJvTv) MarshalText() ([]byte, error) {
	return doText("LMap_CpApJvTv", int(x["k"]), nil)
}

type LA2_None [2]int

type LA2_Jv [2]int

func (x LA2_Jv) MarshalJSON() ([]byte, error) { return doJSON("LA2_Jv", x[0], nil) }

type LA2_Jp [2]int

func (x *LA2_Jp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LA2_Jp", -1, nil)
	}
	return doJSON("LA2_Jp", (*x)[0], unsafe.Pointer(x))
}

type LA2_Tv [2]int

func (x LA2_Tv) MarshalText() ([]byte, error) { return doText("LA2_Tv", x[0], nil) }

type LA2_Tp [2]int

func (x *LA2_Tp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LA2_Tp", -1, nil)
	}
	return doText("LA2_Tp", (*x)[0], unsafe.Pointer(x))
}

type LA2_Av [2]int

func (x LA2_Av) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LA2_Av", x[0], nil) }

type LA2_Ap [2]int

func (x *LA2_Ap) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LA2_Ap", -1, nil)
	}
	return doAppend(dst, "LA2_Ap", (*x)[0], unsafe.Pointer(x))
}

type LA2_Cv [2]int

func (x LA2_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LA2_Cv", x[0], nil)
}

type LA2_Cp [2]int

func (x *LA2_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LA2_Cp", -1, nil)
	}
	return doCtx(ctx, dst, "LA2_Cp", (*x)[0], unsafe.Pointer(x))
}

type LA2_JvTv [2]int

func (x LA2_JvTv) MarshalJSON() ([]byte, error) { return doJSON("LA2_JvTv", x[0], nil) }
func (x LA2_JvTv) MarshalText() ([]byte, error) { return doText("LA2_JvTv", x[0], nil) }

type LA2_JvTp [2]int

func (x LA2_JvTp) MarshalJSON() ([]byte, error) { return doJSON("LA2_JvTp", x[0], nil) }
func (x *LA2_JvTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LA2_JvTp", -1, nil)
	}
	return doText("LA2_JvTp", (*x)[0], unsafe.Pointer(x))
}

type LA2_JpTv [2]int

func (x *LA2_JpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LA2_JpTv", -1, nil)
	}
	return doJSON("LA2_JpTv", (*x)[0], unsafe.Pointer(x))
}
func (x LA2_JpTv) MarshalText() ([]byte, error) { return doText("LA2_JpTv", x[0], nil) }

type LA2_JpTp [2]int

func (x *LA2_JpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LA2_JpTp", -1, nil)
	}
	return doJSON("LA2_JpTp", (*x)[0], unsafe.Pointer(x))
}
func (x *LA2_JpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LA2_JpTp", -1, nil)
	}
	return doText("LA2_JpTp", (*x)[0], unsafe.Pointer(x))
}

type LA2_AvJv [2]int

func (x LA2_AvJv) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LA2_AvJv", x[0], nil) }
func (x LA2_AvJv) MarshalJSON() ([]byte, error)          { return doJSON("LA2_AvJv", x[0], nil) }

type LA2_ApJv [2]int

func (x *LA2_ApJv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LA2_ApJv", -1, nil)
	}
	return doAppend(dst, "LA2_ApJv", (*x)[0], unsafe.Pointer(x))
}
func (x LA2_ApJv) MarshalJSON() ([]byte, error) { return doJSON("LA2_ApJv", x[0], nil) }

type LA2_AvJp [2]int

func (x LA2_AvJp) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LA2_AvJp", x[0], nil) }
func (x *LA2_AvJp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LA2_AvJp", -1, nil)
	}
	return doJSON("LA2_AvJp", (*x)[0], unsafe.Pointer(x))
}

type LA2_AvTv [2]int

func (x LA2_AvTv) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LA2_AvTv", x[0], nil) }
func (x LA2_AvTv) MarshalText() ([]byte, error)          { return doText("LA2_AvTv", x[0], nil) }

type LA2_ApTp [2]int

func (x *LA2_ApTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LA2_ApTp", -1, nil)
	}
	return doAppend(dst, "LA2_ApTp", (*x)[0], unsafe.Pointer(x))
}
func (x *LA2_ApTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LA2_ApTp", -1, nil)
	}
	return doText("LA2_ApTp", (*x)[0], unsafe.Pointer(x))
}

type LA2_CvAv [2]int

func (x LA2_CvAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LA2_CvAv", x[0], nil)
}
func (x LA2_CvAv) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LA2_CvAv", x[0], nil) }

type LA2_CpAv [2]int

func (x *LA2_CpAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LA2_CpAv", -1, nil)
	}
	return doCtx(ctx, dst, "LA2_CpAv", (*x)[0], unsafe.Pointer(x))
}
func (x LA2_CpAv) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LA2_CpAv", x[0], nil) }

type LA2_CvAp [2]int

func (x LA2_CvAp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LA2_CvAp", x[0], nil)
}
func (x *LA2_CvAp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LA2_CvAp", -1, nil)
	}
	return doAppend(dst, "LA2_CvAp", (*x)[0], unsafe.Pointer(x))
}

type LA2_CvJv [2]int

func (x LA2_CvJv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LA2_CvJv", x[0], nil)
}
func (x LA2_CvJv) MarshalJSON() ([]byte, error) { return doJSON("LA2_CvJv", x[0], nil) }

type LA2_CpTv [2]int

func (x *LA2_CpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LA2_CpTv", -1, nil)
	}
	return doCtx(ctx, dst, "LA2_CpTv", (*x)[0], unsafe.Pointer(x))
}
func (x LA2_CpTv) MarshalText() ([]byte, error) { return doText("LA2_CpTv", x[0], nil) }

type LA2_ApJpTp [2]int

func (x *LA2_ApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LA2_ApJpTp", -1, nil)
	}
	return doAppend(dst, "LA2_ApJpTp", (*x)[0], unsafe.Pointer(x))
}
func (x *LA2_ApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LA2_ApJpTp", -1, nil)
	}
	return doJSON("LA2_ApJpTp", (*x)[0], unsafe.Pointer(x))
}
func (x *LA2_ApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LA2_ApJpTp", -1, nil)
	}
	return doText("LA2_ApJpTp", (*x)[0], unsafe.Pointer(x))
}

type LA2_CvAvJvTv [2]int

func (x LA2_CvAvJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LA2_CvAvJvTv", x[0], nil)
}
func (x LA2_CvAvJvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LA2_CvAvJvTv", x[0], nil)
}
func (x LA2_CvAvJvTv) MarshalJSON() ([]byte, error) { return doJSON("LA2_CvAvJvTv", x[0], nil) }
func (x LA2_CvAvJvTv) MarshalText() ([]byte, error) { return doText("LA2_CvAvJvTv", x[0], nil) }

type LA2_CpApJpTp [2]int

func (x *LA2_CpApJpTp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LA2_CpApJpTp", -1, nil)
	}
	return doCtx(ctx, dst, "LA2_CpApJpTp", (*x)[0], unsafe.Pointer(x))
}
func (x *LA2_CpApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LA2_CpApJpTp", -1, nil)
	}
	return doAppend(dst, "LA2_CpApJpTp", (*x)[0], unsafe.Pointer(x))
}
func (x *LA2_CpApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LA2_CpApJpTp", -1, nil)
	}
	return doJSON("LA2_CpApJpTp", (*x)[0], unsafe.Pointer(x))
}
func (x *LA2_CpApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LA2_CpApJpTp", -1, nil)
	}
	return doText("LA2_CpApJpTp", (*x)[0], unsafe.Pointer(x))
}

type LA2_CvApJpTv [2]int

func (x LA2_CvApJpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LA2_CvApJpTv", x[0], nil)
}
func (x *LA2_CvApJpTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LA2_CvApJpTv", -1, nil)
	}
	return doAppend(dst, "LA2_CvApJpTv", (*x)[0], unsafe.Pointer(x))
}
func (x *LA2_CvApJpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LA2_CvApJpTv", -1, nil)
	}
	return doJSON("LA2_CvApJpTv", (*x)[0], unsafe.Pointer(x))
}
func (x LA2_CvApJpTv) MarshalText() ([]byte, error) { return doText("LA2_CvApJpTv", x[0], nil) }

type LA2_CpApJvTv [2]int

func (x *LA2_CpApJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LA2_CpApJvTv", -1, nil)
	}
	return doCtx(ctx, dst, "LA2_CpApJvTv", (*x)[0], unsafe.Pointer(x))
}
func (x *LA2_CpApJvTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LA2_CpApJvTv", -1, nil)
	}
	return doAppend(dst, "LA2_CpApJvTv", (*x)[0], unsafe.Pointer(x))
}
func (x LA2_CpApJvTv) MarshalJSON() ([]byte, error) { return doJSON("LA2_CpApJvTv", x[0], nil) }
func (x LA2_CpApJvTv) MarshalText() ([]byte, error) { return doText("LA2_CpApJvTv", x[0], nil) }

type LA1P_None [1]*int

type LA1P_Jv [1]*int

func (x LA1P_Jv) MarshalJSON() ([]byte, error) { return doJSON("LA1P_Jv", pCode(x[0]), nil) }

type LA1P_Jp [1]*int

func (x *LA1P_Jp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LA1P_Jp", -1, nil)
	}
	return doJSON("LA1P_Jp", pCode((*x)[0]), unsafe.Pointer(x))
}

type LA1P_Tv [1]*int

func (x LA1P_Tv) MarshalText() ([]byte, error) { return doText("LA1P_Tv", pCode(x[0]), nil) }

type LA1P_Tp [1]*int

func (x *LA1P_Tp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LA1P_Tp", -1, nil)
	}
	return doText("LA1P_Tp", pCode((*x)[0]), unsafe.Pointer(x))
}

type LA1P_Av [1]*int

func (x LA1P_Av) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LA1P_Av", pCode(x[0]), nil)
}

type LA1P_Ap [1]*int

func (x *LA1P_Ap) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LA1P_Ap", -1, nil)
	}
	return doAppend(dst, "LA1P_Ap", pCode((*x)[0]), unsafe.Pointer(x))
}

type LA1P_Cv [1]*int

func (x LA1P_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LA1P_Cv", pCode(x[0]), nil)
}

type LA1P_Cp [1]*int

func (x *LA1P_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LA1P_Cp", -1, nil)
	}
	return doCtx(ctx, dst, "LA1P_Cp", pCode((*x)[0]), unsafe.Pointer(x))
}

type LA1P_JvTv [1]*int

func (x LA1P_JvTv) MarshalJSON() ([]byte, error) { return doJSON("LA1P_JvTv", pCode(x[0]), nil) }
func (x LA1P_JvTv) MarshalText() ([]byte, error) { return doText("LA1P_JvTv", pCode(x[0]), nil) }

type LA1P_JvTp [1]*int

func (x LA1P_JvTp) MarshalJSON() ([]byte, error) { return doJSON("LA1P_JvTp", pCode(x[0]), nil) }
func (x *LA1P_JvTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LA1P_JvTp", -1, nil)
	}
	return doText("LA1P_JvTp", pCode((*x)[0]), unsafe.Pointer(x))
}

type LA1P_JpTv [1]*int

func (x *LA1P_JpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LA1P_JpTv", -1, nil)
	}
	return doJSON("LA1P_JpTv", pCode((*x)[0]), unsafe.Pointer(x))
}
func (x LA1P_JpTv) MarshalText() ([]byte, error) { return doText("LA1P_JpTv", pCode(x[0]), nil) }

type LA1P_JpTp [1]*int

func (x *LA1P_JpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LA1P_JpTp", -1, nil)
	}
	return doJSON("LA1P_JpTp", pCode((*x)[0]), unsafe.Pointer(x))
}
func (x *LA1P_JpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LA1P_JpTp", -1, nil)
	}
	return doText("LA1P_JpTp", pCode((*x)[0]), unsafe.Pointer(x))
}

type LA1P_AvJv [1]*int

func (x LA1P_AvJv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LA1P_AvJv", pCode(x[0]), nil)
}
func (x LA1P_AvJv) MarshalJSON() ([]byte, error) { return doJSON("LA1P_AvJv", pCode(x[0]), nil) }

type LA1P_ApJv [1]*int

func (x *LA1P_ApJv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LA1P_ApJv", -1, nil)
	}
	return doAppend(dst, "LA1P_ApJv", pCode((*x)[0]), unsafe.Pointer(x))
}
func (x LA1P_ApJv) MarshalJSON() ([]byte, error) { return doJSON("LA1P_ApJv", pCode(x[0]), nil) }

type LA1P_AvJp [1]*int

func (x LA1P_AvJp) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LA1P_AvJp", pCode(x[0]), nil)
}
func (x *LA1P_AvJp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LA1P_AvJp", -1, nil)
	}
	return doJSON("LA1P_AvJp", pCode((*x)[0]), unsafe.Pointer(x))
}

type LA1P_AvTv [1]*int

func (x LA1P_AvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LA1P_AvTv", pCode(x[0]), nil)
}
func (x LA1P_AvTv) MarshalText() ([]byte, error) { return doText("LA1P_AvTv", pCode(x[0]), nil) }

type LA1P_ApTp [1]*int

func (x *LA1P_ApTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LA1P_ApTp", -1, nil)
	}
	return doAppend(dst, "LA1P_ApTp", pCode((*x)[0]), unsafe.Pointer(x))
}
func (x *LA1P_ApTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LA1P_ApTp", -1, nil)
	}
	return doText("LA1P_ApTp", pCode((*x)[0]), unsafe.Pointer(x))
}

type LA1P_CvAv [1]*int

func (x LA1P_CvAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LA1P_CvAv", pCode(x[0]), nil)
}
func (x LA1P_CvAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LA1P_CvAv", pCode(x[0]), nil)
}

type LA1P_CpAv [1]*int

func (x *LA1P_CpAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LA1P_CpAv", -1, nil)
	}
	return doCtx(ctx, dst, "LA1P_CpAv", pCode((*x)[0]), unsafe.Pointer(x))
}
func (x LA1P_CpAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LA1P_CpAv", pCode(x[0]), nil)
}

type LA1P_CvAp [1]*int

func (x LA1P_CvAp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LA1P_CvAp", pCode(x[0]), nil)
}
func (x *LA1P_CvAp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LA1P_CvAp", -1, nil)
	}
	return doAppend(dst, "LA1P_CvAp", pCode((*x)[0]), unsafe.Pointer(x))
}

type LA1P_CvJv [1]*int

func (x LA1P_CvJv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LA1P_CvJv", pCode(x[0]), nil)
}
func (x LA1P_CvJv) MarshalJSON() ([]byte, error) { return doJSON("LA1P_CvJv", pCode(x[0]), nil) }

type LA1P_CpTv [1]*int

func (x *LA1P_CpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LA1P_CpTv", -1, nil)
	}
	return doCtx(ctx, dst, "LA1P_CpTv", pCode((*x)[0]), unsafe.Pointer(x))
}
func (x LA1P_CpTv) MarshalText() ([]byte, error) { return doText("LA1P_CpTv", pCode(x[0]), nil) }

type LA1P_ApJpTp [1]*int

func (x *LA1P_ApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LA1P_ApJpTp", -1, nil)
	}
	return doAppend(dst, "LA1P_ApJpTp", pCode((*x)[0]), unsafe.Pointer(x))
}
func (x *LA1P_ApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LA1P_ApJpTp", -1, nil)
	}
	return doJSON("LA1P_ApJpTp", pCode((*x)[0]), unsafe.Pointer(x))
}
func (x *LA1P_ApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LA1P_ApJpTp", -1, nil)
	}
	return doText("LA1P_ApJpTp", pCode((*x)[0]), unsafe.Pointer(x))
}

type LA1P_CvAvJvTv [1]*int

func (x LA1P_CvAvJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LA1P_CvAvJvTv", pCode(x[0]), nil)
}
func (x LA1P_CvAvJvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LA1P_CvAvJvTv", pCode(x[0]), nil)
}
func (x LA1P_CvAvJvTv) MarshalJSON() ([]byte, error) {
	return doJSON("LA1P_CvAvJvTv", pCode(x[0]), nil)
}
func (x LA1P_CvAvJvTv) MarshalText() ([]byte, error) {
	return doText("LA1P_CvAvJvTv", pCode(x[0]), nil)
}

type LA1P_CpApJpTp [1]*int

func (x *LA1P_CpApJpTp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LA1P_CpApJpTp", -1, nil)
	}
	return doCtx(ctx, dst, "LA1P_CpApJpTp", pCode((*x)[0]), unsafe.Pointer(x))
}
func (x *LA1P_CpApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LA1P_CpApJpTp", -1, nil)
	}
	return doAppend(dst, "LA1P_CpApJpTp", pCode((*x)[0]), unsafe.Pointer(x))
}
func (x *LA1P_CpApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LA1P_CpApJpTp", -1, nil)
	}
	return doJSON("LA1P_CpApJpTp", pCode((*x)[0]), unsafe.Pointer(x))
}
func (x *LA1P_CpApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LA1P_CpApJpTp", -1, nil)
	}
	return doText("LA1P_CpApJpTp", pCode((*x)[0]), unsafe.Pointer(x))
}

type LA1P_CvApJpTv [1]*int

func (x LA1P_CvApJpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LA1P_CvApJpTv", pCode(x[0]), nil)
}
func (x *LA1P_CvApJpTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LA1P_CvApJpTv", -1, nil)
	}
	return doAppend(dst, "LA1P_CvApJpTv", pCode((*x)[0]), unsafe.Pointer(x))
}
func (x *LA1P_CvApJpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LA1P_CvApJpTv", -1, nil)
	}
	return doJSON("LA1P_CvApJpTv", pCode((*x)[0]), unsafe.Pointer(x))
}
func (x LA1P_CvApJpTv) MarshalText() ([]byte, error) {
	return doText("LA1P_CvApJpTv", pCode(x[0]), nil)
}

type LA1P_CpApJvTv [1]*int

func (x *LA1P_CpApJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LA1P_CpApJvTv", -1, nil)
	}
	return doCtx(ctx, dst, "LA1P_CpApJvTv", pCode((*x)[0]), unsafe.Pointer(x))
}
func (x *LA1P_CpApJvTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LA1P_CpApJvTv", -1, nil)
	}
	return doAppend(dst, "LA1P_CpApJvTv", pCode((*x)[0]), unsafe.Pointer(x))
}
func (x LA1P_CpApJvTv) MarshalJSON() ([]byte, error) {
	return doJSON("LA1P_CpApJvTv", pCode(x[0]), nil)
}
func (x LA1P_CpApJvTv) MarshalText() ([]byte, error) {
	return doText("LA1P_CpApJvTv", pCode(x[0]), nil)
}

type LA0_None [0]int

type LA0_Jv [0]int

func (x LA0_Jv) MarshalJSON() ([]byte, error) { return doJSON("LA0_Jv", 0, nil) }

type LA0_Jp [0]int

func (x *LA0_Jp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LA0_Jp", -1, nil)
	}
	return doJSON("LA0_Jp", 0, unsafe.Pointer(x))
}

type LA0_Tv [0]int

func (x LA0_Tv) MarshalText() ([]byte, error) { return doText("LA0_Tv", 0, nil) }

type LA0_Tp [0]int

func (x *LA0_Tp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LA0_Tp", -1, nil)
	}
	return doText("LA0_Tp", 0, unsafe.Pointer(x))
}

type LA0_Av [0]int

func (x LA0_Av) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LA0_Av", 0, nil) }

type LA0_Ap [0]int

func (x *LA0_Ap) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LA0_Ap", -1, nil)
	}
	return doAppend(dst, "LA0_Ap", 0, unsafe.Pointer(x))
}

type LA0_Cv [0]int

func (x LA0_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LA0_Cv", 0, nil)
}

type LA0_Cp [0]int

func (x *LA0_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LA0_Cp", -1, nil)
	}
	return doCtx(ctx, dst, "LA0_Cp", 0, unsafe.Pointer(x))
}

type LA0_JvTv [0]int

func (x LA0_JvTv) MarshalJSON() ([]byte, error) { return doJSON("LA0_JvTv", 0, nil) }
func (x LA0_JvTv) MarshalText() ([]byte, error) { return doText("LA0_JvTv", 0, nil) }

type LA0_JvTp [0]int

func (x LA0_JvTp) MarshalJSON() ([]byte, error) { return doJSON("LA0_JvTp", 0, nil) }
func (x *LA0_JvTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LA0_JvTp", -1, nil)
	}
	return doText("LA0_JvTp", 0, unsafe.Pointer(x))
}

type LA0_JpTv [0]int

func (x *LA0_JpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LA0_JpTv", -1, nil)
	}
	return doJSON("LA0_JpTv", 0, unsafe.Pointer(x))
}
func (x LA0_JpTv) MarshalText() ([]byte, error) { return doText("LA0_JpTv", 0, nil) }

type LA0_JpTp [0]int

func (x *LA0_JpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LA0_JpTp", -1, nil)
	}
	return doJSON("LA0_JpTp", 0, unsafe.Pointer(x))
}
func (x *LA0_JpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LA0_JpTp", -1, nil)
	}
	return doText("LA0_JpTp", 0, unsafe.Pointer(x))
}

type LA0_AvJv [0]int

func (x LA0_AvJv) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LA0_AvJv", 0, nil) }
func (x LA0_AvJv) MarshalJSON() ([]byte, error)          { return doJSON("LA0_AvJv", 0, nil) }

type LA0_ApJv [0]int

func (x *LA0_ApJv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LA0_ApJv", -1, nil)
	}
	return doAppend(dst, "LA0_ApJv", 0, unsafe.Pointer(x))
}
func (x LA0_ApJv) MarshalJSON() ([]byte, error) { return doJSON("LA0_ApJv", 0, nil) }

type LA0_AvJp [0]int

func (x LA0_AvJp) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LA0_AvJp", 0, nil) }
func (x *LA0_AvJp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LA0_AvJp", -1, nil)
	}
	return doJSON("LA0_AvJp", 0, unsafe.Pointer(x))
}

type LA0_AvTv [0]int

func (x LA0_AvTv) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LA0_AvTv", 0, nil) }
func (x LA0_AvTv) MarshalText() ([]byte, error)          { return doText("LA0_AvTv", 0, nil) }

type LA0_ApTp [0]int

func (x *LA0_ApTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LA0_ApTp", -1, nil)
	}
	return doAppend(dst, "LA0_ApTp", 0, unsafe.Pointer(x))
}
func (x *LA0_ApTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LA0_ApTp", -1, nil)
	}
	return doText("LA0_ApTp", 0, unsafe.Pointer(x))
}

type LA0_CvAv [0]int

func (x LA0_CvAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LA0_CvAv", 0, nil)
}
func (x LA0_CvAv) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LA0_CvAv", 0, nil) }

type LA0_CpAv [0]int

func (x *LA0_CpAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LA0_CpAv", -1, nil)
	}
	return doCtx(ctx, dst, "LA0_CpAv", 0, unsafe.Pointer(x))
}
func (x LA0_CpAv) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LA0_CpAv", 0, nil) }

type LA0_CvAp [0]int

func (x LA0_CvAp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LA0_CvAp", 0, nil)
}
func (x *LA0_CvAp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LA0_CvAp", -1, nil)
	}
	return doAppend(dst, "LA0_CvAp", 0, unsafe.Pointer(x))
}

type LA0_CvJv [0]int

func (x LA0_CvJv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LA0_CvJv", 0, nil)
}
func (x LA0_CvJv) MarshalJSON() ([]byte, error) { return doJSON("LA0_CvJv", 0, nil) }

type LA0_CpTv [0]int

func (x *LA0_CpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LA0_CpTv", -1, nil)
	}
	return doCtx(ctx, dst, "LA0_CpTv", 0, unsafe.Pointer(x))
}
func (x LA0_CpTv) MarshalText() ([]byte, error) { return doText("LA0_CpTv", 0, nil) }

type LA0_ApJpTp [0]int

func (x *LA0_ApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LA0_ApJpTp", -1, nil)
	}
	return doAppend(dst, "LA0_ApJpTp", 0, unsafe.Pointer(x))
}
func (x *LA0_ApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LA0_ApJpTp", -1, nil)
	}
	return doJSON("LA0_ApJpTp", 0, unsafe.Pointer(x))
}
func (x *LA0_ApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LA0_ApJpTp", -1, nil)
	}
	return doText("LA0_ApJpTp", 0, unsafe.Pointer(x))
}

type LA0_CvAvJvTv [0]int

func (x LA0_CvAvJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LA0_CvAvJvTv", 0, nil)
}
func (x LA0_CvAvJvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LA0_CvAvJvTv", 0, nil)
}
func (x LA0_CvAvJvTv) MarshalJSON() ([]byte, error) { return doJSON("LA0_CvAvJvTv", 0, nil) }
func (x LA0_CvAvJvTv) MarshalText() ([]byte, error) { return doText("LA0_CvAvJvTv", 0, nil) }

type LA0_CpApJpTp [0]int

func (x *LA0_CpApJpTp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LA0_CpApJpTp", -1, nil)
	}
	return doCtx(ctx, dst, "LA0_CpApJpTp", 0, unsafe.Pointer(x))
}
func (x *LA0_CpApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LA0_CpApJpTp", -1, nil)
	}
	return doAppend(dst, "LA0_CpApJpTp", 0, unsafe.Pointer(x))
}
func (x *LA0_CpApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LA0_CpApJpTp", -1, nil)
	}
	return doJSON("LA0_CpApJpTp", 0, unsafe.Pointer(x))
}
func (x *LA0_CpApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LA0_CpApJpTp", -1, nil)
	}
	return doText("LA0_CpApJpTp", 0, unsafe.Pointer(x))
}

type LA0_CvApJpTv [0]int

func (x LA0_CvApJpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LA0_CvApJpTv", 0, nil)
}
func (x *LA0_CvApJpTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LA0_CvApJpTv", -1, nil)
	}
	return doAppend(dst, "LA0_CvApJpTv", 0, unsafe.Pointer(x))
}
func (x *LA0_CvApJpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LA0_CvApJpTv", -1, nil)
	}
	return doJSON("LA0_CvApJpTv", 0, unsafe.Pointer(x))
}
func (x LA0_CvApJpTv) MarshalText() ([]byte, error) { return doText("LA0_CvApJpTv", 0, nil) }

type LA0_CpApJvTv [0]int

func (x *LA0_CpApJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LA0_CpApJvTv", -1, nil)
	}
	return doCtx(ctx, dst, "LA0_CpApJvTv", 0, unsafe.Pointer(x))
}
func (x *LA0_CpApJvTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LA0_CpApJvTv", -1, nil)
	}
	return doAppend(dst, "LA0_CpApJvTv", 0, unsafe.Pointer(x))
}
func (x LA0_CpApJvTv) MarshalJSON() ([]byte, error) { return doJSON("LA0_CpApJvTv", 0, nil) }
func (x LA0_CpApJvTv) MarshalText() ([]byte, error) { return doText("LA0_CpApJvTv", 0, nil) }

type LS_None struct {
	A int
	B string
}

type LS_Jv struct {
	A int
	B string
}

func (x LS_Jv) MarshalJSON() ([]byte, error) { return doJSON("LS_Jv", x.A, nil) }

type LS_Jp struct {
	A int
	B string
}

func (x *LS_Jp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LS_Jp", -1, nil)
	}
	return doJSON("LS_Jp", x.A, unsafe.Pointer(x))
}

type LS_Tv struct {
	A int
	B string
}

func (x LS_Tv) MarshalText() ([]byte, error) { return doText("LS_Tv", x.A, nil) }

type LS_Tp struct {
	A int
	B string
}

func (x *LS_Tp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LS_Tp", -1, nil)
	}
	return doText("LS_Tp", x.A, unsafe.Pointer(x))
}

type LS_Av struct {
	A int
	B string
}

func (x LS_Av) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LS_Av", x.A, nil) }

type LS_Ap struct {
	A int
	B string
}

func (x *LS_Ap) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LS_Ap", -1, nil)
	}
	return doAppend(dst, "LS_Ap", x.A, unsafe.Pointer(x))
}

type LS_Cv struct {
	A int
	B string
}

func (x LS_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LS_Cv", x.A, nil)
}

type LS_Cp struct {
	A int
	B string
}

func (x *LS_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LS_Cp", -1, nil)
	}
	return doCtx(ctx, dst, "LS_Cp", x.A, unsafe.Pointer(x))
}

type LS_JvTv struct {
	A int
	B string
}

func (x LS_JvTv) MarshalJSON() ([]byte, error) { return doJSON("LS_JvTv", x.A, nil) }
func (x LS_JvTv) MarshalText() ([]byte, error) { return doText("LS_JvTv", x.A, nil) }

type LS_JvTp struct {
	A int
	B string
}

func (x LS_JvTp) MarshalJSON() ([]byte, error) { return doJSON("LS_JvTp", x.A, nil) }
func (x *LS_JvTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LS_JvTp", -1, nil)
	}
	return doText("LS_JvTp", x.A, unsafe.Pointer(x))
}

type LS_JpTv struct {
	A int
	B string
}

func (x *LS_JpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LS_JpTv", -1, nil)
	}
	return doJSON("LS_JpTv", x.A, unsafe.Pointer(x))
}
func (x LS_JpTv) MarshalText() ([]byte, error) { return doText("LS_JpTv", x.A, nil) }

type LS_JpTp struct {
	A int
	B string
}

func (x *LS_JpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LS_JpTp", -1, nil)
	}
	return doJSON("LS_JpTp", x.A, unsafe.Pointer(x))
}
func (x *LS_JpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LS_JpTp", -1, nil)
	}
	return doText("LS_JpTp", x.A, unsafe.Pointer(x))
}

type LS_AvJv struct {
	A int
	B string
}

func (x LS_AvJv) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LS_AvJv", x.A, nil) }
func (x LS_AvJv) MarshalJSON() ([]byte, error)          { return doJSON("LS_AvJv", x.A, nil) }

type LS_ApJv struct {
	A int
	B string
}

func (x *LS_ApJv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LS_ApJv", -1, nil)
	}
	return doAppend(dst, "LS_ApJv", x.A, unsafe.Pointer(x))
}
func (x LS_ApJv) MarshalJSON() ([]byte, error) { return doJSON("LS_ApJv", x.A, nil) }

type LS_AvJp struct {
	A int
	B string
}

func (x LS_AvJp) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LS_AvJp", x.A, nil) }
func (x *LS_AvJp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LS_AvJp", -1, nil)
	}
	return doJSON("LS_AvJp", x.A, unsafe.Pointer(x))
}

type LS_AvTv struct {
	A int
	B string
}

func (x LS_AvTv) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LS_AvTv", x.A, nil) }
func (x LS_AvTv) MarshalText() ([]byte, error)          { return doText("LS_AvTv", x.A, nil) }

type LS_ApTp struct {
	A int
	B string
}

func (x *LS_ApTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LS_ApTp", -1, nil)
	}
	return doAppend(dst, "LS_ApTp", x.A, unsafe.Pointer(x))
}
func (x *LS_ApTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LS_ApTp", -1, nil)
	}
	return doText("LS_ApTp", x.A, unsafe.Pointer(x))
}

type LS_CvAv struct {
	A int
	B string
}

func (x LS_CvAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LS_CvAv", x.A, nil)
}
func (x LS_CvAv) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LS_CvAv", x.A, nil) }

type LS_CpAv struct {
	A int
	B string
}

func (x *LS_CpAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LS_CpAv", -1, nil)
	}
	return doCtx(ctx, dst, "LS_CpAv", x.A, unsafe.Pointer(x))
}
func (x LS_CpAv) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LS_CpAv", x.A, nil) }

type LS_CvAp struct {
	A int
	B string
}

func (x LS_CvAp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LS_CvAp", x.A, nil)
}
func (x *LS_CvAp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LS_CvAp", -1, nil)
	}
	return doAppend(dst, "LS_CvAp", x.A, unsafe.Pointer(x))
}

type LS_CvJv struct {
	A int
	B string
}

func (x LS_CvJv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LS_CvJv", x.A, nil)
}
func (x LS_CvJv) MarshalJSON() ([]byte, error) { return doJSON("LS_CvJv", x.A, nil) }

type LS_CpTv struct {
	A int
	B string
}

func (x *LS_CpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LS_CpTv", -1, nil)
	}
	return doCtx(ctx, dst, "LS_CpTv", x.A, unsafe.Pointer(x))
}
func (x LS_CpTv) MarshalText() ([]byte, error) { return doText("LS_CpTv", x.A, nil) }

type LS_ApJpTp struct {
	A int
	B string
}

func (x *LS_ApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LS_ApJpTp", -1, nil)
	}
	return doAppend(dst, "LS_ApJpTp", x.A, unsafe.Pointer(x))
}
func (x *LS_ApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LS_ApJpTp", -1, nil)
	}
	return doJSON("LS_ApJpTp", x.A, unsafe.Pointer(x))
}
func (x *LS_ApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LS_ApJpTp", -1, nil)
	}
	return doText("LS_ApJpTp", x.A, unsafe.Pointer(x))
}

type LS_CvAvJvTv struct {
	A int
	B string
}

func (x LS_CvAvJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LS_CvAvJvTv", x.A, nil)
}
func (x LS_CvAvJvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LS_CvAvJvTv", x.A, nil)
}
func (x LS_CvAvJvTv) MarshalJSON() ([]byte, error) { return doJSON("LS_CvAvJvTv", x.A, nil) }
func (x LS_CvAvJvTv) MarshalText() ([]byte, error) { return doText("LS_CvAvJvTv", x.A, nil) }

type LS_CpApJpTp struct {
	A int
	B string
}

func (x *LS_CpApJpTp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LS_CpApJpTp", -1, nil)
	}
	return doCtx(ctx, dst, "LS_CpApJpTp", x.A, unsafe.Pointer(x))
}
func (x *LS_CpApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LS_CpApJpTp", -1, nil)
	}
	return doAppend(dst, "LS_CpApJpTp", x.A, unsafe.Pointer(x))
}
func (x *LS_CpApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LS_CpApJpTp", -1, nil)
	}
	return doJSON("LS_CpApJpTp", x.A, unsafe.Pointer(x))
}
func (x *LS_CpApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LS_CpApJpTp", -1, nil)
	}
	return doText("LS_CpApJpTp", x.A, unsafe.Pointer(x))
}

type LS_CvApJpTv struct {
	A int
	B string
}

func (x LS_CvApJpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LS_CvApJpTv", x.A, nil)
}
func (x *LS_CvApJpTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LS_CvApJpTv", -1, nil)
	}
	return doAppend(dst, "LS_CvApJpTv", x.A, unsafe.Pointer(x))
}
func (x *LS_CvApJpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LS_CvApJpTv", -1, nil)
	}
	return doJSON("LS_CvApJpTv", x.A, unsafe.Pointer(x))
}
func (x LS_CvApJpTv) MarshalText() ([]byte, error) { return doText("LS_CvApJpTv", x.A, nil) }

type LS_CpApJvTv struct {
	A int
	B string
}

func (x *LS_CpApJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LS_CpApJvTv", -1, nil)
	}
	return doCtx(ctx, dst, "LS_CpApJvTv", x.A, unsafe.Pointer(x))
}
func (x *LS_CpApJvTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LS_CpApJvTv", -1, nil)
	}
	return doAppend(dst, "LS_CpApJvTv", x.A, unsafe.Pointer(x))
}
func (x LS_CpApJvTv) MarshalJSON() ([]byte, error) { return doJSON("LS_CpApJvTv", x.A, nil) }
func (x LS_CpApJvTv) MarshalText() ([]byte, error) { return doText("LS_CpApJvTv", x.A, nil) }

type LSP_None struct{ P *int }

type LSP_Jv struct{ P *int }

func (x LSP_Jv) MarshalJSON() ([]byte, error) { return doJSON("LSP_Jv", pCode(x.P), nil) }

type LSP_Jp struct{ P *int }

func (x *LSP_Jp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LSP_Jp", -1, nil)
	}
	return doJSON("LSP_Jp", pCode(x.P), unsafe.Pointer(x))
}

type LSP_Tv struct{ P *int }

func (x LSP_Tv) MarshalText() ([]byte, error) { return doText("LSP_Tv", pCode(x.P), nil) }

type LSP_Tp struct{ P *int }

func (x *LSP_Tp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LSP_Tp", -1, nil)
	}
	return doText("LSP_Tp", pCode(x.P), unsafe.Pointer(x))
}

type LSP_Av struct{ P *int }

func (x LSP_Av) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LSP_Av", pCode(x.P), nil)
}

type LSP_Ap struct{ P *int }

func (x *LSP_Ap) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LSP_Ap", -1, nil)
	}
	return doAppend(dst, "LSP_Ap", pCode(x.P), unsafe.Pointer(x))
}

type LSP_Cv struct{ P *int }

func (x LSP_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LSP_Cv", pCode(x.P), nil)
}

type LSP_Cp struct{ P *int }

func (x *LSP_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LSP_Cp", -1, nil)
	}
	return doCtx(ctx, dst, "LSP_Cp", pCode(x.P), unsafe.Pointer(x))
}

type LSP_JvTv struct{ P *int }

func (x LSP_JvTv) MarshalJSON() ([]byte, error) { return doJSON("LSP_JvTv", pCode(x.P), nil) }
func (x LSP_JvTv) MarshalText() ([]byte, error) { return doText("LSP_JvTv", pCode(x.P), nil) }

type LSP_JvTp struct{ P *int }

func (x LSP_JvTp) MarshalJSON() ([]byte, error) { return doJSON("LSP_JvTp", pCode(x.P), nil) }
func (x *LSP_JvTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LSP_JvTp", -1, nil)
	}
	return doText("LSP_JvTp", pCode(x.P), unsafe.Pointer(x))
}

type LSP_JpTv struct{ P *int }

func (x *LSP_JpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LSP_JpTv", -1, nil)
	}
	return doJSON("LSP_JpTv", pCode(x.P), unsafe.Pointer(x))
}
func (x LSP_JpTv) MarshalText() ([]byte, error) { return doText("LSP_JpTv", pCode(x.P), nil) }

type LSP_JpTp struct{ P *int }

func (x *LSP_JpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LSP_JpTp", -1, nil)
	}
	return doJSON("LSP_JpTp", pCode(x.P), unsafe.Pointer(x))
}
func (x *LSP_JpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LSP_JpTp", -1, nil)
	}
	return doText("LSP_JpTp", pCode(x.P), unsafe.Pointer(x))
}

type LSP_AvJv struct{ P *int }

func (x LSP_AvJv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LSP_AvJv", pCode(x.P), nil)
}
func (x LSP_AvJv) MarshalJSON() ([]byte, error) { return doJSON("LSP_AvJv", pCode(x.P), nil) }

type LSP_ApJv struct{ P *int }

func (x *LSP_ApJv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LSP_ApJv", -1, nil)
	}
	return doAppend(dst, "LSP_ApJv", pCode(x.P), unsafe.Pointer(x))
}
func (x LSP_ApJv) MarshalJSON() ([]byte, error) { return doJSON("LSP_ApJv", pCode(x.P), nil) }

type LSP_AvJp struct{ P *int }

func (x LSP_AvJp) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LSP_AvJp", pCode(x.P), nil)
}
func (x *LSP_AvJp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LSP_AvJp", -1, nil)
	}
	return doJSON("LSP_AvJp", pCode(x.P), unsafe.Pointer(x))
}

type LSP_AvTv struct{ P *int }

func (x LSP_AvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LSP_AvTv", pCode(x.P), nil)
}
func (x LSP_AvTv) MarshalText() ([]byte, error) { return doText("LSP_AvTv", pCode(x.P), nil) }

type LSP_ApTp struct{ P *int }

func (x *LSP_ApTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LSP_ApTp", -1, nil)
	}
	return doAppend(dst, "LSP_ApTp", pCode(x.P), unsafe.Pointer(x))
}
func (x *LSP_ApTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LSP_ApTp", -1, nil)
	}
	return doText("LSP_ApTp", pCode(x.P), unsafe.Pointer(x))
}

type LSP_CvAv struct{ P *int }

func (x LSP_CvAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LSP_CvAv", pCode(x.P), nil)
}
func (x LSP_CvAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LSP_CvAv", pCode(x.P), nil)
}

type LSP_CpAv struct{ P *int }

func (x *LSP_CpAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LSP_CpAv", -1, nil)
	}
	return doCtx(ctx, dst, "LSP_CpAv", pCode(x.P), unsafe.Pointer(x))
}
func (x LSP_CpAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LSP_CpAv", pCode(x.P), nil)
}

type LSP_CvAp struct{ P *int }

func (x LSP_CvAp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LSP_CvAp", pCode(x.P), nil)
}
func (x *LSP_CvAp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LSP_CvAp", -1, nil)
	}
	return doAppend(dst, "LSP_CvAp", pCode(x.P), unsafe.Pointer(x))
}

type LSP_CvJv struct{ P *int }

func (x LSP_CvJv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LSP_CvJv", pCode(x.P), nil)
}
func (x LSP_CvJv) MarshalJSON() ([]byte, error) { return doJSON("LSP_CvJv", pCode(x.P), nil) }

type LSP_CpTv struct{ P *int }

func (x *LSP_CpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LSP_CpTv", -1, nil)
	}
	return doCtx(ctx, dst, "LSP_CpTv", pCode(x.P), unsafe.Pointer(x))
}
func (x LSP_CpTv) MarshalText() ([]byte, error) { return doText("LSP_CpTv", pCode(x.P), nil) }

type LSP_ApJpTp struct{ P *int }

func (x *LSP_ApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LSP_ApJpTp", -1, nil)
	}
	return doAppend(dst, "LSP_ApJpTp", pCode(x.P), unsafe.Pointer(x))
}
func (x *LSP_ApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LSP_ApJpTp", -1, nil)
	}
	return doJSON("LSP_ApJpTp", pCode(x.P), unsafe.Pointer(x))
}
func (x *LSP_ApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LSP_ApJpTp", -1, nil)
	}
	return doText("LSP_ApJpTp", pCode(x.P), unsafe.Pointer(x))
}

type LSP_CvAvJvTv struct{ P *int }

func (x LSP_CvAvJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LSP_CvAvJvTv", pCode(x.P), nil)
}
func (x LSP_CvAvJvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LSP_CvAvJvTv", pCode(x.P), nil)
}
func (x LSP_CvAvJvTv) MarshalJSON() ([]byte, error) { return doJSON("LSP_CvAvJvTv", pCode(x.P), nil) }
func (x LSP_CvAvJvTv) MarshalText() ([]byte, error) { return doText("LSP_CvAvJvTv", pCode(x.P), nil) }

type LSP_CpApJpTp struct{ P *int }

func (x *LSP_CpApJpTp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LSP_CpApJpTp", -1, nil)
	}
	return doCtx(ctx, dst, "LSP_CpApJpTp", pCode(x.P), unsafe.Pointer(x))
}
func (x *LSP_CpApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LSP_CpApJpTp", -1, nil)
	}
	return doAppend(dst, "LSP_CpApJpTp", pCode(x.P), unsafe.Pointer(x))
}
func (x *LSP_CpApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LSP_CpApJpTp", -1, nil)
	}
	return doJSON("LSP_CpApJpTp", pCode(x.P), unsafe.Pointer(x))
}
func (x *LSP_CpApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LSP_CpApJpTp", -1, nil)
	}
	return doText("LSP_CpApJpTp", pCode(x.P), unsafe.Pointer(x))
}

type LSP_CvApJpTv struct{ P *int }

func (x LSP_CvApJpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LSP_CvApJpTv", pCode(x.P), nil)
}
func (x *LSP_CvApJpTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LSP_CvApJpTv", -1, nil)
	}
	return doAppend(dst, "LSP_CvApJpTv", pCode(x.P), unsafe.Pointer(x))
}
func (x *LSP_CvApJpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LSP_CvApJpTv", -1, nil)
	}
	return doJSON("LSP_CvApJpTv", pCode(x.P), unsafe.Pointer(x))
}
func (x LSP_CvApJpTv) MarshalText() ([]byte, error) { return doText("LSP_CvApJpTv", pCode(x.P), nil) }

type LSP_CpApJvTv struct{ P *int }

func (x *LSP_CpApJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LSP_CpApJvTv", -1, nil)
	}
	return doCtx(ctx, dst, "LSP_CpApJvTv", pCode(x.P), unsafe.Pointer(x))
}
func (x *LSP_CpApJvTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LSP_CpApJvTv", -1, nil)
	}
	return doAppend(dst, "LSP_CpApJvTv", pCode(x.P), unsafe.Pointer(x))
}
func (x LSP_CpApJvTv) MarshalJSON() ([]byte, error) { return doJSON("LSP_CpApJvTv", pCode(x.P), nil) }
func (x LSP_CpApJvTv) MarshalText() ([]byte, error) { return doText("LSP_CpApJvTv", pCode(x.P), nil) }

type LSM_None struct{ M map[string]int }

type LSM_Jv struct{ M map[string]int }

func (x LSM_Jv) MarshalJSON() ([]byte, error) { return doJSON("LSM_Jv", int(x.M["k"]), nil) }

type LSM_Jp struct{ M map[string]int }

func (x *LSM_Jp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LSM_Jp", -1, nil)
	}
	return doJSON("LSM_Jp", int(x.M["k"]), unsafe.Pointer(x))
}

type LSM_Tv struct{ M map[string]int }

func (x LSM_Tv) MarshalText() ([]byte, error) { return doText("LSM_Tv", int(x.M["k"]), nil) }

type LSM_Tp struct{ M map[string]int }

func (x *LSM_Tp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LSM_Tp", -1, nil)
	}
	return doText("LSM_Tp", int(x.M["k"]), unsafe.Pointer(x))
}

type LSM_Av struct{ M map[string]int }

func (x LSM_Av) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LSM_Av", int(x.M["k"]), nil)
}

type LSM_Ap struct{ M map[string]int }

func (x *LSM_Ap) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LSM_Ap", -1, nil)
	}
	return doAppend(dst, "LSM_Ap", int(x.M["k"]), unsafe.Pointer(x))
}

type LSM_Cv struct{ M map[string]int }

func (x LSM_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LSM_Cv", int(x.M["k"]), nil)
}

type LSM_Cp struct{ M map[string]int }

func (x *LSM_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LSM_Cp", -1, nil)
	}
	return doCtx(ctx, dst, "LSM_Cp", int(x.M["k"]), unsafe.Pointer(x))
}

type LSM_JvTv struct{ M map[string]int }

func (x LSM_JvTv) MarshalJSON() ([]byte, error) { return doJSON("LSM_JvTv", int(x.M["k"]), nil) }
func (x LSM_JvTv) MarshalText() ([]byte, error) { return doText("LSM_JvTv", int(x.M["k"]), nil) }

type LSM_JvTp struct{ M map[string]int }

func (x LSM_JvTp) MarshalJSON() ([]byte, error) { return doJSON("LSM_JvTp", int(x.M["k"]), nil) }
func (x *LSM_JvTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LSM_JvTp", -1, nil)
	}
	return doText("LSM_JvTp", int(x.M["k"]), unsafe.Pointer(x))
}

type LSM_JpTv struct{ M map[string]int }

func (x *LSM_JpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LSM_JpTv", -1, nil)
	}
	return doJSON("LSM_JpTv", int(x.M["k"]), unsafe.Pointer(x))
}
func (x LSM_JpTv) MarshalText() ([]byte, error) { return doText("LSM_JpTv", int(x.M["k"]), nil) }

type LSM_JpTp struct{ M map[string]int }

func (x *LSM_JpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LSM_JpTp", -1, nil)
	}
	return doJSON("LSM_JpTp", int(x.M["k"]), unsafe.Pointer(x))
}
func (x *LSM_JpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LSM_JpTp", -1, nil)
	}
	return doText("LSM_JpTp", int(x.M["k"]), unsafe.Pointer(x))
}

type LSM_AvJv struct{ M map[string]int }

func (x LSM_AvJv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LSM_AvJv", int(x.M["k"]), nil)
}
func (x LSM_AvJv) MarshalJSON() ([]byte, error) { return doJSON("LSM_AvJv", int(x.M["k"]), nil) }

type LSM_ApJv struct{ M map[string]int }

func (x *LSM_ApJv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LSM_ApJv", -1, nil)
	}
	return doAppend(dst, "LSM_ApJv", int(x.M["k"]), unsafe.Pointer(x))
}
func (x LSM_ApJv) MarshalJSON() ([]byte, error) { return doJSON("LSM_ApJv", int(x.M["k"]), nil) }

type LSM_AvJp struct{ M map[string]int }

func (x LSM_AvJp) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LSM_AvJp", int(x.M["k"]), nil)
}
func (x *LSM_AvJp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LSM_AvJp", -1, nil)
	}
	return doJSON("LSM_AvJp", int(x.M["k"]), unsafe.Pointer(x))
}

type LSM_AvTv struct{ M map[string]int }

func (x LSM_AvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LSM_AvTv", int(x.M["k"]), nil)
}
func (x LSM_AvTv) MarshalText() ([]byte, error) { return doText("LSM_AvTv", int(x.M["k"]), nil) }

type LSM_ApTp struct{ M map[string]int }

func (x *LSM_ApTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LSM_ApTp", -1, nil)
	}
	return doAppend(dst, "LSM_ApTp", int(x.M["k"]), unsafe.Pointer(x))
}
func (x *LSM_ApTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LSM_ApTp", -1, nil)
	}
	return doText("LSM_ApTp", int(x.M["k"]), unsafe.Pointer(x))
}

type LSM_CvAv struct{ M map[string]int }

func (x LSM_CvAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LSM_CvAv", int(x.M["k"]), nil)
}
func (x LSM_CvAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LSM_CvAv", int(x.M["k"]), nil)
}

type LSM_CpAv struct{ M map[string]int }

func (x *LSM_CpAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LSM_CpAv", -1, nil)
	}
	return doCtx(ctx, dst, "LSM_CpAv", int(x.M["k"]), unsafe.Pointer(x))
}
func (x LSM_CpAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LSM_CpAv", int(x.M["k"]), nil)
}

type LSM_CvAp struct{ M map[string]int }

func (x LSM_CvAp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LSM_CvAp", int(x.M["k"]), nil)
}
func (x *LSM_CvAp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LSM_CvAp", -1, nil)
	}
	return doAppend(dst, "LSM_CvAp", int(x.M["k"]), unsafe.Pointer(x))
}

type LSM_CvJv struct{ M map[string]int }

func (x LSM_CvJv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LSM_CvJv", int(x.M["k"]), nil)
}
func (x LSM_CvJv) MarshalJSON() ([]byte, error) { return doJSON("LSM_CvJv", int(x.M["k"]), nil) }

type LSM_CpTv struct{ M map[string]int }

func (x *LSM_CpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LSM_CpTv", -1, nil)
	}
	return doCtx(ctx, dst, "LSM_CpTv", int(x.M["k"]), unsafe.Pointer(x))
}
func (x LSM_CpTv) MarshalText() ([]byte, error) { return doText("LSM_CpTv", int(x.M["k"]), nil) }

type LSM_ApJpTp struct{ M map[string]int }

func (x *LSM_ApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LSM_ApJpTp", -1, nil)
	}
	return doAppend(dst, "LSM_ApJpTp", int(x.M["k"]), unsafe.Pointer(x))
}
func (x *LSM_ApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LSM_ApJpTp", -1, nil)
	}
	return doJSON("LSM_ApJpTp", int(x.M["k"]), unsafe.Pointer(x))
}
func (x *LSM_ApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LSM_ApJpTp", -1, nil)
	}
	return doText("LSM_ApJpTp", int(x.M["k"]), unsafe.Pointer(x))
}

type LSM_CvAvJvTv struct{ M map[string]int }

func (x LSM_CvAvJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LSM_CvAvJvTv", int(x.M["k"]), nil)
}
func (x LSM_CvAvJvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LSM_CvAvJvTv", int(x.M["k"]), nil)
}
func (x LSM_CvAvJvTv) MarshalJSON() ([]byte, error) {
	return doJSON("LSM_CvAvJvTv", int(x.M["k"]), nil)
}
func (x LSM_CvAvJvTv) MarshalText() ([]byte, error) {
	return doText("LSM_CvAvJvTv", int(x.M["k"]), nil)
}

type LSM_CpApJpTp struct{ M map[string]int }

func (x *LSM_CpApJpTp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LSM_CpApJpTp", -1, nil)
	}
	return doCtx(ctx, dst, "LSM_CpApJpTp", int(x.M["k"]), unsafe.Pointer(x))
}
func (x *LSM_CpApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LSM_CpApJpTp", -1, nil)
	}
	return doAppend(dst, "LSM_CpApJpTp", int(x.M["k"]), unsafe.Pointer(x))
}
func (x *LSM_CpApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LSM_CpApJpTp", -1, nil)
	}
	return doJSON("LSM_CpApJpTp", int(x.M["k"]), unsafe.Pointer(x))
}
func (x *LSM_CpApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LSM_CpApJpTp", -1, nil)
	}
	return doText("LSM_CpApJpTp", int(x.M["k"]), unsafe.Pointer(x))
}

type LSM_CvApJpTv struct{ M map[string]int }

func (x LSM_CvApJpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LSM_CvApJpTv", int(x.M["k"]), nil)
}
func (x *LSM_CvApJpTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LSM_CvApJpTv", -1, nil)
	}
	return doAppend(dst, "LSM_CvApJpTv", int(x.M["k"]), unsafe.Pointer(x))
}
func (x *LSM_CvApJpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LSM_CvApJpTv", -1, nil)
	}
	return doJSON("LSM_CvApJpTv", int(x.M["k"]), unsafe.Pointer(x))
}
func (x LSM_CvApJpTv) MarshalText() ([]byte, error) {
	return doText("LSM_CvApJpTv", int(x.M["k"]), nil)
}

type LSM_CpApJvTv struct{ M map[string]int }

func (x *LSM_CpApJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LSM_CpApJvTv", -1, nil)
	}
	return doCtx(ctx, dst, "LSM_CpApJvTv", int(x.M["k"]), unsafe.Pointer(x))
}
func (x *LSM_CpApJvTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LSM_CpApJvTv", -1, nil)
	}
	return doAppend(dst, "LSM_CpApJvTv", int(x.M["k"]), unsafe.Pointer(x))
}
func (x LSM_CpApJvTv) MarshalJSON() ([]byte, error) {
	return doJSON("LSM_CpApJvTv", int(x.M["k"]), nil)
}
func (x LSM_CpApJvTv) MarshalText() ([]byte, error) {
	return doText("LSM_CpApJvTv", int(x.M["k"]), nil)
}

type LSU_None struct {
	a int8
	B []int
}

type LSU_Jv struct {
	a int8
	B []int
}

func (x LSU_Jv) MarshalJSON() ([]byte, error) { return doJSON("LSU_Jv", int(x.a), nil) }

type LSU_Jp struct {
	a int8
	B []int
}

func (x *LSU_Jp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LSU_Jp", -1, nil)
	}
	return doJSON("LSU_Jp", int(x.a), unsafe.Pointer(x))
}

type LSU_Tv struct {
	a int8
	B []int
}

func (x LSU_Tv) MarshalText() ([]byte, error) { return doText("LSU_Tv", int(x.a), nil) }

type LSU_Tp struct {
	a int8
	B []int
}

func (x *LSU_Tp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LSU_Tp", -1, nil)
	}
	return doText("LSU_Tp", int(x.a), unsafe.Pointer(x))
}

type LSU_Av struct {
	a int8
	B []int
}

func (x LSU_Av) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LSU_Av", int(x.a), nil) }

type LSU_Ap struct {
	a int8
	B []int
}

func (x *LSU_Ap) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LSU_Ap", -1, nil)
	}
	return doAppend(dst, "LSU_Ap", int(x.a), unsafe.Pointer(x))
}

type LSU_Cv struct {
	a int8
	B []int
}

func (x LSU_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LSU_Cv", int(x.a), nil)
}

type LSU_Cp struct {
	a int8
	B []int
}

func (x *LSU_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LSU_Cp", -1, nil)
	}
	return doCtx(ctx, dst, "LSU_Cp", int(x.a), unsafe.Pointer(x))
}

type LSU_JvTv struct {
	a int8
	B []int
}

func (x LSU_JvTv) MarshalJSON() ([]byte, error) { return doJSON("LSU_JvTv", int(x.a), nil) }
func (x LSU_JvTv) MarshalText() ([]byte, error) { return doText("LSU_JvTv", int(x.a), nil) }

type LSU_JvTp struct {
	a int8
	B []int
}

func (x LSU_JvTp) MarshalJSON() ([]byte, error) { return doJSON("LSU_JvTp", int(x.a), nil) }
func (x *LSU_JvTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LSU_JvTp", -1, nil)
	}
	return doText("LSU_JvTp", int(x.a), unsafe.Pointer(x))
}

type LSU_JpTv struct {
	a int8
	B []int
}

func (x *LSU_JpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LSU_JpTv", -1, nil)
	}
	return doJSON("LSU_JpTv", int(x.a), unsafe.Pointer(x))
}
func (x LSU_JpTv) MarshalText() ([]byte, error) { return doText("LSU_JpTv", int(x.a), nil) }

type LSU_JpTp struct {
	a int8
	B []int
}

func (x *LSU_JpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LSU_JpTp", -1, nil)
	}
	return doJSON("LSU_JpTp", int(x.a), unsafe.Pointer(x))
}
func (x *LSU_JpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LSU_JpTp", -1, nil)
	}
	return doText("LSU_JpTp", int(x.a), unsafe.Pointer(x))
}

type LSU_AvJv struct {
	a int8
	B []int
}

func (x LSU_AvJv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LSU_AvJv", int(x.a), nil)
}
func (x LSU_AvJv) MarshalJSON() ([]byte, error) { return doJSON("LSU_AvJv", int(x.a), nil) }

type LSU_ApJv struct {
	a int8
	B []int
}

func (x *LSU_ApJv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LSU_ApJv", -1, nil)
	}
	return doAppend(dst, "LSU_ApJv", int(x.a), unsafe.Pointer(x))
}
func (x LSU_ApJv) MarshalJSON() ([]byte, error) { return doJSON("LSU_ApJv", int(x.a), nil) }

type LSU_AvJp struct {
	a int8
	B []int
}

func (x LSU_AvJp) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LSU_AvJp", int(x.a), nil)
}
func (x *LSU_AvJp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LSU_AvJp", -1, nil)
	}
	return doJSON("LSU_AvJp", int(x.a), unsafe.Pointer(x))
}

type LSU_AvTv struct {
	a int8
	B []int
}

func (x LSU_AvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LSU_AvTv", int(x.a), nil)
}
func (x LSU_AvTv) MarshalText() ([]byte, error) { return doText("LSU_AvTv", int(x.a), nil) }

type LSU_ApTp struct {
	a int8
	B []int
}

func (x *LSU_ApTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LSU_ApTp", -1, nil)
	}
	return doAppend(dst, "LSU_ApTp", int(x.a), unsafe.Pointer(x))
}
func (x *LSU_ApTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LSU_ApTp", -1, nil)
	}
	return doText("LSU_ApTp", int(x.a), unsafe.Pointer(x))
}

type LSU_CvAv struct {
	a int8
	B []int
}

func (x LSU_CvAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LSU_CvAv", int(x.a), nil)
}
func (x LSU_CvAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LSU_CvAv", int(x.a), nil)
}

type LSU_CpAv struct {
	a int8
	B []int
}

func (x *LSU_CpAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LSU_CpAv", -1, nil)
	}
	return doCtx(ctx, dst, "LSU_CpAv", int(x.a), unsafe.Pointer(x))
}
func (x LSU_CpAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LSU_CpAv", int(x.a), nil)
}

type LSU_CvAp struct {
	a int8
	B []int
}

func (x LSU_CvAp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LSU_CvAp", int(x.a), nil)
}
func (x *LSU_CvAp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LSU_CvAp", -1, nil)
	}
	return doAppend(dst, "LSU_CvAp", int(x.a), unsafe.Pointer(x))
}

type LSU_CvJv struct {
	a int8
	B []int
}

func (x LSU_CvJv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LSU_CvJv", int(x.a), nil)
}
func (x LSU_CvJv) MarshalJSON() ([]byte, error) { return doJSON("LSU_CvJv", int(x.a), nil) }

type LSU_CpTv struct {
	a int8
	B []int
}

func (x *LSU_CpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LSU_CpTv", -1, nil)
	}
	return doCtx(ctx, dst, "LSU_CpTv", int(x.a), unsafe.Pointer(x))
}
func (x LSU_CpTv) MarshalText() ([]byte, error) { return doText("LSU_CpTv", int(x.a), nil) }

type LSU_ApJpTp struct {
	a int8
	B []int
}

func (x *LSU_ApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LSU_ApJpTp", -1, nil)
	}
	return doAppend(dst, "LSU_ApJpTp", int(x.a), unsafe.Pointer(x))
}
func (x *LSU_ApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LSU_ApJpTp", -1, nil)
	}
	return doJSON("LSU_ApJpTp", int(x.a), unsafe.Pointer(x))
}
func (x *LSU_ApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LSU_ApJpTp", -1, nil)
	}
	return doText("LSU_ApJpTp", int(x.a), unsafe.Pointer(x))
}

type LSU_CvAvJvTv struct {
	a int8
	B []int
}

func (x LSU_CvAvJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LSU_CvAvJvTv", int(x.a), nil)
}
func (x LSU_CvAvJvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LSU_CvAvJvTv", int(x.a), nil)
}
func (x LSU_CvAvJvTv) MarshalJSON() ([]byte, error) { return doJSON("LSU_CvAvJvTv", int(x.a), nil) }
func (x LSU_CvAvJvTv) MarshalText() ([]byte, error) { return doText("LSU_CvAvJvTv", int(x.a), nil) }

type LSU_CpApJpTp struct {
	a int8
	B []int
}

func (x *LSU_CpApJpTp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LSU_CpApJpTp", -1, nil)
	}
	return doCtx(ctx, dst, "LSU_CpApJpTp", int(x.a), unsafe.Pointer(x))
}
func (x *LSU_CpApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LSU_CpApJpTp", -1, nil)
	}
	return doAppend(dst, "LSU_CpApJpTp", int(x.a), unsafe.Pointer(x))
}
func (x *LSU_CpApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LSU_CpApJpTp", -1, nil)
	}
	return doJSON("LSU_CpApJpTp", int(x.a), unsafe.Pointer(x))
}
func (x *LSU_CpApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LSU_CpApJpTp", -1, nil)
	}
	return doText("LSU_CpApJpTp", int(x.a), unsafe.Pointer(x))
}

type LSU_CvApJpTv struct {
	a int8
	B []int
}

func (x LSU_CvApJpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LSU_CvApJpTv", int(x.a), nil)
}
func (x *LSU_CvApJpTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LSU_CvApJpTv", -1, nil)
	}
	return doAppend(dst, "LSU_CvApJpTv", int(x.a), unsafe.Pointer(x))
}
func (x *LSU_CvApJpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LSU_CvApJpTv", -1, nil)
	}
	return doJSON("LSU_CvApJpTv", int(x.a), unsafe.Pointer(x))
}
func (x LSU_CvApJpTv) MarshalText() ([]byte, error) { return doText("LSU_CvApJpTv", int(x.a), nil) }

type LSU_CpApJvTv struct {
	a int8
	B []int
}

func (x *LSU_CpApJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LSU_CpApJvTv", -1, nil)
	}
	return doCtx(ctx, dst, "LSU_CpApJvTv", int(x.a), unsafe.Pointer(x))
}
func (x *LSU_CpApJvTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LSU_CpApJvTv", -1, nil)
	}
	return doAppend(dst, "LSU_CpApJvTv", int(x.a), unsafe.Pointer(x))
}
func (x LSU_CpApJvTv) MarshalJSON() ([]byte, error) { return doJSON("LSU_CpApJvTv", int(x.a), nil) }
func (x LSU_CpApJvTv) MarshalText() ([]byte, error) { return doText("LSU_CpApJvTv", int(x.a), nil) }

type LS0_None struct{}

type LS0_Jv struct{}

func (x LS0_Jv) MarshalJSON() ([]byte, error) { return doJSON("LS0_Jv", 0, nil) }

type LS0_Jp struct{}

func (x *LS0_Jp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LS0_Jp", -1, nil)
	}
	return doJSON("LS0_Jp", 0, unsafe.Pointer(x))
}

type LS0_Tv struct{}

func (x LS0_Tv) MarshalText() ([]byte, error) { return doText("LS0_Tv", 0, nil) }

type LS0_Tp struct{}

func (x *LS0_Tp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LS0_Tp", -1, nil)
	}
	return doText("LS0_Tp", 0, unsafe.Pointer(x))
}

type LS0_Av struct{}

func (x LS0_Av) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LS0_Av", 0, nil) }

type LS0_Ap struct{}

func (x *LS0_Ap) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LS0_Ap", -1, nil)
	}
	return doAppend(dst, "LS0_Ap", 0, unsafe.Pointer(x))
}

type LS0_Cv struct{}

func (x LS0_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LS0_Cv", 0, nil)
}

type LS0_Cp struct{}

func (x *LS0_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LS0_Cp", -1, nil)
	}
	return doCtx(ctx, dst, "LS0_Cp", 0, unsafe.Pointer(x))
}

type LS0_JvTv struct{}

func (x LS0_JvTv) MarshalJSON() ([]byte, error) { return doJSON("LS0_JvTv", 0, nil) }
func (x LS0_JvTv) MarshalText() ([]byte, error) { return doText("LS0_JvTv", 0, nil) }

type LS0_JvTp struct{}

func (x LS0_JvTp) MarshalJSON() ([]byte, error) { return doJSON("LS0_JvTp", 0, nil) }
func (x *LS0_JvTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LS0_JvTp", -1, nil)
	}
	return doText("LS0_JvTp", 0, unsafe.Pointer(x))
}

type LS0_JpTv struct{}

func (x *LS0_JpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LS0_JpTv", -1, nil)
	}
	return doJSON("LS0_JpTv", 0, unsafe.Pointer(x))
}
func (x LS0_JpTv) MarshalText() ([]byte, error) { return doText("LS0_JpTv", 0, nil) }

type LS0_JpTp struct{}

func (x *LS0_JpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LS0_JpTp", -1, nil)
	}
	return doJSON("LS0_JpTp", 0, unsafe.Pointer(x))
}
func (x *LS0_JpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LS0_JpTp", -1, nil)
	}
	return doText("LS0_JpTp", 0, unsafe.Pointer(x))
}

type LS0_AvJv struct{}

func (x LS0_AvJv) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LS0_AvJv", 0, nil) }
func (x LS0_AvJv) MarshalJSON() ([]byte, error)          { return doJSON("LS0_AvJv", 0, nil) }

type LS0_ApJv struct{}

func (x *LS0_ApJv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LS0_ApJv", -1, nil)
	}
	return doAppend(dst, "LS0_ApJv", 0, unsafe.Pointer(x))
}
func (x LS0_ApJv) MarshalJSON() ([]byte, error) { return doJSON("LS0_ApJv", 0, nil) }

type LS0_AvJp struct{}

func (x LS0_AvJp) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LS0_AvJp", 0, nil) }
func (x *LS0_AvJp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LS0_AvJp", -1, nil)
	}
	return doJSON("LS0_AvJp", 0, unsafe.Pointer(x))
}

type LS0_AvTv struct{}

func (x LS0_AvTv) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LS0_AvTv", 0, nil) }
func (x LS0_AvTv) MarshalText() ([]byte, error)          { return doText("LS0_AvTv", 0, nil) }

type LS0_ApTp struct{}

func (x *LS0_ApTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LS0_ApTp", -1, nil)
	}
	return doAppend(dst, "LS0_ApTp", 0, unsafe.Pointer(x))
}
func (x *LS0_ApTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LS0_ApTp", -1, nil)
	}
	return doText("LS0_ApTp", 0, unsafe.Pointer(x))
}

type LS0_CvAv struct{}

func (x LS0_CvAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LS0_CvAv", 0, nil)
}
func (x LS0_CvAv) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LS0_CvAv", 0, nil) }

type LS0_CpAv struct{}

func (x *LS0_CpAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LS0_CpAv", -1, nil)
	}
	return doCtx(ctx, dst, "LS0_CpAv", 0, unsafe.Pointer(x))
}
func (x LS0_CpAv) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LS0_CpAv", 0, nil) }

type LS0_CvAp struct{}

func (x LS0_CvAp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LS0_CvAp", 0, nil)
}
func (x *LS0_CvAp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LS0_CvAp", -1, nil)
	}
	return doAppend(dst, "LS0_CvAp", 0, unsafe.Pointer(x))
}

type LS0_CvJv struct{}

func (x LS0_CvJv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LS0_CvJv", 0, nil)
}
func (x LS0_CvJv) MarshalJSON() ([]byte, error) { return doJSON("LS0_CvJv", 0, nil) }

type LS0_CpTv struct{}

func (x *LS0_CpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LS0_CpTv", -1, nil)
	}
	return doCtx(ctx, dst, "LS0_CpTv", 0, unsafe.Pointer(x))
}
func (x LS0_CpTv) MarshalText() ([]byte, error) { return doText("LS0_CpTv", 0, nil) }

type LS0_ApJpTp struct{}

func (x *LS0_ApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LS0_ApJpTp", -1, nil)
	}
	return doAppend(dst, "LS0_ApJpTp", 0, unsafe.Pointer(x))
}
func (x *LS0_ApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LS0_ApJpTp", -1, nil)
	}
	return doJSON("LS0_ApJpTp", 0, unsafe.Pointer(x))
}
func (x *LS0_ApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LS0_ApJpTp", -1, nil)
	}
	return doText("LS0_ApJpTp", 0, unsafe.Pointer(x))
}

type LS0_CvAvJvTv struct{}

func (x LS0_CvAvJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LS0_CvAvJvTv", 0, nil)
}
func (x LS0_CvAvJvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LS0_CvAvJvTv", 0, nil)
}
func (x LS0_CvAvJvTv) MarshalJSON() ([]byte, error) { return doJSON("LS0_CvAvJvTv", 0, nil) }
func (x LS0_CvAvJvTv) MarshalText() ([]byte, error) { return doText("LS0_CvAvJvTv", 0, nil) }

type LS0_CpApJpTp struct{}

func (x *LS0_CpApJpTp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LS0_CpApJpTp", -1, nil)
	}
	return doCtx(ctx, dst, "LS0_CpApJpTp", 0, unsafe.Pointer(x))
}
func (x *LS0_CpApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LS0_CpApJpTp", -1, nil)
	}
	return doAppend(dst, "LS0_CpApJpTp", 0, unsafe.Pointer(x))
}
func (x *LS0_CpApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LS0_CpApJpTp", -1, nil)
	}
	return doJSON("LS0_CpApJpTp", 0, unsafe.Pointer(x))
}
func (x *LS0_CpApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LS0_CpApJpTp", -1, nil)
	}
	return doText("LS0_CpApJpTp", 0, unsafe.Pointer(x))
}

type LS0_CvApJpTv struct{}

func (x LS0_CvApJpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LS0_CvApJpTv", 0, nil)
}
func (x *LS0_CvApJpTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LS0_CvApJpTv", -1, nil)
	}
	return doAppend(dst, "LS0_CvApJpTv", 0, unsafe.Pointer(x))
}
func (x *LS0_CvApJpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LS0_CvApJpTv", -1, nil)
	}
	return doJSON("LS0_CvApJpTv", 0, unsafe.Pointer(x))
}
func (x LS0_CvApJpTv) MarshalText() ([]byte, error) { return doText("LS0_CvApJpTv", 0, nil) }

type LS0_CpApJvTv struct{}

func (x *LS0_CpApJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LS0_CpApJvTv", -1, nil)
	}
	return doCtx(ctx, dst, "LS0_CpApJvTv", 0, unsafe.Pointer(x))
}
func (x *LS0_CpApJvTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LS0_CpApJvTv", -1, nil)
	}
	return doAppend(dst, "LS0_CpApJvTv", 0, unsafe.Pointer(x))
}
func (x LS0_CpApJvTv) MarshalJSON() ([]byte, error) { return doJSON("LS0_CpApJvTv", 0, nil) }
func (x LS0_CpApJvTv) MarshalText() ([]byte, error) { return doText("LS0_CpApJvTv", 0, nil) }

type LSL_Jv struct {
	A, B, C, D uint64
	E          string
}

func (x LSL_Jv) MarshalJSON() ([]byte, error) { return doJSON("LSL_Jv", strCode(x.E), nil) }

type LSL_Jp struct {
	A, B, C, D uint64
	E          string
}

func (x *LSL_Jp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LSL_Jp", -1, nil)
	}
	return doJSON("LSL_Jp", strCode(x.E), unsafe.Pointer(x))
}

type LSL_Tp struct {
	A, B, C, D uint64
	E          string
}

func (x *LSL_Tp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LSL_Tp", -1, nil)
	}
	return doText("LSL_Tp", strCode(x.E), unsafe.Pointer(x))
}

type LSL_Ap struct {
	A, B, C, D uint64
	E          string
}

func (x *LSL_Ap) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LSL_Ap", -1, nil)
	}
	return doAppend(dst, "LSL_Ap", strCode(x.E), unsafe.Pointer(x))
}

type LSL_Cv struct {
	A, B, C, D uint64
	E          string
}

func (x LSL_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LSL_Cv", strCode(x.E), nil)
}

type LSL_JvTv struct {
	A, B, C, D uint64
	E          string
}

func (x LSL_JvTv) MarshalJSON() ([]byte, error) { return doJSON("LSL_JvTv", strCode(x.E), nil) }
func (x LSL_JvTv) MarshalText() ([]byte, error) { return doText("LSL_JvTv", strCode(x.E), nil) }

type LSL_CvApJpTv struct {
	A, B, C, D uint64
	E          string
}

func (x LSL_CvApJpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LSL_CvApJpTv", strCode(x.E), nil)
}
func (x *LSL_CvApJpTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LSL_CvApJpTv", -1, nil)
	}
	return doAppend(dst, "LSL_CvApJpTv", strCode(x.E), unsafe.Pointer(x))
}
func (x *LSL_CvApJpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LSL_CvApJpTv", -1, nil)
	}
	return doJSON("LSL_CvApJpTv", strCode(x.E), unsafe.Pointer(x))
}
func (x LSL_CvApJpTv) MarshalText() ([]byte, error) { return doText("LSL_CvApJpTv", strCode(x.E), nil) }

type LFn_None func() int

type LFn_Jv func() int

func (x LFn_Jv) MarshalJSON() ([]byte, error) { return doJSON("LFn_Jv", fnCode(x), nil) }

type LFn_Jp func() int

func (x *LFn_Jp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LFn_Jp", -1, nil)
	}
	return doJSON("LFn_Jp", fnCode(*x), unsafe.Pointer(x))
}

type LFn_Tv func() int

func (x LFn_Tv) MarshalText() ([]byte, error) { return doText("LFn_Tv", fnCode(x), nil) }

type LFn_Tp func() int

func (x *LFn_Tp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LFn_Tp", -1, nil)
	}
	return doText("LFn_Tp", fnCode(*x), unsafe.Pointer(x))
}

type LFn_Av func() int

func (x LFn_Av) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LFn_Av", fnCode(x), nil)
}

type LFn_Ap func() int

func (x *LFn_Ap) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LFn_Ap", -1, nil)
	}
	return doAppend(dst, "LFn_Ap", fnCode(*x), unsafe.Pointer(x))
}

type LFn_Cv func() int

func (x LFn_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LFn_Cv", fnCode(x), nil)
}

type LFn_Cp func() int

func (x *LFn_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LFn_Cp", -1, nil)
	}
	return doCtx(ctx, dst, "LFn_Cp", fnCode(*x), unsafe.Pointer(x))
}

type LFn_JvTv func() int

func (x LFn_JvTv) MarshalJSON() ([]byte, error) { return doJSON("LFn_JvTv", fnCode(x), nil) }
func (x LFn_JvTv) MarshalText() ([]byte, error) { return doText("LFn_JvTv", fnCode(x), nil) }

type LFn_JvTp func() int

func (x LFn_JvTp) MarshalJSON() ([]byte, error) { return doJSON("LFn_JvTp", fnCode(x), nil) }
func (x *LFn_JvTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LFn_JvTp", -1, nil)
	}
	return doText("LFn_JvTp", fnCode(*x), unsafe.Pointer(x))
}

type LFn_JpTv func() int

func (x *LFn_JpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LFn_JpTv", -1, nil)
	}
	return doJSON("LFn_JpTv", fnCode(*x), unsafe.Pointer(x))
}
func (x LFn_JpTv) MarshalText() ([]byte, error) { return doText("LFn_JpTv", fnCode(x), nil) }

type LFn_JpTp func() int

func (x *LFn_JpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LFn_JpTp", -1, nil)
	}
	return doJSON("LFn_JpTp", fnCode(*x), unsafe.Pointer(x))
}
func (x *LFn_JpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LFn_JpTp", -1, nil)
	}
	return doText("LFn_JpTp", fnCode(*x), unsafe.Pointer(x))
}

type LFn_AvJv func() int

func (x LFn_AvJv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LFn_AvJv", fnCode(x), nil)
}
func (x LFn_AvJv) MarshalJSON() ([]byte, error) { return doJSON("LFn_AvJv", fnCode(x), nil) }

type LFn_ApJv func() int

func (x *LFn_ApJv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LFn_ApJv", -1, nil)
	}
	return doAppend(dst, "LFn_ApJv", fnCode(*x), unsafe.Pointer(x))
}
func (x LFn_ApJv) MarshalJSON() ([]byte, error) { return doJSON("LFn_ApJv", fnCode(x), nil) }

type LFn_AvJp func() int

func (x LFn_AvJp) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LFn_AvJp", fnCode(x), nil)
}
func (x *LFn_AvJp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LFn_AvJp", -1, nil)
	}
	return doJSON("LFn_AvJp", fnCode(*x), unsafe.Pointer(x))
}

type LFn_AvTv func() int

func (x LFn_AvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LFn_AvTv", fnCode(x), nil)
}
func (x LFn_AvTv) MarshalText() ([]byte, error) { return doText("LFn_AvTv", fnCode(x), nil) }

type LFn_ApTp func() int

func (x *LFn_ApTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LFn_ApTp", -1, nil)
	}
	return doAppend(dst, "LFn_ApTp", fnCode(*x), unsafe.Pointer(x))
}
func (x *LFn_ApTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LFn_ApTp", -1, nil)
	}
	return doText("LFn_ApTp", fnCode(*x), unsafe.Pointer(x))
}

type LFn_CvAv func() int

func (x LFn_CvAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LFn_CvAv", fnCode(x), nil)
}
func (x LFn_CvAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LFn_CvAv", fnCode(x), nil)
}

type LFn_CpAv func() int

func (x *LFn_CpAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LFn_CpAv", -1, nil)
	}
	return doCtx(ctx, dst, "LFn_CpAv", fnCode(*x), unsafe.Pointer(x))
}
func (x LFn_CpAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LFn_CpAv", fnCode(x), nil)
}

type LFn_CvAp func() int

func (x LFn_CvAp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LFn_CvAp", fnCode(x), nil)
}
func (x *LFn_CvAp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LFn_CvAp", -1, nil)
	}
	return doAppend(dst, "LFn_CvAp", fnCode(*x), unsafe.Pointer(x))
}

type LFn_CvJv func() int

func (x LFn_CvJv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LFn_CvJv", fnCode(x), nil)
}
func (x LFn_CvJv) MarshalJSON() ([]byte, error) { return doJSON("LFn_CvJv", fnCode(x), nil) }

type LFn_CpTv func() int

func (x *LFn_CpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LFn_CpTv", -1, nil)
	}
	return doCtx(ctx, dst, "LFn_CpTv", fnCode(*x), unsafe.Pointer(x))
}
func (x LFn_CpTv) MarshalText() ([]byte, error) { return doText("LFn_CpTv", fnCode(x), nil) }

type LFn_ApJpTp func() int

func (x *LFn_ApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LFn_ApJpTp", -1, nil)
	}
	return doAppend(dst, "LFn_ApJpTp", fnCode(*x), unsafe.Pointer(x))
}
func (x *LFn_ApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LFn_ApJpTp", -1, nil)
	}
	return doJSON("LFn_ApJpTp", fnCode(*x), unsafe.Pointer(x))
}
func (x *LFn_ApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LFn_ApJpTp", -1, nil)
	}
	return doText("LFn_ApJpTp", fnCode(*x), unsafe.Pointer(x))
}

type LFn_CvAvJvTv func() int

func (x LFn_CvAvJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LFn_CvAvJvTv", fnCode(x), nil)
}
func (x LFn_CvAvJvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LFn_CvAvJvTv", fnCode(x), nil)
}
func (x LFn_CvAvJvTv) MarshalJSON() ([]byte, error) { return doJSON("LFn_CvAvJvTv", fnCode(x), nil) }
func (x LFn_CvAvJvTv) MarshalText() ([]byte, error) { return doText("LFn_CvAvJvTv", fnCode(x), nil) }

type LFn_CpApJpTp func() int

func (x *LFn_CpApJpTp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LFn_CpApJpTp", -1, nil)
	}
	return doCtx(ctx, dst, "LFn_CpApJpTp", fnCode(*x), unsafe.Pointer(x))
}
func (x *LFn_CpApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LFn_CpApJpTp", -1, nil)
	}
	return doAppend(dst, "LFn_CpApJpTp", fnCode(*x), unsafe.Pointer(x))
}
func (x *LFn_CpApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LFn_CpApJpTp", -1, nil)
	}
	return doJSON("LFn_CpApJpTp", fnCode(*x), unsafe.Pointer(x))
}
func (x *LFn_CpApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LFn_CpApJpTp", -1, nil)
	}
	return doText("LFn_CpApJpTp", fnCode(*x), unsafe.Pointer(x))
}

type LFn_CvApJpTv func() int

func (x LFn_CvApJpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LFn_CvApJpTv", fnCode(x), nil)
}
func (x *LFn_CvApJpTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LFn_CvApJpTv", -1, nil)
	}
	return doAppend(dst, "LFn_CvApJpTv", fnCode(*x), unsafe.Pointer(x))
}
func (x *LFn_CvApJpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LFn_CvApJpTv", -1, nil)
	}
	return doJSON("LFn_CvApJpTv", fnCode(*x), unsafe.Pointer(x))
}
func (x LFn_CvApJpTv) MarshalText() ([]byte, error) { return doText("LFn_CvApJpTv", fnCode(x), nil) }

type LFn_CpApJvTv func() int

func (x *LFn_CpApJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LFn_CpApJvTv", -1, nil)
	}
	return doCtx(ctx, dst, "LFn_CpApJvTv", fnCode(*x), unsafe.Pointer(x))
}
func (x *LFn_CpApJvTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LFn_CpApJvTv", -1, nil)
	}
	return doAppend(dst, "LFn_CpApJvTv", fnCode(*x), unsafe.Pointer(x))
}
func (x LFn_CpApJvTv) MarshalJSON() ([]byte, error) { return doJSON("LFn_CpApJvTv", fnCode(x), nil) }
func (x LFn_CpApJvTv) MarshalText() ([]byte, error) { return doText("LFn_CpApJvTv", fnCode(x), nil) }

type LCh_None chan int

type LCh_Jv chan int

func (x LCh_Jv) MarshalJSON() ([]byte, error) { return doJSON("LCh_Jv", cap(x), nil) }

type LCh_Jp chan int

func (x *LCh_Jp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LCh_Jp", -1, nil)
	}
	return doJSON("LCh_Jp", cap(*x), unsafe.Pointer(x))
}

type LCh_Tv chan int

func (x LCh_Tv) MarshalText() ([]byte, error) { return doText("LCh_Tv", cap(x), nil) }

type LCh_Tp chan int

func (x *LCh_Tp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LCh_Tp", -1, nil)
	}
	return doText("LCh_Tp", cap(*x), unsafe.Pointer(x))
}

type LCh_Av chan int

func (x LCh_Av) AppendJSON(dst []byte) ([]byte, error) { return doAppend(dst, "LCh_Av", cap(x), nil) }

type LCh_Ap chan int

func (x *LCh_Ap) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LCh_Ap", -1, nil)
	}
	return doAppend(dst, "LCh_Ap", cap(*x), unsafe.Pointer(x))
}

type LCh_Cv chan int

func (x LCh_Cv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LCh_Cv", cap(x), nil)
}

type LCh_Cp chan int

func (x *LCh_Cp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LCh_Cp", -1, nil)
	}
	return doCtx(ctx, dst, "LCh_Cp", cap(*x), unsafe.Pointer(x))
}

type LCh_JvTv chan int

func (x LCh_JvTv) MarshalJSON() ([]byte, error) { return doJSON("LCh_JvTv", cap(x), nil) }
func (x LCh_JvTv) MarshalText() ([]byte, error) { return doText("LCh_JvTv", cap(x), nil) }

type LCh_JvTp chan int

func (x LCh_JvTp) MarshalJSON() ([]byte, error) { return doJSON("LCh_JvTp", cap(x), nil) }
func (x *LCh_JvTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LCh_JvTp", -1, nil)
	}
	return doText("LCh_JvTp", cap(*x), unsafe.Pointer(x))
}

type LCh_JpTv chan int

func (x *LCh_JpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LCh_JpTv", -1, nil)
	}
	return doJSON("LCh_JpTv", cap(*x), unsafe.Pointer(x))
}
func (x LCh_JpTv) MarshalText() ([]byte, error) { return doText("LCh_JpTv", cap(x), nil) }

type LCh_JpTp chan int

func (x *LCh_JpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LCh_JpTp", -1, nil)
	}
	return doJSON("LCh_JpTp", cap(*x), unsafe.Pointer(x))
}
func (x *LCh_JpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LCh_JpTp", -1, nil)
	}
	return doText("LCh_JpTp", cap(*x), unsafe.Pointer(x))
}

type LCh_AvJv chan int

func (x LCh_AvJv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LCh_AvJv", cap(x), nil)
}
func (x LCh_AvJv) MarshalJSON() ([]byte, error) { return doJSON("LCh_AvJv", cap(x), nil) }

type LCh_ApJv chan int

func (x *LCh_ApJv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LCh_ApJv", -1, nil)
	}
	return doAppend(dst, "LCh_ApJv", cap(*x), unsafe.Pointer(x))
}
func (x LCh_ApJv) MarshalJSON() ([]byte, error) { return doJSON("LCh_ApJv", cap(x), nil) }

type LCh_AvJp chan int

func (x LCh_AvJp) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LCh_AvJp", cap(x), nil)
}
func (x *LCh_AvJp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LCh_AvJp", -1, nil)
	}
	return doJSON("LCh_AvJp", cap(*x), unsafe.Pointer(x))
}

type LCh_AvTv chan int

func (x LCh_AvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LCh_AvTv", cap(x), nil)
}
func (x LCh_AvTv) MarshalText() ([]byte, error) { return doText("LCh_AvTv", cap(x), nil) }

type LCh_ApTp chan int

func (x *LCh_ApTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LCh_ApTp", -1, nil)
	}
	return doAppend(dst, "LCh_ApTp", cap(*x), unsafe.Pointer(x))
}
func (x *LCh_ApTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LCh_ApTp", -1, nil)
	}
	return doText("LCh_ApTp", cap(*x), unsafe.Pointer(x))
}

type LCh_CvAv chan int

func (x LCh_CvAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LCh_CvAv", cap(x), nil)
}
func (x LCh_CvAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LCh_CvAv", cap(x), nil)
}

type LCh_CpAv chan int

func (x *LCh_CpAv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LCh_CpAv", -1, nil)
	}
	return doCtx(ctx, dst, "LCh_CpAv", cap(*x), unsafe.Pointer(x))
}
func (x LCh_CpAv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LCh_CpAv", cap(x), nil)
}

type LCh_CvAp chan int

func (x LCh_CvAp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LCh_CvAp", cap(x), nil)
}
func (x *LCh_CvAp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LCh_CvAp", -1, nil)
	}
	return doAppend(dst, "LCh_CvAp", cap(*x), unsafe.Pointer(x))
}

type LCh_CvJv chan int

func (x LCh_CvJv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LCh_CvJv", cap(x), nil)
}
func (x LCh_CvJv) MarshalJSON() ([]byte, error) { return doJSON("LCh_CvJv", cap(x), nil) }

type LCh_CpTv chan int

func (x *LCh_CpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LCh_CpTv", -1, nil)
	}
	return doCtx(ctx, dst, "LCh_CpTv", cap(*x), unsafe.Pointer(x))
}
func (x LCh_CpTv) MarshalText() ([]byte, error) { return doText("LCh_CpTv", cap(x), nil) }

type LCh_ApJpTp chan int

func (x *LCh_ApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LCh_ApJpTp", -1, nil)
	}
	return doAppend(dst, "LCh_ApJpTp", cap(*x), unsafe.Pointer(x))
}
func (x *LCh_ApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LCh_ApJpTp", -1, nil)
	}
	return doJSON("LCh_ApJpTp", cap(*x), unsafe.Pointer(x))
}
func (x *LCh_ApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LCh_ApJpTp", -1, nil)
	}
	return doText("LCh_ApJpTp", cap(*x), unsafe.Pointer(x))
}

type LCh_CvAvJvTv chan int

func (x LCh_CvAvJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LCh_CvAvJvTv", cap(x), nil)
}
func (x LCh_CvAvJvTv) AppendJSON(dst []byte) ([]byte, error) {
	return doAppend(dst, "LCh_CvAvJvTv", cap(x), nil)
}
func (x LCh_CvAvJvTv) MarshalJSON() ([]byte, error) { return doJSON("LCh_CvAvJvTv", cap(x), nil) }
func (x LCh_CvAvJvTv) MarshalText() ([]byte, error) { return doText("LCh_CvAvJvTv", cap(x), nil) }

type LCh_CpApJpTp chan int

func (x *LCh_CpApJpTp) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LCh_CpApJpTp", -1, nil)
	}
	return doCtx(ctx, dst, "LCh_CpApJpTp", cap(*x), unsafe.Pointer(x))
}
func (x *LCh_CpApJpTp) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LCh_CpApJpTp", -1, nil)
	}
	return doAppend(dst, "LCh_CpApJpTp", cap(*x), unsafe.Pointer(x))
}
func (x *LCh_CpApJpTp) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LCh_CpApJpTp", -1, nil)
	}
	return doJSON("LCh_CpApJpTp", cap(*x), unsafe.Pointer(x))
}
func (x *LCh_CpApJpTp) MarshalText() ([]byte, error) {
	if x == nil {
		return doText("LCh_CpApJpTp", -1, nil)
	}
	return doText("LCh_CpApJpTp", cap(*x), unsafe.Pointer(x))
}

type LCh_CvApJpTv chan int

func (x LCh_CvApJpTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return doCtx(ctx, dst, "LCh_CvApJpTv", cap(x), nil)
}
func (x *LCh_CvApJpTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LCh_CvApJpTv", -1, nil)
	}
	return doAppend(dst, "LCh_CvApJpTv", cap(*x), unsafe.Pointer(x))
}
func (x *LCh_CvApJpTv) MarshalJSON() ([]byte, error) {
	if x == nil {
		return doJSON("LCh_CvApJpTv", -1, nil)
	}
	return doJSON("LCh_CvApJpTv", cap(*x), unsafe.Pointer(x))
}
func (x LCh_CvApJpTv) MarshalText() ([]byte, error) { return doText("LCh_CvApJpTv", cap(x), nil) }

type LCh_CpApJvTv chan int

func (x *LCh_CpApJvTv) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if x == nil {
		return doCtx(ctx, dst, "LCh_CpApJvTv", -1, nil)
	}
	return doCtx(ctx, dst, "LCh_CpApJvTv", cap(*x), unsafe.Pointer(x))
}
func (x *LCh_CpApJvTv) AppendJSON(dst []byte) ([]byte, error) {
	if x == nil {
		return doAppend(dst, "LCh_CpApJvTv", -1, nil)
	}
	return doAppend(dst, "LCh_CpApJvTv", cap(*x), unsafe.Pointer(x))
}
func (x LCh_CpApJvTv) MarshalJSON() ([]byte, error) { return doJSON("LCh_CpApJvTv", cap(x), nil) }
func (x LCh_CpApJvTv) MarshalText() ([]byte, error) { return doText("LCh_CpApJvTv", cap(x), nil) }

var Leaves = []Leaf{
	{reflect.TypeOf((*LBool_None)(nil)).Elem(), "Bool", ""},
	{reflect.TypeOf((*LBool_Jv)(nil)).Elem(), "Bool", "J"},
	{reflect.TypeOf((*LBool_Jp)(nil)).Elem(), "Bool", "j"},
	{reflect.TypeOf((*LBool_Tv)(nil)).Elem(), "Bool", "T"},
	{reflect.TypeOf((*LBool_Tp)(nil)).Elem(), "Bool", "t"},
	{reflect.TypeOf((*LBool_Av)(nil)).Elem(), "Bool", "A"},
	{reflect.TypeOf((*LBool_Ap)(nil)).Elem(), "Bool", "a"},
	{reflect.TypeOf((*LBool_Cv)(nil)).Elem(), "Bool", "C"},
	{reflect.TypeOf((*LBool_Cp)(nil)).Elem(), "Bool", "c"},
	{reflect.TypeOf((*LBool_JvTv)(nil)).Elem(), "Bool", "JT"},
	{reflect.TypeOf((*LBool_JvTp)(nil)).Elem(), "Bool", "Jt"},
	{reflect.TypeOf((*LBool_JpTv)(nil)).Elem(), "Bool", "jT"},
	{reflect.TypeOf((*LBool_JpTp)(nil)).Elem(), "Bool", "jt"},
	{reflect.TypeOf((*LBool_AvJv)(nil)).Elem(), "Bool", "AJ"},
	{reflect.TypeOf((*LBool_ApJv)(nil)).Elem(), "Bool", "aJ"},
	{reflect.TypeOf((*LBool_AvJp)(nil)).Elem(), "Bool", "Aj"},
	{reflect.TypeOf((*LBool_AvTv)(nil)).Elem(), "Bool", "AT"},
	{reflect.TypeOf((*LBool_ApTp)(nil)).Elem(), "Bool", "at"},
	{reflect.TypeOf((*LBool_CvAv)(nil)).Elem(), "Bool", "CA"},
	{reflect.TypeOf((*LBool_CpAv)(nil)).Elem(), "Bool", "cA"},
	{reflect.TypeOf((*LBool_CvAp)(nil)).Elem(), "Bool", "Ca"},
	{reflect.TypeOf((*LBool_CvJv)(nil)).Elem(), "Bool", "CJ"},
	{reflect.TypeOf((*LBool_CpTv)(nil)).Elem(), "Bool", "cT"},
	{reflect.TypeOf((*LBool_ApJpTp)(nil)).Elem(), "Bool", "ajt"},
	{reflect.TypeOf((*LBool_CvAvJvTv)(nil)).Elem(), "Bool", "CAJT"},
	{reflect.TypeOf((*LBool_CpApJpTp)(nil)).Elem(), "Bool", "cajt"},
	{reflect.TypeOf((*LBool_CvApJpTv)(nil)).Elem(), "Bool", "CajT"},
	{reflect.TypeOf((*LBool_CpApJvTv)(nil)).Elem(), "Bool", "caJT"},
	{reflect.TypeOf((*LInt_None)(nil)).Elem(), "Int", ""},
	{reflect.TypeOf((*LInt_Jv)(nil)).Elem(), "Int", "J"},
	{reflect.TypeOf((*LInt_Jp)(nil)).Elem(), "Int", "j"},
	{reflect.TypeOf((*LInt_Tv)(nil)).Elem(), "Int", "T"},
	{reflect.TypeOf((*LInt_Tp)(nil)).Elem(), "Int", "t"},
	{reflect.TypeOf((*LInt_Av)(nil)).Elem(), "Int", "A"},
	{reflect.TypeOf((*LInt_Ap)(nil)).Elem(), "Int", "a"},
	{reflect.TypeOf((*LInt_Cv)(nil)).Elem(), "Int", "C"},
	{reflect.TypeOf((*LInt_Cp)(nil)).Elem(), "Int", "c"},
	{reflect.TypeOf((*LInt_JvTv)(nil)).Elem(), "Int", "JT"},
	{reflect.TypeOf((*LInt_JvTp)(nil)).Elem(), "Int", "Jt"},
	{reflect.TypeOf((*LInt_JpTv)(nil)).Elem(), "Int", "jT"},
	{reflect.TypeOf((*LInt_JpTp)(nil)).Elem(), "Int", "jt"},
	{reflect.TypeOf((*LInt_AvJv)(nil)).Elem(), "Int", "AJ"},
	{reflect.TypeOf((*LInt_ApJv)(nil)).Elem(), "Int", "aJ"},
	{reflect.TypeOf((*LInt_AvJp)(nil)).Elem(), "Int", "Aj"},
	{reflect.TypeOf((*LInt_AvTv)(nil)).Elem(), "Int", "AT"},
	{reflect.TypeOf((*LInt_ApTp)(nil)).Elem(), "Int", "at"},
	{reflect.TypeOf((*LInt_CvAv)(nil)).Elem(), "Int", "CA"},
	{reflect.TypeOf((*LInt_CpAv)(nil)).Elem(), "Int", "cA"},
	{reflect.TypeOf((*LInt_CvAp)(nil)).Elem(), "Int", "Ca"},
	{reflect.TypeOf((*LInt_CvJv)(nil)).Elem(), "Int", "CJ"},
	{reflect.TypeOf((*LInt_CpTv)(nil)).Elem(), "Int", "cT"},
	{reflect.TypeOf((*LInt_ApJpTp)(nil)).Elem(), "Int", "ajt"},
	{reflect.TypeOf((*LInt_CvAvJvTv)(nil)).Elem(), "Int", "CAJT"},
	{reflect.TypeOf((*LInt_CpApJpTp)(nil)).Elem(), "Int", "cajt"},
	{reflect.TypeOf((*LInt_CvApJpTv)(nil)).Elem(), "Int", "CajT"},
	{reflect.TypeOf((*LInt_CpApJvTv)(nil)).Elem(), "Int", "caJT"},
	{reflect.TypeOf((*LI8_None)(nil)).Elem(), "I8", ""},
	{reflect.TypeOf((*LI8_Jv)(nil)).Elem(), "I8", "J"},
	{reflect.TypeOf((*LI8_Jp)(nil)).Elem(), "I8", "j"},
	{reflect.TypeOf((*LI8_Tv)(nil)).Elem(), "I8", "T"},
	{reflect.TypeOf((*LI8_Tp)(nil)).Elem(), "I8", "t"},
	{reflect.TypeOf((*LI8_Av)(nil)).Elem(), "I8", "A"},
	{reflect.TypeOf((*LI8_Ap)(nil)).Elem(), "I8", "a"},
	{reflect.TypeOf((*LI8_Cv)(nil)).Elem(), "I8", "C"},
	{reflect.TypeOf((*LI8_Cp)(nil)).Elem(), "I8", "c"},
	{reflect.TypeOf((*LI8_JvTv)(nil)).Elem(), "I8", "JT"},
	{reflect.TypeOf((*LI8_JvTp)(nil)).Elem(), "I8", "Jt"},
	{reflect.TypeOf((*LI8_JpTv)(nil)).Elem(), "I8", "jT"},
	{reflect.TypeOf((*LI8_JpTp)(nil)).Elem(), "I8", "jt"},
	{reflect.TypeOf((*LI8_AvJv)(nil)).Elem(), "I8", "AJ"},
	{reflect.TypeOf((*LI8_ApJv)(nil)).Elem(), "I8", "aJ"},
	{reflect.TypeOf((*LI8_AvJp)(nil)).Elem(), "I8", "Aj"},
	{reflect.TypeOf((*LI8_AvTv)(nil)).Elem(), "I8", "AT"},
	{reflect.TypeOf((*LI8_ApTp)(nil)).Elem(), "I8", "at"},
	{reflect.TypeOf((*LI8_CvAv)(nil)).Elem(), "I8", "CA"},
	{reflect.TypeOf((*LI8_CpAv)(nil)).Elem(), "I8", "cA"},
	{reflect.TypeOf((*LI8_CvAp)(nil)).Elem(), "I8", "Ca"},
	{reflect.TypeOf((*LI8_CvJv)(nil)).Elem(), "I8", "CJ"},
	{reflect.TypeOf((*LI8_CpTv)(nil)).Elem(), "I8", "cT"},
	{reflect.TypeOf((*LI8_ApJpTp)(nil)).Elem(), "I8", "ajt"},
	{reflect.TypeOf((*LI8_CvAvJvTv)(nil)).Elem(), "I8", "CAJT"},
	{reflect.TypeOf((*LI8_CpApJpTp)(nil)).Elem(), "I8", "cajt"},
	{reflect.TypeOf((*LI8_CvApJpTv)(nil)).Elem(), "I8", "CajT"},
	{reflect.TypeOf((*LI8_CpApJvTv)(nil)).Elem(), "I8", "caJT"},
	{reflect.TypeOf((*LU8_None)(nil)).Elem(), "U8", ""},
	{reflect.TypeOf((*LU8_Jv)(nil)).Elem(), "U8", "J"},
	{reflect.TypeOf((*LU8_Jp)(nil)).Elem(), "U8", "j"},
	{reflect.TypeOf((*LU8_Tv)(nil)).Elem(), "U8", "T"},
	{reflect.TypeOf((*LU8_Tp)(nil)).Elem(), "U8", "t"},
	{reflect.TypeOf((*LU8_Av)(nil)).Elem(), "U8", "A"},
	{reflect.TypeOf((*LU8_Ap)(nil)).Elem(), "U8", "a"},
	{reflect.TypeOf((*LU8_Cv)(nil)).Elem(), "U8", "C"},
	{reflect.TypeOf((*LU8_Cp)(nil)).Elem(), "U8", "c"},
	{reflect.TypeOf((*LU8_JvTv)(nil)).Elem(), "U8", "JT"},
	{reflect.TypeOf((*LU8_JvTp)(nil)).Elem(), "U8", "Jt"},
	{reflect.TypeOf((*LU8_JpTv)(nil)).Elem(), "U8", "jT"},
	{reflect.TypeOf((*LU8_JpTp)(nil)).Elem(), "U8", "jt"},
	{reflect.TypeOf((*LU8_AvJv)(nil)).Elem(), "U8", "AJ"},
	{reflect.TypeOf((*LU8_ApJv)(nil)).Elem(), "U8", "aJ"},
	{reflect.TypeOf((*LU8_AvJp)(nil)).Elem(), "U8", "Aj"},
	{reflect.TypeOf((*LU8_AvTv)(nil)).Elem(), "U8", "AT"},
	{reflect.TypeOf((*LU8_ApTp)(nil)).Elem(), "U8", "at"},
	{reflect.TypeOf((*LU8_CvAv)(nil)).Elem(), "U8", "CA"},
	{reflect.TypeOf((*LU8_CpAv)(nil)).Elem(), "U8", "cA"},
	{reflect.TypeOf((*LU8_CvAp)(nil)).Elem(), "U8", "Ca"},
	{reflect.TypeOf((*LU8_CvJv)(nil)).Elem(), "U8", "CJ"},
	{reflect.TypeOf((*LU8_CpTv)(nil)).Elem(), "U8", "cT"},
	{reflect.TypeOf((*LU8_ApJpTp)(nil)).Elem(), "U8", "ajt"},
	{reflect.TypeOf((*LU8_CvAvJvTv)(nil)).Elem(), "U8", "CAJT"},
	{reflect.TypeOf((*LU8_CpApJpTp)(nil)).Elem(), "U8", "cajt"},
	{reflect.TypeOf((*LU8_CvApJpTv)(nil)).Elem(), "U8", "CajT"},
	{reflect.TypeOf((*LU8_CpApJvTv)(nil)).Elem(), "U8", "caJT"},
	{reflect.TypeOf((*LU64_None)(nil)).Elem(), "U64", ""},
	{reflect.TypeOf((*LU64_Jv)(nil)).Elem(), "U64", "J"},
	{reflect.TypeOf((*LU64_Jp)(nil)).Elem(), "U64", "j"},
	{reflect.TypeOf((*LU64_Tv)(nil)).Elem(), "U64", "T"},
	{reflect.TypeOf((*LU64_Tp)(nil)).Elem(), "U64", "t"},
	{reflect.TypeOf((*LU64_Av)(nil)).Elem(), "U64", "A"},
	{reflect.TypeOf((*LU64_Ap)(nil)).Elem(), "U64", "a"},
	{reflect.TypeOf((*LU64_Cv)(nil)).Elem(), "U64", "C"},
	{reflect.TypeOf((*LU64_Cp)(nil)).Elem(), "U64", "c"},
	{reflect.TypeOf((*LU64_JvTv)(nil)).Elem(), "U64", "JT"},
	{reflect.TypeOf((*LU64_JvTp)(nil)).Elem(), "U64", "Jt"},
	{reflect.TypeOf((*LU64_JpTv)(nil)).Elem(), "U64", "jT"},
	{reflect.TypeOf((*LU64_JpTp)(nil)).Elem(), "U64", "jt"},
	{reflect.TypeOf((*LU64_AvJv)(nil)).Elem(), "U64", "AJ"},
	{reflect.TypeOf((*LU64_ApJv)(nil)).Elem(), "U64", "aJ"},
	{reflect.TypeOf((*LU64_AvJp)(nil)).Elem(), "U64", "Aj"},
	{reflect.TypeOf((*LU64_AvTv)(nil)).Elem(), "U64", "AT"},
	{reflect.TypeOf((*LU64_ApTp)(nil)).Elem(), "U64", "at"},
	{reflect.TypeOf((*LU64_CvAv)(nil)).Elem(), "U64", "CA"},
	{reflect.TypeOf((*LU64_CpAv)(nil)).Elem(), "U64", "cA"},
	{reflect.TypeOf((*LU64_CvAp)(nil)).Elem(), "U64", "Ca"},
	{reflect.TypeOf((*LU64_CvJv)(nil)).Elem(), "U64", "CJ"},
	{reflect.TypeOf((*LU64_CpTv)(nil)).Elem(), "U64", "cT"},
	{reflect.TypeOf((*LU64_ApJpTp)(nil)).Elem(), "U64", "ajt"},
	{reflect.TypeOf((*LU64_CvAvJvTv)(nil)).Elem(), "U64", "CAJT"},
	{reflect.TypeOf((*LU64_CpApJpTp)(nil)).Elem(), "U64", "cajt"},
	{reflect.TypeOf((*LU64_CvApJpTv)(nil)).Elem(), "U64", "CajT"},
	{reflect.TypeOf((*LU64_CpApJvTv)(nil)).Elem(), "U64", "caJT"},
	{reflect.TypeOf((*LI16_None)(nil)).Elem(), "I16", ""},
	{reflect.TypeOf((*LI16_Jv)(nil)).Elem(), "I16", "J"},
	{reflect.TypeOf((*LI16_Jp)(nil)).Elem(), "I16", "j"},
	{reflect.TypeOf((*LI16_Tv)(nil)).Elem(), "I16", "T"},
	{reflect.TypeOf((*LI16_Tp)(nil)).Elem(), "I16", "t"},
	{reflect.TypeOf((*LI16_Av)(nil)).Elem(), "I16", "A"},
	{reflect.TypeOf((*LI16_Ap)(nil)).Elem(), "I16", "a"},
	{reflect.TypeOf((*LI16_Cv)(nil)).Elem(), "I16", "C"},
	{reflect.TypeOf((*LI16_Cp)(nil)).Elem(), "I16", "c"},
	{reflect.TypeOf((*LI16_JvTv)(nil)).Elem(), "I16", "JT"},
	{reflect.TypeOf((*LI16_JvTp)(nil)).Elem(), "I16", "Jt"},
	{reflect.TypeOf((*LI16_JpTv)(nil)).Elem(), "I16", "jT"},
	{reflect.TypeOf((*LI16_JpTp)(nil)).Elem(), "I16", "jt"},
	{reflect.TypeOf((*LI16_AvJv)(nil)).Elem(), "I16", "AJ"},
	{reflect.TypeOf((*LI16_ApJv)(nil)).Elem(), "I16", "aJ"},
	{reflect.TypeOf((*LI16_AvJp)(nil)).Elem(), "I16", "Aj"},
	{reflect.TypeOf((*LI16_AvTv)(nil)).Elem(), "I16", "AT"},
	{reflect.TypeOf((*LI16_ApTp)(nil)).Elem(), "I16", "at"},
	{reflect.TypeOf((*LI16_CvAv)(nil)).Elem(), "I16", "CA"},
	{reflect.TypeOf((*LI16_CpAv)(nil)).Elem(), "I16", "cA"},
	{reflect.TypeOf((*LI16_CvAp)(nil)).Elem(), "I16", "Ca"},
	{reflect.TypeOf((*LI16_CvJv)(nil)).Elem(), "I16", "CJ"},
	{reflect.TypeOf((*LI16_CpTv)(nil)).Elem(), "I16", "cT"},
	{reflect.TypeOf((*LI16_ApJpTp)(nil)).Elem(), "I16", "ajt"},
	{reflect.TypeOf((*LI16_CvAvJvTv)(nil)).Elem(), "I16", "CAJT"},
	{reflect.TypeOf((*LI16_CpApJpTp)(nil)).Elem(), "I16", "cajt"},
	{reflect.TypeOf((*LI16_CvApJpTv)(nil)).Elem(), "I16", "CajT"},
	{reflect.TypeOf((*LI16_CpApJvTv)(nil)).Elem(), "I16", "caJT"},
	{reflect.TypeOf((*LF64_None)(nil)).Elem(), "F64", ""},
	{reflect.TypeOf((*LF64_Jv)(nil)).Elem(), "F64", "J"},
	{reflect.TypeOf((*LF64_Jp)(nil)).Elem(), "F64", "j"},
	{reflect.TypeOf((*LF64_Tv)(nil)).Elem(), "F64", "T"},
	{reflect.TypeOf((*LF64_Tp)(nil)).Elem(), "F64", "t"},
	{reflect.TypeOf((*LF64_Av)(nil)).Elem(), "F64", "A"},
	{reflect.TypeOf((*LF64_Ap)(nil)).Elem(), "F64", "a"},
	{reflect.TypeOf((*LF64_Cv)(nil)).Elem(), "F64", "C"},
	{reflect.TypeOf((*LF64_Cp)(nil)).Elem(), "F64", "c"},
	{reflect.TypeOf((*LF64_JvTv)(nil)).Elem(), "F64", "JT"},
	{reflect.TypeOf((*LF64_JvTp)(nil)).Elem(), "F64", "Jt"},
	{reflect.TypeOf((*LF64_JpTv)(nil)).Elem(), "F64", "jT"},
	{reflect.TypeOf((*LF64_JpTp)(nil)).Elem(), "F64", "jt"},
	{reflect.TypeOf((*LF64_AvJv)(nil)).Elem(), "F64", "AJ"},
	{reflect.TypeOf((*LF64_ApJv)(nil)).Elem(), "F64", "aJ"},
	{reflect.TypeOf((*LF64_AvJp)(nil)).Elem(), "F64", "Aj"},
	{reflect.TypeOf((*LF64_AvTv)(nil)).Elem(), "F64", "AT"},
	{reflect.TypeOf((*LF64_ApTp)(nil)).Elem(), "F64", "at"},
	{reflect.TypeOf((*LF64_CvAv)(nil)).Elem(), "F64", "CA"},
	{reflect.TypeOf((*LF64_CpAv)(nil)).Elem(), "F64", "cA"},
	{reflect.TypeOf((*LF64_CvAp)(nil)).Elem(), "F64", "Ca"},
	{reflect.TypeOf((*LF64_CvJv)(nil)).Elem(), "F64", "CJ"},
	{reflect.TypeOf((*LF64_CpTv)(nil)).Elem(), "F64", "cT"},
	{reflect.TypeOf((*LF64_ApJpTp)(nil)).Elem(), "F64", "ajt"},
	{reflect.TypeOf((*LF64_CvAvJvTv)(nil)).Elem(), "F64", "CAJT"},
	{reflect.TypeOf((*LF64_CpApJpTp)(nil)).Elem(), "F64", "cajt"},
	{reflect.TypeOf((*LF64_CvApJpTv)(nil)).Elem(), "F64", "CajT"},
	{reflect.TypeOf((*LF64_CpApJvTv)(nil)).Elem(), "F64", "caJT"},
	{reflect.TypeOf((*LStr_None)(nil)).Elem(), "Str", ""},
	{reflect.TypeOf((*LStr_Jv)(nil)).Elem(), "Str", "J"},
	{reflect.TypeOf((*LStr_Jp)(nil)).Elem(), "Str", "j"},
	{reflect.TypeOf((*LStr_Tv)(nil)).Elem(), "Str", "T"},
	{reflect.TypeOf((*LStr_Tp)(nil)).Elem(), "Str", "t"},
	{reflect.TypeOf((*LStr_Av)(nil)).Elem(), "Str", "A"},
	{reflect.TypeOf((*LStr_Ap)(nil)).Elem(), "Str", "a"},
	{reflect.TypeOf((*LStr_Cv)(nil)).Elem(), "Str", "C"},
	{reflect.TypeOf((*LStr_Cp)(nil)).Elem(), "Str", "c"},
	{reflect.TypeOf((*LStr_JvTv)(nil)).Elem(), "Str", "JT"},
	{reflect.TypeOf((*LStr_JvTp)(nil)).Elem(), "Str", "Jt"},
	{reflect.TypeOf((*LStr_JpTv)(nil)).Elem(), "Str", "jT"},
	{reflect.TypeOf((*LStr_JpTp)(nil)).Elem(), "Str", "jt"},
	{reflect.TypeOf((*LStr_AvJv)(nil)).Elem(), "Str", "AJ"},
	{reflect.TypeOf((*LStr_ApJv)(nil)).Elem(), "Str", "aJ"},
	{reflect.TypeOf((*LStr_AvJp)(nil)).Elem(), "Str", "Aj"},
	{reflect.TypeOf((*LStr_AvTv)(nil)).Elem(), "Str", "AT"},
	{reflect.TypeOf((*LStr_ApTp)(nil)).Elem(), "Str", "at"},
	{reflect.TypeOf((*LStr_CvAv)(nil)).Elem(), "Str", "CA"},
	{reflect.TypeOf((*LStr_CpAv)(nil)).Elem(), "Str", "cA"},
	{reflect.TypeOf((*LStr_CvAp)(nil)).Elem(), "Str", "Ca"},
	{reflect.TypeOf((*LStr_CvJv)(nil)).Elem(), "Str", "CJ"},
	{reflect.TypeOf((*LStr_CpTv)(nil)).Elem(), "Str", "cT"},
	{reflect.TypeOf((*LStr_ApJpTp)(nil)).Elem(), "Str", "ajt"},
	{reflect.TypeOf((*LStr_CvAvJvTv)(nil)).Elem(), "Str", "CAJT"},
	{reflect.TypeOf((*LStr_CpApJpTp)(nil)).Elem(), "Str", "cajt"},
	{reflect.TypeOf((*LStr_CvApJpTv)(nil)).Elem(), "Str", "CajT"},
	{reflect.TypeOf((*LStr_CpApJvTv)(nil)).Elem(), "Str", "caJT"},
	{reflect.TypeOf((*LInts_None)(nil)).Elem(), "Ints", ""},
	{reflect.TypeOf((*LInts_Jv)(nil)).Elem(), "Ints", "J"},
	{reflect.TypeOf((*LInts_Jp)(nil)).Elem(), "Ints", "j"},
	{reflect.TypeOf((*LInts_Tv)(nil)).Elem(), "Ints", "T"},
	{reflect.TypeOf((*LInts_Tp)(nil)).Elem(), "Ints", "t"},
	{reflect.TypeOf((*LInts_Av)(nil)).Elem(), "Ints", "A"},
	{reflect.TypeOf((*LInts_Ap)(nil)).Elem(), "Ints", "a"},
	{reflect.TypeOf((*LInts_Cv)(nil)).Elem(), "Ints", "C"},
	{reflect.TypeOf((*LInts_Cp)(nil)).Elem(), "Ints", "c"},
	{reflect.TypeOf((*LInts_JvTv)(nil)).Elem(), "Ints", "JT"},
	{reflect.TypeOf((*LInts_JvTp)(nil)).Elem(), "Ints", "Jt"},
	{reflect.TypeOf((*LInts_JpTv)(nil)).Elem(), "Ints", "jT"},
	{reflect.TypeOf((*LInts_JpTp)(nil)).Elem(), "Ints", "jt"},
	{reflect.TypeOf((*LInts_AvJv)(nil)).Elem(), "Ints", "AJ"},
	{reflect.TypeOf((*LInts_ApJv)(nil)).Elem(), "Ints", "aJ"},
	{reflect.TypeOf((*LInts_AvJp)(nil)).Elem(), "Ints", "Aj"},
	{reflect.TypeOf((*LInts_AvTv)(nil)).Elem(), "Ints", "AT"},
	{reflect.TypeOf((*LInts_ApTp)(nil)).Elem(), "Ints", "at"},
	{reflect.TypeOf((*LInts_CvAv)(nil)).Elem(), "Ints", "CA"},
	{reflect.TypeOf((*LInts_CpAv)(nil)).Elem(), "Ints", "cA"},
	{reflect.TypeOf((*LInts_CvAp)(nil)).Elem(), "Ints", "Ca"},
	{reflect.TypeOf((*LInts_CvJv)(nil)).Elem(), "Ints", "CJ"},
	{reflect.TypeOf((*LInts_CpTv)(nil)).Elem(), "Ints", "cT"},
	{reflect.TypeOf((*LInts_ApJpTp)(nil)).Elem(), "Ints", "ajt"},
	{reflect.TypeOf((*LInts_CvAvJvTv)(nil)).Elem(), "Ints", "CAJT"},
	{reflect.TypeOf((*LInts_CpApJpTp)(nil)).Elem(), "Ints", "cajt"},
	{reflect.TypeOf((*LInts_CvApJpTv)(nil)).Elem(), "Ints", "CajT"},
	{reflect.TypeOf((*LInts_CpApJvTv)(nil)).Elem(), "Ints", "caJT"},
	{reflect.TypeOf((*LByts_None)(nil)).Elem(), "Byts", ""},
	{reflect.TypeOf((*LByts_Jv)(nil)).Elem(), "Byts", "J"},
	{reflect.TypeOf((*LByts_Jp)(nil)).Elem(), "Byts", "j"},
	{reflect.TypeOf((*LByts_Tv)(nil)).Elem(), "Byts", "T"},
	{reflect.TypeOf((*LByts_Tp)(nil)).Elem(), "Byts", "t"},
	{reflect.TypeOf((*LByts_Av)(nil)).Elem(), "Byts", "A"},
	{reflect.TypeOf((*LByts_Ap)(nil)).Elem(), "Byts", "a"},
	{reflect.TypeOf((*LByts_Cv)(nil)).Elem(), "Byts", "C"},
	{reflect.TypeOf((*LByts_Cp)(nil)).Elem(), "Byts", "c"},
	{reflect.TypeOf((*LByts_JvTv)(nil)).Elem(), "Byts", "JT"},
	{reflect.TypeOf((*LByts_JvTp)(nil)).Elem(), "Byts", "Jt"},
	{reflect.TypeOf((*LByts_JpTv)(nil)).Elem(), "Byts", "jT"},
	{reflect.TypeOf((*LByts_JpTp)(nil)).Elem(), "Byts", "jt"},
	{reflect.TypeOf((*LByts_AvJv)(nil)).Elem(), "Byts", "AJ"},
	{reflect.TypeOf((*LByts_ApJv)(nil)).Elem(), "Byts", "aJ"},
	{reflect.TypeOf((*LByts_AvJp)(nil)).Elem(), "Byts", "Aj"},
	{reflect.TypeOf((*LByts_AvTv)(nil)).Elem(), "Byts", "AT"},
	{reflect.TypeOf((*LByts_ApTp)(nil)).Elem(), "Byts", "at"},
	{reflect.TypeOf((*LByts_CvAv)(nil)).Elem(), "Byts", "CA"},
	{reflect.TypeOf((*LByts_CpAv)(nil)).Elem(), "Byts", "cA"},
	{reflect.TypeOf((*LByts_CvAp)(nil)).Elem(), "Byts", "Ca"},
	{reflect.TypeOf((*LByts_CvJv)(nil)).Elem(), "Byts", "CJ"},
	{reflect.TypeOf((*LByts_CpTv)(nil)).Elem(), "Byts", "cT"},
	{reflect.TypeOf((*LByts_ApJpTp)(nil)).Elem(), "Byts", "ajt"},
	{reflect.TypeOf((*LByts_CvAvJvTv)(nil)).Elem(), "Byts", "CAJT"},
	{reflect.TypeOf((*LByts_CpApJpTp)(nil)).Elem(), "Byts", "cajt"},
	{reflect.TypeOf((*LByts_CvApJpTv)(nil)).Elem(), "Byts", "CajT"},
	{reflect.TypeOf((*LByts_CpApJvTv)(nil)).Elem(), "Byts", "caJT"},
	{reflect.TypeOf((*LMap_None)(nil)).Elem(), "Map", ""},
	{reflect.TypeOf((*LMap_Jv)(nil)).Elem(), "Map", "J"},
	{reflect.TypeOf((*LMap_Jp)(nil)).Elem(), "Map", "j"},
	{reflect.TypeOf((*LMap_Tv)(nil)).Elem(), "Map", "T"},
	{reflect.TypeOf((*LMap_Tp)(nil)).Elem(), "Map", "t"},
	{reflect.TypeOf((*LMap_Av)(nil)).Elem(), "Map", "A"},
	{reflect.TypeOf((*LMap_Ap)(nil)).Elem(), "Map", "a"},
	{reflect.TypeOf((*LMap_Cv)(nil)).Elem(), "Map", "C"},
	{reflect.TypeOf((*LMap_Cp)(nil)).Elem(), "Map", "c"},
	{reflect.TypeOf((*LMap_JvTv)(nil)).Elem(), "Map", "JT"},
	{reflect.TypeOf((*LMap_JvTp)(nil)).Elem(), "Map", "Jt"},
	{reflect.TypeOf((*LMap_JpTv)(nil)).Elem(), "Map", "jT"},
	{reflect.TypeOf((*LMap_JpTp)(nil)).Elem(), "Map", "jt"},
	{reflect.TypeOf((*LMap_AvJv)(nil)).Elem(), "Map", "AJ"},
	{reflect.TypeOf((*LMap_ApJv)(nil)).Elem(), "Map", "aJ"},
	{reflect.TypeOf((*LMap_AvJp)(nil)).Elem(), "Map", "Aj"},
	{reflect.TypeOf((*LMap_AvTv)(nil)).Elem(), "Map", "AT"},
	{reflect.TypeOf((*LMap_ApTp)(nil)).Elem(), "Map", "at"},
	{reflect.TypeOf((*LMap_CvAv)(nil)).Elem(), "Map", "CA"},
	{reflect.TypeOf((*LMap_CpAv)(nil)).Elem(), "Map", "cA"},
	{reflect.TypeOf((*LMap_CvAp)(nil)).Elem(), "Map", "Ca"},
	{reflect.TypeOf((*LMap_CvJv)(nil)).Elem(), "Map", "CJ"},
	{reflect.TypeOf((*LMap_CpTv)(nil)).Elem(), "Map", "cT"},
	{reflect.TypeOf((*LMap_ApJpTp)(nil)).Elem(), "Map", "ajt"},
	{reflect.TypeOf((*LMap_CvAvJvTv)(nil)).Elem(), "Map", "CAJT"},
	{reflect.TypeOf((*LMap_CpApJpTp)(nil)).Elem(), "Map", "cajt"},
	{reflect.TypeOf((*LMap_CvApJpTv)(nil)).Elem(), "Map", "CajT"},
	{reflect.TypeOf((*LMap_CpApJvTv)(nil)).Elem(), "Map", "caJT"},
	{reflect.TypeOf((*LA2_None)(nil)).Elem(), "A2", ""},
	{reflect.TypeOf((*LA2_Jv)(nil)).Elem(), "A2", "J"},
	{reflect.TypeOf((*LA2_Jp)(nil)).Elem(), "A2", "j"},
	{reflect.TypeOf((*LA2_Tv)(nil)).Elem(), "A2", "T"},
	{reflect.TypeOf((*LA2_Tp)(nil)).Elem(), "A2", "t"},
	{reflect.TypeOf((*LA2_Av)(nil)).Elem(), "A2", "A"},
	{reflect.TypeOf((*LA2_Ap)(nil)).Elem(), "A2", "a"},
	{reflect.TypeOf((*LA2_Cv)(nil)).Elem(), "A2", "C"},
	{reflect.TypeOf((*LA2_Cp)(nil)).Elem(), "A2", "c"},
	{reflect.TypeOf((*LA2_JvTv)(nil)).Elem(), "A2", "JT"},
	{reflect.TypeOf((*LA2_JvTp)(nil)).Elem(), "A2", "Jt"},
	{reflect.TypeOf((*LA2_JpTv)(nil)).Elem(), "A2", "jT"},
	{reflect.TypeOf((*LA2_JpTp)(nil)).Elem(), "A2", "jt"},
	{reflect.TypeOf((*LA2_AvJv)(nil)).Elem(), "A2", "AJ"},
	{reflect.TypeOf((*LA2_ApJv)(nil)).Elem(), "A2", "aJ"},
	{reflect.TypeOf((*LA2_AvJp)(nil)).Elem(), "A2", "Aj"},
	{reflect.TypeOf((*LA2_AvTv)(nil)).Elem(), "A2", "AT"},
	{reflect.TypeOf((*LA2_ApTp)(nil)).Elem(), "A2", "at"},
	{reflect.TypeOf((*LA2_CvAv)(nil)).Elem(), "A2", "CA"},
	{reflect.TypeOf((*LA2_CpAv)(nil)).Elem(), "A2", "cA"},
	{reflect.TypeOf((*LA2_CvAp)(nil)).Elem(), "A2", "Ca"},
	{reflect.TypeOf((*LA2_CvJv)(nil)).Elem(), "A2", "CJ"},
	{reflect.TypeOf((*LA2_CpTv)(nil)).Elem(), "A2", "cT"},
	{reflect.TypeOf((*LA2_ApJpTp)(nil)).Elem(), "A2", "ajt"},
	{reflect.TypeOf((*LA2_CvAvJvTv)(nil)).Elem(), "A2", "CAJT"},
	{reflect.TypeOf((*LA2_CpApJpTp)(nil)).Elem(), "A2", "cajt"},
	{reflect.TypeOf((*LA2_CvApJpTv)(nil)).Elem(), "A2", "CajT"},
	{reflect.TypeOf((*LA2_CpApJvTv)(nil)).Elem(), "A2", "caJT"},
	{reflect.TypeOf((*LA1P_None)(nil)).Elem(), "A1P", ""},
	{reflect.TypeOf((*LA1P_Jv)(nil)).Elem(), "A1P", "J"},
	{reflect.TypeOf((*LA1P_Jp)(nil)).Elem(), "A1P", "j"},
	{reflect.TypeOf((*LA1P_Tv)(nil)).Elem(), "A1P", "T"},
	{reflect.TypeOf((*LA1P_Tp)(nil)).Elem(), "A1P", "t"},
	{reflect.TypeOf((*LA1P_Av)(nil)).Elem(), "A1P", "A"},
	{reflect.TypeOf((*LA1P_Ap)(nil)).Elem(), "A1P", "a"},
	{reflect.TypeOf((*LA1P_Cv)(nil)).Elem(), "A1P", "C"},
	{reflect.TypeOf((*LA1P_Cp)(nil)).Elem(), "A1P", "c"},
	{reflect.TypeOf((*LA1P_JvTv)(nil)).Elem(), "A1P", "JT"},
	{reflect.TypeOf((*LA1P_JvTp)(nil)).Elem(), "A1P", "Jt"},
	{reflect.TypeOf((*LA1P_JpTv)(nil)).Elem(), "A1P", "jT"},
	{reflect.TypeOf((*LA1P_JpTp)(nil)).Elem(), "A1P", "jt"},
	{reflect.TypeOf((*LA1P_AvJv)(nil)).Elem(), "A1P", "AJ"},
	{reflect.TypeOf((*LA1P_ApJv)(nil)).Elem(), "A1P", "aJ"},
	{reflect.TypeOf((*LA1P_AvJp)(nil)).Elem(), "A1P", "Aj"},
	{reflect.TypeOf((*LA1P_AvTv)(nil)).Elem(), "A1P", "AT"},
	{reflect.TypeOf((*LA1P_ApTp)(nil)).Elem(), "A1P", "at"},
	{reflect.TypeOf((*LA1P_CvAv)(nil)).Elem(), "A1P", "CA"},
	{reflect.TypeOf((*LA1P_CpAv)(nil)).Elem(), "A1P", "cA"},
	{reflect.TypeOf((*LA1P_CvAp)(nil)).Elem(), "A1P", "Ca"},
	{reflect.TypeOf((*LA1P_CvJv)(nil)).Elem(), "A1P", "CJ"},
	{reflect.TypeOf((*LA1P_CpTv)(nil)).Elem(), "A1P", "cT"},
	{reflect.TypeOf((*LA1P_ApJpTp)(nil)).Elem(), "A1P", "ajt"},
	{reflect.TypeOf((*LA1P_CvAvJvTv)(nil)).Elem(), "A1P", "CAJT"},
	{reflect.TypeOf((*LA1P_CpApJpTp)(nil)).Elem(), "A1P", "cajt"},
	{reflect.TypeOf((*LA1P_CvApJpTv)(nil)).Elem(), "A1P", "CajT"},
	{reflect.TypeOf((*LA1P_CpApJvTv)(nil)).Elem(), "A1P", "caJT"},
	{reflect.TypeOf((*LA0_None)(nil)).Elem(), "A0", ""},
	{reflect.TypeOf((*LA0_Jv)(nil)).Elem(), "A0", "J"},
	{reflect.TypeOf((*LA0_Jp)(nil)).Elem(), "A0", "j"},
	{reflect.TypeOf((*LA0_Tv)(nil)).Elem(), "A0", "T"},
	{reflect.TypeOf((*LA0_Tp)(nil)).Elem(), "A0", "t"},
	{reflect.TypeOf((*LA0_Av)(nil)).Elem(), "A0", "A"},
	{reflect.TypeOf((*LA0_Ap)(nil)).Elem(), "A0", "a"},
	{reflect.TypeOf((*LA0_Cv)(nil)).Elem(), "A0", "C"},
	{reflect.TypeOf((*LA0_Cp)(nil)).Elem(), "A0", "c"},
	{reflect.TypeOf((*LA0_JvTv)(nil)).Elem(), "A0", "JT"},
	{reflect.TypeOf((*LA0_JvTp)(nil)).Elem(), "A0", "Jt"},
	{reflect.TypeOf((*LA0_JpTv)(nil)).Elem(), "A0", "jT"},
	{reflect.TypeOf((*LA0_JpTp)(nil)).Elem(), "A0", "jt"},
	{reflect.TypeOf((*LA0_AvJv)(nil)).Elem(), "A0", "AJ"},
	{reflect.TypeOf((*LA0_ApJv)(nil)).Elem(), "A0", "aJ"},
	{reflect.TypeOf((*LA0_AvJp)(nil)).Elem(), "A0", "Aj"},
	{reflect.TypeOf((*LA0_AvTv)(nil)).Elem(), "A0", "AT"},
	{reflect.TypeOf((*LA0_ApTp)(nil)).Elem(), "A0", "at"},
	{reflect.TypeOf((*LA0_CvAv)(nil)).Elem(), "A0", "CA"},
	{reflect.TypeOf((*LA0_CpAv)(nil)).Elem(), "A0", "cA"},
	{reflect.TypeOf((*LA0_CvAp)(nil)).Elem(), "A0", "Ca"},
	{reflect.TypeOf((*LA0_CvJv)(nil)).Elem(), "A0", "CJ"},
	{reflect.TypeOf((*LA0_CpTv)(nil)).Elem(), "A0", "cT"},
	{reflect.TypeOf((*LA0_ApJpTp)(nil)).Elem(), "A0", "ajt"},
	{reflect.TypeOf((*LA0_CvAvJvTv)(nil)).Elem(), "A0", "CAJT"},
	{reflect.TypeOf((*LA0_CpApJpTp)(nil)).Elem(), "A0", "cajt"},
	{reflect.TypeOf((*LA0_CvApJpTv)(nil)).Elem(), "A0", "CajT"},
	{reflect.TypeOf((*LA0_CpApJvTv)(nil)).Elem(), "A0", "caJT"},
	{reflect.TypeOf((*LS_None)(nil)).Elem(), "S", ""},
	{reflect.TypeOf((*LS_Jv)(nil)).Elem(), "S", "J"},
	{reflect.TypeOf((*LS_Jp)(nil)).Elem(), "S", "j"},
	{reflect.TypeOf((*LS_Tv)(nil)).Elem(), "S", "T"},
	{reflect.TypeOf((*LS_Tp)(nil)).Elem(), "S", "t"},
	{reflect.TypeOf((*LS_Av)(nil)).Elem(), "S", "A"},
	{reflect.TypeOf((*LS_Ap)(nil)).Elem(), "S", "a"},
	{reflect.TypeOf((*LS_Cv)(nil)).Elem(), "S", "C"},
	{reflect.TypeOf((*LS_Cp)(nil)).Elem(), "S", "c"},
	{reflect.TypeOf((*LS_JvTv)(nil)).Elem(), "S", "JT"},
	{reflect.TypeOf((*LS_JvTp)(nil)).Elem(), "S", "Jt"},
	{reflect.TypeOf((*LS_JpTv)(nil)).Elem(), "S", "jT"},
	{reflect.TypeOf((*LS_JpTp)(nil)).Elem(), "S", "jt"},
	{reflect.TypeOf((*LS_AvJv)(nil)).Elem(), "S", "AJ"},
	{reflect.TypeOf((*LS_ApJv)(nil)).Elem(), "S", "aJ"},
	{reflect.TypeOf((*LS_AvJp)(nil)).Elem(), "S", "Aj"},
	{reflect.TypeOf((*LS_AvTv)(nil)).Elem(), "S", "AT"},
	{reflect.TypeOf((*LS_ApTp)(nil)).Elem(), "S", "at"},
	{reflect.TypeOf((*LS_CvAv)(nil)).Elem(), "S", "CA"},
	{reflect.TypeOf((*LS_CpAv)(nil)).Elem(), "S", "cA"},
	{reflect.TypeOf((*LS_CvAp)(nil)).Elem(), "S", "Ca"},
	{reflect.TypeOf((*LS_CvJv)(nil)).Elem(), "S", "CJ"},
	{reflect.TypeOf((*LS_CpTv)(nil)).Elem(), "S", "cT"},
	{reflect.TypeOf((*LS_ApJpTp)(nil)).Elem(), "S", "ajt"},
	{reflect.TypeOf((*LS_CvAvJvTv)(nil)).Elem(), "S", "CAJT"},
	{reflect.TypeOf((*LS_CpApJpTp)(nil)).Elem(), "S", "cajt"},
	{reflect.TypeOf((*LS_CvApJpTv)(nil)).Elem(), "S", "CajT"},
	{reflect.TypeOf((*LS_CpApJvTv)(nil)).Elem(), "S", "caJT"},
	{reflect.TypeOf((*LSP_None)(nil)).Elem(), "SP", ""},
	{reflect.TypeOf((*LSP_Jv)(nil)).Elem(), "SP", "J"},
	{reflect.TypeOf((*LSP_Jp)(nil)).Elem(), "SP", "j"},
	{reflect.TypeOf((*LSP_Tv)(nil)).Elem(), "SP", "T"},
	{reflect.TypeOf((*LSP_Tp)(nil)).Elem(), "SP", "t"},
	{reflect.TypeOf((*LSP_Av)(nil)).Elem(), "SP", "A"},
	{reflect.TypeOf((*LSP_Ap)(nil)).Elem(), "SP", "a"},
	{reflect.TypeOf((*LSP_Cv)(nil)).Elem(), "SP", "C"},
	{reflect.TypeOf((*LSP_Cp)(nil)).Elem(), "SP", "c"},
	{reflect.TypeOf((*LSP_JvTv)(nil)).Elem(), "SP", "JT"},
	{reflect.TypeOf((*LSP_JvTp)(nil)).Elem(), "SP", "Jt"},
	{reflect.TypeOf((*LSP_JpTv)(nil)).Elem(), "SP", "jT"},
	{reflect.TypeOf((*LSP_JpTp)(nil)).Elem(), "SP", "jt"},
	{reflect.TypeOf((*LSP_AvJv)(nil)).Elem(), "SP", "AJ"},
	{reflect.TypeOf((*LSP_ApJv)(nil)).Elem(), "SP", "aJ"},
	{reflect.TypeOf((*LSP_AvJp)(nil)).Elem(), "SP", "Aj"},
	{reflect.TypeOf((*LSP_AvTv)(nil)).Elem(), "SP", "AT"},
	{reflect.TypeOf((*LSP_ApTp)(nil)).Elem(), "SP", "at"},
	{reflect.TypeOf((*LSP_CvAv)(nil)).Elem(), "SP", "CA"},
	{reflect.TypeOf((*LSP_CpAv)(nil)).Elem(), "SP", "cA"},
	{reflect.TypeOf((*LSP_CvAp)(nil)).Elem(), "SP", "Ca"},
	{reflect.TypeOf((*LSP_CvJv)(nil)).Elem(), "SP", "CJ"},
	{reflect.TypeOf((*LSP_CpTv)(nil)).Elem(), "SP", "cT"},
	{reflect.TypeOf((*LSP_ApJpTp)(nil)).Elem(), "SP", "ajt"},
	{reflect.TypeOf((*LSP_CvAvJvTv)(nil)).Elem(), "SP", "CAJT"},
	{reflect.TypeOf((*LSP_CpApJpTp)(nil)).Elem(), "SP", "cajt"},
	{reflect.TypeOf((*LSP_CvApJpTv)(nil)).Elem(), "SP", "CajT"},
	{reflect.TypeOf((*LSP_CpApJvTv)(nil)).Elem(), "SP", "caJT"},
	{reflect.TypeOf((*LSM_None)(nil)).Elem(), "SM", ""},
	{reflect.TypeOf((*LSM_Jv)(nil)).Elem(), "SM", "J"},
	{reflect.TypeOf((*LSM_Jp)(nil)).Elem(), "SM", "j"},
	{reflect.TypeOf((*LSM_Tv)(nil)).Elem(), "SM", "T"},
	{reflect.TypeOf((*LSM_Tp)(nil)).Elem(), "SM", "t"},
	{reflect.TypeOf((*LSM_Av)(nil)).Elem(), "SM", "A"},
	{reflect.TypeOf((*LSM_Ap)(nil)).Elem(), "SM", "a"},
	{reflect.TypeOf((*LSM_Cv)(nil)).Elem(), "SM", "C"},
	{reflect.TypeOf((*LSM_Cp)(nil)).Elem(), "SM", "c"},
	{reflect.TypeOf((*LSM_JvTv)(nil)).Elem(), "SM", "JT"},
	{reflect.TypeOf((*LSM_JvTp)(nil)).Elem(), "SM", "Jt"},
	{reflect.TypeOf((*LSM_JpTv)(nil)).Elem(), "SM", "jT"},
	{reflect.TypeOf((*LSM_JpTp)(nil)).Elem(), "SM", "jt"},
	{reflect.TypeOf((*LSM_AvJv)(nil)).Elem(), "SM", "AJ"},
	{reflect.TypeOf((*LSM_ApJv)(nil)).Elem(), "SM", "aJ"},
	{reflect.TypeOf((*LSM_AvJp)(nil)).Elem(), "SM", "Aj"},
	{reflect.TypeOf((*LSM_AvTv)(nil)).Elem(), "SM", "AT"},
	{reflect.TypeOf((*LSM_ApTp)(nil)).Elem(), "SM", "at"},
	{reflect.TypeOf((*LSM_CvAv)(nil)).Elem(), "SM", "CA"},
	{reflect.TypeOf((*LSM_CpAv)(nil)).Elem(), "SM", "cA"},
	{reflect.TypeOf((*LSM_CvAp)(nil)).Elem(), "SM", "Ca"},
	{reflect.TypeOf((*LSM_CvJv)(nil)).Elem(), "SM", "CJ"},
	{reflect.TypeOf((*LSM_CpTv)(nil)).Elem(), "SM", "cT"},
	{reflect.TypeOf((*LSM_ApJpTp)(nil)).Elem(), "SM", "ajt"},
	{reflect.TypeOf((*LSM_CvAvJvTv)(nil)).Elem(), "SM", "CAJT"},
	{reflect.TypeOf((*LSM_CpApJpTp)(nil)).Elem(), "SM", "cajt"},
	{reflect.TypeOf((*LSM_CvApJpTv)(nil)).Elem(), "SM", "CajT"},
	{reflect.TypeOf((*LSM_CpApJvTv)(nil)).Elem(), "SM", "caJT"},
	{reflect.TypeOf((*LSU_None)(nil)).Elem(), "SU", ""},
	{reflect.TypeOf((*LSU_Jv)(nil)).Elem(), "SU", "J"},
	{reflect.TypeOf((*LSU_Jp)(nil)).Elem(), "SU", "j"},
	{reflect.TypeOf((*LSU_Tv)(nil)).Elem(), "SU", "T"},
	{reflect.TypeOf((*LSU_Tp)(nil)).Elem(), "SU", "t"},
	{reflect.TypeOf((*LSU_Av)(nil)).Elem(), "SU", "A"},
	{reflect.TypeOf((*LSU_Ap)(nil)).Elem(), "SU", "a"},
	{reflect.TypeOf((*LSU_Cv)(nil)).Elem(), "SU", "C"},
	{reflect.TypeOf((*LSU_Cp)(nil)).Elem(), "SU", "c"},
	{reflect.TypeOf((*LSU_JvTv)(nil)).Elem(), "SU", "JT"},
	{reflect.TypeOf((*LSU_JvTp)(nil)).Elem(), "SU", "Jt"},
	{reflect.TypeOf((*LSU_JpTv)(nil)).Elem(), "SU", "jT"},
	{reflect.TypeOf((*LSU_JpTp)(nil)).Elem(), "SU", "jt"},
	{reflect.TypeOf((*LSU_AvJv)(nil)).Elem(), "SU", "AJ"},
	{reflect.TypeOf((*LSU_ApJv)(nil)).Elem(), "SU", "aJ"},
	{reflect.TypeOf((*LSU_AvJp)(nil)).Elem(), "SU", "Aj"},
	{reflect.TypeOf((*LSU_AvTv)(nil)).Elem(), "SU", "AT"},
	{reflect.TypeOf((*LSU_ApTp)(nil)).Elem(), "SU", "at"},
	{reflect.TypeOf((*LSU_CvAv)(nil)).Elem(), "SU", "CA"},
	{reflect.TypeOf((*LSU_CpAv)(nil)).Elem(), "SU", "cA"},
	{reflect.TypeOf((*LSU_CvAp)(nil)).Elem(), "SU", "Ca"},
	{reflect.TypeOf((*LSU_CvJv)(nil)).Elem(), "SU", "CJ"},
	{reflect.TypeOf((*LSU_CpTv)(nil)).Elem(), "SU", "cT"},
	{reflect.TypeOf((*LSU_ApJpTp)(nil)).Elem(), "SU", "ajt"},
	{reflect.TypeOf((*LSU_CvAvJvTv)(nil)).Elem(), "SU", "CAJT"},
	{reflect.TypeOf((*LSU_CpApJpTp)(nil)).Elem(), "SU", "cajt"},
	{reflect.TypeOf((*LSU_CvApJpTv)(nil)).Elem(), "SU", "CajT"},
	{reflect.TypeOf((*LSU_CpApJvTv)(nil)).Elem(), "SU", "caJT"},
	{reflect.TypeOf((*LS0_None)(nil)).Elem(), "S0", ""},
	{reflect.TypeOf((*LS0_Jv)(nil)).Elem(), "S0", "J"},
	{reflect.TypeOf((*LS0_Jp)(nil)).Elem(), "S0", "j"},
	{reflect.TypeOf((*LS0_Tv)(nil)).Elem(), "S0", "T"},
	{reflect.TypeOf((*LS0_Tp)(nil)).Elem(), "S0", "t"},
	{reflect.TypeOf((*LS0_Av)(nil)).Elem(), "S0", "A"},
	{reflect.TypeOf((*LS0_Ap)(nil)).Elem(), "S0", "a"},
	{reflect.TypeOf((*LS0_Cv)(nil)).Elem(), "S0", "C"},
	{reflect.TypeOf((*LS0_Cp)(nil)).Elem(), "S0", "c"},
	{reflect.TypeOf((*LS0_JvTv)(nil)).Elem(), "S0", "JT"},
	{reflect.TypeOf((*LS0_JvTp)(nil)).Elem(), "S0", "Jt"},
	{reflect.TypeOf((*LS0_JpTv)(nil)).Elem(), "S0", "jT"},
	{reflect.TypeOf((*LS0_JpTp)(nil)).Elem(), "S0", "jt"},
	{reflect.TypeOf((*LS0_AvJv)(nil)).Elem(), "S0", "AJ"},
	{reflect.TypeOf((*LS0_ApJv)(nil)).Elem(), "S0", "aJ"},
	{reflect.TypeOf((*LS0_AvJp)(nil)).Elem(), "S0", "Aj"},
	{reflect.TypeOf((*LS0_AvTv)(nil)).Elem(), "S0", "AT"},
	{reflect.TypeOf((*LS0_ApTp)(nil)).Elem(), "S0", "at"},
	{reflect.TypeOf((*LS0_CvAv)(nil)).Elem(), "S0", "CA"},
	{reflect.TypeOf((*LS0_CpAv)(nil)).Elem(), "S0", "cA"},
	{reflect.TypeOf((*LS0_CvAp)(nil)).Elem(), "S0", "Ca"},
	{reflect.TypeOf((*LS0_CvJv)(nil)).Elem(), "S0", "CJ"},
	{reflect.TypeOf((*LS0_CpTv)(nil)).Elem(), "S0", "cT"},
	{reflect.TypeOf((*LS0_ApJpTp)(nil)).Elem(), "S0", "ajt"},
	{reflect.TypeOf((*LS0_CvAvJvTv)(nil)).Elem(), "S0", "CAJT"},
	{reflect.TypeOf((*LS0_CpApJpTp)(nil)).Elem(), "S0", "cajt"},
	{reflect.TypeOf((*LS0_CvApJpTv)(nil)).Elem(), "S0", "CajT"},
	{reflect.TypeOf((*LS0_CpApJvTv)(nil)).Elem(), "S0", "caJT"},
	{reflect.TypeOf((*LSL_Jv)(nil)).Elem(), "SL", "J"},
	{reflect.TypeOf((*LSL_Jp)(nil)).Elem(), "SL", "j"},
	{reflect.TypeOf((*LSL_Tp)(nil)).Elem(), "SL", "t"},
	{reflect.TypeOf((*LSL_Ap)(nil)).Elem(), "SL", "a"},
	{reflect.TypeOf((*LSL_Cv)(nil)).Elem(), "SL", "C"},
	{reflect.TypeOf((*LSL_JvTv)(nil)).Elem(), "SL", "JT"},
	{reflect.TypeOf((*LSL_CvApJpTv)(nil)).Elem(), "SL", "CajT"},
	{reflect.TypeOf((*LFn_None)(nil)).Elem(), "Fn", ""},
	{reflect.TypeOf((*LFn_Jv)(nil)).Elem(), "Fn", "J"},
	{reflect.TypeOf((*LFn_Jp)(nil)).Elem(), "Fn", "j"},
	{reflect.TypeOf((*LFn_Tv)(nil)).Elem(), "Fn", "T"},
	{reflect.TypeOf((*LFn_Tp)(nil)).Elem(), "Fn", "t"},
	{reflect.TypeOf((*LFn_Av)(nil)).Elem(), "Fn", "A"},
	{reflect.TypeOf((*LFn_Ap)(nil)).Elem(), "Fn", "a"},
	{reflect.TypeOf((*LFn_Cv)(nil)).Elem(), "Fn", "C"},
	{reflect.TypeOf((*LFn_Cp)(nil)).Elem(), "Fn", "c"},
	{reflect.TypeOf((*LFn_JvTv)(nil)).Elem(), "Fn", "JT"},
	{reflect.TypeOf((*LFn_JvTp)(nil)).Elem(), "Fn", "Jt"},
	{reflect.TypeOf((*LFn_JpTv)(nil)).Elem(), "Fn", "jT"},
	{reflect.TypeOf((*LFn_JpTp)(nil)).Elem(), "Fn", "jt"},
	{reflect.TypeOf((*LFn_AvJv)(nil)).Elem(), "Fn", "AJ"},
	{reflect.TypeOf((*LFn_ApJv)(nil)).Elem(), "Fn", "aJ"},
	{reflect.TypeOf((*LFn_AvJp)(nil)).Elem(), "Fn", "Aj"},
	{reflect.TypeOf((*LFn_AvTv)(nil)).Elem(), "Fn", "AT"},
	{reflect.TypeOf((*LFn_ApTp)(nil)).Elem(), "Fn", "at"},
	{reflect.TypeOf((*LFn_CvAv)(nil)).Elem(), "Fn", "CA"},
	{reflect.TypeOf((*LFn_CpAv)(nil)).Elem(), "Fn", "cA"},
	{reflect.TypeOf((*LFn_CvAp)(nil)).Elem(), "Fn", "Ca"},
	{reflect.TypeOf((*LFn_CvJv)(nil)).Elem(), "Fn", "CJ"},
	{reflect.TypeOf((*LFn_CpTv)(nil)).Elem(), "Fn", "cT"},
	{reflect.TypeOf((*LFn_ApJpTp)(nil)).Elem(), "Fn", "ajt"},
	{reflect.TypeOf((*LFn_CvAvJvTv)(nil)).Elem(), "Fn", "CAJT"},
	{reflect.TypeOf((*LFn_CpApJpTp)(nil)).Elem(), "Fn", "cajt"},
	{reflect.TypeOf((*LFn_CvApJpTv)(nil)).Elem(), "Fn", "CajT"},
	{reflect.TypeOf((*LFn_CpApJvTv)(nil)).Elem(), "Fn", "caJT"},
	{reflect.TypeOf((*LCh_None)(nil)).Elem(), "Ch", ""},
	{reflect.TypeOf((*LCh_Jv)(nil)).Elem(), "Ch", "J"},
	{reflect.TypeOf((*LCh_Jp)(nil)).Elem(), "Ch", "j"},
	{reflect.TypeOf((*LCh_Tv)(nil)).Elem(), "Ch", "T"},
	{reflect.TypeOf((*LCh_Tp)(nil)).Elem(), "Ch", "t"},
	{reflect.TypeOf((*LCh_Av)(nil)).Elem(), "Ch", "A"},
	{reflect.TypeOf((*LCh_Ap)(nil)).Elem(), "Ch", "a"},
	{reflect.TypeOf((*LCh_Cv)(nil)).Elem(), "Ch", "C"},
	{reflect.TypeOf((*LCh_Cp)(nil)).Elem(), "Ch", "c"},
	{reflect.TypeOf((*LCh_JvTv)(nil)).Elem(), "Ch", "JT"},
	{reflect.TypeOf((*LCh_JvTp)(nil)).Elem(), "Ch", "Jt"},
	{reflect.TypeOf((*LCh_JpTv)(nil)).Elem(), "Ch", "jT"},
	{reflect.TypeOf((*LCh_JpTp)(nil)).Elem(), "Ch", "jt"},
	{reflect.TypeOf((*LCh_AvJv)(nil)).Elem(), "Ch", "AJ"},
	{reflect.TypeOf((*LCh_ApJv)(nil)).Elem(), "Ch", "aJ"},
	{reflect.TypeOf((*LCh_AvJp)(nil)).Elem(), "Ch", "Aj"},
	{reflect.TypeOf((*LCh_AvTv)(nil)).Elem(), "Ch", "AT"},
	{reflect.TypeOf((*LCh_ApTp)(nil)).Elem(), "Ch", "at"},
	{reflect.TypeOf((*LCh_CvAv)(nil)).Elem(), "Ch", "CA"},
	{reflect.TypeOf((*LCh_CpAv)(nil)).Elem(), "Ch", "cA"},
	{reflect.TypeOf((*LCh_CvAp)(nil)).Elem(), "Ch", "Ca"},
	{reflect.TypeOf((*LCh_CvJv)(nil)).Elem(), "Ch", "CJ"},
	{reflect.TypeOf((*LCh_CpTv)(nil)).Elem(), "Ch", "cT"},
	{reflect.TypeOf((*LCh_ApJpTp)(nil)).Elem(), "Ch", "ajt"},
	{reflect.TypeOf((*LCh_CvAvJvTv)(nil)).Elem(), "Ch", "CAJT"},
	{reflect.TypeOf((*LCh_CpApJpTp)(nil)).Elem(), "Ch", "cajt"},
	{reflect.TypeOf((*LCh_CvApJpTv)(nil)).Elem(), "Ch", "CajT"},
	{reflect.TypeOf((*LCh_CpApJvTv)(nil)).Elem(), "Ch", "caJT"},
}
