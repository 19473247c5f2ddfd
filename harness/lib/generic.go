package lib

// Generic types: their names have brackets, the names of embedded fields do not.
type (
	GS[T any] struct {
		A T
		B []T `json:",omitempty"`
		N *GS[T]
	}
	GPair[K comparable, V any] struct {
		Key K `json:"k"`
		Val V `json:"<v>"`
		M   map[K]V
	}
	GEmb[T any] struct {
		GS[T]
		*GPair[string, T]
		B T `json:"B,omitempty"`
	}
	GPtr[T any]  struct{ P *T }
	GInt[T any]  int
	GMap[T any]  map[string]T
	GList[T any] []T
	GArr[T any]  [1]*T
	GJ[T any]    struct{ V T }
	GT[T any]    struct{ V *T }
	GK[T any]    int
	GA[T any]    string

	gs[T any] struct {
		A T `json:"é"`
		C T
	}
	GUn[T any] struct {
		gs[T]
		C *T
	}
)

func (g GJ[T]) MarshalJSON() ([]byte, error)           { return []byte(` { "gj" : "<" } `), nil }
func (g *GT[T]) MarshalText() ([]byte, error)          { return []byte("gt<\xff>"), nil }
func (g GK[T]) MarshalText() ([]byte, error)           { return []byte{'g', 'a' + byte(uint(g)%16)}, nil }
func (g *GA[T]) AppendJSON(dst []byte) ([]byte, error) { return append(dst, `"ga"`...), nil }

// Aliases: the name of an embedded alias is the alias.
type (
	AliasInt  = LInt_None
	AliasStr  = LStr_Tv
	AliasS    = LS_None
	AliasG    = GS[string]
	AliasMap  = map[string]int
	AliasGInt = GInt[bool]
)
