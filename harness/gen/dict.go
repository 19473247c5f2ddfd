package gen

import (
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// The dictionary holds the constants of the sources of the code under test,
// as fuzzers do: the values, sizes and texts at which a program changes its
// behaviour are often constants of it.
var (
	DictInts []int64
	DictStrs []string
	dictLens []int // the usable sizes
)

func init() {
	src := os.Getenv("VERIF_SRC")
	if src == "" {
		src = "/repo"
	}
	DictInts, DictStrs = Constants(src)
	for _, i := range DictInts {
		if i >= 2 && i <= 1<<17 {
			dictLens = append(dictLens, int(i))
		}
	}
	if len(dictLens) == 0 {
		dictLens = []int{64}
	}
}

// stub has the constants of the standard library most likely to be used.
type stub map[string]*types.Package

func (s stub) Import(path string) (*types.Package, error) {
	if p := s[path]; p != nil {
		return p, nil
	}
	p := types.NewPackage(path, path[strings.LastIndexByte(path, '/')+1:])
	c := func(typ types.Type, name string, v int64) {
		p.Scope().Insert(types.NewConst(0, p, name, typ, constant.MakeInt64(v)))
	}
	untyped := types.Typ[types.UntypedInt]
	switch path {
	case "time":
		dur := types.NewNamed(types.NewTypeName(0, p, "Duration", nil), types.Typ[types.Int64], nil)
		p.Scope().Insert(dur.Obj())
		for n, d := range map[string]time.Duration{"Nanosecond": time.Nanosecond, "Microsecond": time.Microsecond, "Millisecond": time.Millisecond, "Second": time.Second, "Minute": time.Minute, "Hour": time.Hour} {
			c(dur, n, int64(d))
		}
	case "math":
		for n, v := range map[string]int64{"MaxInt8": math.MaxInt8, "MaxInt16": math.MaxInt16, "MaxInt32": math.MaxInt32, "MaxInt64": math.MaxInt64, "MinInt8": math.MinInt8, "MinInt16": math.MinInt16, "MinInt32": math.MinInt32, "MinInt64": math.MinInt64, "MaxUint8": math.MaxUint8, "MaxUint16": math.MaxUint16, "MaxUint32": math.MaxUint32, "MaxInt": math.MaxInt, "MinInt": math.MinInt} {
			c(untyped, n, v)
		}
	case "unicode/utf8":
		c(types.Typ[types.UntypedRune], "RuneError", utf8.RuneError)
		c(types.Typ[types.UntypedRune], "MaxRune", utf8.MaxRune)
		c(untyped, "RuneSelf", utf8.RuneSelf)
		c(untyped, "UTFMax", utf8.UTFMax)
	case "unsafe":
		return types.Unsafe, nil
	}
	p.MarkComplete()
	s[path] = p
	return p, nil
}

var _ types.Importer = stub(nil)

// Constants returns the integers and strings that are constants of the
// non-test Go files of a directory.
func Constants(dir string) (ints []int64, strs []string) {
	fset := token.NewFileSet()
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(names)
	var files []*ast.File
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") || strings.HasSuffix(n, "_1.17.go") {
			continue
		}
		if f, err := parser.ParseFile(fset, n, nil, parser.SkipObjectResolution); err == nil {
			files = append(files, f)
		}
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	conf := types.Config{Importer: stub{}, Error: func(error) {}}
	func() {
		defer func() { _ = recover() }()
		_, _ = conf.Check("p", fset, files, info)
	}()
	is, ss := map[int64]bool{}, map[string]bool{}
	add := func(v constant.Value) {
		switch v.Kind() {
		case constant.Int:
			if i, ok := constant.Int64Val(v); ok {
				is[i] = true
			} else if b, ok := constant.Val(v).(*big.Int); ok {
				is[int64(b.Uint64())] = true
			}
		case constant.Float:
			if f, _ := constant.Float64Val(v); math.Abs(f) < 1e18 {
				is[int64(f)] = true
			}
		case constant.String:
			if s := constant.StringVal(v); s != "" && len(s) < 100 {
				ss[s] = true
			}
		}
	}
	for e, tv := range info.Types {
		if tv.Value != nil {
			if b, ok := tv.Type.Underlying().(*types.Basic); ok && b.Kind() == types.UntypedRune {
				if _, lit := e.(*ast.BasicLit); lit {
					if r, ok := constant.Int64Val(tv.Value); ok && r < 128 { // as text
						ss[string(rune(r))] = true
						continue
					}
				}
			}
			add(tv.Value)
		}
	}
	for _, f := range files { // what was not type-checked
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT, token.FLOAT, token.STRING:
					if v := constant.MakeFromLiteral(x.Value, x.Kind, 0); v.Kind() != constant.Unknown {
						add(v)
					}
				case token.CHAR:
					if s, err := strconv.Unquote(x.Value); err == nil {
						ss[s] = true
					}
				}
			}
			return true
		})
	}
	for i := range is {
		ints = append(ints, i)
	}
	for s := range ss {
		strs = append(strs, s)
	}
	sort.Slice(ints, func(i, j int) bool { return ints[i] < ints[j] })
	sort.Strings(strs)
	if len(ints) == 0 {
		ints = []int64{1}
	}
	if len(strs) == 0 {
		strs = []string{"x"}
	}
	return
}

// DictInt draws an integer of the dictionary, or one next to it.
func DictInt(t *rapid.T) int64 {
	i := Of(t, DictInts)
	switch Weighted(t, 6, 2, 2, 1) {
	case 1:
		i++
	case 2:
		i--
	case 3:
		i = -i
	}
	return i
}

// DictLen draws a size near one of the dictionary, at most max if possible.
func DictLen(t *rapid.T, max int) int {
	l := dictLens
	n := sort.SearchInts(l, max+1)
	if n == 0 {
		return Pick(t, max+1)
	}
	i := Of(t, l[:n]) + Of(t, []int{0, 0, 1, -1, 2, -2, 3, -3})
	return i
}

// DictStr draws a text of the dictionary.
func DictStr(t *rapid.T) string { return Of(t, DictStrs) }
