// Code generated by gen.py. DO NOT EDIT.

// Package zoo has generated static struct families.
package zoo

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sync"
	"time"

	alt "jverif/alt/lib"
	"jverif/lib"
)

var (
	_ json.Number
	_ fmt.Stringer
	_ *sync.Map
	_ time.Time
	_ lib.Leaf
	_ alt.RawJ
)

type (
	emInt   int
	emStr   string
	emMap   map[string]int
	emSlice []string
	emPtr   struct{ P *int }
	EmInt   int
	EmMap   map[string]int
	EmSlice []int
	EmArr   [2]int8
)

type Z0 struct {
	lib.GUn[lib.GInt[int]]
	*lib.LFn_None
	C *[]lib.Texter
}

type Z1 struct {
	D ***Z228
	B fmt.Stringer
	F map[lib.GK[*lib.GS[int]]]*lib.GS[int]
	E time.Duration
}

type z2 struct {
	lib.LI16_JvTp `json:"B"`
	G             int
	Z0
}

type z3 struct {
	D  []*Z197 `json:"-"`
	u1 *int
	E  *[1]*int
	A  [2]map[string]lib.LStr_CpAv `json:"b,string,omitempty"`
}

type z4 struct {
	lib.LS0_ApJv `json:"a,string"`
	D            float64
	lib.LU8_Jv
	C int64
	B map[lib.TextKey]*uintptr `json:"A"`
}

type z5 struct {
	lib.LInts_Jv `json:"D"`
	E            map[string]*Z177
	F            int64
	D            int
	z2
}

type Z6 struct {
	D uintptr `json:"-"`
	C [1]int8
	G uint64
}

type z7 struct {
	_ int
	A []uint8
	E []Z151 `json:"E"`
	B []*Z68
	D map[string]int64
	F any
}

type Z8 struct {
	B  []uint64
	D  [0][]*Z233
	C  []map[string]uint8 `json:",omitnil,omitempty"`
	Z6 `json:",omitempty"`
	E  lib.LA0_JpTv
	F  int `json:"E,omitempty"`
	A  []*json.RawMessage
}

type Z9 struct {
	F *json.RawMessage `json:"<&>"`
	z4
	G  **Z16
	C  int8 `json:"-"`
	u4 int
}

type Z10 struct {
	É struct{ X Z8 }
	A *lib.LI16_ApJpTp
	Z1
	G []uintptr `json:"a;b"`
	*z2
}

type z11 struct {
	A  []z5
	u1 map[string]int
	B  *map[string]int `json:"<&>"`
	G  uint8           `json:"é"`
	E  int16
	Z1
	D []lib.Texter `json:"a;b,omitempty"`
	Z9
}

type z12 struct {
}

type Z13 struct {
	G int `json:",omitempty"`
	*z11
}

type z14 struct {
	A uintptr `json:",omitempty"`
	F int8
}

type z15 struct {
	lib.LA1P_None
	Z10 `json:",omitempty,string"`
	z3
	C any `json:"a;b,omitempty"`
	*lib.GPair[lib.GK[int], map[string]int]
}

type Z16 struct {
	A    bool
	*Z10 `json:"B"`
	*z3
	D map[lib.TextKey][]*int16
}

type Z17 struct {
	C time.Time
	E struct{ X Z9 }
	F map[string]z147
	z3
	emSlice
	D  int
	G  string
	u7 *int
}

type Z18 struct {
	E Z6
	B *[1]map[int]bool             `json:"B"`
	D *map[string]lib.GMap[[]byte] `json:"<&>,omitnil"`
	C float32
}

type Z19 struct {
	C   float64 `json:"-"`
	*Z0 `json:"a;b,omitempty"`
	B   int64 `json:",omitempty"`
	D   any
	É   *map[string][2]int8 `json:"b,omitempty,string"`
	F   map[string]z181
}

type z20 struct {
	B *int16
	A lib.LI8_Tp
	*time.Time
	time.Duration `json:"-,,omitempty,omitnil"`
	lib.LSM_JvTv  `json:",omitempty"`
	*Z13          `json:"x y,omitnil,omitempty"`
	G             *string `json:",string,omitempty"`
	E             lib.LMap_Jv
	C             *lib.LF64_Jp
}

type Z21 struct {
	A *sync.Map
	E bool `json:"<&>,omitempty"`
	C int
}

type z22 struct {
	emInt `json:"D,omitempty,string"`
	B     int    `json:"a;b"`
	F     uint64 `json:",omitempty"`
}

type z23 struct {
	z15
}

type Z24 struct {
	*lib.LS0_None
	É           lib.GEmb[bool]
	B           [][0][]uintptr `json:",string"`
	lib.GT[any] `json:"é,omitempty"`
	u4          string
}

type Z25 struct {
	Z18
	Z16 `json:"bad\"q"`
	É   int `json:",string"`
}

type z26 struct {
	É int16
}

type Z27 struct {
	B []any
	E string
	É *lib.GA[*lib.GS[int]] `json:",string"`
	D [1]struct{ X z23 }
	G [3]float64
}

type z28 struct {
	B map[string]int8
	F map[string]z22
	lib.GList[any]
	C map[uint8]lib.LCh_Jp `json:"E"`
	lib.LSP_None
	É string
	E uint64
}

type Z29 struct {
}

type Z30 struct {
	G lib.Coder
}

type z31 struct {
	C                 [][]Z173
	A                 map[uint8]int8
	lib.GList[string] `json:"a;b"`
	Z19
}

type z32 struct {
	C int
	F int16
}

type Z33 struct {
	E int16
	C *z32
}

type z34 struct {
	G [][]z156 `json:"E,omitempty"`
}

type Z35 struct {
	C []lib.Coder
	G **Z236
	A uint64 `json:"-"`
}

type z36 struct {
	A json.RawMessage
	lib.LSU_None
	z34
	u3  int
	u4  string
	B   [1]z2
	D   uint64
	Z13 `json:",string"`
}

type z37 struct {
	*z36
}

type Z38 struct {
	D map[time.Time]map[lib.TextKey][1]int64
	B int64 `json:"b"`
}

type z39 struct {
	F *uintptr
}

type Z40 struct {
	B float64 `json:"D,string"`
	*Z18
	C int
	_ int
}

type Z41 struct {
	É lib.LBool_JpTv
	*z22
	E int16
	D json.RawMessage
	Z38
	z15
	F  uintptr
	u7 int
}

type Z42 struct {
	É []*[]int8
	A float64
	lib.GInt[*lib.GS[int]]
}

type Z43 struct {
	E [2]z23
	C *uint64
}

type z44 struct {
	B uintptr
	C int16
	D map[uint8]*lib.LFn_Tv
	E [2]int
}

type Z45 struct {
	u0 string
	A  []Z149
	D  uintptr
}

type z46 struct {
	json.RawMessage
	D lib.LSU_JpTp `json:"-"`
	lib.AliasG
	E lib.LU64_Tv
}

type Z47 struct {
	F lib.LCh_Jv
	G lib.LSM_JpTv `json:"-,"`
	D float32
	E *int
	C float32
}

type Z48 struct {
	A map[lib.TextKey]int64
	Z30
	lib.LSP_JvTv
	É uintptr
	D *lib.LSP_JpTv `json:"E,omitempty"`
}

type z49 struct {
	u0 map[string]int
}

type Z50 struct {
	C lib.LA0_JpTp `json:"-"`
	D lib.LA1P_Jp
	É string
}

type z51 struct {
	F *Z9 `json:"a"`
	É *[]z58
}

type z52 struct {
}

type z53 struct {
	É float64
	C map[string]z114 `json:"c,omitempty,string"`
}

type z54 struct {
	lib.GPair[string, lib.LStr_Tv]
	u1 int
	time.Duration
	time.Time
}

type z55 struct {
	Z41
	*Z40 `json:"é"`
	u2   map[string]int
	*Z33 `json:"a;b,string"`
	*Z24
}

type Z56 struct {
	lib.LInts_CpTv
	lib.LBool_None
	F []lib.LI8_Ap
	E any `json:"a;b"`
	É []lib.AliasG
	D int64
	G [1]*map[string]string
}

type z57 struct {
	D [2]z36
}

type z58 struct {
	lib.Coder
	C []float32
	lib.JSONer
}

type Z59 struct {
	É Z25
	A [3]int16
	Z42
	u3 int
	D  uintptr
	z54
	E map[uint8]*time.Time
}

type z60 struct {
	Z48
	B fmt.Stringer
	D int64 `json:"A,string"`
	*z22
	*lib.LSM_None
	z49
}

type z61 struct {
	z54
	G string `json:",omitnil"`
}

type z62 struct {
	C []lib.LI8_JvTv `json:"A"`
}

type Z63 struct {
	*z212 `json:"a,string"`
	*lib.GArr[time.Time]
}

type z64 struct {
	E              string
	G              time.Duration `json:",omitempty"`
	u2             string
	_              int
	É              uint8
	lib.LBool_None `json:",omitempty"`
	z49            `json:"a"`
	Z43
	F lib.LMap_CvAvJvTv
}

type z65 struct {
	C json.RawMessage
	A lib.LA0_JvTv `json:"-"`
	*z28
}

type Z66 struct {
	G int
	D lib.AliasMap `json:"E,string,omitempty"`
	B [1]Z25
	F float64 `json:",string,omitempty,omitnil"`
	E error
}

type z67 struct {
	lib.GJ[[]byte]           `json:",omitempty"`
	E                        string
	É                        *lib.LMap_Tp
	*lib.GMap[lib.GInt[int]] `json:"b"`
	*Z38                     `json:"D"`
	D                        map[lib.GK[bool]]bool
}

type Z68 struct {
	*Z161
	z65 `json:"a;b"`
}

type Z69 struct {
	E string
}

type z70 struct {
	F lib.LFn_JvTv
	*time.Time
	A time.Time
	lib.GJ[*lib.GS[int]]
	G lib.LI8_JpTp
}

type z71 struct {
	A  float64
	E  float32 `json:"bad\"q"`
	B  uintptr `json:"E"`
	u3 string
	F  []lib.LA1P_Jp `json:"D"`
}

type Z72 struct {
	C map[lib.TextKey]float64
	lib.LSP_None
	E bool
	*z54
	D             float32 `json:"c"`
	lib.LA1P_None `json:"a;b"`
}

type Z73 struct {
	E *z2
	z46
	F uintptr
	D json.RawMessage `json:"-"`
}

type Z74 struct {
	B int16 `json:",omitempty"`
	C int
	z62
	json.Number
	z55 `json:",string,omitnil"`
	F   string
}

type Z75 struct {
	B        int
	F        int
	A        map[time.Time]*lib.LCh_CvAp
	É        *float64
	G        [1][]*string `json:"c,omitempty,omitnil"`
	sync.Map `json:",string"`
	*Z42
}

type Z76 struct {
	Z68
}

type Z77 struct {
	B [][]z2 `json:"F"`
}

type Z78 struct {
	F lib.LStr_Tp
	C map[string]float64 `json:"-"`
	É *lib.GT[[]byte]    `json:",omitnil,omitempty,string"`
	G lib.GT[*int]       `json:"D"`
}

type z79 struct {
	G string
	z52
	lib.LS_JpTv
	F **json.RawMessage
	A float32 `json:"é,omitempty"`
	É []int16 `json:"a;b,string"`
	*lib.AliasGInt
	z64
	D struct{ X z53 }
}

type z80 struct {
	u0 map[string]int
	D  int `json:"E"`
	F  map[uint8]*json.RawMessage
	C  lib.Texter
}

type z81 struct {
	z52
	B float32 `json:"c,omitempty"`
	C map[string]z94
}

type z82 struct {
	B lib.LFn_CpAv
	EmInt
	F string `json:"a;b"`
}

type Z83 struct {
	C *json.RawMessage
}

type Z84 struct {
	A *time.Time
	E []z231
	B int `json:",omitempty"`
}

type Z85 struct {
	E [2]Z59 `json:",omitempty"`
	*z231
	*sync.Map
	D string `json:",omitempty,string"`
	C *[2]Z73
	A lib.LI8_Cv `json:"a;b,omitempty,string"`
	Z56
	G *uintptr
	É int64
	F any
}

type Z86 struct {
	D string `json:",omitempty,string"`
	B map[string]*lib.LFn_Tv
}

type z87 struct {
	*Z97
	lib.Coder `json:"-"`
	D         any
	*z71      `json:",omitnil,omitempty"`
	E         chan int
	*Z86
}

type z88 struct {
}

type z89 struct {
	*lib.LInts_None
	E int8
	lib.GS[float32]
	C  **z34
	É  int16
	u5 map[string]int
}

type z90 struct {
	Z68 `json:"c,omitempty"`
	emSlice
}

type Z91 struct {
	*Z72 `json:"a,string,omitempty"`
	B    int16
}

type z92 struct {
	C lib.LU8_CpApJvTv
	D z67
}

type z93 struct {
	C uint8
	G *lib.LS_Jp `json:"A,omitnil,string"`
	_ int
	A int64
	E map[uint8]map[uint8]int
	D lib.LMap_CvAv
	B map[uint8]*json.RawMessage
}

type z94 struct {
	F [2]Z45
	*lib.LI16_None
	lib.LS0_None
	É lib.Coder
	D uint8 `json:"A"`
	*time.Time
	u6 *int
}

type Z95 struct {
	F lib.LStr_JpTp
	C map[int]time.Duration
	Z76
	A error
	E lib.AliasInt
	É map[string]*string
	*z65
	*z53
	Z78 `json:",omitempty"`
	D   uintptr
}

type Z96 struct {
	z89 `json:"a;b,omitempty"`
	A   lib.AliasMap
	lib.GJ[string]
	B []lib.LA2_Tv `json:",omitempty"`
	F **[]uint8
}

type Z97 struct {
	time.Time
	*Z66
}

type z98 struct {
	D   []z11
	F   lib.AliasStr
	z67 `json:"-"`
	C   *[4]byte         `json:"x y,omitempty"`
	É   *json.RawMessage `json:"bad\"q,omitnil,omitempty,string"`
	E   float64
	A   **uint8
	*lib.GK[[2]bool]
	G                   map[string]*Z162 `json:",omitnil"`
	lib.GPair[int, any] `json:"bad\"q"`
}

type z99 struct {
}

type z100 struct {
	u0 string
	E  float32
	C  map[uint8]lib.LU64_JpTv
}

type z101 struct {
	z61
	E    bool
	*Z72 `json:",omitnil"`
	F    map[string]*z124 `json:"a"`
	É    float64
	*z98
	lib.Empty
	D []int
}

type z102 struct {
	É    lib.LI8_JvTv `json:"B"`
	*z80 `json:"bad\"q,omitnil"`
	Z85
	E string
	_ int
	Z83
	z92 `json:",omitempty"`
}

type Z103 struct {
	F    uint8
	*Z76 `json:"<&>,string"`
	A    any
	sync.Map
	Z66
}

type z104 struct {
	*z64
	G map[int]float64
}

type z105 struct {
	lib.JSONer
	C json.Number `json:",omitempty"`
	z89
	Z66
	É lib.LI8_Jv
	B [1]map[string]Z173
	E uintptr
	A error `json:"E,omitnil,omitempty"`
}

type z106 struct {
	z105
	Z97
	*z104
}

type z107 struct {
	F uintptr
	C uintptr
}

type Z108 struct {
	u0 string
	G  float64
	A  [][]z46 `json:"<&>"`
	B  int
}

type z109 struct {
	B int `json:",string"`
}

type z110 struct {
	F []*z28                              `json:"a,string"`
	A lib.LStr_Jp                         `json:"E,omitempty"`
	G map[uint8][]map[lib.TextKey]uintptr `json:"D,omitempty"`
	*z104
	E uint8
	emMap
	B map[string][][]Z210 `json:"x y,omitempty"`
}

type Z111 struct {
}

type z112 struct {
	D *int8
	*Z74
	Z72 `json:"B"`
}

type z113 struct {
	u0 map[string]int
	D  []int8
	A  map[time.Time]map[string]float32
	C  uintptr `json:",omitempty"`
	time.Duration
}

type z114 struct {
	É int64
	Z85
	E map[string]*z65 `json:"-"`
}

type Z115 struct {
	u0 map[string]int
	A  Z43 `json:"<&>,string"`
	B  *lib.LI8_Tp
	E  [1]*int
	É  string
	_  int
}

type Z116 struct {
	É string `json:",string"`
	F int8
}

type Z117 struct {
	C []z143
	z114
	*Z115
	*z105
	É int16
	*z100
}

type Z118 struct {
}

type Z119 struct {
	lib.LA0_JvTp  `json:"a;b"`
	lib.LF64_JpTp `json:"-,,string"`
	D             *lib.GUn[string]
	lib.Coder
	lib.GMap[lib.LS_Jp]
	A int64 `json:"a;b,string"`
}

type z120 struct {
	C []byte `json:"bad\"q"`
	F *Z75
	D lib.GMap[string]
	G bool
	*Z128
	A  []int16
	u6 map[string]int
}

type Z121 struct {
	C     lib.LU64_Jp
	B     int8
	*Z103 `json:",omitnil,omitempty"`
	u3    string
	G     []*lib.GMap[lib.GInt[int]]
}

type Z122 struct {
	G any
	C map[int]bool
}

type Z123 struct {
	É          *lib.LByts_Jv
	C          int8
	D          lib.LA2_Jp `json:"-,,omitnil,omitempty"`
	lib.Texter `json:",omitnil"`
}

type z124 struct {
	E [4]byte
	C lib.LS0_Jv `json:"-"`
	A **Z33
}

type z125 struct {
	C int
	B struct{} `json:"F,omitempty,omitnil"`
	*lib.GPair[int, string]
}

type z126 struct {
	A int
	F lib.AliasG `json:"-"`
	*Z86
	lib.GMap[time.Time]
}

type Z127 struct {
	z124
	A          float64 `json:"-"`
	lib.AliasG `json:",omitempty,string"`
	Z118       `json:",omitnil"`
	C          **Z235 `json:"-,"`
	*z106
}

type Z128 struct {
	D uintptr
	B uintptr `json:"<&>,omitempty"`
	A []int16 `json:",omitnil"`
}

type Z129 struct {
	F any
	E lib.LA0_Jp
	B string `json:"E"`
	C []lib.JSONer
	A int
}

type Z130 struct {
	D uint64 `json:"a,omitempty"`
}

type Z131 struct {
	*Z122
	A []uint8
	B uintptr
	G string `json:",string"`
	E func()
}

type Z132 struct {
	A Z91
}

type z133 struct {
	*Z122
	lib.GMap[string]
	*z11
	*z93
}

type Z134 struct {
	u0 string
}

type z135 struct {
	u0 map[string]int
	B  int16
	G  lib.LInts_Jv
	lib.LSM_JpTv
	E []*Z29 `json:"bad\"q"`
	É int
}

type z136 struct {
	B *[1]*int `json:",omitempty,omitnil"`
	C []*Z177
	A []map[int]*float64
	D lib.GEmb[[]byte]
	F time.Duration `json:"<&>,omitempty,omitnil"`
	*Z128
}

type Z137 struct {
	É map[string]*z196 `json:"<&>"`
	G time.Duration
	F lib.LSP_JvTp
	D any
	A int `json:"b"`
}

type Z138 struct {
	F    map[string]*Z232
	Z116 `json:"E,omitempty"`
}

type Z139 struct {
	G lib.GJ[string]
	F float32
	É string `json:"B"`
}

type z140 struct {
	C lib.LA2_ApJpTp
	A lib.LA2_AvJp
	F [4]byte
	E float64
}

type z141 struct {
	F int
	A int
	C *lib.AliasS
	E [0]int8
}

type z142 struct {
	Z122
	lib.LU64_JvTv
	G *[3]time.Time `json:"D"`
}

type z143 struct {
	F float32
	B []int8
	D [1]Z18 `json:"B,string"`
}

type Z144 struct {
	F float32
	*lib.GT[int]
}

type Z145 struct {
	E int
	É json.Number `json:"a;b,omitempty"`
	B *lib.LSU_Jp
	F map[string]*[1]uintptr `json:"a,omitempty"`
	C *any
}

type z146 struct {
	F [][0][1]*int
	C map[string]int64
}

type z147 struct {
	G lib.LByts_Tp `json:"é,omitempty,string"`
}

type Z148 struct {
	C fmt.Stringer
}

type Z149 struct {
	*Z13
	F lib.LA1P_JvTp
	D lib.AliasInt
	A string
}

type z150 struct {
	Z116 `json:"E"`
	lib.JSONer
	E *time.Time    `json:",omitempty,omitnil"`
	C int           `json:",omitempty"`
	G time.Duration `json:"<&>,string"`
	A Z148          `json:",omitempty"`
}

type Z151 struct {
	B *json.RawMessage
	E int
	G float32 `json:"bad\"q"`
	lib.GUn[[2]bool]
	C map[string]*Z30 `json:"é,omitempty"`
}

type Z152 struct {
	G *int64 `json:"c,string"`
	D uint64
	A [][4]byte `json:"B"`
}

type Z153 struct {
	B [0]*map[string]int16 `json:"D,omitempty"`
	*z133
	_ int
	F bool
}

type Z154 struct {
	A lib.JSONer `json:",string"`
	B *string
	D int8
	*lib.GK[[2]bool]
	C uint8 `json:"b"`
}

type Z155 struct {
	*z58
	C int16
	A lib.Coder `json:"E,omitempty,omitnil"`
	D [][]Z91   `json:"F,omitempty"`
	*Z130
	G [][]z182 `json:"é,omitempty"`
}

type z156 struct {
	*z79
	*Z77
	G int16
	A *time.Time `json:",omitempty"`
	z141
	Z137
	D uint8
}

type z157 struct {
	F lib.JSONer
	E int8
	É lib.LByts_Tp
}

type z158 struct {
	*z120
	E **int8          `json:",string"`
	G **Z13           `json:"F,omitempty"`
	F map[string]*any `json:"B,omitempty,string"`
}

type z159 struct {
	D *uint8
	G lib.LA0_Tv
	C map[string]map[string]z3
}

type z160 struct {
	G [1]*lib.LA0_Jp
	D lib.AliasG `json:"F,omitempty,string"`
	A float32
}

type Z161 struct {
	A *map[uint8]bool
	É *[]uintptr `json:"bad\"q,string"`
	D *map[uint8]float32
	G int8
}

type Z162 struct {
	F lib.GArr[*int]
	A int
	z125
	C int16 `json:"F,omitnil"`
}

type z163 struct {
	z143
	G *lib.Texter
	F lib.LStr_Tp
	E *lib.LU8_Jp
	Z127
	D lib.LByts_JvTv
	C int16 `json:",string"`
	A []*Z180
}

type Z164 struct {
	E **Z43 `json:"<&>,string"`
	G *map[uint8]any
	lib.LS0_JvTv
}

type z165 struct {
	u0 string
	G  json.RawMessage
	A  []map[lib.TextKey]int64 `json:",omitempty"`
}

type Z166 struct {
	lib.LS0_JvTv `json:"x y,omitempty"`
	Z153
	C **lib.LU64_Jv
	lib.GT[*lib.GS[int]]
}

type z167 struct {
	D *Z118
	A [0]*time.Time
	G lib.LA2_JvTv
	z158
	time.Time
}

type z168 struct {
	F lib.GList[int] `json:"-"`
	lib.AliasStr
	_          int
	A          int8
	lib.JSONer `json:",omitempty"`
}

type Z169 struct {
	lib.LSM_None
	Z153
}

type Z170 struct {
	E **z126
	*Z161
	F [][][]z11 `json:",omitempty"`
	D [3][4]byte
	A lib.Texter `json:"<&>,omitempty"`
	G time.Time
	C map[lib.TextKey]float32
}

type z171 struct {
	Z164
	E lib.LInts_Jp `json:"A,string"`
	A z54
	F map[string]float64
	*z142
}

type z172 struct {
	D map[int][][4]byte
	lib.AliasInt
	json.RawMessage
	É lib.LS_Jv `json:",omitempty"`
}

type Z173 struct {
	*z156
	D lib.LU8_JvTp `json:"-"`
	F [1]*Z118
	C lib.LS0_Tv
	G time.Time
	É uintptr
}

type Z174 struct {
	G  lib.GInt[lib.GInt[int]] `json:"a;b,omitempty"`
	C  lib.LByts_JpTv          `json:"a"`
	E  string
	D  json.Number
	u4 int
	F  float32
	A  uintptr `json:"A,omitempty"`
}

type Z175 struct {
	u0 string
}

type Z176 struct {
	G  float32
	É  fmt.Stringer
	F  map[uint8]*uint8 `json:",string,omitempty"`
	A  []int16
	u4 string
	_  int
}

type Z177 struct {
	E lib.AliasStr `json:"-,"`
	G int8         `json:"-"`
	F int16
	z158
	A **z159
	Z176
}

type Z178 struct {
	G uintptr
	B float64
}

type z179 struct {
	É *float32
	C uint8
}

type Z180 struct {
	É lib.LSU_Tv
}

type z181 struct {
	C uintptr
	*sync.Map
	*Z149
	A int16
	time.Duration
	*lib.GT[any] `json:"é"`
}

type z182 struct {
	z168
	Z177
	E []any
	A ***z90
}

type z183 struct {
	C lib.LI8_Jv
	EmInt
	E *bool
	D [1]lib.GList[*lib.GS[int]]
}

type Z184 struct {
	C []*Z207
	G lib.GJ[*int] `json:"-,"`
}

type Z185 struct {
	G  bool `json:"B,omitempty"`
	u1 *int
	F  uint8
}

type Z186 struct {
	*emInt `json:"b,omitempty,string"`
	D      map[lib.TextKey]string `json:",string,omitempty"`
	*z167
	B []*z142
	*time.Time
	G struct{ X Z131 }
	Z153
}

type z187 struct {
	*time.Time `json:",string,omitempty"`
	*Z236      `json:"bad\"q,omitnil"`
	A          **int16
}

type Z188 struct {
	*time.Time   `json:",omitempty"`
	B            *int
	*json.Number `json:",omitempty"`
	Z184
}

type Z189 struct {
	E map[uint8]*[3]int64 `json:"é,string"`
}

type Z190 struct {
	*z222 `json:"E"`
	D     map[string]Z86 `json:"é"`
	G     int16
	z157
	Z169
	F **Z177
	*Z176
}

type z191 struct {
	A map[string]float64
	lib.LSP_None
	E  int
	u3 string
	C  float64 `json:"<&>"`
	_  int
	z171
	B *map[string]Z194
}

type Z192 struct {
	G uint8
	F []*[]int
	D []*Z232
	B *lib.Texter
}

type Z193 struct {
	B [0]map[lib.TextKey]bool `json:"a"`
	*z183
	*z167
	Z153         `json:"F,omitempty"`
	E            *lib.LStr_JpTp
	A            map[lib.TextKey]**z36 `json:"c"`
	lib.LS0_None `json:"a,omitempty"`
}

type Z194 struct {
	*z157
	Z189 `json:",omitempty"`
	C    [][]z31 `json:"bad\"q"`
	D    uint64  `json:"B"`
	emSlice
}

type Z195 struct {
	É *int8       `json:"E"`
	C json.Number `json:"x y,string"`
	E json.RawMessage
}

type z196 struct {
	É *[1]Z8
	lib.GK[*int]
	D *json.RawMessage `json:"F"`
	C lib.AliasS
}

type Z197 struct {
	C int16
	A int `json:"c"`
}

type Z198 struct {
	A lib.Texter
}

type z199 struct {
	F **z222
}

type z200 struct {
	F int64
	E [1]int `json:"-"`
	G error
	C []*lib.LInt_JvTv
	D string `json:",omitempty,string"`
	B json.Number
}

type Z201 struct {
	C         map[string]json.Number `json:"bad\"q"`
	time.Time `json:",omitnil"`
	B         error `json:"D,string"`
	*Z195
	É []uint64
	E float64
}

type Z202 struct {
	C string `json:"x y"`
	F uint64
	B float64
	Z178
	É map[string]float32 `json:",string"`
	G []string
}

type Z203 struct {
	lib.GA[bool]
}

type z204 struct {
	lib.LU64_JvTp
	u1 int
	C  int8     `json:"<&>,string"`
	G  any      `json:"D,omitempty"`
	B  [1][]any `json:"-"`
}

type Z205 struct {
	D  map[uint8]int `json:"bad\"q"`
	u1 string
}

type z206 struct {
	EmInt
	É int8
	Z194
	C *json.RawMessage
	G *int8 `json:"B"`
	*lib.AliasGInt
	json.RawMessage
}

type Z207 struct {
	*Z173
	C float32
	F ***z105
	z172
}

type z208 struct {
	É any
	B *string
	D *[]int8 `json:"F"`
	F [1][]*z140
}

type Z209 struct {
	C bool
}

type Z210 struct {
	lib.LU8_JpTv
	lib.LByts_None
	D lib.LI8_JpTp
	lib.AliasS
}

type Z211 struct {
	z179
	F uint64
}

type z212 struct {
	*Z211
	G []z55 `json:"a;b,string"`
	Z177
	*Z178
	Z185
	F [][2][4]byte
}

type Z213 struct {
	D [1]Z86
	lib.JSONer
	É    [][]z183
	E    time.Time
	G    uint8
	F    *lib.LSU_Tv `json:"<&>"`
	Z188 `json:"b,omitempty"`
	Z207 `json:"a;b,omitnil"`
	z187
}

type z214 struct {
	D float64 `json:"-"`
	*Z228
	z212
	E float32
	F lib.LCh_JpTv
	Z201
	É int
}

type z215 struct {
	D []lib.LS0_JvTp
	É [3][]int
	B int16 `json:"bad\"q,omitempty"`
}

type z216 struct {
	*time.Time
	É string `json:"é,string"`
	Z192
}

type z217 struct {
	É *float64
	D int16 `json:"B,string"`
	E int
	F [0]lib.GPair[lib.GK[int], lib.LStr_Tv]
	time.Duration
	C time.Time
	*z215
	A [4]byte
	Z177
}

type Z218 struct {
	u0 map[string]int
	E  map[lib.TextKey]int
	A  *map[int]map[string]string `json:",omitempty,string"`
	G  Z111
	C  *sync.Map `json:"<&>"`
	F  bool      `json:"B,omitempty"`
}

type z219 struct {
	G map[uint8]*lib.GList[*lib.GS[int]] `json:",omitempty"`
	EmSlice
	A any
	lib.Empty
}

type Z220 struct {
	É string
	B int
	z212
	E int `json:"c"`
	F *uintptr
	Z192
}

type z221 struct {
	G    [2]z141
	A    map[lib.TextKey]string
	z206 `json:"B,omitempty,string"`
	*EmInt
	B *time.Time `json:",omitnil"`
	C uint8
	*Z202
}

type z222 struct {
	D float32
	É int `json:"-,"`
	C lib.LCh_Cv
}

type Z223 struct {
	F           map[string]lib.GUn[int]
	u1          string
	D           int
	lib.LI16_Tp `json:",omitempty"`
	G           lib.GUn[lib.LStr_Tv] `json:"x y"`
}

type Z224 struct {
	D uintptr
	*z199
	B map[uint8]uintptr
	C lib.JSONer `json:"<&>,omitnil,omitempty"`
	*Z194
}

type z225 struct {
	É     lib.LU8_ApJv `json:"c,omitnil,omitempty"`
	z217  `json:"A,omitempty"`
	D     *[3]*int16
	A     *int
	C     lib.LA2_Tp
	*Z218 `json:"x y,omitempty"`
}

type z226 struct {
	E int8 `json:"F"`
}

type z227 struct {
	Z195
	u1 *int
	A  [][]z37
	É  map[string]uint8 `json:"D,omitempty"`
}

type Z228 struct {
	z200
	B bool
	lib.Texter
	lib.GList[[]byte]
}

type Z229 struct {
	D lib.GS[lib.GInt[int]]
}

type z230 struct {
	G fmt.Stringer
	C lib.LByts_JpTp `json:"a;b,omitnil,omitempty"`
	E *string        `json:",string,omitnil,omitempty"`
	F float64        `json:",omitempty"`
	D any
}

type z231 struct {
	z214
	*z60
}

type Z232 struct {
	É uint64 `json:"b,omitempty,omitnil"`
	B int16
}

type Z233 struct {
	A          z90 `json:"é"`
	*time.Time `json:"-"`
	emSlice
	D lib.LMap_JpTv
	*z227
	G time.Duration `json:"b"`
}

type z234 struct {
}

type Z235 struct {
	E int8
}

type Z236 struct {
	A  uint8
	u1 string
}

type Z237 struct {
	emMap `json:",omitnil,string"`
	G     z107
}

type Z238 struct {
	F string `json:"F,omitnil"`
}

type Z239 struct {
	F             int16
	lib.LA1P_JvTp `json:"a;b,string"`
	z230
	*Z103
	Z202
}

// Types are the generated types.
var Types = []reflect.Type{
	reflect.TypeOf((*Z0)(nil)).Elem(),
	reflect.TypeOf((*Z1)(nil)).Elem(),
	reflect.TypeOf((*z2)(nil)).Elem(),
	reflect.TypeOf((*z3)(nil)).Elem(),
	reflect.TypeOf((*z4)(nil)).Elem(),
	reflect.TypeOf((*z5)(nil)).Elem(),
	reflect.TypeOf((*Z6)(nil)).Elem(),
	reflect.TypeOf((*z7)(nil)).Elem(),
	reflect.TypeOf((*Z8)(nil)).Elem(),
	reflect.TypeOf((*Z9)(nil)).Elem(),
	reflect.TypeOf((*Z10)(nil)).Elem(),
	reflect.TypeOf((*z11)(nil)).Elem(),
	reflect.TypeOf((*z12)(nil)).Elem(),
	reflect.TypeOf((*Z13)(nil)).Elem(),
	reflect.TypeOf((*z14)(nil)).Elem(),
	reflect.TypeOf((*z15)(nil)).Elem(),
	reflect.TypeOf((*Z16)(nil)).Elem(),
	reflect.TypeOf((*Z17)(nil)).Elem(),
	reflect.TypeOf((*Z18)(nil)).Elem(),
	reflect.TypeOf((*Z19)(nil)).Elem(),
	reflect.TypeOf((*z20)(nil)).Elem(),
	reflect.TypeOf((*Z21)(nil)).Elem(),
	reflect.TypeOf((*z22)(nil)).Elem(),
	reflect.TypeOf((*z23)(nil)).Elem(),
	reflect.TypeOf((*Z24)(nil)).Elem(),
	reflect.TypeOf((*Z25)(nil)).Elem(),
	reflect.TypeOf((*z26)(nil)).Elem(),
	reflect.TypeOf((*Z27)(nil)).Elem(),
	reflect.TypeOf((*z28)(nil)).Elem(),
	reflect.TypeOf((*Z29)(nil)).Elem(),
	reflect.TypeOf((*Z30)(nil)).Elem(),
	reflect.TypeOf((*z31)(nil)).Elem(),
	reflect.TypeOf((*z32)(nil)).Elem(),
	reflect.TypeOf((*Z33)(nil)).Elem(),
	reflect.TypeOf((*z34)(nil)).Elem(),
	reflect.TypeOf((*Z35)(nil)).Elem(),
	reflect.TypeOf((*z36)(nil)).Elem(),
	reflect.TypeOf((*z37)(nil)).Elem(),
	reflect.TypeOf((*Z38)(nil)).Elem(),
	reflect.TypeOf((*z39)(nil)).Elem(),
	reflect.TypeOf((*Z40)(nil)).Elem(),
	reflect.TypeOf((*Z41)(nil)).Elem(),
	reflect.TypeOf((*Z42)(nil)).Elem(),
	reflect.TypeOf((*Z43)(nil)).Elem(),
	reflect.TypeOf((*z44)(nil)).Elem(),
	reflect.TypeOf((*Z45)(nil)).Elem(),
	reflect.TypeOf((*z46)(nil)).Elem(),
	reflect.TypeOf((*Z47)(nil)).Elem(),
	reflect.TypeOf((*Z48)(nil)).Elem(),
	reflect.TypeOf((*z49)(nil)).Elem(),
	reflect.TypeOf((*Z50)(nil)).Elem(),
	reflect.TypeOf((*z51)(nil)).Elem(),
	reflect.TypeOf((*z52)(nil)).Elem(),
	reflect.TypeOf((*z53)(nil)).Elem(),
	reflect.TypeOf((*z54)(nil)).Elem(),
	reflect.TypeOf((*z55)(nil)).Elem(),
	reflect.TypeOf((*Z56)(nil)).Elem(),
	reflect.TypeOf((*z57)(nil)).Elem(),
	reflect.TypeOf((*z58)(nil)).Elem(),
	reflect.TypeOf((*Z59)(nil)).Elem(),
	reflect.TypeOf((*z60)(nil)).Elem(),
	reflect.TypeOf((*z61)(nil)).Elem(),
	reflect.TypeOf((*z62)(nil)).Elem(),
	reflect.TypeOf((*Z63)(nil)).Elem(),
	reflect.TypeOf((*z64)(nil)).Elem(),
	reflect.TypeOf((*z65)(nil)).Elem(),
	reflect.TypeOf((*Z66)(nil)).Elem(),
	reflect.TypeOf((*z67)(nil)).Elem(),
	reflect.TypeOf((*Z68)(nil)).Elem(),
	reflect.TypeOf((*Z69)(nil)).Elem(),
	reflect.TypeOf((*z70)(nil)).Elem(),
	reflect.TypeOf((*z71)(nil)).Elem(),
	reflect.TypeOf((*Z72)(nil)).Elem(),
	reflect.TypeOf((*Z73)(nil)).Elem(),
	reflect.TypeOf((*Z74)(nil)).Elem(),
	reflect.TypeOf((*Z75)(nil)).Elem(),
	reflect.TypeOf((*Z76)(nil)).Elem(),
	reflect.TypeOf((*Z77)(nil)).Elem(),
	reflect.TypeOf((*Z78)(nil)).Elem(),
	reflect.TypeOf((*z79)(nil)).Elem(),
	reflect.TypeOf((*z80)(nil)).Elem(),
	reflect.TypeOf((*z81)(nil)).Elem(),
	reflect.TypeOf((*z82)(nil)).Elem(),
	reflect.TypeOf((*Z83)(nil)).Elem(),
	reflect.TypeOf((*Z84)(nil)).Elem(),
	reflect.TypeOf((*Z85)(nil)).Elem(),
	reflect.TypeOf((*Z86)(nil)).Elem(),
	reflect.TypeOf((*z87)(nil)).Elem(),
	reflect.TypeOf((*z88)(nil)).Elem(),
	reflect.TypeOf((*z89)(nil)).Elem(),
	reflect.TypeOf((*z90)(nil)).Elem(),
	reflect.TypeOf((*Z91)(nil)).Elem(),
	reflect.TypeOf((*z92)(nil)).Elem(),
	reflect.TypeOf((*z93)(nil)).Elem(),
	reflect.TypeOf((*z94)(nil)).Elem(),
	reflect.TypeOf((*Z95)(nil)).Elem(),
	reflect.TypeOf((*Z96)(nil)).Elem(),
	reflect.TypeOf((*Z97)(nil)).Elem(),
	reflect.TypeOf((*z98)(nil)).Elem(),
	reflect.TypeOf((*z99)(nil)).Elem(),
	reflect.TypeOf((*z100)(nil)).Elem(),
	reflect.TypeOf((*z101)(nil)).Elem(),
	reflect.TypeOf((*z102)(nil)).Elem(),
	reflect.TypeOf((*Z103)(nil)).Elem(),
	reflect.TypeOf((*z104)(nil)).Elem(),
	reflect.TypeOf((*z105)(nil)).Elem(),
	reflect.TypeOf((*z106)(nil)).Elem(),
	reflect.TypeOf((*z107)(nil)).Elem(),
	reflect.TypeOf((*Z108)(nil)).Elem(),
	reflect.TypeOf((*z109)(nil)).Elem(),
	reflect.TypeOf((*z110)(nil)).Elem(),
	reflect.TypeOf((*Z111)(nil)).Elem(),
	reflect.TypeOf((*z112)(nil)).Elem(),
	reflect.TypeOf((*z113)(nil)).Elem(),
	reflect.TypeOf((*z114)(nil)).Elem(),
	reflect.TypeOf((*Z115)(nil)).Elem(),
	reflect.TypeOf((*Z116)(nil)).Elem(),
	reflect.TypeOf((*Z117)(nil)).Elem(),
	reflect.TypeOf((*Z118)(nil)).Elem(),
	reflect.TypeOf((*Z119)(nil)).Elem(),
	reflect.TypeOf((*z120)(nil)).Elem(),
	reflect.TypeOf((*Z121)(nil)).Elem(),
	reflect.TypeOf((*Z122)(nil)).Elem(),
	reflect.TypeOf((*Z123)(nil)).Elem(),
	reflect.TypeOf((*z124)(nil)).Elem(),
	reflect.TypeOf((*z125)(nil)).Elem(),
	reflect.TypeOf((*z126)(nil)).Elem(),
	reflect.TypeOf((*Z127)(nil)).Elem(),
	reflect.TypeOf((*Z128)(nil)).Elem(),
	reflect.TypeOf((*Z129)(nil)).Elem(),
	reflect.TypeOf((*Z130)(nil)).Elem(),
	reflect.TypeOf((*Z131)(nil)).Elem(),
	reflect.TypeOf((*Z132)(nil)).Elem(),
	reflect.TypeOf((*z133)(nil)).Elem(),
	reflect.TypeOf((*Z134)(nil)).Elem(),
	reflect.TypeOf((*z135)(nil)).Elem(),
	reflect.TypeOf((*z136)(nil)).Elem(),
	reflect.TypeOf((*Z137)(nil)).Elem(),
	reflect.TypeOf((*Z138)(nil)).Elem(),
	reflect.TypeOf((*Z139)(nil)).Elem(),
	reflect.TypeOf((*z140)(nil)).Elem(),
	reflect.TypeOf((*z141)(nil)).Elem(),
	reflect.TypeOf((*z142)(nil)).Elem(),
	reflect.TypeOf((*z143)(nil)).Elem(),
	reflect.TypeOf((*Z144)(nil)).Elem(),
	reflect.TypeOf((*Z145)(nil)).Elem(),
	reflect.TypeOf((*z146)(nil)).Elem(),
	reflect.TypeOf((*z147)(nil)).Elem(),
	reflect.TypeOf((*Z148)(nil)).Elem(),
	reflect.TypeOf((*Z149)(nil)).Elem(),
	reflect.TypeOf((*z150)(nil)).Elem(),
	reflect.TypeOf((*Z151)(nil)).Elem(),
	reflect.TypeOf((*Z152)(nil)).Elem(),
	reflect.TypeOf((*Z153)(nil)).Elem(),
	reflect.TypeOf((*Z154)(nil)).Elem(),
	reflect.TypeOf((*Z155)(nil)).Elem(),
	reflect.TypeOf((*z156)(nil)).Elem(),
	reflect.TypeOf((*z157)(nil)).Elem(),
	reflect.TypeOf((*z158)(nil)).Elem(),
	reflect.TypeOf((*z159)(nil)).Elem(),
	reflect.TypeOf((*z160)(nil)).Elem(),
	reflect.TypeOf((*Z161)(nil)).Elem(),
	reflect.TypeOf((*Z162)(nil)).Elem(),
	reflect.TypeOf((*z163)(nil)).Elem(),
	reflect.TypeOf((*Z164)(nil)).Elem(),
	reflect.TypeOf((*z165)(nil)).Elem(),
	reflect.TypeOf((*Z166)(nil)).Elem(),
	reflect.TypeOf((*z167)(nil)).Elem(),
	reflect.TypeOf((*z168)(nil)).Elem(),
	reflect.TypeOf((*Z169)(nil)).Elem(),
	reflect.TypeOf((*Z170)(nil)).Elem(),
	reflect.TypeOf((*z171)(nil)).Elem(),
	reflect.TypeOf((*z172)(nil)).Elem(),
	reflect.TypeOf((*Z173)(nil)).Elem(),
	reflect.TypeOf((*Z174)(nil)).Elem(),
	reflect.TypeOf((*Z175)(nil)).Elem(),
	reflect.TypeOf((*Z176)(nil)).Elem(),
	reflect.TypeOf((*Z177)(nil)).Elem(),
	reflect.TypeOf((*Z178)(nil)).Elem(),
	reflect.TypeOf((*z179)(nil)).Elem(),
	reflect.TypeOf((*Z180)(nil)).Elem(),
	reflect.TypeOf((*z181)(nil)).Elem(),
	reflect.TypeOf((*z182)(nil)).Elem(),
	reflect.TypeOf((*z183)(nil)).Elem(),
	reflect.TypeOf((*Z184)(nil)).Elem(),
	reflect.TypeOf((*Z185)(nil)).Elem(),
	reflect.TypeOf((*Z186)(nil)).Elem(),
	reflect.TypeOf((*z187)(nil)).Elem(),
	reflect.TypeOf((*Z188)(nil)).Elem(),
	reflect.TypeOf((*Z189)(nil)).Elem(),
	reflect.TypeOf((*Z190)(nil)).Elem(),
	reflect.TypeOf((*z191)(nil)).Elem(),
	reflect.TypeOf((*Z192)(nil)).Elem(),
	reflect.TypeOf((*Z193)(nil)).Elem(),
	reflect.TypeOf((*Z194)(nil)).Elem(),
	reflect.TypeOf((*Z195)(nil)).Elem(),
	reflect.TypeOf((*z196)(nil)).Elem(),
	reflect.TypeOf((*Z197)(nil)).Elem(),
	reflect.TypeOf((*Z198)(nil)).Elem(),
	reflect.TypeOf((*z199)(nil)).Elem(),
	reflect.TypeOf((*z200)(nil)).Elem(),
	reflect.TypeOf((*Z201)(nil)).Elem(),
	reflect.TypeOf((*Z202)(nil)).Elem(),
	reflect.TypeOf((*Z203)(nil)).Elem(),
	reflect.TypeOf((*z204)(nil)).Elem(),
	reflect.TypeOf((*Z205)(nil)).Elem(),
	reflect.TypeOf((*z206)(nil)).Elem(),
	reflect.TypeOf((*Z207)(nil)).Elem(),
	reflect.TypeOf((*z208)(nil)).Elem(),
	reflect.TypeOf((*Z209)(nil)).Elem(),
	reflect.TypeOf((*Z210)(nil)).Elem(),
	reflect.TypeOf((*Z211)(nil)).Elem(),
	reflect.TypeOf((*z212)(nil)).Elem(),
	reflect.TypeOf((*Z213)(nil)).Elem(),
	reflect.TypeOf((*z214)(nil)).Elem(),
	reflect.TypeOf((*z215)(nil)).Elem(),
	reflect.TypeOf((*z216)(nil)).Elem(),
	reflect.TypeOf((*z217)(nil)).Elem(),
	reflect.TypeOf((*Z218)(nil)).Elem(),
	reflect.TypeOf((*z219)(nil)).Elem(),
	reflect.TypeOf((*Z220)(nil)).Elem(),
	reflect.TypeOf((*z221)(nil)).Elem(),
	reflect.TypeOf((*z222)(nil)).Elem(),
	reflect.TypeOf((*Z223)(nil)).Elem(),
	reflect.TypeOf((*Z224)(nil)).Elem(),
	reflect.TypeOf((*z225)(nil)).Elem(),
	reflect.TypeOf((*z226)(nil)).Elem(),
	reflect.TypeOf((*z227)(nil)).Elem(),
	reflect.TypeOf((*Z228)(nil)).Elem(),
	reflect.TypeOf((*Z229)(nil)).Elem(),
	reflect.TypeOf((*z230)(nil)).Elem(),
	reflect.TypeOf((*z231)(nil)).Elem(),
	reflect.TypeOf((*Z232)(nil)).Elem(),
	reflect.TypeOf((*Z233)(nil)).Elem(),
	reflect.TypeOf((*z234)(nil)).Elem(),
	reflect.TypeOf((*Z235)(nil)).Elem(),
	reflect.TypeOf((*Z236)(nil)).Elem(),
	reflect.TypeOf((*Z237)(nil)).Elem(),
	reflect.TypeOf((*Z238)(nil)).Elem(),
	reflect.TypeOf((*Z239)(nil)).Elem(),
}

func local0() []reflect.Type {
	type T struct {
		É alt.LInt_Jv
	}
	type U struct {
		É T   `json:"B"`
		F any `json:",omitempty"`
	}
	type V struct {
		D map[string]T
		A []alt.LInt_Jp
	}
	type M map[string]*M
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local1() []reflect.Type {
	type T struct {
		É lib.AliasMap `json:",omitnil,omitempty"`
	}
	type U struct {
		T
		A any
		D []int64
	}
	type V struct {
		*U
		A map[string]U `json:"-,,omitempty"`
		C []T
	}
	type M struct{ P *int }
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local2() []reflect.Type {
	type T struct {
		É []lib.CodeInt
		A lib.LByts_JpTp
		B [1]*alt.TextKey `json:"a;b"`
	}
	type U struct {
		A string
		D lib.CodeInt `json:"D"`
	}
	type V struct {
		A map[string]T `json:",omitnil"`
	}
	type M []*U
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local3() []reflect.Type {
	type T struct {
		G []alt.LS_Jp
	}
	type U struct {
		*T `json:"D"`
		G  []T
		B  [2]alt.LInt_Jp
	}
	type V struct {
		U
		E *T
		G []T `json:"bad\"q,string"`
	}
	type M float32
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local4() []reflect.Type {
	type T struct {
		G uintptr         `json:"é"`
		É [1]*alt.LInt_Jv `json:"D,omitempty"`
		E *[2]bool        `json:"a,omitnil,omitempty"`
	}
	type U struct {
		*T `json:"E,omitempty"`
		C  alt.LInt_Jv
	}
	type V struct {
		C lib.GS[any]
		D []T   `json:",omitempty"`
		G int16 `json:"F"`
		E chan int
	}
	type M [1]*M
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local5() []reflect.Type {
	type T struct {
		A lib.LInt_Jp `json:"-,,string"`
		B [1]*alt.LInt_Jv
		F int64
	}
	type U struct {
		T
		E map[string]T
	}
	type V struct {
	}
	type M map[string]int
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local6() []reflect.Type {
	type T struct {
	}
	type U struct {
	}
	type V struct {
		T
		E [1]*T
	}
	type M float32
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local7() []reflect.Type {
	type T struct {
		D uint8 `json:",string"`
	}
	type U struct {
		T
	}
	type V struct {
		*T
		D lib.LF64_Jp `json:"a,omitempty"`
	}
	type M float32
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local8() []reflect.Type {
	type T struct {
	}
	type U struct {
		E T
		D map[string]T `json:",string"`
	}
	type V struct {
		É map[string]T
		F map[int]alt.CodeInt
		C lib.LStr_None `json:",omitnil"`
	}
	type M float32
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local9() []reflect.Type {
	type T struct {
		G struct{}
	}
	type U struct {
		T
		É map[string]T
	}
	type V struct {
		E []lib.LS_Jp
	}
	type M string
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local10() []reflect.Type {
	type T struct {
		G **float64
		E [2]alt.LStr_None
		C float32
	}
	type U struct {
		E []T
	}
	type V struct {
		*T `json:"-,"`
	}
	type M [2]T
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local11() []reflect.Type {
	type T struct {
		C lib.LStr_None `json:",string"`
		F []alt.LStr_None
		A *int16
	}
	type U struct {
		C [1]*T       `json:"D,omitempty,string"`
		B []lib.LS_Jp `json:"E"`
		A uint64
	}
	type V struct {
		G *json.RawMessage `json:"F"`
		C *map[string]uint64
		É *lib.GMap[map[string]int] `json:"-"`
	}
	type M []*U
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local12() []reflect.Type {
	type T struct {
		E [1]*alt.RawJ `json:"-,,omitempty"`
	}
	type U struct {
		T
		F *T `json:"B"`
	}
	type V struct {
	}
	type M struct{ P *int }
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local13() []reflect.Type {
	type T struct {
	}
	type U struct {
		A [2]alt.LMap_None
		D *T
		G []alt.RawJ
		B T
	}
	type V struct {
		*T
		D map[string]U
		A *alt.RawJ
		F **time.Time
	}
	type M *int
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local14() []reflect.Type {
	type T struct {
		D *alt.RawJ
		C alt.LStr_Tv
		G uint64 `json:"E,string,omitempty"`
		B []*int
	}
	type U struct {
		*T
		F time.Time `json:",string,omitnil"`
		É json.Number
		D lib.LS_Jp
	}
	type V struct {
		U
		É []T
	}
	type M *int
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local15() []reflect.Type {
	type T struct {
		F lib.LInts_JpTp
		C []lib.LInt_Jv
		D map[time.Time]lib.Texter
		G [1]*alt.RawJ
	}
	type U struct {
		A [1]*T
	}
	type V struct {
	}
	type M [2]T
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local16() []reflect.Type {
	type T struct {
	}
	type U struct {
	}
	type V struct {
		*U
		E []lib.RawJ `json:"a;b,omitempty"`
		F [1]*U
	}
	type M map[string]int
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local17() []reflect.Type {
	type T struct {
		É [1]*alt.TextKey
		A lib.LInts_JpTp
	}
	type U struct {
		*T
		A []lib.LMap_None
	}
	type V struct {
		T
		D lib.LStr_Tv
		F lib.JSONer
	}
	type M []byte
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local18() []reflect.Type {
	type T struct {
		F float64
		G uint8 `json:"a"`
	}
	type U struct {
		C map[string]T
		D int
	}
	type V struct {
		*U
		C []alt.LS_Jp
		A lib.CodeInt
		D map[string]T
	}
	type M []byte
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local19() []reflect.Type {
	type T struct {
		É []alt.LMap_None
		B [1]*alt.LInt_Jv
	}
	type U struct {
		C [1]*alt.LInt_Jv
	}
	type V struct {
		T
		A map[string]*z104 `json:"é,omitempty"`
		F map[string]T
	}
	type M map[string]int
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local20() []reflect.Type {
	type T struct {
		É *Z0
		G map[int]alt.LInt_Jv `json:"x y,omitempty"`
	}
	type U struct {
		T
		A lib.RawJ
		É float32
	}
	type V struct {
		*T
		É [1]*alt.LInt_Jv
		C U `json:",string"`
	}
	type M *int
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local21() []reflect.Type {
	type T struct {
		C []map[string]int16
	}
	type U struct {
		*T
		B lib.LInt_Jv
	}
	type V struct {
		*T
		F [1]*alt.TextKey
		C lib.TextKey
		D *lib.TextKey
	}
	type M *int
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local22() []reflect.Type {
	type T struct {
		B map[int]alt.LMap_None
		F *alt.LS_Jp
		E [2]alt.CodeInt `json:"b,omitempty"`
	}
	type U struct {
		T `json:"x y"`
		D map[string]T `json:",omitempty"`
		A map[string]T
		C T
	}
	type V struct {
		U
		G map[int]alt.LStr_Tv
	}
	type M []*U
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local23() []reflect.Type {
	type T struct {
		G alt.LMap_None
	}
	type U struct {
		*T
	}
	type V struct {
		U
		É []lib.CodeInt
		F lib.LInts_Jv
	}
	type M map[int]M
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local24() []reflect.Type {
	type T struct {
		F [2]alt.CodeInt
		C *lib.RawJ `json:"<&>"`
		D map[int]alt.LInt_Jv
	}
	type U struct {
		*T
		A int64 `json:",omitnil"`
	}
	type V struct {
	}
	type M []M
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local25() []reflect.Type {
	type T struct {
		É lib.LF64_Jp
		F []alt.LS_Jp  `json:"-"`
		G *alt.LInt_Jp `json:"c,omitempty"`
		D lib.LInt_Tv
	}
	type U struct {
		*T
		É float64
		D T
	}
	type V struct {
		*U
		D int8   `json:"A,omitempty"`
		E [2]any `json:",omitempty"`
		F map[string]T
	}
	type M map[string]T
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local26() []reflect.Type {
	type T struct {
		D alt.LStr_None
	}
	type U struct {
		*T
	}
	type V struct {
		T
		F *time.Time
	}
	type M map[int]M
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local27() []reflect.Type {
	type T struct {
		F bool
	}
	type U struct {
		B [1]*int
	}
	type V struct {
		*T
		E string
		A [1]*U
	}
	type M []M
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local28() []reflect.Type {
	type T struct {
		C map[int]alt.LStr_Tv
		É *lib.LInt_Jp
	}
	type U struct {
		T
		A map[string]T
		C lib.LSU_JvTv `json:"b"`
		B []lib.LS_Jp  `json:"E,omitempty"`
		É map[string]T `json:"bad\"q,string"`
	}
	type V struct {
		T
		B *U
	}
	type M map[int]M
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local29() []reflect.Type {
	type T struct {
		É uintptr
	}
	type U struct {
		B lib.Coder `json:"A,string,omitnil"`
		F lib.LS_Jp
		G [1]*alt.LInt_Jv `json:"<&>,omitempty"`
	}
	type V struct {
		A lib.GS[string] `json:"-,"`
		D [1]uintptr     `json:"F,omitempty"`
		É *map[uint8]uint8
	}
	type M [1]*M
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local30() []reflect.Type {
	type T struct {
		B int64          `json:"a;b,string"`
		A [2]alt.TextKey `json:"bad\"q"`
		E [1]*alt.RawJ
	}
	type U struct {
		*T
		C []alt.LMap_None `json:"é"`
	}
	type V struct {
		T `json:"a"`
		F [1]*int
		C lib.LA2_JpTv
	}
	type M map[string]int
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local31() []reflect.Type {
	type T struct {
	}
	type U struct {
		*T
		F bool
	}
	type V struct {
		*T
		D *lib.LStr_None
	}
	type M map[string]int
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local32() []reflect.Type {
	type T struct {
	}
	type U struct {
		T
		F T
	}
	type V struct {
		A map[int]alt.CodeInt `json:"b,omitempty"`
		G T
		B alt.LMap_None `json:",omitempty"`
	}
	type M string
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local33() []reflect.Type {
	type T struct {
		É [2]alt.LStr_Tv
		G int16 `json:"<&>,string,omitempty"`
		A [2]alt.LStr_None
	}
	type U struct {
		É uint64 `json:",string"`
		A [1]*T
	}
	type V struct {
		*U
		E *uintptr `json:",omitempty,string"`
	}
	type M struct{ P *int }
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local34() []reflect.Type {
	type T struct {
	}
	type U struct {
		É lib.LU64_JvTv
		A map[time.Time][1]int8
	}
	type V struct {
		C lib.LS0_Jv
		F uintptr
	}
	type M [1]*M
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local35() []reflect.Type {
	type T struct {
		G [2]alt.CodeInt
		E *alt.LInt_Jp
		C *json.RawMessage
	}
	type U struct {
		B []T                 `json:",string"`
		E map[int]alt.LInt_Jv `json:"c"`
	}
	type V struct {
		T
		B []T
	}
	type M [1]*M
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local36() []reflect.Type {
	type T struct {
		A []lib.GPair[int, []byte]
	}
	type U struct {
		T
		G string `json:"B,string,omitempty"`
		E map[string]T
		D [2]alt.LStr_None
		C [2]alt.LStr_Tv
	}
	type V struct {
		U
		G [1]*U `json:"-"`
		F [2][1]*int
		E [1]*U `json:"E"`
		A U
	}
	type M map[int]M
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local37() []reflect.Type {
	type T struct {
		A bool
		B []lib.RawJ
		É []alt.LInt_Jp
		D map[int]alt.LMap_None
	}
	type U struct {
		T
	}
	type V struct {
		T
		A [1]*alt.LS_Jp
		É [1]*int `json:"E,omitnil"`
	}
	type M map[string]*M
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local38() []reflect.Type {
	type T struct {
		C [1]*alt.TextKey
		B alt.LInt_Jp
	}
	type U struct {
		F *map[string]float32 `json:"-,"`
	}
	type V struct {
		T
		B bool
	}
	type M float32
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func local39() []reflect.Type {
	type T struct {
		D lib.LStr_Tv
		B [1]*alt.CodeInt `json:",omitempty,omitnil"`
	}
	type U struct {
	}
	type V struct {
		*U `json:"E"`
		E  *T
	}
	type M []*U
	return []reflect.Type{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*U)(nil)).Elem(), reflect.TypeOf((*V)(nil)).Elem(), reflect.TypeOf((*M)(nil)).Elem()}
}

func init() {
	Types = append(Types, local0()...)
	Types = append(Types, local1()...)
	Types = append(Types, local2()...)
	Types = append(Types, local3()...)
	Types = append(Types, local4()...)
	Types = append(Types, local5()...)
	Types = append(Types, local6()...)
	Types = append(Types, local7()...)
	Types = append(Types, local8()...)
	Types = append(Types, local9()...)
	Types = append(Types, local10()...)
	Types = append(Types, local11()...)
	Types = append(Types, local12()...)
	Types = append(Types, local13()...)
	Types = append(Types, local14()...)
	Types = append(Types, local15()...)
	Types = append(Types, local16()...)
	Types = append(Types, local17()...)
	Types = append(Types, local18()...)
	Types = append(Types, local19()...)
	Types = append(Types, local20()...)
	Types = append(Types, local21()...)
	Types = append(Types, local22()...)
	Types = append(Types, local23()...)
	Types = append(Types, local24()...)
	Types = append(Types, local25()...)
	Types = append(Types, local26()...)
	Types = append(Types, local27()...)
	Types = append(Types, local28()...)
	Types = append(Types, local29()...)
	Types = append(Types, local30()...)
	Types = append(Types, local31()...)
	Types = append(Types, local32()...)
	Types = append(Types, local33()...)
	Types = append(Types, local34()...)
	Types = append(Types, local35()...)
	Types = append(Types, local36()...)
	Types = append(Types, local37()...)
	Types = append(Types, local38()...)
	Types = append(Types, local39()...)
	Types = append(Types, alt.Types...)
}
