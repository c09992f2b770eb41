package gen

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"reflect"
	"strings"
	"time"

	"verifharness/zoo"
)

func typ[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

var (
	tAny   = typ[interface{}]()
	tTime  = typ[time.Time]()
	tDur   = typ[time.Duration]()
	tNum   = typ[json.Number]()
	tRaw   = typ[json.RawMessage]()
	tBytes = typ[[]byte]()

	leafTypes = []reflect.Type{
		typ[bool](), typ[int](), typ[int8](), typ[int16](), typ[int32](), typ[int64](), typ[uint](), typ[uint8](), typ[uint16](), typ[uint32](), typ[uint64](), typ[uintptr](),
		typ[float32](), typ[float64](), typ[string](), tBytes, tAny, tNum, tRaw, tTime, tDur, typ[map[string]interface{}](), typ[[]interface{}](), typ[map[string]json.RawMessage](),
		typ[string](), typ[string](), tAny, typ[int](), typ[float64](), typ[zoo.Shape](), typ[error](),
	}
	keyTypes = []reflect.Type{
		typ[string](), typ[string](), typ[string](), typ[zoo.MyString](), typ[int](), typ[int8](), typ[int16](), typ[int32](), typ[int64](), typ[uint](), typ[uint8](), typ[uint16](),
		typ[uint32](), typ[uint64](), typ[uintptr](), typ[zoo.MyInt](), typ[zoo.MyUint8](), typ[zoo.MTInt](), typ[zoo.MTString](), typ[zoo.KStruct](), typ[zoo.KMarshalOnly](),
		typ[zoo.KUnmarshalOnly](), typ[zoo.KUnmarshalOnlyInt](), typ[time.Time](), typ[time.Duration](),
	}
	fieldNames = []string{"A", "B", "C", "D", "E", "F", "F0", "F1", "F2", "F3", "Name", "X", "Y", "Abc", "ABC", "Éa", "K"}
	tagNames   = []string{"a", "b", "c", "A", "x", "name", "f0", "é", "<&>", "aB", "Ab", "k", "long_field_name_number_one", strings.Repeat("Name_", 14) + "a", strings.Repeat("Name_", 14) + "b", "-", "bad\"", "ſ", "日本", "½", "a²", "e\u0301", "٣", "a\u00a0b", "‿"}
)

// Type makes a random type.
func Type(r *rand.Rand, depth int) reflect.Type {
	if depth <= 0 {
		return leafTypes[r.IntN(len(leafTypes))]
	}
	switch r.IntN(16) {
	case 0, 1, 2:
		return leafTypes[r.IntN(len(leafTypes))]
	case 3, 4:
		ts := zooTypes()
		return ts[r.IntN(len(ts))]
	case 5, 6:
		return reflect.PointerTo(Type(r, depth-1))
	case 7, 8:
		return reflect.SliceOf(Type(r, depth-1))
	case 9:
		return reflect.ArrayOf(r.IntN(4), Type(r, depth-1))
	case 10, 11:
		return reflect.MapOf(keyTypes[r.IntN(len(keyTypes))], Type(r, depth-1))
	}
	return StructType(r, depth)
}

// StructType makes a random struct type.
func StructType(r *rand.Rand, depth int) reflect.Type {
	n := r.IntN(Pick(r, 2, 4, 4, 7))
	used := map[string]bool{}
	var fs []reflect.StructField
	wide, allOmit := Chance(r, 25), false
	if wide {
		n = 14 + r.IntN(60)
		depth = min(depth, 2)
		allOmit = Chance(r, 3)
	}
	for i := 0; i < n; i++ {
		nm := fieldNames[r.IntN(len(fieldNames))]
		if wide {
			nm = fmt.Sprintf("%s%d", nm, i/2)
		}
		if used[nm] {
			continue
		}
		used[nm] = true
		f := reflect.StructField{Name: nm, Type: Type(r, depth-1)}
		tag := ""
		switch r.IntN(9) {
		case 0, 1:
			tag = tagNames[r.IntN(len(tagNames))]
		case 2:
			tag = tagNames[r.IntN(len(tagNames))] + ",omitempty"
		case 3, 4:
			tag = ",omitempty"
		case 5:
			tag = ",string"
		case 6:
			tag = Pick(r, ",omitempty,string", "a,string", ",omitzero", "-,", ",omitempty,omitzero", ",string,omitzero", ",omitzero")
		}
		if allOmit {
			tag = ",omitempty"
		}
		if tag != "" {
			f.Tag = reflect.StructTag(fmt.Sprintf("json:%q", tag))
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

var zooCache []reflect.Type

func zooTypes() []reflect.Type {
	if zooCache == nil {
		panic("gen.Init not called")
	}
	return zooCache
}

// Init prepares the package.
func Init() { zooCache = zoo.Types() }

// Pool makes n random types plus the whole zoo, deterministically.
func Pool(r *rand.Rand, n int) []reflect.Type {
	out := append([]reflect.Type{}, zooTypes()...)
	out = append(out, leafTypes...)
	seen := map[reflect.Type]bool{}
	for _, t := range out {
		seen[t] = true
	}
	for len(out) < n {
		t := Type(r, 1+r.IntN(4))
		if seen[t] || t.Size() > 4096 {
			n--
			continue
		}
		seen[t] = true
		out = append(out, t)
	}
	return out
}
