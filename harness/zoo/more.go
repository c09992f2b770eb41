package zoo

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
)

// A type embedded three and four times at the same level.
type (
	EmbTS  struct{ X, Y int }
	EmbT1  struct{ EmbTS }
	EmbT2  struct{ EmbTS }
	EmbT3  struct{ *EmbTS }
	EmbT4  struct{ EmbTS }
	EmbTri struct {
		EmbT1
		EmbT2
		EmbT3
	}
	EmbQuad struct {
		EmbT1
		Z int
		*EmbT2
		EmbT3
		EmbT4
		Y string
	}
)

// Pointers to structs embedded in one another, several at each level.
type (
	EmbP0 struct {
		*EmbP1
		A0 int
	}
	EmbP1 struct {
		*EmbP2
		A1 int
		*EmbQ2
	}
	EmbP2 struct {
		A2 int
		*EmbP3
		*EmbQ3
		*EmbR3
	}
	EmbQ2 struct {
		B2 string
		*EmbS3
	}
	EmbP3 struct {
		*EmbP4
		*EmbQ4
		*EmbR4
		A3 int
	}
	EmbQ3 struct {
		*EmbS4
		B3 string
		*EmbT4x
	}
	EmbR3 struct{ C3 []int }
	EmbS3 struct {
		D3 *bool
		*EmbU4
	}
	EmbP4 struct {
		A4 int
		*EmbP5
		*EmbQ5
	}
	EmbQ4  struct{ B4 string }
	EmbR4  struct{ C4 []int }
	EmbS4  struct{ D4 *bool }
	EmbT4x struct{ E4 float64 }
	EmbU4  struct{ F4 interface{} }
	EmbP5  struct{ A5 int }
	EmbQ5  struct{ B5 string }
)

// Values which are zero in their own way.
type ZeroIfaces struct {
	I IsZeroI            `json:"i,omitzero"`
	J IsZeroI            `json:",omitzero,omitempty"`
	K interface{}        `json:"k,omitzero"`
	L map[string]IsZeroI `json:",omitzero"`
	M []IsZeroI          `json:"m,omitzero"`
	A [2]ZeroP           `json:"arr,omitzero"`
	P **ZeroP            `json:"p,omitzero"`
	S struct{ Z ZeroP }  `json:"s,omitzero"`
	F float64            `json:",omitzero"`
	C *ZeroI             `json:"c,omitzero"`
	D ZeroI              `json:"d,omitzero"`
	E ZeroS              `json:"e,omitzero"`
	W struct{ N *ZeroI } `json:"w"`
}

type ZeroI int

func (z *ZeroI) IsZero() bool { return z == nil || *z%2 == 1 }

type ZeroS []int

func (z ZeroS) IsZero() bool { return len(z) > 1 }

// Named pointers and the string option.
type (
	PtrInt   *int
	PtrStr   *string
	NamedPtr struct {
		A PtrInt   `json:",string"`
		B PtrStr   `json:"b,string"`
		C *PtrInt  `json:",string"`
		D **int    `json:",string"`
		E *MyInt   `json:",string"`
		F []int    `json:",string"`
		G *uintptr `json:",string,omitempty"`
		H uintptr  `json:",string"`
	}
)

// Marshalers with pointer receivers, of all kinds.
type (
	PMTArr   [2]int
	PMTSlice []int
	PMTMap   map[string]int
	PMTBool  bool
	PMTFloat float32
	PMJArr   [1]*int
	PMJSlice []string
	PMJMap   map[int]int
	PMJByte3 uint8
	MTByte3  uint8
	PtrRecv  struct {
		A PMTArr
		B PMTSlice
		C PMTMap
		D PMTBool
		E PMTFloat
		F PMJArr
		G PMJSlice
		H PMJMap
		I []PMTArr
		J map[string]PMTArr
		K map[string]PMTMap
		L [1]PMJArr
		M *PMTSlice
		N interface{}
		O []MTByte3
		P [3]MTByte3
		Q []PMJByte3
		R map[string][]MTByte3
	}
)

func (x *PMTArr) MarshalText() ([]byte, error) { return []byte(fmt.Sprint("arr ", x[0], x[1])), nil }
func (x *PMTArr) UnmarshalText(b []byte) error {
	_, err := fmt.Sscan(strings.TrimPrefix(string(b), "arr "), &x[0], &x[1])
	return err
}
func (x *PMTSlice) MarshalText() ([]byte, error) { return []byte(strconv.Itoa(len(*x))), nil }
func (x *PMTSlice) UnmarshalText(b []byte) error {
	n, err := strconv.ParseUint(string(b), 10, 5)
	*x = make(PMTSlice, n)
	return err
}
func (x *PMTMap) MarshalText() ([]byte, error)   { return []byte(strconv.Itoa((*x)["<"])), nil }
func (x *PMTBool) MarshalText() ([]byte, error)  { return []byte(strconv.FormatBool(bool(!*x))), nil }
func (x *PMTFloat) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("f%v", float32(*x))), nil }
func (x *PMJArr) MarshalJSON() ([]byte, error)   { return []byte(fmt.Sprint(x[0] == nil)), nil }
func (x *PMJArr) UnmarshalJSON(b []byte) error {
	x[0] = nil
	if string(b) == "false" {
		x[0] = new(int)
	}
	return nil
}
func (x *PMJSlice) MarshalJSON() ([]byte, error) { return json.Marshal(len(*x)) }
func (x *PMJMap) MarshalJSON() ([]byte, error) {
	return json.Marshal(map[string]int{"n": len(*x)})
}
func (x *PMJByte3) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf("[%d]", *x)), nil }
func (x MTByte3) MarshalText() ([]byte, error)   { return []byte(fmt.Sprintf("#%d", uint8(x))), nil }
func (x MTByte3) String() string                 { return "three" }
func (x MTByte3) Error() string                  { return "methods" }
func (x MTByte3) Foo()                           {}
func (x *MTByte3) UnmarshalText(b []byte) error {
	n, err := strconv.ParseUint(strings.TrimPrefix(string(b), "#"), 10, 8)
	*x = MTByte3(n)
	return err
}

type MoreTags struct {
	A int `json:"½"`
	B int `json:"a²"`
	C int `json:"Ⅷ"`
	D int `json:"é"`
	E int `json:"٣"`
	F int `json:"no break"`
	G int `json:"a_b^c@d~{|}[]#!?+*=:."`
	H int `json:"‿"`
	I int `json:"\t"`
	J int `json:"😀"`
}

func more() []interface{} {
	return []interface{}{
		EmbTri{}, EmbQuad{}, EmbP0{}, EmbP1{}, EmbP2{}, EmbP3{}, EmbP4{}, ZeroIfaces{}, NamedPtr{}, PtrRecv{}, MoreTags{},
		PMTArr{}, PMTSlice(nil), PMTMap(nil), PMTBool(false), PMTFloat(0), PMJArr{}, PMJSlice(nil), PMJMap(nil), []PMJByte3(nil), []MTByte3(nil), PtrInt(nil), ZeroS(nil),
		map[string]PMTArr(nil), map[int]PMJArr(nil), map[string]PMTSlice(nil), []PMTMap(nil), [2]PMTArr{}, struct{ A [1]PMJArr }{},
	}
}
