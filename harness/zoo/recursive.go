// Code generated by tools/genrec.py; DO NOT EDIT.

package zoo

type R00A struct {
	F0 []*R00A `json:",omitempty"`
	F1 PMJ
	N0 int
}

type R00B struct{ P *R00C }

type R00C struct {
	F0 *MT
	R00B
	*R00A
	N2 int
}

type R01A struct {
	*R01A
	*R01B
	F2 **R01B
	F3 map[string]R01B
	F4 [1]*R01A `json:"x4"`
	N0 int
}

type R01B struct {
	F0 map[string]R01A
	F1 interface{}
	F2 []R01B `json:",omitempty"`
	F3 R01A
	N1 int
}

type R02A struct {
	*R02A
	F1 map[MTString]*R02A
	F2 map[string]r02b
	N0 int
}

type r02b struct {
	R02A `json:"e0"`
	F1   map[int]R02A `json:",omitempty"`
	N1   int
}

type R03A struct {
	*R03A
	F1 string `json:"F0,omitempty"`
	N0 int
}

type R03B struct {
	F0 *R03D
	N1 int
}

type R03C struct {
	*R03B `json:"e0"`
	N2    int
}

type R03D []*R03B

type R04A struct {
	F0 **R04D `json:"x0"`
	*R04A
	F2 struct {
		X *R04C
		Y []R04C
	}
	F3 []R04D
	F4 int
	N0 int
}

func (x *R04A) MarshalText() ([]byte, error) { return []byte("R04A"), nil }
func (x *R04A) UnmarshalText([]byte) error   { return nil }

type r04b map[string]*r04b

type R04C struct {
	F0 r04b
	N2 int
}

type R04D struct {
	F0 r04b `json:",omitempty"`
	F1 struct {
		X *R04C
		Y []R04C
	} `json:"x1"`
	F2 **R04E
	*R04C
	N3 int
}

type R04E struct {
	F0   r04b
	R04A `json:"e1"`
	F2   struct {
		X *R04D
		Y []R04D
	}
	*R04D `json:"e3"`
	F4    []*R04A `json:"x4"`
	N4    int
}

type R05A struct {
	*R05B
	F1 *MT
	F2 map[string]R05B `json:",omitempty"`
	N0 int
}

type R05B map[string]*R05C

type R05C struct {
	F0 R05A `json:",omitempty"`
	F1 map[string]R05B
	F2 []*R05A  `json:",omitempty"`
	F3 [2]*R05B `json:"F0,omitempty"`
	N2 int
}

type R06A struct {
	F0 map[int]R06A
	F1 struct {
		X *R06C
		Y []R06C
	} `json:"x1"`
	F2 string
	F3 map[MTString]*R06A
	N0 int
}

type R06B [1]*R06C

type R06C struct {
	F0 R06B   `json:"x0"`
	F1 PMJ    `json:"x1"`
	F2 []R06B `json:",omitempty"`
	N2 int
}

type R07A struct {
	F0 [1]*R07A
	F1 PMJ
	F2 map[int]R07B
	N0 int
}

type R07B struct {
	F0 int
	N1 int
}

type r07c struct {
	F0 int
	F1 map[int]R07A
	F2 PMJ
	*R07B
	N2 int
}

type r08a struct {
	F0    map[MTString]*R08C
	*R08E `json:"e1"`
	F2    map[int]R08C
	N0    int
}

type R08B []*r08a

type R08C struct {
	F0 interface{} `json:",omitempty"`
	F1 interface{} `json:"x1"`
	F2 r08a
	F3 map[MTString]*R08E `json:"x3"`
	F4 int                `json:"x4"`
	N2 int
}

type R08D struct {
	F0 struct {
		X *R08B
		Y []R08B
	} `json:"x0"`
	N3 int
}

type R08E struct{ P *r08a }

type R09A [1]*R09B

type R09B struct {
	*R09B `json:"e0"`
	N1    int
}

type R10A struct {
	F0 **r10c `json:",omitempty"`
	F1 []byte `json:"F0,omitempty"`
	F2 *R10A
	F3 []*r10c `json:"F0,omitempty"`
	N0 int
}

type R10B []*r10c

type r10c struct {
	F0 *R10A
	F1 struct{ Z R10A } `json:"x1"`
	R10A
	F3 map[string]R10A `json:"F0,omitempty"`
	N2 int
}

type R10D struct {
	F0    []R10D `json:",omitempty"`
	*R10D `json:"e1"`
	F2    [1]*r10e `json:"x2"`
	F3    int
	F4    PMJ `json:"F0,omitempty"`
	N3    int
}

type r10e struct {
	F0 [2]*r10c `json:"x0"`
	N4 int
}

type R11A struct {
	*R11A
	F1 map[string]R11C
	N0 int
}

type R11B struct {
	F0 [1]*R11A
	F1 int
	F2 [2]*R11B `json:",omitempty"`
	N1 int
}

type R11C struct {
	F0 PMJ
	F1 []*R11C `json:"x1"`
	F2 [2]R11A
	F3 *MT `json:"F0,omitempty"`
	N2 int
}

type r12a struct {
	F0 *r12a
	*R12B
	N0 int
}

type R12B struct {
	*R12B
	F1 PMJ `json:"x1"`
	N1 int
}

type R13A [1]*r13b

type r13b map[string]*r13b

type r13c []*r13b

type R13D map[string]*R13A

type r14a struct {
	F0 [2]*r14a `json:",omitempty"`
	F1 []byte
	F2 map[string]R14B `json:",omitempty"`
	*R14C
	N0 int
}

type R14B struct {
	F0 *R14B
	F1 r14a
	N1 int
}

type R14C struct {
	R14B
	*R14C `json:"e1"`
	F2    [1]*R14C `json:"x2"`
	F3    [2]*R14B
	N2    int
}

type R15A struct {
	*R15B
	F1 []R15A `json:",omitempty"`
	F2 interface{}
	F3 int
	*R15A
	N0 int
}

type R15B map[string]*R15A

type R16A struct {
	*R16B
	F1 interface{} `json:",omitempty"`
	N0 int
}

type R16B struct {
	F0 *R16D
	*R16D
	F2 interface{} `json:"x2"`
	N1 int
}

type R16C struct {
	F0 map[int]R16B
	F1 map[MTString]*R16C
	F2 **R16C `json:"F0,omitempty"`
	F3 string `json:"F0,omitempty"`
	F4 *R16D
	N2 int
}

func (x *R16C) MarshalText() ([]byte, error) { return []byte("R16C"), nil }
func (x *R16C) UnmarshalText([]byte) error   { return nil }

type R16D struct {
	F0 [1]*R16C `json:"x0"`
	F1 *MT
	F2 R16C `json:"x2"`
	*R16D
	F4 map[int]R16A `json:"x4"`
	N3 int
}

type R17A struct {
	F0 []byte `json:"x0"`
	F1 **r17b
	F2 *R17A
	N0 int
}

type r17b struct {
	F0 R17A     `json:"x0"`
	F1 [1]*r17b `json:"F0,omitempty"`
	F2 PMJ
	F3 map[MTString]*R17C `json:"x3"`
	N1 int
}

type R17C map[string]*R17A

type R18A struct {
	F0 struct {
		X *R18A
		Y []R18A
	}
	N0 int
}

type R18B []*R18B

type R18C struct {
	F0 *MT
	F1 map[MTString]*R18A `json:"F0,omitempty"`
	F2 map[MTString]*R18A `json:"x2"`
	N2 int
}

type R18D struct {
	R18C
	F1 struct {
		X *R18A
		Y []R18A
	}
	F2    R18B `json:"x2"`
	*R18D `json:"e3"`
	N3    int
}

type R18E []*R18D

type R19A struct {
	*R19A
	F1 PMJ
	F2 struct {
		X *R19B
		Y []R19B
	} `json:"x2"`
	F3 map[string]R19A
	F4 [1]*R19A
	N0 int
}

type R19B struct {
	*R19B `json:"e0"`
	F1    [2]R19A
	F2    []byte
	N1    int
}

type R20A struct {
	F0 PMJ `json:",omitempty"`
	N0 int
}

type R20B struct {
	F0 *MT
	F1 *R20B `json:"F0,omitempty"`
	F2 PMJ   `json:",omitempty"`
	N1 int
}

type r20c struct {
	F0 [2]R20A
	F1 int
	F2 map[MTString]*R20B `json:"x2"`
	N2 int
}

type R20D struct {
	*R20D
	N3 int
}

type r21a struct {
	F0 *MT      `json:"x0"`
	F1 [1]*R21B `json:",omitempty"`
	F2 []R21B
	F3 int `json:",omitempty"`
	F4 map[string]r21a
	N0 int
}

type R21B struct {
	F0 *R21C
	F1 []r21a `json:"F0,omitempty"`
	N1 int
}

type R21C [1]*r21a

type R22A map[string]*R22B

type R22B struct {
	F0 interface{} `json:"x0"`
	N1 int
}

type R22C struct {
	F0 string
	F1 R22B `json:",omitempty"`
	F2 interface{}
	N2 int
}

type R23A struct {
	F0 string
	F1 []R23E
	F2 **R23D
	N0 int
}

type R23B struct {
	F0    map[MTString]*R23A `json:"x0"`
	*R23A `json:"e1"`
	N1    int
}

type R23C [1]*R23B

type R23D []*R23E

type R23E struct {
	*R23A
	F1 map[string]R23C `json:"x1"`
	F2 struct {
		X *R23C
		Y []R23C
	}
	N4 int
}

// Recursive returns a value of each.
func Recursive() []interface{} {
	return []interface{}{
		*new(R00A),
		*new(R00B),
		*new(R00C),
		*new(R01A),
		*new(R01B),
		*new(R02A),
		*new(r02b),
		*new(R03A),
		*new(R03B),
		*new(R03C),
		*new(R03D),
		*new(R04A),
		*new(r04b),
		*new(R04C),
		*new(R04D),
		*new(R04E),
		*new(R05A),
		*new(R05B),
		*new(R05C),
		*new(R06A),
		*new(R06B),
		*new(R06C),
		*new(R07A),
		*new(R07B),
		*new(r07c),
		*new(r08a),
		*new(R08B),
		*new(R08C),
		*new(R08D),
		*new(R08E),
		*new(R09A),
		*new(R09B),
		*new(R10A),
		*new(R10B),
		*new(r10c),
		*new(R10D),
		*new(r10e),
		*new(R11A),
		*new(R11B),
		*new(R11C),
		*new(r12a),
		*new(R12B),
		*new(R13A),
		*new(r13b),
		*new(r13c),
		*new(R13D),
		*new(r14a),
		*new(R14B),
		*new(R14C),
		*new(R15A),
		*new(R15B),
		*new(R16A),
		*new(R16B),
		*new(R16C),
		*new(R16D),
		*new(R17A),
		*new(r17b),
		*new(R17C),
		*new(R18A),
		*new(R18B),
		*new(R18C),
		*new(R18D),
		*new(R18E),
		*new(R19A),
		*new(R19B),
		*new(R20A),
		*new(R20B),
		*new(r20c),
		*new(R20D),
		*new(r21a),
		*new(R21B),
		*new(R21C),
		*new(R22A),
		*new(R22B),
		*new(R22C),
		*new(R23A),
		*new(R23B),
		*new(R23C),
		*new(R23D),
		*new(R23E),
	}
}
