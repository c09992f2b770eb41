// Package zoo is a fixed collection of Go types chosen to exercise encoding and
// decoding: named basics, marshalers of every shape, embedding of every shape,
// recursive and pointer-shaped types.
package zoo

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"net"
	"net/netip"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"time"
)

type (
	MyBool    bool
	MyInt     int
	MyInt8    int8
	MyInt16   int16
	MyInt32   int32
	MyInt64   int64
	MyUint    uint
	MyUint8   uint8
	MyUint16  uint16
	MyUint32  uint32
	MyUint64  uint64
	MyUintptr uintptr
	MyF32     float32
	MyF64     float64
	MyString  string
	MyBytes   []byte
	MyU8s     []MyUint8
	MyInts    []int
	MyMap     map[string]int
	MyAnyMap  map[string]interface{}
	MyRaw     json.RawMessage
	MyNumber  json.Number
	MyDur     time.Duration
	MyTime    time.Time
	MyAny     interface{}
	MyPtr     *int
	MyArr     [3]int
	MyArr1    [1]*int
)

// ---- JSON marshalers ----

// MJ has value receiver MarshalJSON and pointer UnmarshalJSON.
type MJ struct {
	S string
	N int
}

func (m MJ) MarshalJSON() ([]byte, error) {
	return json.Marshal(map[string]interface{}{"zs": m.S, "an": m.N, "arr": []int{m.N, m.N}})
}

func (m *MJ) UnmarshalJSON(b []byte) error {
	if string(b) == "null" {
		m.S = "got-null"
		return nil
	}
	var x struct {
		Zs string `json:"zs"`
		An int    `json:"an"`
	}
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	m.S, m.N = x.Zs, x.An
	return nil
}

// PMJ has pointer receiver methods only.
type PMJ struct {
	S string
	N int
}

func (m *PMJ) MarshalJSON() ([]byte, error) {
	if m == nil { // in an interface that has the method
		return []byte(`"nil pmj"`), nil
	}
	return json.Marshal([]interface{}{"pmj", m.S, m.N})
}

func (m *PMJ) UnmarshalJSON(b []byte) error {
	if string(b) == "null" {
		m.N++
		return nil
	}
	var a []interface{}
	if err := json.Unmarshal(b, &a); err != nil {
		return err
	}
	if len(a) == 3 {
		m.S, _ = a[1].(string)
		f, _ := a[2].(float64)
		m.N = int(f)
	}
	return nil
}

// MJInt etc: marshalers on non-struct kinds.
type MJInt int

func (m MJInt) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`{"int":%d}`, int(m))), nil }
func (m *MJInt) UnmarshalJSON(b []byte) error {
	var x struct{ Int int }
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	*m = MJInt(x.Int)
	return nil
}

type MJString string

func (m MJString) MarshalJSON() ([]byte, error) { return json.Marshal("mj:" + string(m)) }

type MJSlice []int

func (m MJSlice) MarshalJSON() ([]byte, error) {
	return []byte(fmt.Sprintf("[%d, %q\n]", len(m), "len")), nil
}

type MJMap map[string]int

func (m MJMap) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`{"len" : %d}`, len(m))), nil }

// MJPtrShape is a pointer shaped struct with a value receiver.
type MJPtrShape struct{ P *int }

func (m MJPtrShape) MarshalJSON() ([]byte, error) {
	if m.P == nil {
		return []byte(`"nil"`), nil
	}
	return []byte(strconv.Itoa(*m.P)), nil
}

// PMJInt: pointer receiver on int.
type PMJInt int

func (m *PMJInt) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`["p",%d]`, int(*m))), nil }

// MJSpace returns JSON surrounded by white space.
type MJSpace struct{ N int }

func (m MJSpace) MarshalJSON() ([]byte, error) {
	return []byte(fmt.Sprintf(" \n\t{ \"b\" : %d , \"a\" :[ 1 ,2 ] }\r\n ", m.N)), nil
}

// MJHTML returns strings that need HTML escaping.
type MJHTML struct{ S string }

func (m MJHTML) MarshalJSON() ([]byte, error) {
	return []byte("{\"<k&>\":\"\u2028<b>&\u2029\",\"v\":\"a\\u003cb\\/\"}"), nil
}

// MJBad returns something that is not JSON, or fails, depending on N.
type MJBad struct{ N int }

func (m MJBad) MarshalJSON() ([]byte, error) {
	switch ((m.N % 9) + 9) % 9 {
	case 0:
		return nil, errors.New("mjbad")
	case 1:
		return []byte(`{"a":1} x`), nil
	case 2:
		return []byte(`{"a":`), nil
	case 3:
		return []byte(``), nil
	case 4:
		return []byte(`[1,]`), nil
	case 5:
		return []byte(`nul`), nil
	case 6:
		return []byte(`01`), nil
	case 7:
		return nil, nil
	}
	return []byte(`"ok"`), nil
}

// ---- text marshalers ----

type MT struct{ A, B int }

func (m MT) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("%d<&>%d", m.A, m.B)), nil }
func (m *MT) UnmarshalText(b []byte) error {
	_, err := fmt.Sscanf(string(b), "%d<&>%d", &m.A, &m.B)
	return err
}

type PMT struct{ A, B int }

func (m *PMT) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("p%d_%d", m.A, m.B)), nil }
func (m *PMT) UnmarshalText(b []byte) error {
	_, err := fmt.Sscanf(string(b), "p%d_%d", &m.A, &m.B)
	return err
}

type MTInt int

func (m MTInt) MarshalText() ([]byte, error) { return []byte("t" + strconv.Itoa(int(m))), nil }
func (m *MTInt) UnmarshalText(b []byte) error {
	n, err := strconv.Atoi(strings.TrimPrefix(string(b), "t"))
	*m = MTInt(n)
	return err
}

type MTString string

func (m MTString) MarshalText() ([]byte, error) { return []byte("T(" + string(m) + ")"), nil }
func (m *MTString) UnmarshalText(b []byte) error {
	s := string(b)
	if !strings.HasPrefix(s, "T(") {
		return errors.New("bad MTString")
	}
	*m = MTString(strings.TrimSuffix(strings.TrimPrefix(s, "T("), ")"))
	return nil
}

// KMarshalOnly implements only TextMarshaler on an int kind.
type KMarshalOnly int

func (k KMarshalOnly) MarshalText() ([]byte, error) { return []byte("k" + strconv.Itoa(int(k))), nil }

// KUnmarshalOnly implements only TextUnmarshaler on a string kind.
type KUnmarshalOnly string

func (k *KUnmarshalOnly) UnmarshalText(b []byte) error {
	*k = KUnmarshalOnly("u:" + string(b))
	return nil
}

// KUnmarshalOnlyInt implements only TextUnmarshaler on an int kind.
type KUnmarshalOnlyInt int

func (k *KUnmarshalOnlyInt) UnmarshalText(b []byte) error {
	n, err := strconv.Atoi(string(b))
	*k = KUnmarshalOnlyInt(n * 2)
	return err
}

// KPtr is used as *KPtr map key.
type KPtr struct{ A, B int }

func (k *KPtr) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("kp%d", k.A)), nil }

// KStruct is a struct key with text marshaling.
type KStruct struct{ A int8 }

func (k KStruct) MarshalText() ([]byte, error) { return []byte("ks" + strconv.Itoa(int(k.A))), nil }
func (k *KStruct) UnmarshalText(b []byte) error {
	n, err := strconv.ParseInt(strings.TrimPrefix(string(b), "ks"), 10, 8)
	k.A = int8(n)
	return err
}

// MTErr fails for negative values.
type MTErr int

func (m MTErr) MarshalText() ([]byte, error) {
	if m < 0 {
		return nil, errors.New("negative")
	}
	return []byte(strconv.Itoa(int(m))), nil
}

// Both implements both; JSON must win.
type Both struct{ N int }

func (b Both) MarshalJSON() ([]byte, error) { return []byte(`{"both":"json"}`), nil }
func (b Both) MarshalText() ([]byte, error) { return []byte("text"), nil }
func (b *Both) UnmarshalJSON([]byte) error  { b.N = 1; return nil }
func (b *Both) UnmarshalText([]byte) error  { b.N = 2; return nil }

// MTBytes: element type with marshaler in a byte slice.
type MTByte byte

func (m MTByte) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("b%02x", byte(m))), nil }
func (m *MTByte) UnmarshalText(b []byte) error {
	var x byte
	_, err := fmt.Sscanf(string(b), "b%02x", &x)
	*m = MTByte(x)
	return err
}

type MJByte byte

func (m MJByte) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`{"b":%d}`, byte(m))), nil }
func (m *MJByte) UnmarshalJSON(b []byte) error {
	var x struct{ B byte }
	err := json.Unmarshal(b, &x)
	*m = MJByte(x.B)
	return err
}

type PMJByte byte

func (m *PMJByte) MarshalJSON() ([]byte, error) {
	return []byte(fmt.Sprintf(`{"pb":%d}`, byte(*m))), nil
}

// ---- interfaces ----

type Shape interface{ Area() int }
type Sq struct{ Side int }

func (s Sq) Area() int { return s.Side * s.Side }

type Ci struct{ R int }

func (c *Ci) Area() int { return c.R * 3 }

type HasShape struct {
	S    Shape
	E    Shape `json:",omitempty"`
	Err  error
	Str  fmt.Stringer
	Jm   json.Marshaler
	Any  interface{}
	AnyO interface{} `json:",omitempty"`
}

// ---- embedding ----

type EmbA struct {
	A int
	X string `json:"x"`
}
type EmbB struct {
	B int
	X string `json:"x"`
}
type embC struct {
	C int
	Y string `json:"y,omitempty"`
}
type EmbDeep struct {
	EmbA
	D int
}
type EmbDeep2 struct {
	EmbDeep
	A string // shadows
	E int
}
type EmbPtr struct {
	*EmbA
	P int
}
type EmbPtrDeep struct {
	*EmbPtr
	Q int
}
type EmbConflict struct {
	EmbA
	EmbB
}
type EmbConflictTag struct {
	EmbA
	*EmbB
	X int `json:"x"`
}
type EmbUnexp struct {
	embC
	Z int
}
type EmbUnexpPtr struct {
	*embC
	Z int
}
type EmbTagged struct {
	EmbA `json:"emb"`
	Z    int
}
type EmbTaggedUnexp struct {
	embC `json:"emb"`
	Z    int
}
type EmbPtrTagged struct {
	*EmbA `json:"emb,omitempty"`
	Z     int
}
type L1 struct {
	V   int `json:"v"`
	Dup int
}
type L2 struct {
	L1
	Dup string
}
type L3 struct {
	L2
	V string `json:"w"`
}
type R1 struct{ Same, Only1 int }
type R2 struct{ Same, Only2 int }
type Diamond struct {
	R1
	R2
	N int
}
type Tag1 struct {
	N int `json:"name"`
}
type Tag2 struct{ Name int }
type TagDom struct {
	Tag1
	T2
}
type T2 struct {
	N int `json:"name"`
	M int
}
type NamedVsTagged struct {
	Tag1
	Untag
}
type Untag struct{ name, Name int }
type EmbInt struct {
	MyInt
	MyString
	N int
}
type EmbIntPtr struct {
	*MyInt
	*MyString
	N int
}
type EmbIface struct {
	Shape
	N int
}
type EmbMJ struct {
	MJ
	Z int
}
type EmbMT struct {
	MT
	Z int
}
type EmbTime struct {
	time.Time
	Z int
}
type EmbMap struct {
	MyMap
	MyInts
	MyBytes
	Z int
}
type EmbSame struct {
	EmbSameA
	EmbSameB
}
type EmbSameA struct{ EmbA }
type EmbSameB struct{ EmbA }
type EmbThree struct {
	EmbX1
	EmbX2
	EmbX3
}
type EmbX1 struct {
	F int `json:"f"`
	G int
}
type EmbX2 struct {
	F int `json:"f"`
	G int `json:"G"`
}
type EmbX3 struct {
	F int
	G int
}
type EmbDash struct {
	EmbDashIn
	A int `json:"-"`
	B int `json:"-,"`
	C int `json:"b"`
}
type EmbDashIn struct {
	A int
	D int
}
type embdeepunexp struct {
	embC
	*EmbA
	K int
}
type EmbDeepUnexp struct {
	embdeepunexp
	J int
}
type EmbRec struct {
	*EmbRec
	A int
	B *EmbRec
}

// ---- recursive ----

type List struct {
	V    int
	Next *List `json:",omitempty"`
}
type ListNoOmit struct {
	V    int
	Next *ListNoOmit
}
type Tree struct {
	L, R *Tree
	V    interface{}
	Kids []Tree          `json:"kids,omitempty"`
	M    map[string]Tree `json:",omitempty"`
}
type MutA struct {
	N int
	B *MutB
}
type MutB struct {
	S string
	A []MutA
	M map[MyInt]*MutA
}
type RecMap map[string]RecMap
type RecSlice []RecSlice
type RecPtr *RecPtr
type RecIface struct {
	V interface{}
	R []RecIface
}

// addressability: same type reached as value and through pointer
type AddrMix struct {
	V  PMJ
	P  *PMJ
	S  []PMJ
	A  [2]PMJ
	M  map[string]PMJ
	I  PMJInt
	T  PMT
	TP *PMT
	In AddrIn
	Ip *AddrIn
	Is []AddrIn
}
type AddrIn struct {
	W PMJ
	X PMT
}
type AddrEmb struct {
	AddrIn
	P *AddrIn
	E struct{ AddrIn }
}

// ---- pointer-shaped ----

type PS1 struct{ P *int }
type PS2 struct{ P PS1 }
type PS3 struct{ M map[string]int }
type PS4 struct {
	_ struct{}
	P *int
}
type PS5 struct {
	P *int
	_ [0]int
}
type PS6 struct{ P [1]*int }
type PS7 [1]PS1
type PS8 struct{ P **int }
type PS9 struct {
	P *int `json:",omitempty"`
}
type PS10 struct {
	F func() `json:"-"`
}
type PS11 struct {
	C chan int `json:"-"`
}
type PS12 [1]map[string]int
type PS13 struct{ I interface{} }
type PS14 struct{ N *PS14 }
type PS15 struct{ *EmbA }
type PS16 struct {
	A struct{}
	B *int
	C struct{}
}

// ---- options ----

type AllOmit struct {
	A int                    `json:"a,omitempty"`
	B string                 `json:"b,omitempty"`
	C []int                  `json:"c,omitempty"`
	D map[string]int         `json:"d,omitempty"`
	E *int                   `json:"e,omitempty"`
	F interface{}            `json:"f,omitempty"`
	G bool                   `json:"g,omitempty"`
	H float64                `json:"h,omitempty"`
	I [0]int                 `json:"i,omitempty"`
	J [2]int                 `json:"j,omitempty"`
	K struct{}               `json:"k,omitempty"`
	L json.RawMessage        `json:"l,omitempty"`
	M time.Time              `json:"m,omitempty"`
	N json.Number            `json:"n,omitempty"`
	O Shape                  `json:"o,omitempty"`
	P float32                `json:"p,omitempty"`
	Q uint8                  `json:"q,omitempty"`
	R uintptr                `json:"r,omitempty"`
	S []byte                 `json:"s,omitempty"`
	T MyString               `json:"t,omitempty"`
	U **int                  `json:"u,omitempty"`
	V map[string]interface{} `json:"v,omitempty"`
	W int8                   `json:"w,omitempty"`
	X int16                  `json:"x,omitempty"`
	Y uint32                 `json:"y,omitempty"`
	Z error                  `json:"z,omitempty"`
}
type OnlyOmit struct {
	A int `json:",omitempty"`
	B int `json:",omitempty"`
}
type OmitNest struct {
	A OnlyOmit
	B *OnlyOmit `json:",omitempty"`
	C []OnlyOmit
}
type AllString struct {
	A int      `json:",string"`
	B int8     `json:",string"`
	C uint64   `json:",string"`
	D float32  `json:",string"`
	E float64  `json:",string"`
	F bool     `json:",string"`
	G string   `json:",string"`
	H MyString `json:",string"`
	I int16    `json:"i,omitempty,string"`
	J uintptr  `json:",string"`
	K int64    `json:",string"`
}
type AllStringPtr struct {
	A *int     `json:",string"`
	B *uint8   `json:",string"`
	C *float64 `json:",string"`
	D *bool    `json:",string"`
	E *string  `json:",string"`
	F **int    `json:",string"`
	G *int     `json:",string,omitempty"`
}
type StringIgnored struct {
	A []int           `json:",string"`
	B map[string]int  `json:",string"`
	C interface{}     `json:",string"`
	D struct{ X int } `json:",string"`
	E [2]int          `json:",string"`
	F MJ              `json:",string"`
	G json.RawMessage `json:",string"`
	H MTInt           `json:",string"`
	I MJInt           `json:",string"`
	J json.Number     `json:",string"`
	K time.Duration   `json:",string"`
	L MTString        `json:",string"`
}
type Zeroed struct {
	A int       `json:"a,omitzero"`
	T time.Time `json:"t,omitzero"`
	S struct {
		X int
		Y string
	} `json:"s,omitzero"`
	P *int    `json:"p,omitzero"`
	L []int   `json:"l,omitzero"`
	Z ZeroM   `json:"z,omitzero"`
	Q *ZeroM  `json:"q,omitzero"`
	B ZeroP   `json:"b,omitzero"`
	I IsZeroI `json:"i,omitzero"`
	O []int   `json:"o,omitzero,omitempty"`
}
type ZeroM struct{ N int }

func (z ZeroM) IsZero() bool { return z.N == 42 }

type ZeroP struct{ N int }

func (z *ZeroP) IsZero() bool { return z.N == 42 }

type IsZeroI interface{ IsZero() bool }
type Tags struct {
	A int `json:"a.b-c/d"`
	B int `json:"<&>"`
	C int `json:"Ünïcode"`
	D int `json:"bad\"quote"`
	E int `json:"semi;colon"`
	F int `json:" sp ace "`
	G int `json:"$%-/"`
	H int `json:"ſ"`
	I int `json:"K"`
	J int `json:"back\\slash"`
	K int `json:"日本"`
	L int `json:"comma\,x"`
	M int `json:"'x'"`
	N int `json:""`
	O int `json:",unknownopt"`
	P int `bson:"p"`
	q int
	r *int
}
type CaseFold struct {
	Abc   int
	ABC2  int `json:"aBC2"`
	Kelv  int `json:"kelvinS"`
	Eacc  int `json:"Éa"`
	Lower int `json:"éb"`
	Long  int `json:"Straße"`
	Sig   int `json:"ΣΑΣ"`
	Abd   int `json:"abd"`
	ABD   int `json:"ABD"`
	AbD   int `json:"AbD"`
}

// ---- byte-slice families ----

type ByteFam struct {
	A []byte
	B MyBytes
	C MyU8s
	D []MTByte
	E []MJByte
	F []PMJByte
	G [3]byte
	H []*byte
	I *[]byte
	J [][]byte
	K [2]MTByte
	L []int8
}

// ---- std types ----

type StdTypes struct {
	T  time.Time
	TP *time.Time
	D  time.Duration
	N  json.Number
	NP *json.Number
	R  json.RawMessage
	RP *json.RawMessage
	DP *time.Duration
	BI big.Int
	BP *big.Int
	BF *big.Float
	IP net.IP
	AD netip.Addr
	U  *url.URL
}
type MapFam struct {
	A map[string]string
	B map[int]string
	C map[uint8]bool
	D map[MyString]interface{}
	E map[MTInt]int
	F map[MTString]int
	G map[KStruct]int
	H map[int64]map[string]int
	I map[string]*int
	J map[string]PS1
	K map[string]map[string]int
	L map[uintptr]int
	M map[string]json.RawMessage
	N map[string][]byte
	O map[MyInt8]MJ
	P map[string]Shape
	Q map[netip.Addr]string
	R map[string][1]*int
	S map[string]struct{}
}

// Unsupported kinds.
type UnsupChan struct{ C chan int }
type UnsupFunc struct{ F func() }
type UnsupCplx struct{ C complex128 }
type UnsupMapKey struct{ M map[float64]int }
type UnsupOmit struct {
	C chan int `json:",omitempty"`
	F func()   `json:",omitempty"`
}

var _ = Untag{}.name

// Types lists every type in the zoo, hand written and generated.
func Types() []reflect.Type {
	vals := []interface{}{
		MyBool(false), MyInt(0), MyInt8(0), MyInt16(0), MyInt32(0), MyInt64(0), MyUint(0), MyUint8(0), MyUint16(0), MyUint32(0),
		MyUint64(0), MyUintptr(0), MyF32(0), MyF64(0), MyString(""), MyBytes(nil), MyU8s(nil), MyInts(nil), MyMap(nil), MyAnyMap(nil),
		MyRaw(nil), MyNumber(""), MyDur(0), MyPtr(nil), MyArr{}, MyArr1{},
		MJ{}, PMJ{}, MJInt(0), MJString(""), MJSlice(nil), MJMap(nil), MJPtrShape{}, PMJInt(0), MJSpace{}, MJHTML{},
		MT{}, PMT{}, MTInt(0), MTString(""), KMarshalOnly(0), KUnmarshalOnly(""), KUnmarshalOnlyInt(0), KStruct{}, Both{},
		MTByte(0), MJByte(0), PMJByte(0), HasShape{},
		EmbA{}, EmbB{}, EmbDeep{}, EmbDeep2{}, EmbPtr{}, EmbPtrDeep{}, EmbConflict{}, EmbConflictTag{}, EmbUnexp{}, EmbUnexpPtr{},
		EmbTagged{}, EmbTaggedUnexp{}, EmbPtrTagged{}, L1{}, L2{}, L3{}, Diamond{}, TagDom{}, NamedVsTagged{}, EmbInt{}, EmbIntPtr{},
		EmbIface{}, EmbMJ{}, EmbMT{}, EmbTime{}, EmbMap{}, EmbSame{}, EmbThree{}, EmbDash{}, EmbDeepUnexp{}, EmbRec{},
		List{}, ListNoOmit{}, Tree{}, MutA{}, MutB{}, RecIface{}, RecMap(nil), RecSlice(nil), struct{ P RecPtr }{}, AddrMix{}, AddrIn{}, AddrEmb{},
		PS1{}, PS2{}, PS3{}, PS4{}, PS5{}, PS6{}, PS7{}, PS8{}, PS9{}, PS10{}, PS11{}, PS12{}, PS13{}, PS14{}, PS15{}, PS16{},
		AllOmit{}, OnlyOmit{}, OmitNest{}, AllString{}, AllStringPtr{}, StringIgnored{}, Tags{}, CaseFold{}, ByteFam{}, StdTypes{}, MapFam{}, Zeroed{},
		json.Number(""), json.RawMessage(nil), time.Time{}, time.Duration(0), big.Int{}, net.IP(nil), netip.Addr{}, url.URL{},
		struct{}{}, [0]int{}, []struct{}(nil), map[string]struct{}(nil), [1]map[string]int{}, [1]*int{}, [1][1]*int{}, [2]*int{},
		map[int]int(nil), map[uint64]string(nil), map[MTInt]string(nil), map[MTString]int(nil), map[KStruct]*int(nil), map[KUnmarshalOnly]int(nil),
		map[KMarshalOnly]int(nil), map[KUnmarshalOnlyInt]int(nil), map[*KPtr]int(nil), map[string][1]*int(nil), map[string]PS1(nil), map[string]PS4(nil),
	}
	vals = append(vals, more()...)
	var ts []reflect.Type
	for _, v := range vals {
		ts = append(ts, reflect.TypeOf(v))
	}
	ts = append(ts, reflect.TypeOf((*interface{})(nil)).Elem())
	for _, v := range Generated() {
		ts = append(ts, reflect.TypeOf(v))
	}
	for _, v := range Recursive() {
		ts = append(ts, reflect.TypeOf(v))
	}
	return ts
}

// FailingTypes are types some of whose values must be refused.
func FailingTypes() []reflect.Type {
	vals := []interface{}{UnsupChan{}, UnsupFunc{}, UnsupCplx{}, UnsupMapKey{}, UnsupOmit{}, MJBad{}, MTErr(0), make(chan int), func() {}, complex(1, 1),
		map[float64]int(nil), map[bool]int(nil), map[EmbA]int(nil), map[interface{}]int(nil), map[MTErr]int(nil)}
	var ts []reflect.Type
	for _, v := range vals {
		ts = append(ts, reflect.TypeOf(v))
	}
	return ts
}

// ShapeValues are concrete values for the Shape interface.
var ShapeTypes = []reflect.Type{reflect.TypeOf(Sq{}), reflect.TypeOf(&Ci{}), reflect.TypeOf(&Sq{})}
