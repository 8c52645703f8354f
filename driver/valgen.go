package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"time"

	"github.com/Sereal/Sereal/Go/sereal"
)

// Types to build values from.
type (
	MyInt   int
	MyI8    int8
	MyI64   int64
	MyU16   uint16
	MyU64   uint64
	MyStr   string
	MyF32   float32
	MyF64   float64
	MyBool  bool
	MyBytes []byte
	MySlice []int
	MyMap   map[string]int
	MyKMap  map[MyStr]interface{}
	MyArr   [3]int16

	S0 struct{}
	S1 struct {
		A int
		B string
		c int
	}
	S2 struct {
		X float64       `sereal:"x"`
		Y []S1          `sereal:"a_rather_long_name_for_a_field_that_is_over_31_bytes"`
		Z map[string]S1 `sereal:"A"`
		W *S1
		N bool `sereal:"-"`
	}
	S3 struct {
		I interface{}
		P *S3
		L []*S3
		M map[string]*S3
	}
	S4 struct {
		S1
		Q uint8
		T *map[string]uint16
		E S0
	}
	S5 struct {
		A [2]S1
		B [3]byte
		C []byte
		D MyBytes
		E MyStr
		F MyInt
		G [][]string
	}
	ATypeWithAVeryLongNameThatNeedsMoreThanThirtyOneBytes struct {
		B string
		A MyU64
	}
)

// Frozen marshals itself
type Frozen struct{ V []byte }

func (f Frozen) MarshalBinary() ([]byte, error) {
	if string(f.V) == "fail" {
		return nil, errors.New("refuses")
	}
	return f.V, nil
}

// the calls of unmarshal methods, unless many run at a time
var (
	frozenCalls [][]byte
	dontRecord  bool
)

func recordCall(b []byte) {
	if !dontRecord {
		frozenCalls = append(frozenCalls, append([]byte{}, b...))
	}
}

func (f *Frozen) UnmarshalBinary(b []byte) error {
	recordCall(b)
	if string(b) == "refuse" {
		return errors.New("refuses")
	}
	f.V = append([]byte{}, b...)
	return nil
}

// FrozenStr is a marshaler that is not a struct
type FrozenStr string

func (f FrozenStr) MarshalBinary() ([]byte, error) { return []byte("<" + string(f)), nil }
func (f *FrozenStr) UnmarshalBinary(b []byte) error {
	recordCall(b)
	if len(b) == 0 || b[0] != '<' {
		return errors.New("not mine")
	}
	*f = FrozenStr(b[1:])
	return nil
}

// FrozenMap is a marshaler of map kind
type FrozenMap map[string]int

func (f FrozenMap) MarshalBinary() ([]byte, error) {
	return []byte(strings.Repeat("m", len(f))), nil
}

type SFrozen struct {
	A Frozen
	B *Frozen
	C []Frozen
	D map[string]FrozenStr
	E FrozenStr
	T time.Time
	I interface{}
}

// Chain has one field that can hold anything
type Chain struct{ I interface{} }

// STitle has fields whose keys are those of others with a capital
type STitle struct {
	A    int `sereal:"name"`
	Name int
	Word string
	B    string `sereal:"word"`
	Aa   []int  `sereal:"b"`
}

// SWords has fields whose keys are several words
type SWords struct {
	A int         `sereal:"Some Key"`
	B string      `sereal:"X-Y z"`
	C []int       `sereal:"Two_words Of.It"`
	D interface{} `sereal:"some Other"`
	E int         `sereal:"Some Other"`
	F bool        `sereal:"1st A"`
}

// twins are different types that have the same name
func twin0() reflect.Type {
	type twin struct {
		A interface{}
		B int
		C string
	}
	return reflect.TypeOf(twin{})
}

func twin1() reflect.Type {
	type twin struct {
		A interface{} `sereal:"-"`
		B int         `sereal:"C"`
		C string      `sereal:"A"`
	}
	return reflect.TypeOf(twin{})
}

func twin2() reflect.Type {
	type twin struct {
		A string
		C interface{} `sereal:"x"`
		B []int       `sereal:"B"`
	}
	return reflect.TypeOf(twin{})
}

func typeOf(p interface{}) reflect.Type { return reflect.TypeOf(p).Elem() }

var ifaceType = typeOf((*interface{})(nil))

var leafTypes = []reflect.Type{
	typeOf((*bool)(nil)), typeOf((*int)(nil)), typeOf((*int8)(nil)), typeOf((*int16)(nil)),
	typeOf((*int32)(nil)), typeOf((*int64)(nil)), typeOf((*uint)(nil)), typeOf((*uint8)(nil)),
	typeOf((*uint16)(nil)), typeOf((*uint32)(nil)), typeOf((*uint64)(nil)), typeOf((*float32)(nil)),
	typeOf((*float64)(nil)), typeOf((*string)(nil)), typeOf((*string)(nil)), typeOf((*[]byte)(nil)),
	typeOf((*MyInt)(nil)), typeOf((*MyI8)(nil)), typeOf((*MyI64)(nil)), typeOf((*MyU16)(nil)), typeOf((*MyU64)(nil)),
	typeOf((*MyStr)(nil)), typeOf((*MyF32)(nil)), typeOf((*MyF64)(nil)), typeOf((*MyBool)(nil)), typeOf((*MyBytes)(nil)),
	ifaceType, ifaceType, ifaceType,
}
var structTypes = []reflect.Type{
	typeOf((*S0)(nil)), typeOf((*S1)(nil)), typeOf((*S2)(nil)), typeOf((*S3)(nil)), typeOf((*S4)(nil)), typeOf((*S5)(nil)),
	typeOf((*ATypeWithAVeryLongNameThatNeedsMoreThanThirtyOneBytes)(nil)),
	typeOf((*STitle)(nil)), typeOf((*SWords)(nil)), typeOf((*Chain)(nil)), twin0(), twin1(), twin2(),
	typeOf((*MySlice)(nil)), typeOf((*MyMap)(nil)), typeOf((*MyKMap)(nil)), typeOf((*MyArr)(nil)),
}
var frozenTypes = []reflect.Type{
	typeOf((*Frozen)(nil)), typeOf((*FrozenStr)(nil)), typeOf((*SFrozen)(nil)), typeOf((*time.Time)(nil)), typeOf((*FrozenMap)(nil)),
}

type valGen struct {
	r      *rand.Rand
	budget int
	frozen bool // values that marshal themselves
	ptrs   bool // pointers to anything, shared and cyclic
	perl   bool // Perl wrapper types
	jsonn  bool
	pool   []reflect.Value // pointers made so far
	conts  []reflect.Value // maps and slices made so far
	open   []reflect.Value // containers under construction
	keys   []string
	narrow bool // no container with many elements
	onekey bool // no map with several keys, whose order would be random
	bad    bool // things that cannot be encoded
	refuse bool
}

func (g *valGen) p(n int) bool { return g.r.Intn(100) < n }

// typ makes a random type that survives a typed round trip
func (g *valGen) typ(depth int) reflect.Type {
	if depth <= 0 || g.p(30) {
		if g.frozen && g.p(25) {
			return frozenTypes[g.r.Intn(len(frozenTypes)-1)]
		}
		return leafTypes[g.r.Intn(len(leafTypes))]
	}
	switch g.r.Intn(10) {
	case 0, 1:
		return reflect.SliceOf(g.typ(depth - 1))
	case 2:
		return reflect.ArrayOf(g.r.Intn(4), g.typ(depth-1))
	case 3, 4:
		return reflect.MapOf(typeOf((*string)(nil)), g.typ(depth-1))
	case 5:
		return reflect.MapOf(typeOf((*MyStr)(nil)), g.typ(depth-1))
	case 6:
		if g.ptrs {
			return reflect.PtrTo(g.typ(depth - 1))
		}
		t := structTypes[g.r.Intn(len(structTypes))]
		if g.p(30) {
			t = reflect.MapOf(typeOf((*string)(nil)), g.typ(depth-1))
		}
		if t.Kind() == reflect.Struct || t.Kind() == reflect.Map {
			return reflect.PtrTo(t)
		}
		return t
	case 7: // anonymous struct
		n := g.r.Intn(4)
		var fs []reflect.StructField
		for i := 0; i < n; i++ {
			f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: g.typ(depth - 1)}
			switch g.r.Intn(4) {
			case 0:
				f.Tag = reflect.StructTag(fmt.Sprintf(`sereal:"f-%d"`, i))
			case 1:
				f.Tag = reflect.StructTag(fmt.Sprintf(`json:"x" sereal:"%s%d"`, strings.Repeat("k", 28+g.r.Intn(5)), i))
			}
			fs = append(fs, f)
		}
		return reflect.StructOf(fs)
	}
	if g.frozen && g.p(30) {
		if g.ptrs {
			return frozenTypes[g.r.Intn(len(frozenTypes))]
		}
		return frozenTypes[g.r.Intn(len(frozenTypes)-1)]
	}
	return structTypes[g.r.Intn(len(structTypes))]
}

func (g *valGen) keyCount() int {
	if g.onekey {
		return g.r.Intn(2)
	}
	return g.r.Intn(4)
}

// wide is a number of elements that takes another tag or another byte
func (g *valGen) wide(t reflect.Type) (int, bool) {
	if !g.p(3) || g.narrow {
		return 0, false
	}
	switch t.Kind() {
	case reflect.Struct, reflect.Array, reflect.Slice, reflect.Map, reflect.Ptr:
		return 0, false
	}
	return []int{15, 16, 17, 31, 32, 33, 127, 128, 129, 200, 255, 256, 257}[g.r.Intn(13)], true
}

func (g *valGen) str() string {
	n := lens[g.r.Intn(len(lens))]
	if g.p(6) {
		n = longLens[g.r.Intn(len(longLens))]
	}
	if g.p(5) {
		n = 20 + g.r.Intn(130)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdABCD_01"[g.r.Intn(11)]
		if g.p(3) {
			b[i] = byte(g.r.Intn(256))
		}
	}
	return string(b)
}

func (g *valGen) key() string {
	if len(g.keys) > 0 && g.p(40) {
		return g.keys[g.r.Intn(len(g.keys))]
	}
	k := g.str()
	if g.p(10) {
		k = []string{"S1", "A", "B", "W", "S2", "x", "main.Frozen"}[g.r.Intn(7)]
	}
	g.keys = append(g.keys, k)
	return k
}

func (g *valGen) int64() int64 {
	switch g.r.Intn(5) {
	case 0:
		return int64(g.r.Intn(40) - 20)
	case 1:
		v := int64(1)<<uint(g.r.Intn(64)) + int64(g.r.Intn(3)) - 1
		if g.p(50) {
			v = -v
		}
		return v
	case 2:
		return []int64{math.MinInt64, math.MaxInt64, math.MinInt64 + 1, -1, 0, 15, 16, -16, -17, 127, 128, -128, -129}[g.r.Intn(13)]
	default:
		return int64(g.r.Uint64()) >> uint(g.r.Intn(64))
	}
}

func (g *valGen) float() float64 {
	switch g.r.Intn(5) {
	case 0:
		return []float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1}[g.r.Intn(8)]
	case 1:
		return math.Float64frombits(g.r.Uint64())
	default:
		return float64(g.int64()) / 8
	}
}

// badMap is a map with a key that is no string, among some that may be
func (g *valGen) badMap() reflect.Value {
	var x interface{} = ifv(g.any(0))
	switch g.r.Intn(6) {
	case 0:
		return reflect.ValueOf(map[int]interface{}{g.r.Intn(300): x})
	case 1:
		return reflect.ValueOf(map[bool]interface{}{g.p(50): x})
	case 2:
		return reflect.ValueOf(map[[2]byte]interface{}{{65, 66}: x})
	}
	var k interface{}
	switch g.r.Intn(12) {
	case 0, 1:
	case 2:
		k = g.r.Intn(300)
	case 3:
		k = 2.5
	case 4:
		k = g.p(50)
	case 5:
		k = [3]byte{65, 66, 67}
	case 6:
		s := g.str()
		k = &s
	case 7:
		k = S1{A: 1}
	case 8:
		k = byte(65)
	case 9:
		k = 'x'
	case 10:
		k = &S1{}
	default:
		k = struct{ S string }{"x"}
	}
	m := map[interface{}]interface{}{k: x}
	if g.p(50) {
		m[g.key()] = 1
		m[MyStr("other")] = nil
	}
	if g.p(30) {
		t := reflect.MapOf(ifaceType, typeOf((*int)(nil)))
		n := reflect.MakeMap(t)
		for _, k := range reflect.ValueOf(m).MapKeys() {
			n.SetMapIndex(k, reflect.ValueOf(7))
		}
		return n
	}
	return reflect.ValueOf(m)
}

// any makes a value for an interface
func (g *valGen) any(depth int) reflect.Value {
	g.budget--
	if g.bad && g.p(5) {
		if g.p(40) {
			return g.badMap()
		}
		return []reflect.Value{reflect.ValueOf(make(chan int)), reflect.ValueOf(func() {}), reflect.ValueOf(complex(1, 2)),
			reflect.ValueOf(uintptr(3)), reflect.ValueOf(complex64(1)), reflect.ValueOf((chan int)(nil)), reflect.ValueOf((func())(nil)),
			reflect.ValueOf(&struct{ P uintptr }{}), reflect.ValueOf([]chan int{nil}), reflect.ValueOf([1]func(){}),
			reflect.ValueOf(struct{ C chan int }{}), reflect.ValueOf(Frozen{[]byte("fail")})}[g.r.Intn(12)]
	}
	if depth <= 0 || g.budget <= 0 || g.p(35) {
		switch g.r.Intn(12) {
		case 0:
			return reflect.Value{}
		case 1:
			return reflect.ValueOf(g.r.Intn(40) - 20)
		case 2:
			return reflect.ValueOf(g.str())
		case 3:
			return reflect.ValueOf([]byte(g.str()))
		case 4:
			if g.jsonn {
				return reflect.ValueOf(json.Number([]string{"1", "-7", "1.5", "1e400", "18446744073709551615", "x", "", "-9223372036854775808", "0x10", "99999999999999999999999"}[g.r.Intn(10)]))
			}
		case 5:
			if g.perl {
				switch g.r.Intn(5) {
				case 0:
					return reflect.ValueOf(sereal.PerlCanonicalUndef())
				case 1:
					return reflect.ValueOf(&sereal.PerlUndef{})
				case 2:
					return reflect.ValueOf(sereal.PerlUndef{})
				case 3:
					return reflect.ValueOf(&sereal.PerlRegexp{Pattern: []byte(g.str()), Modifiers: []byte(g.str())})
				default:
					return reflect.ValueOf(sereal.PerlRegexp{Pattern: []byte(g.str()), Modifiers: []byte("ix")})
				}
			}
		}
		t := leafTypes[g.r.Intn(len(leafTypes)-3)]
		if g.frozen && g.p(15) {
			t = frozenTypes[g.r.Intn(2)]
		}
		rv := reflect.New(t).Elem()
		g.fill(rv, 0)
		return rv
	}
	if g.ptrs && len(g.pool) > 0 && g.p(35) {
		return g.pool[g.r.Intn(len(g.pool))]
	}
	if g.ptrs && len(g.conts) > 0 && g.p(10) {
		return g.conts[g.r.Intn(len(g.conts))]
	}
	switch k := g.r.Intn(12); {
	case k < 3:
		n := g.r.Intn(4)
		if w, ok := g.wide(ifaceType); ok {
			n, depth = w, 1
		}
		s := make([]interface{}, n)
		rv := reflect.ValueOf(s)
		for i := range s {
			if x := g.any(depth - 1); x.IsValid() {
				s[i] = x.Interface()
			}
		}
		g.conts = append(g.conts, rv)
		return rv
	case k < 6:
		m := map[string]interface{}{}
		if w, ok := g.wide(ifaceType); ok && !g.onekey {
			for i := 0; i < w; i++ {
				m[fmt.Sprint("k", i)] = i
			}
		}
		for i := g.keyCount(); i > 0; i-- {
			if x := g.any(depth - 1); x.IsValid() {
				m[g.key()] = x.Interface()
			} else {
				m[g.key()] = nil
			}
		}
		rv := reflect.ValueOf(m)
		g.conts = append(g.conts, rv)
		return rv
	case k < 8 && g.ptrs:
		return g.pointer(depth - 1)
	case k < 9 && g.perl:
		in := g.any(depth - 1)
		var x interface{}
		if in.IsValid() {
			x = in.Interface()
		}
		switch g.r.Intn(4) {
		case 0:
			return reflect.ValueOf(sereal.PerlObject{Class: g.key(), Reference: x})
		case 1:
			return reflect.ValueOf(sereal.PerlWeakRef{Reference: x})
		case 2:
			return reflect.ValueOf(&sereal.PerlWeakRef{Reference: x})
		}
		return reflect.ValueOf(&sereal.PerlObject{Class: g.key(), Reference: x})
	}
	rv := reflect.New(g.typ(depth - 1)).Elem()
	g.fill(rv, depth-1)
	return rv
}

// pointer makes a pointer to a new value, which may come to contain it
func (g *valGen) pointer(depth int) reflect.Value {
	var t reflect.Type
	switch g.r.Intn(5) {
	case 0:
		t = ifaceType
	case 1:
		t = typeOf((*S3)(nil))
	default:
		t = g.typ(depth)
	}
	p := reflect.New(t)
	g.pool = append(g.pool, p)
	g.fill(p.Elem(), depth)
	if g.p(30) {
		q := reflect.New(p.Type())
		q.Elem().Set(p)
		g.pool = append(g.pool, q)
	}
	if t.Kind() == reflect.Array && t.Len() > 0 && g.p(50) { // same address, other type
		g.pool = append(g.pool, p.Elem().Index(0).Addr())
	}
	if t.Kind() == reflect.Struct && t.NumField() > 0 && g.p(50) && t.Field(0).PkgPath == "" {
		g.pool = append(g.pool, p.Elem().Field(0).Addr())
	}
	return p
}

// fill gives rv a random value
func (g *valGen) fill(rv reflect.Value, depth int) {
	g.budget--
	t := rv.Type()
	switch t {
	case typeOf((*time.Time)(nil)):
		rv.Set(reflect.ValueOf(time.Unix(g.int64()%4e9, int64(g.r.Intn(1e9))).UTC()))
		return
	case typeOf((*Frozen)(nil)):
		rv.Field(0).SetBytes([]byte(g.str()))
		if g.refuse && g.p(10) {
			rv.Field(0).SetBytes([]byte([]string{"refuse", "fail"}[g.r.Intn(2)]))
		}
		return
	}
	if w := wrapper(t); w > 0 {
		if v := []interface{}{nil, &sereal.PerlObject{Class: "Old", Reference: 1}, &sereal.PerlWeakRef{Reference: "old"},
			&sereal.PerlRegexp{Pattern: []byte("old"), Modifiers: []byte("x")}, &sereal.PerlUndef{}, &sereal.PerlFreeze{Class: "Old", Data: []byte("old")},
		}[w]; g.p(50) {
			rv.Set(reflect.ValueOf(v))
		}
		return
	}
	if g.ptrs && len(g.pool) > 0 && rv.Kind() == reflect.Ptr && g.p(60) {
		for k := 0; k < 6; k++ {
			if x := g.pool[g.r.Intn(len(g.pool))]; x.Type() == t {
				rv.Set(x)
				return
			}
		}
	}
	if g.ptrs && len(g.conts) > 0 && (rv.Kind() == reflect.Map || rv.Kind() == reflect.Slice) && g.p(40) {
		for k := 0; k < 4; k++ {
			if x := g.conts[g.r.Intn(len(g.conts))]; x.Type() == t {
				if x.Kind() == reflect.Slice && g.p(30) {
					x = x.Slice(0, g.r.Intn(x.Len()+1))
				}
				rv.Set(x)
				return
			}
		}
	}
	switch rv.Kind() {
	case reflect.Bool:
		rv.SetBool(g.p(50))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		rv.SetInt(g.int64())
		if g.p(30) {
			rv.SetInt(int64(g.r.Intn(300) - 150))
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		rv.SetUint(uint64(g.int64()))
	case reflect.Float32:
		rv.SetFloat(g.float())
		if g.p(30) {
			f := math.Float32frombits(g.r.Uint32())
			if f != f { // conversion to float64 makes all NaNs quiet
				f = math.Float32frombits(0x7fc00001)
			}
			rv.Set(reflect.ValueOf(f).Convert(t))
		}
	case reflect.Float64:
		rv.SetFloat(g.float())
	case reflect.String:
		rv.SetString(g.str())
	case reflect.Interface:
		if x := g.any(depth); x.IsValid() {
			rv.Set(x)
		}
	case reflect.Slice:
		if g.p(6) {
			return
		}
		n := g.r.Intn(4)
		if t.Elem().Kind() == reflect.Uint8 {
			n = len(g.str())
		} else if g.budget <= 0 {
			n = 0
		} else if w, ok := g.wide(t.Elem()); ok {
			n, depth = w, 1
		}
		rv.Set(reflect.MakeSlice(t, n, n+g.r.Intn(2)))
		for i := 0; i < n; i++ {
			g.fill(rv.Index(i), depth-1)
		}
		if n > 0 { // only now, so that nothing contains itself without a pointer
			g.conts = append(g.conts, rv)
		}
	case reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			g.fill(rv.Index(i), depth-1)
		}
	case reflect.Map:
		if g.p(6) {
			return
		}
		rv.Set(reflect.MakeMap(t))
		n := g.keyCount()
		if g.budget <= 0 {
			n = 0
		}
		w, ok := g.wide(t.Elem())
		if ok && n > 0 && !g.onekey {
			n, depth = w, 1
		}
		for i := 0; i < n; i++ {
			k := reflect.New(t.Key()).Elem()
			if k.SetString(g.key()); i > 3 {
				k.SetString(fmt.Sprint("k", i))
			}
			v := reflect.New(t.Elem()).Elem()
			g.fill(v, depth-1)
			rv.SetMapIndex(k, v)
		}
		g.conts = append(g.conts, rv)
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			if t.Field(i).PkgPath == "" || t.Field(i).Anonymous {
				if t.Field(i).Tag.Get("sereal") != "-" {
					g.fill(rv.Field(i), depth-1)
				}
			}
		}
	case reflect.Ptr:
		if depth <= 0 || g.budget <= 0 || g.p(15) {
			return
		}
		p := reflect.New(t.Elem())
		g.pool = append(g.pool, p)
		g.fill(p.Elem(), depth-1)
		rv.Set(p)
	}
}

// things that share an address, of the same type or of another
type (
	Inner  struct{ X int }
	Outer  struct{ In Inner }
	Outer2 struct {
		O Outer
		S []int
		M map[string]int
	}
	Empty1  struct{}
	Empty2  struct{}
	NamedSl []int
	NamedMp map[string]int
	Loop    struct {
		Next *Loop
		Any  interface{}
		Sl   []*Loop
		Mp   map[string]*Loop
	}
)

// coincide puts pointers into the pool that begin at the same address
func (g *valGen) coincide() {
	add := func(v ...interface{}) {
		for _, x := range v {
			if g.p(70) {
				g.pool = append(g.pool, reflect.ValueOf(x))
			}
		}
	}
	for i := 1 + g.r.Intn(3); i > 0; i-- {
		switch g.r.Intn(9) {
		case 0:
			o := &Outer2{O: Outer{Inner{g.r.Intn(9)}}, S: []int{1, 2}, M: map[string]int{"a": 1}}
			add(o, &o.O, &o.O.In, &o.O.In.X, &o.S, &o.M, o.S, o.M, &o.S[0])
		case 1:
			a := &[3][2]int{{1, 2}, {3, 4}, {5, 6}}
			s := a[:]
			t := a[:2]
			add(a, &a[0], &a[0][0], s, t, &s, &t)
		case 2:
			s := []int{1, 2, 3, 4}
			t, u, n, z := s[:2], s[:4:4], NamedSl(s), s[:0]
			add(s, t, u, n, &s, &t, &u, &n, &z, &s[0])
		case 3:
			s := strings.Repeat(g.str()+"x", 3)
			t, n, u := s[:1], MyStr(s), s
			add(&s, &t, &n, &u)
		case 4:
			add(&Empty1{}, &Empty2{}, &[0]int{}, &[0]string{}, &struct{}{}, &Empty1{}, &[]struct{}{{}}, &[]int{})
		case 5:
			m := map[string]int{"k": g.r.Intn(5)}
			n, w := NamedMp(m), m
			add(m, n, &m, &n, &w)
		case 6:
			l := &Loop{}
			k := &Loop{Next: l}
			ls := []*Loop{l, k, l, nil}
			l.Next = []*Loop{nil, l, k}[g.r.Intn(3)]
			l.Any = []interface{}{l, k, &l, ls, nil, &ls}[g.r.Intn(6)]
			k.Any = []interface{}{l, k, &k, 5, nil}[g.r.Intn(5)]
			k.Sl = [][]*Loop{nil, ls[:1], ls}[g.r.Intn(3)]
			if g.p(50) {
				k.Mp = map[string]*Loop{"l": l, "k": k}
			}
			add(l, k, &l, &k, &l.Next, &l.Any, ls, &ls)
		case 7:
			x := g.r.Intn(100)
			p := &x
			q := &p
			var i interface{} = p
			var j interface{} = q
			add(p, q, &q, &i, &j)
		case 8:
			b := []byte(g.str() + "bb")
			c := b[:1]
			add(b, c, &b, &c, &b[0])
		}
	}
}
