package main

import (
	"math"
	"reflect"
	"sort"

	"github.com/Sereal/Sereal/Go/sereal"
)

// Value tokens: see spec/SrlGoView.tla. A Go value is a preorder sequence of
// tokens, each a sequence of small numbers starting with its kind.
const (
	kNil = iota
	kBool
	kInt
	kUint
	kF32
	kF64
	kStr
	kBin
	kSlice
	kMap
	kKey
	kBack
	kPtr
	kUndef
	kCUndef
	kWeak
	kObj
	kRe
	kFrz
	kUnm
	kOther   = 98
	kTooDeep = 99
)

type tok = []int
type toks = []tok

func digits(u uint64) []int {
	d := []int{}
	for u > 0 {
		d = append(d, int(u&127))
		u >>= 7
	}
	return d
}

func withBytes(k int, b []byte) tok {
	t := make(tok, 1, len(b)+1)
	t[0] = k
	for _, c := range b {
		t = append(t, int(c))
	}
	return t
}

func intTok(i int64) tok {
	if i >= 0 {
		return append(tok{kInt, 0}, digits(uint64(i))...)
	}
	return append(tok{kInt, 1}, digits(uint64(^i))...)
}

func uintTok(u uint64) tok { return append(tok{kUint, 0}, digits(u)...) }

func f32Tok(f float32) tok {
	u := math.Float32bits(f)
	return tok{kF32, int(u & 255), int(u >> 8 & 255), int(u >> 16 & 255), int(u >> 24)}
}

func f64Tok(f float64) tok {
	u := math.Float64bits(f)
	t := tok{kF64}
	for i := 0; i < 8; i++ {
		t = append(t, int(u>>(8*uint(i))&255))
	}
	return t
}

type dumper struct {
	out   toks
	seen  map[[3]uintptr]int
	n     int
	depth int
	limit int
}

// dump gives the tokens of a generic (decoded) value.
func dump(v interface{}) toks {
	d := &dumper{seen: map[[3]uintptr]int{}, limit: 1 << 20}
	d.value(v)
	return d.out
}

func (d *dumper) add(t tok) { d.out = append(d.out, t) }

// name numbers an identity, or emits a back reference and reports true.
func (d *dumper) name(kind, a, b uintptr) bool {
	k := [3]uintptr{kind, a, b}
	if n, ok := d.seen[k]; ok {
		d.add(append(tok{kBack}, n))
		return true
	}
	d.seen[k] = d.n
	d.n++
	return false
}

func (d *dumper) value(v interface{}) {
	d.depth++
	defer func() { d.depth-- }()
	if d.depth > 3000 || len(d.out) > d.limit {
		d.add(tok{kTooDeep})
		return
	}
	switch x := v.(type) {
	case nil:
		d.add(tok{kNil})
	case bool:
		if x {
			d.add(tok{kBool, 1})
		} else {
			d.add(tok{kBool, 0})
		}
	case int:
		d.add(intTok(int64(x)))
	case uint:
		d.add(uintTok(uint64(x)))
	case float32:
		d.add(f32Tok(x))
	case float64:
		d.add(f64Tok(x))
	case string:
		d.add(withBytes(kStr, []byte(x)))
	case []byte:
		d.add(withBytes(kBin, x))
	case []interface{}:
		if len(x) == 0 {
			d.add(tok{kSlice})
			return
		}
		if d.name(1, reflect.ValueOf(x).Pointer(), uintptr(len(x))) {
			return
		}
		d.add(append(tok{kSlice}, digits(uint64(len(x)))...))
		for _, e := range x {
			d.value(e)
		}
	case map[string]interface{}:
		if d.name(2, reflect.ValueOf(x).Pointer(), 0) {
			return
		}
		d.add(append(tok{kMap}, digits(uint64(len(x)))...))
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			d.add(withBytes(kKey, []byte(k)))
			d.value(x[k])
		}
	case *sereal.PerlUndef:
		if x == sereal.PerlCanonicalUndef() {
			d.add(tok{kCUndef})
		} else {
			d.add(tok{kUndef})
		}
	case *sereal.PerlWeakRef:
		if d.name(3, reflect.ValueOf(x).Pointer(), 0) {
			return
		}
		d.add(tok{kWeak})
		d.value(x.Reference)
	case *sereal.PerlObject:
		if d.name(4, reflect.ValueOf(x).Pointer(), 0) {
			return
		}
		d.add(withBytes(kObj, []byte(x.Class)))
		d.value(x.Reference)
	case *sereal.PerlRegexp:
		d.add(tok{kRe})
		d.add(withBytes(kBin, x.Pattern))
		d.add(withBytes(kBin, x.Modifiers))
	case *sereal.PerlFreeze:
		d.add(withBytes(kFrz, []byte(x.Class)))
		d.add(withBytes(kBin, x.Data))
	case *Frozen:
		d.add(append(tok{kUnm, 1}, ints(x.V)...))
	case *FrozenStr:
		d.add(append(tok{kUnm, 2}, ints([]byte("<"+string(*x)))...))
	case *interface{}:
		if x == nil {
			d.add(tok{kOther})
			return
		}
		if *x == nil { // what a reference to undef decodes to, without identity
			d.add(tok{kPtr})
			d.add(tok{kNil})
			return
		}
		if d.name(5, reflect.ValueOf(x).Pointer(), 0) {
			return
		}
		d.add(tok{kPtr})
		d.value(*x)
	default:
		rv := reflect.ValueOf(v)
		if rv.Kind() == reflect.Ptr && !rv.IsNil() {
			d.add(tok{kPtr})
			d.value(rv.Elem().Interface())
			return
		}
		d.add(withBytes(kOther, []byte(rv.Type().String())))
	}
}
