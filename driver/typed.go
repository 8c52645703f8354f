package main

import (
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"time"
	"unsafe"

	"github.com/Sereal/Sereal/Go/sereal"
)

// Types and terms: see spec/SrlTyped.tla.
type typeRec struct {
	K  string  `json:"k"`
	N  int     `json:"n"`
	E  int     `json:"e"`
	Fs []int   `json:"fs"`
	Ks [][]int `json:"ks"`
	X  []int   `json:"x"`
	U  int     `json:"u"`
}

type termRec struct {
	K  string     `json:"k"`
	A  []any_     `json:"a"`
	C  []*termRec `json:"c"`
	Ks [][]int    `json:"ks"`
	O  int        `json:"o"`
}

type any_ = interface{}

type typeTable struct {
	recs []*typeRec
	ids  map[reflect.Type]int
}

func howUnmarshals(t reflect.Type) int {
	switch t {
	case typeOf((*Frozen)(nil)):
		return 1
	case typeOf((*FrozenStr)(nil)):
		return 2
	case typeOf((*time.Time)(nil)):
		return 3
	}
	return 0
}

func (tt *typeTable) id(t reflect.Type) int {
	if n, ok := tt.ids[t]; ok {
		return n
	}
	r := &typeRec{Fs: []int{}, Ks: [][]int{}, X: []int{}, U: howUnmarshals(t)}
	tt.recs = append(tt.recs, r)
	n := len(tt.recs)
	tt.ids[t] = n
	if w := wrapper(t); w > 0 {
		r.K, r.N = "perl", w
		return n
	}
	switch t.Kind() {
	case reflect.Bool:
		r.K = "bool"
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		r.K, r.N = "int", t.Bits()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		r.K, r.N = "uint", t.Bits()
	case reflect.Float32:
		r.K = "f32"
	case reflect.Float64:
		r.K = "f64"
	case reflect.String:
		r.K = "str"
	case reflect.Slice:
		r.K, r.E = "slice", tt.id(t.Elem())
	case reflect.Array:
		r.K, r.N, r.E = "arr", t.Len(), tt.id(t.Elem())
	case reflect.Map:
		r.K, r.E = "map", tt.id(t.Elem())
		if t.Key().Kind() == reflect.String {
			r.N = 1
		}
	case reflect.Ptr:
		r.K, r.E = "ptr", tt.id(t.Elem())
	case reflect.Struct:
		r.K = "struct"
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			key, x := f.Name, 1
			tag := f.Tag.Get("sereal")
			switch {
			case tag == "-":
				x = 0
			case tag != "":
				key = tag
				if f.PkgPath != "" {
					x = 2
				}
			case f.PkgPath != "":
				x = 0
			}
			r.Fs = append(r.Fs, tt.id(f.Type))
			r.Ks = append(r.Ks, str(key))
			r.X = append(r.X, x)
		}
	case reflect.Interface:
		r.K = "other"
		if t.NumMethod() == 0 {
			r.K = "any"
		}
	default:
		r.K = "other"
	}
	return n
}

var wrappers = []reflect.Type{typeOf((**sereal.PerlObject)(nil)), typeOf((**sereal.PerlWeakRef)(nil)),
	typeOf((**sereal.PerlRegexp)(nil)), typeOf((**sereal.PerlUndef)(nil)), typeOf((**sereal.PerlFreeze)(nil))}

// wrapper tells which Perl wrapper t is a pointer to
func wrapper(t reflect.Type) int {
	for i, w := range wrappers {
		if t == w {
			return i + 1
		}
	}
	return 0
}

// SPerl has fields for what only Perl has
type SPerl struct {
	O *sereal.PerlObject
	W *sereal.PerlWeakRef
	R *sereal.PerlRegexp
	U *sereal.PerlUndef
	F *sereal.PerlFreeze
	A interface{}
	N int
	L []interface{}          `sereal:"list"`
	M map[string]interface{} `sereal:"map"`
	P *SPerl
}

var perlTypes = append([]reflect.Type{
	typeOf((*SPerl)(nil)), typeOf((*SPerl)(nil)), typeOf((*SPerl)(nil)), typeOf((*SPerl)(nil)), typeOf((*[]SPerl)(nil)),
	typeOf((*[]*sereal.PerlObject)(nil)), typeOf((*map[string]*sereal.PerlRegexp)(nil)), typeOf((*[2]*sereal.PerlWeakRef)(nil)),
	typeOf((*map[string]interface{})(nil)), typeOf((*[]interface{})(nil)), ifaceType,
}, wrappers...)

func newTerm(k string) *termRec {
	return &termRec{K: k, A: []any_{}, C: []*termRec{}, Ks: [][]int{}}
}

func leafTerm(t tok) *termRec {
	r := newTerm("leaf")
	for _, x := range t {
		r.A = append(r.A, x)
	}
	return r
}

func normUint(u uint64) tok {
	if u < 1<<63 {
		return intTok(int64(u))
	}
	return uintTok(u)
}

// termsLeft bounds the size of a term
var termsLeft int

// things numbers the things of a record; it keeps them alive, so that their
// addresses stay theirs
type thing struct {
	addr uintptr
	t    reflect.Type
}

var (
	things map[thing]int
	kept   []reflect.Value
)

func identity(rv reflect.Value) int {
	switch rv.Kind() {
	case reflect.Slice:
		if rv.Len() == 0 || rv.Type().Elem().Size() == 0 {
			return 0
		}
	case reflect.Ptr:
		if rv.IsNil() || rv.Type().Elem().Size() == 0 {
			return 0
		}
	case reflect.Map:
		if rv.IsNil() {
			return 0
		}
	default:
		return 0
	}
	k := thing{rv.Pointer(), rv.Type()}
	if _, ok := things[k]; !ok {
		things[k] = len(things) + 1
		kept = append(kept, reflect.ValueOf(rv.Interface()))
	}
	return things[k]
}

// term describes a variable's content, unexported fields included; "cut" marks
// what is too deep or too much
func term(rv reflect.Value, depth int) *termRec {
	if depth == 0 {
		termsLeft = 5000
	}
	if termsLeft--; depth > 60 || termsLeft < 0 {
		return newTerm("cut")
	}
	if wrapper(rv.Type()) > 0 {
		r := newTerm("any")
		if rv.IsNil() {
			r.A = append(r.A, tok{kNil})
			return r
		}
		for _, t := range dump(rv.Interface()) {
			r.A = append(r.A, t)
		}
		return r
	}
	switch rv.Kind() {
	case reflect.Bool:
		if rv.Bool() {
			return leafTerm(tok{kBool, 1})
		}
		return leafTerm(tok{kBool, 0})
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return leafTerm(intTok(rv.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return leafTerm(normUint(rv.Uint()))
	case reflect.Float32:
		return leafTerm(f32Tok(float32(rv.Float())))
	case reflect.Float64:
		return leafTerm(f64Tok(rv.Float()))
	case reflect.String:
		return leafTerm(withBytes(kStr, []byte(rv.String())))
	case reflect.Slice, reflect.Array:
		r := newTerm("slice")
		r.O = identity(rv)
		for i := 0; i < rv.Len(); i++ {
			r.C = append(r.C, term(rv.Index(i), depth+1))
		}
		return r
	case reflect.Map:
		r := newTerm("map")
		r.O = identity(rv)
		if rv.Type().Key().Kind() != reflect.String {
			return r
		}
		ks := rv.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
		for _, k := range ks {
			r.Ks = append(r.Ks, str(k.String()))
			r.C = append(r.C, term(rv.MapIndex(k), depth+1))
		}
		return r
	case reflect.Struct:
		if !rv.CanAddr() {
			n := reflect.New(rv.Type()).Elem()
			n.Set(rv)
			rv = n
		}
		r := newTerm("struct")
		for i := 0; i < rv.NumField(); i++ {
			r.C = append(r.C, term(exposed(rv.Field(i)), depth+1))
		}
		return r
	case reflect.Ptr:
		r := newTerm("ptr")
		r.O = identity(rv)
		if !rv.IsNil() {
			r.C = append(r.C, term(rv.Elem(), depth+1))
		}
		return r
	case reflect.Interface:
		if rv.NumMethod() == 0 {
			r := newTerm("any")
			for _, t := range dump(rv.Interface()) {
				r.A = append(r.A, t)
			}
			return r
		}
	}
	return leafTerm(tok{kOther})
}

// exposed lifts the restrictions on an unexported field
func exposed(f reflect.Value) reflect.Value {
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

// setHidden gives the fields that do not take part some content
func setHidden(rv reflect.Value, r *rand.Rand) {
	if wrapper(rv.Type()) > 0 {
		return
	}
	switch rv.Kind() {
	case reflect.Struct:
		if howUnmarshals(rv.Type()) == 3 {
			return
		}
		for i := 0; i < rv.NumField(); i++ {
			f := exposed(rv.Field(i))
			sf := rv.Type().Field(i)
			if sf.PkgPath != "" && !sf.Anonymous || sf.Tag.Get("sereal") == "-" {
				switch f.Kind() {
				case reflect.Int:
					f.SetInt(int64(r.Intn(9)))
				case reflect.Bool:
					f.SetBool(r.Intn(2) == 0)
				case reflect.String:
					f.SetString("hidden")
				}
			} else {
				setHidden(f, r)
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			setHidden(rv.Index(i), r)
		}
	case reflect.Ptr:
		if !rv.IsNil() {
			setHidden(rv.Elem(), r)
		}
	}
}

// typedGen writes documents that mostly fit a type
type typedGen struct {
	docGen
	at     map[reflect.Type][]int // items by the type they fit
	closed map[reflect.Type][]int // those that may be copied
	misfit int                    // percentage of items that need not fit
	bad    bool                   // copies of anything, damage
	perl   bool                   // for a Perl-compatible decoder
}

func (g *typedGen) key(t reflect.Type) string {
	pool := []string{"a", "b", "A", "", "key", "x y", "B", "\xc3\xa9", "a_rather_long_key_that_is_over_31_bytes_long"}
	if t != nil && t.NumField() > 0 && !g.p(15) {
		f := t.Field(g.r.Intn(t.NumField()))
		k := f.Tag.Get("sereal")
		if k == "" || k == "-" || g.p(10) {
			k = f.Name
		}
		if g.p(30) {
			k = lowerFirst(k)
		}
		return k
	}
	return pool[g.r.Intn(len(pool))]
}

func lowerFirst(k string) string {
	if k == "" {
		return k
	}
	if strings.IndexAny(k, " -.") > 0 && len(k)%3 > 0 { // all of its words
		return strings.ToLower(k)
	}
	return strings.ToLower(k[:1]) + k[1:]
}

func (g *typedGen) keyString(k string) {
	g.pads()
	// an earlier copy of the same string?
	if g.p(20) {
		for _, s := range g.strs {
			if t := g.b[s-1] & 0x7f; t == 0x60+byte(len(k)) && len(k) < 32 && string(g.b[s:s+len(k)]) == k {
				g.tag(tCOPY)
				g.offs(s)
				return
			}
		}
	}
	switch {
	case len(k) < 32 && g.p(70):
		g.strs = append(g.strs, g.tag(0x60+byte(len(k))))
	case g.p(50):
		g.strs = append(g.strs, g.tag(tUTF8))
		g.varint(uint64(len(k)))
	default:
		g.strs = append(g.strs, g.tag(tBINARY))
		g.varint(uint64(len(k)))
	}
	g.b = append(g.b, k...)
}

func (g *typedGen) int(bits int, signed bool) {
	v := int64(g.randUint())
	if bits < 64 && g.p(97) {
		v &= 1<<uint(bits) - 1
		if signed {
			v = v << uint(64-bits) >> uint(64-bits)
		}
	}
	switch {
	case v >= 0 && v < 16 && g.p(70):
		g.tag(byte(v))
	case v < 0 && v >= -16 && signed && g.p(70):
		g.tag(byte(v + 32))
	case v >= 0 && g.p(70), !signed:
		g.tag(tVARINT)
		g.varint(uint64(v))
	default:
		g.tag(tZIGZAG)
		g.varint(uint64(v<<1 ^ v>>63))
	}
}

func (g *typedGen) frozenItem() {
	if len(g.classes) > 0 && g.p(40) {
		g.tag(tFREEZEV)
		g.offs(g.classes[g.r.Intn(len(g.classes))])
	} else {
		g.tag(tFREEZE)
		g.keyString([]string{"main.Frozen", "main.FrozenStr", "Reg1", "Reg2", "Unknown"}[g.r.Intn(5)])
		g.classes = append(g.classes, g.strs[len(g.strs)-1])
	}
	g.b = append(g.b, tREFN, tARRAY, 1)
	data := []byte("<" + []string{"", "x", "abc", "\xff\x00"}[g.r.Intn(4)])
	switch g.r.Intn(12) {
	case 0:
		data = []byte("refuse")
	case 1:
		data = nil
	case 2:
		data = []byte("other")
	case 3:
		data = append([]byte("<"), g.bytes(g.randLen()%40)...)
	}
	if len(data) < 32 && g.p(60) {
		g.tag(0x60 + byte(len(data)))
	} else {
		g.tag(tBINARY)
		g.varint(uint64(len(data)))
	}
	g.b = append(g.b, data...)
}

// elems emits an array of n items of type t, or of any
func (g *typedGen) elems(n int, t reflect.Type, depth int) {
	if n < 16 && g.p(30) {
		g.tag(0x40 + byte(n))
	} else {
		g.tag(tARRAY)
		g.varint(uint64(n))
	}
	for i := 0; i < n; i++ {
		g.typedItem(t, depth-1)
	}
}

func (g *typedGen) hashTag(n int) {
	if n < 16 && g.p(30) {
		g.tag(0x50 + byte(n))
	} else {
		g.tag(tHASH)
		g.varint(uint64(n))
	}
}

func (g *typedGen) typedItem(t reflect.Type, depth int) {
	g.pads()
	g.budget--
	if g.p(g.misfit) {
		g.item(2, nil)
		return
	}
	if at := g.at[t]; len(at) > 0 && (g.p(8) || g.share && g.p(25)) {
		p := at[g.r.Intn(len(at))]
		g.setTracked(p)
		g.tag([]byte{tREFP, tALIAS}[g.r.Intn(2)])
		g.offs(p)
		return
	}
	if at := g.closed[t]; len(at) > 0 && (g.p(8) || g.bad && g.p(25)) {
		g.tag(tCOPY)
		g.offs(at[g.r.Intn(len(at))])
		g.copies++
		return
	}
	if g.p(3) && !(g.perl && g.p(90)) {
		g.tag([]byte{tUNDEF, tCUNDEF}[g.r.Intn(2)])
		return
	}
	start, copies := len(g.b)+1, g.copies
	switch {
	case g.p(8):
		g.tag(tREFN)
	case g.p(6) && !(g.perl && g.p(95)):
		g.tag(tOBJECT)
		g.keyString([]string{"Class", "S1", "X"}[g.r.Intn(3)])
	case g.p(3) && !(g.perl && g.p(95)):
		g.tag(tWEAKEN)
		g.tag(tREFN)
	}
	defer func() {
		g.at[t] = append(g.at[t], start)
		if g.copies == copies || g.bad && g.p(50) {
			g.closed[t] = append(g.closed[t], start)
		}
	}()
	if u := howUnmarshals(t); (u == 1 || u == 2) && !g.p(10) || t.Kind() == reflect.Interface && g.frozen && g.p(50) {
		g.frozenItem()
		return
	}
	switch wrapper(t) {
	case 1:
		if len(g.classes) > 0 && g.p(40) {
			g.tag(tOBJECTV)
			g.offs(g.classes[g.r.Intn(len(g.classes))])
		} else {
			g.tag(tOBJECT)
			g.keyString([]string{"Class", "S1", "X"}[g.r.Intn(3)])
			g.classes = append(g.classes, g.strs[len(g.strs)-1])
		}
		g.item(depth-1, nil)
		return
	case 2:
		g.tag(tWEAKEN)
		g.tag(tREFN)
		g.item(depth-1, nil)
		return
	case 3:
		g.tag(tREGEXP)
		g.keyString(g.key(nil))
		g.keyString([]string{"", "i", "msix"}[g.r.Intn(3)])
		return
	case 4:
		g.tag([]byte{tUNDEF, tCUNDEF}[g.r.Intn(2)])
		return
	case 5:
		g.frozenItem()
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		g.tag([]byte{tTRUE, tFALSE}[g.r.Intn(2)])
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		g.int(t.Bits(), true)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		g.int(t.Bits(), false)
	case reflect.Float32, reflect.Float64:
		if g.p(60) == (t.Kind() == reflect.Float32) {
			g.tag(tFLOAT)
			for _, x := range f32Tok(float32(g.r.Intn(1000)-500) / 8)[1:] {
				g.b = append(g.b, byte(x))
			}
		} else {
			g.tag(tDOUBLE)
			f := float64(g.r.Intn(1000)-500) / 8
			if g.p(20) {
				f = g.r.NormFloat64()
			}
			for _, x := range f64Tok(f)[1:] {
				g.b = append(g.b, byte(x))
			}
		}
	case reflect.String:
		g.rawString()
	case reflect.Slice, reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 && g.p(80) {
			b := g.bytes(g.randLen() % 40)
			if len(b) < 32 && g.p(50) {
				g.tag(0x60 + byte(len(b)))
			} else {
				g.tag(tBINARY)
				g.varint(uint64(len(b)))
			}
			g.b = append(g.b, b...)
			return
		}
		n := g.r.Intn(5)
		if depth <= 0 || g.budget <= 0 {
			n = g.r.Intn(2)
		}
		if depth < -3 {
			n = 0
		}
		g.elems(n, t.Elem(), depth)
	case reflect.Map:
		n := g.r.Intn(4)
		if depth <= 0 || g.budget <= 0 {
			n = 0
		}
		g.hashTag(n)
		for i := 0; i < n; i++ {
			g.keyString(g.key(nil))
			g.typedItem(t.Elem(), depth-1)
		}
	case reflect.Struct:
		n := g.r.Intn(t.NumField() + 2)
		if depth <= 0 || g.budget <= 0 {
			n = 0
		}
		g.hashTag(n)
		order := g.r.Perm(t.NumField())
		for i := 0; i < n; i++ {
			k := g.key(t)
			if i < len(order) && g.p(85) { // every field once
				if f := t.Field(order[i]); f.Tag.Get("sereal") != "" {
					k = f.Tag.Get("sereal")
				} else {
					k = f.Name
				}
				if g.p(15) {
					k = lowerFirst(k)
				}
			}
			g.keyString(k)
			var ft reflect.Type = ifaceType
			for j := 0; j < t.NumField(); j++ {
				f := t.Field(j)
				tag := f.Tag.Get("sereal")
				if tag == "-" || tag == "" && f.PkgPath != "" {
					continue
				}
				if tag == "" {
					tag = f.Name
				}
				if tag == k || ft == ifaceType && strings.Title(k) == tag {
					ft = f.Type
				}
			}
			g.typedItem(ft, depth-1)
		}
	case reflect.Ptr:
		g.typedItem(t.Elem(), depth-1)
	default:
		g.item(depth, nil)
	}
}

type regRec struct {
	C []int `json:"c"`
	U int   `json:"u"`
}

type typedRec struct {
	GenS  int64      `json:"gens"`
	GenM  string     `json:"genm"`
	D     []int      `json:"d"`
	Infl  inflation  `json:"infl"`
	Zstd  bool       `json:"zstd"`
	Types []*typeRec `json:"types"`
	T     int        `json:"t"`
	Tname string     `json:"tname"`
	Mem   string     `json:"mem"` // see docRec
	Perl  bool       `json:"perl"`
	Nori  bool       `json:"nori"`
	Init  *termRec   `json:"init"`
	Reg   []regRec   `json:"reg"`
	Ok    bool       `json:"ok"`
	Err   string     `json:"err"`
	Val   *termRec   `json:"val"`
	Calls [][]int    `json:"calls"`
	Note  string     `json:"note,omitempty"`
	Rest  []*termRec `json:"rest"`  // what lay behind the ends of slices
	Rest2 []*termRec `json:"rest2"` // and lies there now

	rest []reflect.Value
}

// room gives slices room behind their ends, with something in it
func (r *typedRec) room(rv reflect.Value, g *valGen) {
	if wrapper(rv.Type()) > 0 {
		return
	}
	switch rv.Kind() {
	case reflect.Slice:
		for i := 0; i < rv.Len(); i++ {
			r.room(rv.Index(i), g)
		}
		if !rv.CanSet() || g.r.Intn(3) > 0 {
			return
		}
		n := rv.Len() + 1 + g.r.Intn(6)
		s := reflect.MakeSlice(rv.Type(), n, n)
		reflect.Copy(s, rv)
		for i := rv.Len(); i < n; i++ {
			g.fill(s.Index(i), 1)
		}
		r.rest = append(r.rest, s.Slice(rv.Len(), n))
		rv.Set(s.Slice(0, rv.Len()))
	case reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			r.room(rv.Index(i), g)
		}
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			r.room(rv.Field(i), g)
		}
	case reflect.Ptr:
		if !rv.IsNil() {
			r.room(rv.Elem(), g)
		}
	}
}

func (r *typedRec) restTerms() []*termRec {
	s := []*termRec{}
	for _, x := range r.rest {
		t := term(x, 0)
		strip(t)
		s = append(s, t)
	}
	return s
}

func strip(t *termRec) {
	t.O = 0
	for _, c := range t.C {
		strip(c)
	}
}

// setup makes a document and a destination for it
func (r *typedRec) setup() (doc []byte, dest reflect.Value, rnd *rand.Rand) {
	rnd = rand.New(rand.NewSource(r.GenS))
	vg := &valGen{r: rnd, budget: 12, frozen: r.GenM == "frozen"}
	t := vg.typ(1 + rnd.Intn(4))
	switch rnd.Intn(6) {
	case 0, 1:
		t = structTypes[rnd.Intn(len(structTypes))]
		if r.GenM == "frozen" {
			t = []reflect.Type{typeOf((*SFrozen)(nil)), typeOf((*SFrozen)(nil)), typeOf((*Frozen)(nil)), typeOf((*[]FrozenStr)(nil)),
				typeOf((*map[string]*Frozen)(nil)), typeOf((*[]interface{})(nil)), typeOf((*[2]*FrozenStr)(nil)), ifaceType}[rnd.Intn(8)]
		}
	case 2:
		t = reflect.SliceOf(t)
	}
	if r.GenM == "share" {
		t = []reflect.Type{reflect.SliceOf(t), reflect.MapOf(typeOf((*string)(nil)), t), structTypes[rnd.Intn(len(structTypes))],
			reflect.ArrayOf(3, t), reflect.SliceOf(reflect.PtrTo(structTypes[rnd.Intn(len(structTypes))])),
			reflect.MapOf(typeOf((*string)(nil)), reflect.SliceOf(t)), typeOf((*[]map[string]int)(nil)), typeOf((*Loop)(nil))}[rnd.Intn(8)]
	}
	if r.GenM == "perl" {
		m := rnd.Intn(8)
		r.Perl, r.Nori = m < 5, m > 3
		if rnd.Intn(5) > 0 {
			t = perlTypes[rnd.Intn(len(perlTypes))]
		}
	}
	tt := &typeTable{ids: map[reflect.Type]int{}}
	r.T = tt.id(t)
	r.Types, r.Tname = tt.recs, t.String()
	dest = reflect.New(t)
	if rnd.Intn(2) == 0 {
		vg.budget = 10
		vg.fill(dest.Elem(), 3)
		setHidden(dest.Elem(), rnd)
	}
	if rnd.Intn(3) == 0 {
		r.room(dest.Elem(), &valGen{r: rnd, budget: 10, narrow: true})
	}
	if r.GenM == "frozen" && rnd.Intn(3) == 0 {
		hold(dest.Elem(), rnd)
	}
	version := []int{1, 2, 3, 4}[rnd.Intn(4)]
	var suffix []byte
	if rnd.Intn(5) == 0 {
		suffix = randSuffix(rnd)
	}
	typ := 0
	if rnd.Intn(6) == 0 {
		typ = []int{0, 1, 2, 3, 3}[version]
	}
	g := &typedGen{at: map[reflect.Type][]int{}, closed: map[reflect.Type][]int{}}
	g.docGen = docGen{r: rnd, frozen: true, budget: 25, simple: rnd.Intn(3) == 0}
	g.misfit = []int{0, 0, 0, 4, 12}[rnd.Intn(5)]
	if version == 1 {
		g.shift = len(header(version, typ, suffix)) - 1
	}
	g.bad, g.perl = r.GenM == "bad", r.Perl
	if g.share = r.GenM == "share"; g.share {
		g.misfit, g.budget = g.misfit/6, 40
	}
	g.typedItem(t, 5)
	if g.bad && rnd.Intn(4) == 0 {
		g.disturb()
	}
	doc = wrap(version, typ, suffix, g.b, -1)
	if rnd.Intn(12) == 0 || g.bad && rnd.Intn(5) < 3 {
		doc = mutate(rnd, doc, len(doc)-len(g.b)/2-1)
	}
	r.D, r.Infl, r.Zstd = ints(doc), inflate(doc), haveZstd
	return
}

// what was registered with decoders used again
var registered = map[*sereal.Decoder][]regRec{}

func (r *typedRec) run() {
	doc, dest, rnd := r.setup()
	doc = place(doc)
	things, kept = map[thing]int{}, nil
	r.Init = term(dest.Elem(), 0)
	r.Rest = r.restTerms()
	d := &sereal.Decoder{PerlCompat: r.Perl, DisableReferentialIntegrity: r.Nori}
	r.Reg = []regRec{}
	if reuse {
		d = decoder(r.Perl, r.Nori)
		r.Reg = append(r.Reg, registered[d]...)
		defer func() { registered[d] = append([]regRec{}, r.Reg...) }()
	}
	if r.GenM == "frozen" {
		if rnd.Intn(2) == 0 {
			d.RegisterName("Reg1", []interface{}{Frozen{}, &Frozen{}}[rnd.Intn(2)])
			r.Reg = append(r.Reg, regRec{str("Reg1"), 1})
		}
		if rnd.Intn(2) == 0 {
			d.RegisterName("Reg2", []interface{}{FrozenStr(""), new(FrozenStr)}[rnd.Intn(2)])
			r.Reg = append(r.Reg, regRec{str("Reg2"), 2})
		}
		if rnd.Intn(3) == 0 { // registering again replaces
			d.RegisterName("main.Frozen", FrozenStr(""))
			d.RegisterName("main.Frozen", &Frozen{})
			r.Reg = append(r.Reg, regRec{str("main.Frozen"), 2}, regRec{str("main.Frozen"), 1})
		}
	}
	frozenCalls = nil
	err, p := guard(func() error { return d.Unmarshal(doc, dest.Interface()) })
	r.Ok, r.Err, r.Note = err == nil && p == "", errKind(err, p), p
	if err != nil {
		r.Note = err.Error()
	}
	r.Calls = [][]int{}
	for _, c := range frozenCalls {
		r.Calls = append(r.Calls, ints(c))
	}
	r.Rest2 = r.restTerms()
	r.Val = newTerm("none")
	if r.Ok {
		r.Val = term(dest.Elem(), 0)
	}
	r.Mem = separate(r.D, doc, r.Ok, func() interface{} { return term(dest.Elem(), 0) })
}

// hold puts values that unmarshal themselves into interfaces
func hold(rv reflect.Value, r *rand.Rand) {
	switch rv.Kind() {
	case reflect.Interface:
		if r.Intn(3) > 0 && rv.NumMethod() == 0 && rv.CanSet() {
			s := FrozenStr("held")
			rv.Set(reflect.ValueOf([]interface{}{&Frozen{[]byte("held")}, &s}[r.Intn(2)]))
		}
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			hold(rv.Field(i), r)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			hold(rv.Index(i), r)
		}
	}
}

func init() {
	commands["into"] = func() {
		rec := newRecorder()
		rnd := rand.New(rand.NewSource(*seed))
		for rec.n < *count {
			r := &typedRec{GenS: rnd.Int63(), GenM: *mode}
			if reuse = *mode == "reuse"; reuse {
				r.GenM = []string{"", "frozen", "share", "perl"}[rnd.Intn(4)]
			}
			rec.about(r)
			r.run()
			if len(r.D) > 700 {
				continue
			}
			rec.put(r)
		}
		rec.close()
	}
	redoers["into"] = func(l []byte, rec *recorder) {
		old := &typedRec{}
		parse(l, old)
		r := &typedRec{GenS: old.GenS, GenM: old.GenM}
		rec.about(r)
		r.run()
		rec.put(r)
	}
}
