package main

import (
	"bytes"
	"compress/zlib"
	"io"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"time"

	"github.com/Sereal/Sereal/Go/sereal"
	"github.com/golang/snappy"
)

// What a call costs: see spec/T_Safe.tla.
type safeRec struct {
	GenS  int64  `json:"gens"`
	GenM  string `json:"genm"`  // how the document was made
	Fam   string `json:"fam"`   // what is nested in what, if that is the point
	Depth int    `json:"depth"` // how often
	Entry string `json:"entry"` // which call
	Ver   int    `json:"ver"`
	Typ   int    `json:"typ"`
	Len   int    `json:"len"`  // bytes given
	Infl  int    `json:"infl"` // bytes they inflate to, cut off at a gigabyte
	Copy  int    `json:"copy"` // COPY tags, at most
	Alloc int    `json:"alloc"`
	Ms    int    `json:"ms"`
	Ok    bool   `json:"ok"`
	Err   string `json:"err"`
	Note  string `json:"note,omitempty"`
}

var safeEntries = []string{"iface", "perl", "nori", "typed", "header", "both", "looks", "decompress", "append"}

type deepStruct struct {
	S *deepStruct
	M map[string]*deepStruct
	L []deepStruct
	I interface{}
	F [1]interface{}
}
type deepMap map[string]deepMap
type deepSlice []deepSlice

// families: what n of these nested in each other look like
var families = []string{"REFN", "ARRAYREF", "HASHREF", "ARRAY", "HASH", "OBJECT", "OBJECTV", "WEAKEN", "REFN ARRAY", "REFN HASH",
	"OBJECT HASHREF", "tracked REFN", "tracked ARRAY", "FREEZE", "ALIAS", "REGEXP", "COPY", "PAD"}

func familyDoc(fam string, n int) []byte {
	unit, end := []byte{}, []byte{1}
	switch fam {
	case "REFN":
		unit = []byte{tREFN}
	case "ARRAYREF":
		unit = []byte{0x41}
	case "HASHREF":
		unit = []byte{0x51, 0x61, 'S'}
	case "ARRAY":
		unit = []byte{tARRAY, 1}
	case "HASH":
		unit = []byte{tHASH, 1, 0x61, 'S'}
	case "OBJECT":
		unit = []byte{tOBJECT, 0x61, 'S'}
	case "OBJECTV":
		unit = []byte{tOBJECTV, 2}
	case "WEAKEN":
		unit = []byte{tWEAKEN, tREFN}
	case "REFN ARRAY":
		unit = []byte{tREFN, tARRAY, 1}
	case "REFN HASH":
		unit = []byte{tREFN, tHASH, 1, 0x61, 'L'}
	case "OBJECT HASHREF":
		unit = []byte{tOBJECT, 0x61, 'x', 0x51, 0x61, 'M'}
	case "tracked REFN":
		unit = []byte{tREFN | 0x80}
	case "tracked ARRAY":
		unit = []byte{tARRAY | 0x80, 1}
	case "FREEZE":
		unit = []byte{tFREEZE, 0x61, 'C', tREFN, tARRAY, 1}
	case "ALIAS", "REGEXP", "COPY": // after a container of n elements, see below
	case "PAD":
		unit = []byte{tPAD}
	}
	b := bytes.Repeat(unit, n)
	if fam == "OBJECTV" && n > 0 {
		b = append([]byte{tOBJECT, 0x61, 'S'}, b...)
	}
	switch fam {
	case "ALIAS":
		b = append(putVarint([]byte{tARRAY}, uint64(n+1)), 0x85)
		at := uint64(len(b))
		for i := 0; i < n; i++ {
			b = putVarint(append(b, tALIAS), at)
		}
		return b
	case "COPY": // of one of the size of the number
		b = append(putVarint([]byte{tARRAY}, uint64(n+1)), 0x65, 'a', 'b', 'c', 'd', 'e')
		at := uint64(len(b) - 5)
		for i := 0; i < n; i++ {
			b = putVarint(append(b, tCOPY), at)
		}
		return b
	case "REGEXP":
		b = putVarint([]byte{tARRAY}, uint64(n))
		b = append(b, bytes.Repeat([]byte{tREGEXP, 0x61, 'a', 0x60}, n)...)
		return b
	}
	return append(b, end...)
}

// claims is a body whose parts say they are larger than they are
func claims(r *rand.Rand) []byte {
	g := &docGen{r: r, budget: 5, frozen: true}
	size := func() uint64 {
		s := uint64(1) << uint(10+r.Intn(31))
		switch r.Intn(5) {
		case 0:
			s--
		case 1:
			s = s*2 - 1
		case 2:
			s = []uint64{1<<31 - 1, 1 << 31, 1<<32 - 1, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<62 + 1, 1<<31 - 100, 1<<24 + 1}[r.Intn(9)]
		}
		return s
	}
	for i := 1 + r.Intn(5); i > 0; i-- {
		switch r.Intn(12) {
		case 0, 1, 2:
			g.b = putVarint(append(g.b, tARRAY), size())
		case 3, 4:
			g.b = putVarint(append(g.b, tHASH), size())
			if r.Intn(2) == 0 {
				g.b = append(g.b, 0x61, 'a')
			}
		case 5:
			g.b = putVarint(append(g.b, tBINARY), size())
		case 6:
			g.b = putVarint(append(g.b, tUTF8), size())
		case 7:
			g.b = append(g.b, tREFN)
		case 8:
			g.b = putVarint(append(g.b, tOBJECT, tBINARY), size())
		case 9:
			g.b = putVarint(append(g.b, tREGEXP, tUTF8), size())
		case 10:
			g.b = append(g.b, tFREEZE, 0x61, 'a', tREFN)
		case 11:
			g.b = putVarint(append(g.b, []byte{tREFP, tALIAS, tCOPY, tOBJECTV, tFREEZEV}[r.Intn(5)]), size())
		}
	}
	for i := r.Intn(4); i > 0; i-- {
		g.item(2, nil)
	}
	return g.b
}

// wide is a larger body
func wide(r *rand.Rand) []byte {
	n := 2000 + r.Intn(30000)
	var b []byte
	switch r.Intn(10) {
	case 0: // containers that each claim all that is left
		for len(b) < n {
			b = append(b, tARRAY)
			left := uint64(2*n-len(b)) / 2
			b = putVarint(b, left)
		}
		return append(b, bytes.Repeat([]byte{1}, n)...)
	case 1:
		for len(b) < n {
			b = putVarint(append(b, tHASH), uint64(2*n-len(b))/4)
			b = append(b, 0x60)
		}
		return append(b, bytes.Repeat([]byte{0x60}, n)...)
	case 2: // the same, side by side
		b = putVarint([]byte{tARRAY}, uint64(n/8))
		for i := 0; i < n/8; i++ {
			b = putVarint(append(b, tARRAY), uint64(n-n/8-i))
		}
		return append(b, bytes.Repeat([]byte{0x60}, n)...)
	case 3: // a wide array of references to it
		b = putVarint([]byte{tARRAY | 0x80}, uint64(n))
		for i := 0; i < n; i++ {
			b = append(b, tREFP, 1)
		}
		return b
	case 4: // objects of one class
		b = putVarint([]byte{tARRAY}, uint64(n))
		b = append(b, tOBJECT, 0x63, 'a', 'b', 'c', 1)
		at := uint64(len(b) - 4)
		for i := 1; i < n; i++ {
			b = append(putVarint(append(b, tOBJECTV), at), 1)
		}
		return b
	case 5: // binaries that overlap the rest
		b = putVarint([]byte{tARRAY}, uint64(n))
		for len(b) < 5*n {
			b = append(putVarint(append(b, tBINARY), uint64(r.Intn(12))), "abcdefghijkl"[:r.Intn(12)]...)
		}
		return b
	case 6: // repeated keys
		b = putVarint([]byte{tHASH}, uint64(n))
		for i := 0; i < n; i++ {
			b = append(b, 0x61, "SMLIF"[i%5], 0x40)
		}
		return b
	case 7: // nested in Go-sized steps
		for i := 0; i < 1000; i++ {
			b = append(b, 0x42)
		}
		return append(b, bytes.Repeat([]byte{0x40}, 1001)...)
	case 8: // varints that do not end
		b = append([]byte{tVARINT}, bytes.Repeat([]byte{0xff}, n)...)
		return b
	}
	x := make([]byte, n)
	r.Read(x)
	return x
}

// inflated gives what a document holds compressed, up to a gigabyte of it
func inflated(doc []byte) []byte {
	if len(doc) < 6 {
		return nil
	}
	hs, sz := readVarint(doc[5:])
	at := 5 + sz + int(hs)
	if sz == 0 || hs > 1<<31 || at > len(doc) {
		return nil
	}
	rest := doc[at:]
	skip := func() {
		for i, c := range rest {
			if c < 128 {
				rest = rest[i+1:]
				return
			}
		}
		rest = nil
	}
	switch doc[4] >> 4 {
	case 2:
		ln, sz := readVarint(rest)
		rest = rest[sz:]
		if sz == 0 || ln > uint64(len(rest)) {
			return nil
		}
		rest = rest[:ln]
		fallthrough
	case 1:
		if n, err := snappy.DecodedLen(rest); err == nil && n < 1<<30 && n/64 <= len(rest) {
			b, _ := snappy.Decode(nil, rest)
			return b
		}
	case 3:
		skip()
		skip()
		z, err := zlib.NewReader(bytes.NewReader(rest))
		if err != nil {
			return nil
		}
		b, _ := io.ReadAll(io.LimitReader(z, 1<<30))
		return b
	}
	return nil
}

func (r *safeRec) doc() []byte {
	rnd := rand.New(rand.NewSource(r.GenS))
	r.Ver = []int{1, 2, 3, 3, 4}[rnd.Intn(5)]
	types := [][]int{{0, 1, 2}, {0, 2}, {0, 0, 2, 3}, {0, 2, 3}}[r.Ver-1]
	r.Typ = types[rnd.Intn(len(types))]
	if rnd.Intn(2) == 0 {
		r.Typ = 0
	}
	var body []byte
	switch r.GenM {
	case "deep":
		body = familyDoc(r.Fam, r.Depth)
	case "claims":
		body = claims(rnd)
	case "wide":
		body = wide(rnd)
	case "bomb":
		n := 1 << uint(10+rnd.Intn(15))
		body = append(putVarint([]byte{[]byte{tBINARY, tARRAY, tUTF8, tPAD}[rnd.Intn(4)]}, uint64(n)), make([]byte, n)...)
		for r.Typ == 0 {
			r.Typ = []int{1, 2, 3, 3}[r.Ver-1]
		}
	case "garbage":
		body = make([]byte, rnd.Intn(60))
		rnd.Read(body)
	default:
		c := genCfg{frozen: true, budget: 8 + rnd.Intn(40), depth: 1 + rnd.Intn(8), share: rnd.Intn(2) == 0,
			wild: rnd.Intn(3)}
		body = randBody(rnd, r.Ver, 6, c)
	}
	var suffix []byte
	if r.Ver > 1 && (r.Entry == "header" || r.Entry == "both") {
		suffix = append([]byte{1}, body...)
		if r.GenM != "deep" && rnd.Intn(6) == 0 { // a header that claims more
			suffix = nil
		}
		if r.Entry == "both" && rnd.Intn(2) == 0 {
			suffix, body = suffix[:0], append([]byte{}, body...)
			suffix = append(suffix, 1, 7)
		}
	}
	doc := wrap(r.Ver, r.Typ, suffix, body, -1)
	switch r.GenM {
	case "claims":
		switch rnd.Intn(4) {
		case 0: // the header's size
			h := append([]byte{}, doc[:5]...)
			h = putVarint(h, uint64(1)<<uint(rnd.Intn(64)))
			doc = append(h, doc[6:]...)
		case 1: // the sizes of compressed data
			h := header(r.Ver, r.Typ, suffix)
			var x []byte
			for i := rnd.Intn(3); i > 0; i-- {
				x = putVarint(x, uint64(1)<<uint(rnd.Intn(64))-uint64(rnd.Intn(2)))
			}
			doc = append(append(h, x...), doc[len(h):]...)
		}
	case "mutated":
		for i := 1 + rnd.Intn(3); i > 0; i-- {
			doc = mutate(rnd, doc, 5)
		}
	case "garbage":
		if rnd.Intn(3) == 0 {
			doc = body
		} else if rnd.Intn(3) == 0 {
			doc = doc[:rnd.Intn(len(doc)+1)]
		}
	}
	return doc
}

var typedDests = []reflect.Type{
	typeOf((*deepStruct)(nil)), typeOf((*deepMap)(nil)), typeOf((*deepSlice)(nil)), typeOf((*map[string]interface{})(nil)),
	typeOf((*[]interface{})(nil)), typeOf((*[2]interface{})(nil)), typeOf((*S1)(nil)), typeOf((*S3)(nil)), typeOf((*SFrozen)(nil)),
	typeOf((*[]string)(nil)), typeOf((*[][]int)(nil)), typeOf((*map[string]map[string]uint8)(nil)), typeOf((*string)(nil)), typeOf((*[]byte)(nil)),
	typeOf((*[4]byte)(nil)), typeOf((*int8)(nil)), typeOf((*float32)(nil)), typeOf((*bool)(nil)), typeOf((**deepStruct)(nil)), typeOf((*Loop)(nil)),
	typeOf((*chan int)(nil)), typeOf((*func())(nil)), typeOf((*map[int]int)(nil)), typeOf((***int)(nil)), typeOf((*error)(nil)), typeOf((*complex64)(nil)),
	typeOf((*Frozen)(nil)), typeOf((**Frozen)(nil)), typeOf((*time.Time)(nil)), typeOf((*map[interface{}]int)(nil)), typeOf((*struct{})(nil)), typeOf((*[0]int)(nil)),
	typeOf((*sereal.PerlObject)(nil)), typeOf((**sereal.PerlFreeze)(nil)), typeOf((*struct {
		a int `sereal:"a"`
		B int `sereal:"b"`
	})(nil)),
}

func (r *safeRec) run() {
	doc := r.doc()
	given := append([]byte{}, doc...)
	rnd := rand.New(rand.NewSource(r.GenS + 1))
	content := inflated(doc)
	r.Len, r.Infl = len(doc), len(content)
	for _, b := range [][]byte{doc, content} {
		r.Copy += bytes.Count(b, []byte{tCOPY}) + bytes.Count(b, []byte{tCOPY | 0x80})
	}
	var call func() error
	switch r.Entry {
	case "iface", "perl", "nori", "typed":
		d := &sereal.Decoder{PerlCompat: r.Entry == "perl", DisableReferentialIntegrity: r.Entry == "nori"}
		if r.Entry == "typed" {
			d.PerlCompat = rnd.Intn(6) == 0
		}
		t := ifaceType
		if r.Entry == "typed" {
			t = typedDests[rnd.Intn(len(typedDests))]
			if r.GenM == "deep" {
				t = typedDests[rnd.Intn(6)]
			}
			r.Note = t.String()
		}
		dst := reflect.New(t)
		if r.Entry == "typed" && rnd.Intn(4) == 0 && r.GenM != "deep" {
			g := &valGen{r: rnd, budget: 10}
			guard(func() error { g.fill(dst.Elem(), 2); return nil })
		}
		call = func() error { return d.Unmarshal(doc, dst.Interface()) }
	case "header":
		var x interface{}
		call = func() error { return sereal.NewDecoder().UnmarshalHeader(doc, &x) }
	case "both":
		var x, y interface{}
		call = func() error { return sereal.NewDecoder().UnmarshalHeaderBody(doc, &x, &y) }
	case "looks":
		call = func() error { sereal.LooksLikeSereal(doc); return nil }
	case "decompress":
		dst := []byte(nil)
		if rnd.Intn(2) == 0 {
			dst = make([]byte, rnd.Intn(100), 100)
		}
		call = func() error { _, err := sereal.DecompressDocument(dst, doc); return err }
	case "append":
		m := sereal.NewMerger()
		if rnd.Intn(2) == 0 {
			m = sereal.NewMergerV2()
		}
		m.KeepFlat = rnd.Intn(2) == 0
		m.DedupeStrings = rnd.Intn(2) == 0
		call = func() error {
			_, err := m.Append(doc)
			if _, err := m.Finish(); err != nil {
				return err
			}
			return err
		}
	}
	var before, after runtime.MemStats
	watch := time.AfterFunc(25*time.Second, func() { os.Exit(7) })
	runtime.ReadMemStats(&before)
	t0 := time.Now()
	err, p := guard(call)
	r.Ms = int(time.Since(t0) / time.Millisecond)
	runtime.ReadMemStats(&after)
	watch.Stop()
	r.Alloc = int((after.TotalAlloc - before.TotalAlloc) >> 10)
	r.Ok, r.Err = err == nil && p == "", errKind(err, p)
	r.Note += " " + p
	if !bytes.Equal(doc, given) {
		r.Err = "input modified"
	}
}

func init() {
	commands["safe"] = func() {
		rec := newRecorder()
		rnd := rand.New(rand.NewSource(*seed))
		do := func(r *safeRec) {
			r.GenS = rnd.Int63()
			rec.about(r)
			r.run()
			rec.put(r)
		}
		if *mode == "deep" {
			for rec.n < *count {
				for _, fam := range families {
					r := &safeRec{GenM: "deep", Fam: fam}
					r.Entry = []string{"iface", "perl", "nori", "typed", "typed", "header", "both", "append", "decompress", "looks"}[rnd.Intn(10)]
					switch k := rnd.Intn(12); {
					case k < 4:
						r.Depth = []int{10, 100, 300, 1000}[k]
					case k < 5: // around the limit; these take their time
						r.Depth = 200000 + rnd.Intn(100000)
					default:
						r.Depth = 1000000 + rnd.Intn(1000000)
						if *tier == "thorough" {
							r.Depth *= 1 + rnd.Intn(4)
						}
					}
					if r.Entry == "append" && r.Depth > 300000 {
						r.Depth = 300000
					}
					do(r)
				}
			}
		} else {
			for rec.n < *count {
				gen := []string{"claims", "claims", "claims", "garbage", "mutated", "mutated", "mutated", "random"}[rnd.Intn(8)]
				switch k := rnd.Intn(80); {
				case k < 2:
					gen = "bomb"
				case k < 6:
					gen = "wide"
				}
				do(&safeRec{GenM: gen, Entry: safeEntries[rnd.Intn(len(safeEntries))]})
			}
		}
		rec.close()
	}
	redoers["safe"] = func(l []byte, rec *recorder) {
		old := &safeRec{}
		parse(l, old)
		r := &safeRec{GenS: old.GenS, GenM: old.GenM, Fam: old.Fam, Depth: old.Depth, Entry: old.Entry}
		rec.about(r)
		r.run()
		rec.put(r)
	}
}
