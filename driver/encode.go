package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/Sereal/Sereal/Go/sereal"
)

type encOpts struct {
	Ver      int    `json:"ver"`
	Perl     bool   `json:"perl"`
	Nodedup  bool   `json:"nodedup"`
	Nofreeze bool   `json:"nofreeze"`
	Maxd     int    `json:"maxd"`
	Comp     string `json:"comp"`
	Level    int    `json:"level"`
	Thr      int    `json:"thr"`
	Exp      int    `json:"exp"`
}

// with -mode reuse, the calls of all records are made on few objects, whose
// configuration is changed from call to call
var (
	reuse     bool
	reusedEnc = map[int]*sereal.Encoder{}
	reusedDec []*sereal.Decoder
)

func (o encOpts) encoder() *sereal.Encoder {
	e := o.made()
	o.apply(e)
	return e
}

// apply sets the configuration of an encoder made for the version
func (o encOpts) apply(e *sereal.Encoder) {
	e.PerlCompat = o.Perl
	e.DisableDedup = o.Nodedup
	e.DisableFREEZE = o.Nofreeze
	e.MaxRecursionDepth = o.Maxd
	e.CompressionThreshold = o.Thr
	e.ExpectedSize = uint(o.Exp)
	e.Compression = nil
	switch o.Comp {
	case "snappy":
		e.Compression = sereal.SnappyCompressor{}
	case "snappyinc":
		e.Compression = sereal.SnappyCompressor{Incremental: true}
	case "zlib":
		e.Compression = sereal.ZlibCompressor{Level: o.Level}
	case "zstd":
		e.Compression = sereal.ZstdCompressor{Level: o.Level}
	}
}

func (o encOpts) made() *sereal.Encoder {
	if reuse && reusedEnc[o.Ver] != nil {
		return reusedEnc[o.Ver]
	}
	var e *sereal.Encoder
	switch o.Ver {
	case 1:
		e = sereal.NewEncoder()
	case 2:
		e = sereal.NewEncoderV2()
	case 3:
		e = sereal.NewEncoderV3()
	default:
		e = &sereal.Encoder{}
	}
	if reuse {
		reusedEnc[o.Ver] = e
	}
	return e
}

// decoder gives a decoder of that configuration
func decoder(perl, nori bool) *sereal.Decoder {
	d := sereal.NewDecoder()
	if reuse {
		if len(reusedDec) < 2 {
			reusedDec = append(reusedDec, d)
		}
		d, reusedDec = reusedDec[0], append(reusedDec[1:], reusedDec[0])
	}
	d.PerlCompat, d.DisableReferentialIntegrity = perl, nori
	return d
}

// what a decoding of the document gave
type decRes struct {
	Part string  `json:"part"` // body, head
	Ok   bool    `json:"ok"`
	Err  string  `json:"err"`
	V    []vnode `json:"v"`
}

type encRec struct {
	both bool // the header holds what the body holds
	Opt    encOpts   `json:"opt"`
	V      []vnode   `json:"v"`
	Hv     []vnode   `json:"hv"` // header value, empty: none given
	Ok     bool      `json:"ok"`
	Err    string    `json:"err"`
	D      []int     `json:"d"`
	Infl   inflation `json:"infl"`
	Dec    []decRes  `json:"dec"`    // typed decodings
	Dok    bool      `json:"dok"`    // decoding into an interface worked
	Val    toks      `json:"val"`    // its result
	Hval   toks      `json:"hval"`   // the header's
	Judge  string    `json:"judge"`  // what the record is about
	GenS   int64     `json:"gens"`   // seed of the value
	GenM   string    `json:"genm"`   // its generator
	Same   bool      `json:"same"`   // input unchanged by the call
	Mem    string    `json:"mem"`    // what is wrong with the document's memory
	Note   string    `json:"note"`   // panics
	Header bool      `json:"header"` // header generated
	Far    int       `json:"far"`    // length of something in between
	Nest   int       `json:"nest"`   // how deeply nested the value is, in vast mode
}

func encErr(err error, p string) string {
	if p != "" {
		return "panic"
	}
	if err == nil {
		return ""
	}
	if err == sereal.ErrMaxRecursionLimit {
		return "recursion"
	}
	return "other"
}

// value makes the value of a record from its own seed
func (r *encRec) value() (body, head reflect.Value, typed bool) {
	rnd := rand.New(rand.NewSource(r.GenS))
	g := &valGen{r: rnd, budget: 6 + rnd.Intn(24)}
	depth := 1 + rnd.Intn(5)
	gen := func() reflect.Value {
		rv := reflect.New(g.typ(depth)).Elem()
		g.fill(rv, depth)
		return rv
	}
	switch r.GenM {
	case "typed":
		g.frozen = rnd.Intn(4) == 0
		typed = true
		body = gen()
	case "graph": // pointers of all kinds
		g.ptrs, g.perl, g.frozen = true, rnd.Intn(2) == 0, rnd.Intn(5) == 0
		g.jsonn = rnd.Intn(3) == 0
		n := 1 + rnd.Intn(4)
		s := make([]interface{}, n)
		for i := range s {
			if x := g.any(depth); x.IsValid() {
				s[i] = x.Interface()
			}
		}
		body = reflect.ValueOf(s)
	case "frozen": // values that marshal themselves, anywhere
		g.frozen, g.ptrs, g.refuse = true, rnd.Intn(2) == 0, rnd.Intn(3) == 0
		g.perl = rnd.Intn(4) == 0
		g.budget += 8
		switch rnd.Intn(4) {
		case 0, 1:
			body = reflect.ValueOf(map[string]interface{}{"a": ifv(g.any(depth + 1)), "b": ifv(g.any(depth + 1)), "main.Frozen": Frozen{[]byte(g.str())}})
		case 2:
			body = reflect.New(frozenTypes[rnd.Intn(len(frozenTypes)-1)]).Elem()
			g.fill(body, depth)
			typed = !g.refuse && !g.perl && !g.ptrs
		default:
			typed = !g.refuse && !g.perl && !g.ptrs
			body = gen()
		}
	case "share": // many mentions of few things
		g.ptrs = true
		g.frozen = rnd.Intn(8) == 0
		g.coincide()
		if rnd.Intn(3) == 0 {
			for i := 2; i > 0; i-- {
				g.any(depth)
			}
		}
		s := []interface{}{}
		for i := 2 + rnd.Intn(6); i > 0; i-- {
			var x interface{}
			if len(g.pool) > 0 && g.p(75) {
				x = g.pool[rnd.Intn(len(g.pool))].Interface()
			} else {
				x = ifv(g.any(3))
			}
			switch rnd.Intn(5) {
			case 0:
				x = map[string]interface{}{"a": x, "b": ifv(g.any(2))}
			case 1:
				x = []interface{}{x}
			}
			s = append(s, x)
		}
		body = reflect.ValueOf(s)
	case "bad":
		g.bad, g.ptrs, g.frozen, g.refuse = true, rnd.Intn(2) == 0, true, true
		g.budget += 10
		body = reflect.ValueOf(map[string]interface{}{"a": ifv(g.any(depth + 1)), "b": ifv(g.any(depth + 1))})
	case "keys": // strings used again and again, as keys, classes and values
		g.perl, g.frozen = true, rnd.Intn(3) == 0
		g.budget = 30
		s := make([]interface{}, 3)
		for i := range s {
			s[i] = ifv(g.any(4))
		}
		if len(g.keys) > 0 {
			k := g.keys[0]
			s = append(s, k, map[string]int{k: 1}, sereal.PerlObject{Class: k, Reference: map[string]string{k: k}}, []byte(k))
			rnd.Shuffle(len(s), func(i, j int) { s[i], s[j] = s[j], s[i] })
		}
		body = reflect.ValueOf(s)
	case "deep": // nested towards the recursion limit
		g.budget = 4
		body = g.chain()
	case "endless":
		m := map[string]interface{}{"x": 1}
		s := []interface{}{0, m}
		switch rnd.Intn(4) {
		case 0:
			m["m"] = m
		case 1:
			m["s"] = s
		case 2:
			s[0] = s
		case 3:
			o := &sereal.PerlObject{Class: "c"}
			o.Reference = []interface{}{o}
			s[0] = o
		}
		body = reflect.ValueOf(s)
	case "vast": // very many elements, keys and pointers
		if r.Nest > 0 {
			body = reflect.ValueOf(nested(rnd, r.Nest, r.Opt.Perl, r.Opt.Maxd == 0))
			break
		}
		n := r.Far
		g.budget = 10
		pool := []interface{}{&S1{A: 1}, map[string]int{"a": 1}, &S3{I: "x"}}
		keys := []string{"a", "b"}
		key := func() string {
			if rnd.Intn(4) == 0 {
				return keys[rnd.Intn(len(keys))]
			}
			k := fmt.Sprint("k", len(keys))
			if rnd.Intn(60) == 0 {
				k += g.bigStr(20 + rnd.Intn(200))
			}
			keys = append(keys, k)
			return k
		}
		elem := func() interface{} {
			switch k := rnd.Intn(20); {
			case k < 6:
				return map[string]interface{}{key(): rnd.Intn(100)}
			case k < 9:
				m := map[string]uint16{key(): uint16(rnd.Intn(100))}
				for i := rnd.Intn(9); i > 0; i-- {
					m[key()] = 1
				}
				return m
			case k == 9:
				return keys[rnd.Intn(len(keys))]
			case k == 10:
				return []byte(keys[rnd.Intn(len(keys))])
			case k == 11:
				return pool[rnd.Intn(len(pool))]
			case k == 12:
				x := &S3{I: key()}
				if len(pool) < 150 {
					pool = append(pool, x)
				}
				return x
			case k == 13:
				return sereal.PerlObject{Class: key(), Reference: []interface{}{1}}
			case k == 14:
				return S1{A: rnd.Intn(9)}
			default:
				return rnd.Intn(300)
			}
		}
		if rnd.Intn(3) == 0 {
			m := map[string]interface{}{}
			for i := 0; i < n/3; i++ {
				m[key()] = elem()
			}
			body = reflect.ValueOf([]interface{}{m, map[string]int{keys[len(keys)-1]: 1, keys[len(keys)/2]: 2}})
		} else {
			s := make([]interface{}, n)
			for i := range s {
				s[i] = elem()
			}
			body = reflect.ValueOf(s)
		}
	case "far": // back references to far away; less than 0: past what cannot be compressed
		n, some := r.Far, r.Far%1000
		if n < 0 {
			n, some = -n, -n
		}
		b := make([]byte, n)
		rnd.Read(b[:some])
		if r.Judge == "huge" && n > 40000 { // large even when compressed
			rnd.Read(b[:15000+rnd.Intn(3000)])
		}
		k := g.key()
		x := &S3{I: g.key()}
		s := []interface{}{k, map[string]interface{}{k: x}, S1{A: 1}, b, map[string]int{k: 1, g.key(): 2}, S1{A: 2}, x, STitle{}, STitle{},
			&S3{P: x, I: map[string]interface{}{k: 3}}, sereal.PerlObject{Class: k, Reference: x}}
		i := rnd.Intn(2 * len(s))
		if i >= len(s) {
			i = 0
		}
		s[3], s[i] = s[i], s[3]
		if rnd.Intn(2) == 0 {
			for i := range s {
				if c, ok := s[i].([]byte); ok {
					s[i] = string(c)
				}
			}
		}
		body = reflect.ValueOf(s)
	case "big": // around the compression threshold
		n := rnd.Intn(80)
		if r.Opt.Thr > 0 && rnd.Intn(3) > 0 {
			n = r.Opt.Thr - 6 + rnd.Intn(9)
		}
		if n < 0 {
			n = 0
		}
		b := make([]byte, n)
		if rnd.Intn(2) == 0 {
			rnd.Read(b)
		}
		if rnd.Intn(2) == 0 {
			body = reflect.ValueOf(b)
		} else {
			body = reflect.ValueOf([]interface{}{string(b), 1})
		}
	}
	if r.Header {
		h := &valGen{r: rnd, budget: 10, perl: false}
		d := 3
		switch rnd.Intn(4) {
		case 0: // shared references and repeated keys
			x := &S1{A: 1, B: h.str()}
			head = reflect.ValueOf(map[string]interface{}{"B": x, "A": []interface{}{x, *x}})
		case 1: // long
			head = reflect.ValueOf([]interface{}{h.str(), h.bigStr(100 + rnd.Intn(200)), S1{B: "B"}})
		default:
			head = reflect.New(h.typ(d)).Elem()
			h.fill(head, d)
			if isNilIface(head) {
				head = reflect.ValueOf("h")
			}
		}
		// what is in the body, too
		if len(g.pool) > 0 && rnd.Intn(3) > 0 {
			r.both = true
			both := []interface{}{}
			for i := 1 + rnd.Intn(3); i > 0; i-- {
				if p := g.pool[rnd.Intn(len(g.pool))]; p.CanInterface() {
					both = append(both, p.Interface())
				}
			}
			if c := len(g.conts); c > 0 && rnd.Intn(2) == 0 {
				if p := g.conts[rnd.Intn(c)]; p.CanInterface() {
					both = append(both, p.Interface())
				}
			}
			if head = reflect.ValueOf(both); rnd.Intn(4) == 0 {
				head = body
			}
		}
		if r.GenM == "deep" {
			if head = h.chain(); !head.IsValid() {
				head = reflect.ValueOf(1)
			}
		}
	}
	return
}

// chain nests containers and pointers of all sorts
func (g *valGen) chain() reflect.Value {
	x := []interface{}{g.int64(), nil, "s", struct{}{}, Chain{}, &Chain{}, []int{}, map[string]int{}, S2{}, []byte("b"),
		sereal.PerlUndef{}, &sereal.PerlObject{Class: "c", Reference: Chain{}}, [1]Chain{}, Frozen{[]byte("f")}, &Frozen{[]byte("f")},
		sereal.PerlRegexp{}, &sereal.PerlRegexp{Pattern: []byte("x")}}[g.r.Intn(17)]
	for i := g.r.Intn(12); i > 0; i-- {
		switch g.r.Intn(9) {
		case 7:
			x = Chain{x}
		case 8:
			x = &Chain{x}
		case 0:
			x = []interface{}{1, x}
		case 1:
			x = map[string]interface{}{"k": x, "l": 2}
		case 2:
			y := x
			x = &y
		case 3:
			x = S3{I: x}
		case 4:
			x = &S3{I: x}
		case 5:
			x = map[MyStr]interface{}{"m": x}
		case 6:
			x = [2]interface{}{x, nil}
		}
		switch g.r.Intn(40) {
		case 0, 1, 2:
			x = &sereal.PerlObject{Class: "c", Reference: x}
		case 3, 4:
			x = sereal.PerlObject{Class: "c", Reference: x}
		case 5, 6:
			x = &sereal.PerlWeakRef{Reference: x}
		case 7, 8:
			x = sereal.PerlWeakRef{Reference: x}
		}
	}
	return reflect.ValueOf(x)
}

// nested wraps something into all that holds other things, n times, with
// things known before beside it now and then
func nested(rnd *rand.Rand, n int, perl, share bool) interface{} {
	var x interface{} = 1
	var past []interface{}
	keys := []string{"a", "key", "another", "Class"}
	for ; n > 0; n-- {
		side := func() interface{} {
			if share && len(past) > 0 && rnd.Intn(6) == 0 {
				return past[rnd.Intn(len(past))]
			}
			return []interface{}{nil, rnd.Intn(300), "some text", []byte{1, 2}, 1.5}[rnd.Intn(5)]
		}
		key := keys[rnd.Intn(len(keys))]
		if rnd.Intn(20) == 0 {
			keys = append(keys, fmt.Sprint("key", n))
		}
		switch rnd.Intn(9) {
		case 0:
			x = []interface{}{x}
		case 1:
			x = []interface{}{side(), x, side()}
		case 2:
			x = map[string]interface{}{key: x}
		case 3:
			x = map[string]interface{}{key: x, "beside": side()}
		case 4:
			y := x
			x = &y
			past = append(past, x)
		case 5:
			x = &S3{P: nil, I: x}
			past = append(past, x)
		case 6:
			x = S3{I: x}
		case 7:
			x = [1]interface{}{x}
		case 8:
			if perl {
				x = &sereal.PerlObject{Class: key, Reference: x}
			} else {
				x = map[string][]interface{}{key: {x}}
			}
		}
	}
	return x
}

// vastLen gives how many elements something with very many elements has
func vastLen(i int, rnd *rand.Rand) int {
	return []int{2500, 1030, 600, 300, 4100, 1500}[i%6] + rnd.Intn(20)
}

// farLen gives the length of something that pushes what follows beyond an offset
// that needs one more byte, or bit; i is the number of the record
func farLen(i int, rnd *rand.Rand) int {
	n := []int{1 << 14, 1 << 21, 1 << 16, 1 << 7, 1 << 15, 1 << 17, 1 << 16, 1 << 14, 1 << 18}[i%9]
	if n > 1<<20 || rnd.Intn(4) > 0 {
		return n + rnd.Intn(200)
	}
	return n - rnd.Intn(100)
}

func (g *valGen) bigStr(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + g.r.Intn(26))
	}
	return string(b)
}

func isNilIface(v reflect.Value) bool { return v.Kind() == reflect.Interface && v.IsNil() }

func ifv(v reflect.Value) interface{} {
	if !v.IsValid() || isNilIface(v) {
		return nil
	}
	return v.Interface()
}

func (r *encRec) run() {
	body, head, typed := r.value()
	r.V = graphOpt(body, r.Opt.Nofreeze)
	r.Hv = []vnode{}
	if r.Header {
		r.Hv = graphOpt(head, r.Opt.Nofreeze)
	}
	r.D, r.Dec, r.Val, r.Hval, r.Dok = []int{}, []decRes{}, toks{}, toks{}, false
	r.Infl = inflation{B: []int{}}
	e := r.Opt.encoder()
	var doc []byte
	err, p := guard(func() error {
		var err error
		switch {
		case r.Header:
			doc, err = e.MarshalWithHeader(ifv(head), ifv(body))
		case r.Opt == (encOpts{Ver: 3, Comp: "none", Thr: 1024}) && !reuse:
			doc, err = sereal.Marshal(ifv(body))
		default:
			doc, err = e.Marshal(ifv(body))
		}
		return err
	})
	r.Ok = err == nil && p == ""
	r.Err, r.Note = encErr(err, p), p
	r.Same = reflect.DeepEqual(sameIDs(r.V), sameIDs(graphOpt(body, r.Opt.Nofreeze)))
	if !r.Ok {
		return
	}
	r.D = ints(doc)
	r.Infl = inflate(doc)
	defer func() { r.Mem = r.memory(e, doc, body) }()
	var v, hv interface{}
	err, p = guard(func() error { return decoder(false, false).Unmarshal(doc, &v) })
	r.Dok = err == nil && p == ""
	r.Note += p
	if r.Dok {
		r.Val = dump(v)
	}
	if r.Header {
		err, p = guard(func() error { return decoder(false, false).UnmarshalHeader(doc, &hv) })
		if err == nil && p == "" {
			r.Hval = dump(hv)
		}
	}
	if typed && !r.Opt.Perl && !(r.Opt.Nofreeze) {
		dst := reflect.New(body.Type())
		err, p := guard(func() error {
			if reuse {
				return decoder(false, false).Unmarshal(doc, dst.Interface())
			}
			return sereal.Unmarshal(doc, dst.Interface())
		})
		x := decRes{Part: "body", Ok: err == nil && p == "", Err: errKind(err, p), V: []vnode{}}
		if x.Ok {
			x.V = graphValue(dst.Elem())
		} else if err != nil {
			r.Note += err.Error()
		} else {
			r.Note += p
		}
		r.Dec = append(r.Dec, x)
	}
	if r.Header && r.Opt.Ver != 1 && !r.Opt.Perl && !r.Opt.Nofreeze && head.Kind() != reflect.Ptr && r.GenM != "deep" && !r.both {
		dst := reflect.New(head.Type())
		var b interface{}
		err, p := guard(func() error {
			if r.GenS%2 == 0 {
				return decoder(false, false).UnmarshalHeaderBody(doc, dst.Interface(), &b)
			}
			return decoder(false, false).UnmarshalHeader(doc, dst.Interface())
		})
		x := decRes{Part: "head", Ok: err == nil && p == "", Err: errKind(err, p), V: []vnode{}}
		if x.Ok {
			x.V = graphValue(dst.Elem())
		} else if err != nil {
			r.Note += err.Error()
		} else {
			r.Note += p
		}
		r.Dec = append(r.Dec, x)
	}
}

// memory tells whether the document stays what it is when the encoder is used
// again, and the value when the document is written into
func (r *encRec) memory(e *sereal.Encoder, doc []byte, body reflect.Value) string {
	if !bytes.Equal(doc, unints(r.D)) {
		return "document modified by decoding it"
	}
	if r.GenM != "vast" && r.GenM != "far" && !reuse {
		guard(func() error {
			x := []interface{}{1, "xyzzy", map[string]int{"plugh": 7}, nil, []byte{0xff, 0xfe}, 1.5, strings.Repeat("+", len(doc)+len(doc)/2)}
			if r.Header {
				_, err := e.MarshalWithHeader(x, x)
				return err
			}
			_, err := e.Marshal(x)
			return err
		})
		if !bytes.Equal(doc, unints(r.D)) {
			return "document modified by encoding something else"
		}
	}
	for i := range doc {
		doc[i] ^= 0x15
	}
	if !reflect.DeepEqual(sameIDs(r.V), sameIDs(graphOpt(body, r.Opt.Nofreeze))) {
		return "shared with the value"
	}
	return ""
}

// sameIDs: maps iterate in random order, so compare as multisets of leaves
func sameIDs(v []vnode) map[string]int {
	m := map[string]int{}
	for _, n := range v {
		k := n.K + string(toBytes(n.A))
		m[k]++
	}
	return m
}

func toBytes(a []int) []byte {
	b := []byte{}
	for _, x := range a {
		b = append(b, byte(x), byte(x>>8))
	}
	return b
}

func init() {
	pick := func(rnd *rand.Rand, s ...string) string { return s[rnd.Intn(len(s))] }
	commands["encode"] = func() {
		rec := newRecorder()
		rnd := rand.New(rand.NewSource(*seed))
		for rec.n < *count {
			r := &encRec{GenS: rnd.Int63(), GenM: *mode, Judge: *mode}
			reuse = *mode == "reuse"
			o := encOpts{Ver: rnd.Intn(4), Perl: rnd.Intn(4) == 0, Nodedup: rnd.Intn(4) == 0, Nofreeze: rnd.Intn(12) == 0,
				Comp: "none", Thr: 1024}
			if rnd.Intn(4) == 0 {
				o.Exp = rnd.Intn(300)
			}
			switch *mode {
			case "reuse":
				r.GenM = pick(rnd, "typed", "graph", "bad", "bad", "keys", "share", "frozen", "endless", "deep", "big")
				if rnd.Intn(3) == 0 {
					o.Maxd = 1 + rnd.Intn(14)
					if r.GenM == "share" || r.GenM == "graph" {
						o.Maxd = 1 + rnd.Intn(6)
					}
				}
				if r.GenM == "endless" && o.Maxd == 0 {
					o.Maxd = 10
				}
				if rnd.Intn(4) == 0 {
					o.Comp, o.Thr, o.Level = pick(rnd, "snappy", "snappyinc", "zlib"), rnd.Intn(50), level(rnd)
				}
				r.Header = r.GenM != "endless" && rnd.Intn(4) == 0
			case "deep", "endless":
				o.Maxd = 1 + rnd.Intn(14)
				o.Nofreeze = false
				r.Header = *mode == "deep" && rnd.Intn(3) == 0
				if *mode == "deep" && rnd.Intn(6) == 0 {
					o.Maxd = 0
				}
			case "big", "comp":
				o.Comp = pick(rnd, "snappy", "snappyinc", "zlib", "zlib")
				o.Thr = []int{0, 0, 1, 20, 40}[rnd.Intn(5)]
				o.Level = level(rnd)
				if haveZstd && rnd.Intn(6) == 0 {
					o.Comp = "zstd"
				}
				if *mode == "comp" {
					r.GenM = pick(rnd, "typed", "graph", "keys", "big")
				}
			case "head":
				r.GenM = pick(rnd, "typed", "graph")
				r.Header = true
				if rnd.Intn(4) == 0 {
					o.Comp, o.Thr = pick(rnd, "snappyinc", "zlib"), 0
				}
			case "far":
				o.Nodedup = rnd.Intn(12) == 0
				r.Far = farLen(rec.n, rnd)
			case "vast":
				o.Nodedup = rnd.Intn(8) == 0
				r.Far = vastLen(rec.n/2, rnd) * 3 / 5
				if rec.n%2 == 1 {
					r.Nest = nestLen(rec.n / 2)
					if r.Nest += rnd.Intn(9); r.Nest < 140 && rnd.Intn(2) == 0 {
						o.Maxd = r.Nest/2 + rnd.Intn(r.Nest)
					}
				}
			case "huge":
				r.GenM = "far"
				o.Comp, o.Thr = []string{"zlib", "zlib", "zlib", "snappyinc"}[rec.n%4], 0
				o.Level = rnd.Intn(11) - 1
				if o.Comp == "zlib" {
					o.Ver = 3 * rnd.Intn(2)
				}
				r.Far = farLen(rec.n/2, rnd)
				if rec.n%2 == 1 { // all of it random
					r.Far = -[]int{1100, 4200, 9000, 20000, 70000}[rec.n/2%5] - rnd.Intn(300)
				}
			case "keys":
				o.Nodedup = rnd.Intn(3) == 0
			case "typed":
				o.Perl = rnd.Intn(8) == 0
				if rnd.Intn(10) == 0 {
					o = encOpts{Ver: 3, Comp: "none", Thr: 1024}
				}
			}
			r.Opt = o
			rec.about(r)
			r.run()
			if (len(r.V) > 700 || len(r.D) > 3000) && r.GenM != "far" && r.GenM != "vast" {
				continue
			}
			rec.put(r)
		}
		rec.close()
	}
	redoers["encode"] = func(l []byte, rec *recorder) {
		r := &encRec{}
		parse(l, r)
		rec.about(r)
		r.run()
		rec.put(r)
	}
}

// level gives a compression level, now and then one that zlib does not have
func level(rnd *rand.Rand) int {
	if l := rnd.Intn(12) - 1; l < 10 {
		return l
	}
	return []int{-3, 10, 12, 100, -1000000}[rnd.Intn(5)]
}
