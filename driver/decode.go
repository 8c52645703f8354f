package main

import (
	"bytes"
	"compress/zlib"
	"encoding/json"
	"io"
	"math/rand"
	"reflect"

	"github.com/Sereal/Sereal/Go/sereal"
	"github.com/golang/snappy"
)

// errKind names the exported error a call returned
func errKind(err error, panicked string) string {
	switch {
	case panicked != "":
		return "panic"
	case err == nil:
		return ""
	}
	switch err {
	case sereal.ErrHeaderPointer:
		return "header pointer"
	case sereal.ErrBodyPointer:
		return "body pointer"
	case sereal.ErrBadHeaderUTF8:
		return "utf8"
	case sereal.ErrBadHeader:
		return "badheader"
	case sereal.ErrBadSnappy:
		return "badsnappy"
	case sereal.ErrBadZlibV3:
		return "badzlib"
	case sereal.ErrBadZstdV4:
		return "badzstd"
	}
	return "other"
}

type inflation struct {
	At  int   `json:"at"` // 1-based in what follows the header, 0: no frame
	Len int   `json:"len"`
	Ok  bool  `json:"ok"`
	B   []int `json:"b"`
}

func readVarint(b []byte) (n uint64, sz int) {
	for i, c := range b {
		if i == 9 && c > 1 || i > 9 {
			return 0, 0
		}
		n |= uint64(c&0x7f) << uint(7*i)
		if c < 0x80 {
			return n, i + 1
		}
	}
	return 0, 0
}

const inflateLimit = 1 << 22

// inflate decompresses a document's body with the compression libraries
// directly, independently of the code under test.
func inflate(doc []byte) (x inflation) {
	x.B = []int{}
	if len(doc) < 6 {
		return
	}
	n, sz := readVarint(doc[5:])
	if sz == 0 || n > uint64(len(doc)-5-sz) {
		return
	}
	rest := doc[5+sz+int(n):]
	at, ln := 0, 0
	typ := doc[4] >> 4
	switch typ {
	case 1:
		at, ln = 1, len(rest)
	case 2, 4:
		n, sz := readVarint(rest)
		if sz == 0 || n > uint64(len(rest)-sz) {
			return
		}
		at, ln = sz+1, int(n)
	case 3:
		_, sz := readVarint(rest)
		if sz == 0 {
			return
		}
		n, sz2 := readVarint(rest[sz:])
		if sz2 == 0 || n > uint64(len(rest)-sz-sz2) {
			return
		}
		at, ln = sz+sz2+1, int(n)
	default:
		return
	}
	x.At, x.Len = at, ln
	blob := rest[at-1 : at-1+ln]
	var b []byte
	var err error
	switch typ {
	case 1, 2:
		var dl int
		if dl, err = snappy.DecodedLen(blob); err == nil && dl <= inflateLimit {
			b, err = snappy.Decode(nil, blob)
		} else if err == nil {
			err = io.ErrShortBuffer
		}
	case 3:
		var zr io.ReadCloser
		if zr, err = zlib.NewReader(bytes.NewReader(blob)); err == nil {
			b, err = io.ReadAll(io.LimitReader(zr, inflateLimit))
		}
	case 4:
		b, err = zstdInflate(blob)
	}
	if err == nil {
		x.Ok, x.B = true, ints(b)
	}
	return
}

type docRec struct {
	D     []int     `json:"d"`
	Part  string    `json:"part"`
	Perl  bool      `json:"perl"`
	Nori  bool      `json:"nori"`
	Zstd  bool      `json:"zstd"`
	Infl  inflation `json:"infl"`
	Ok    bool      `json:"ok"`
	Err   string    `json:"err"`
	Val   toks      `json:"val"`
	Hval  toks      `json:"hval"`
	Looks bool      `json:"looks"`
	Note  string    `json:"note,omitempty"`
	Shape string    `json:"shape,omitempty"`
	// destinations for body and header: 0 a pointer to an interface, others: no
	// destinations at all, see useless
	Bdst int  `json:"bdst"`
	Hdst int  `json:"hdst"`
	Kept bool `json:"kept"` // what is no destination was left alone
	// what is wrong with the memory of document and result
	Mem string `json:"mem"`
}

// separate tells whether decoding left the document as it was, and writing into
// the document later leaves what was decoded as it is
func separate(orig []int, doc []byte, ok bool, dump func() interface{}) string {
	if !undisturbed(unints(orig), doc) {
		return "document modified"
	}
	if !ok {
		return ""
	}
	before := dump()
	spoil(doc, 0x15)
	if !reflect.DeepEqual(before, dump()) {
		return "shared with the document"
	}
	return ""
}

// values that are no destinations
var useless = []func() interface{}{
	nil,
	func() interface{} { return 1 },
	func() interface{} { return "" },
	func() interface{} { return map[string]interface{}{"a": 1} },
	func() interface{} { return map[string]int{} },
	func() interface{} { return []interface{}{1, 2, 3} },
	func() interface{} { return []byte("abc") },
	func() interface{} { return struct{ A int }{1} },
	func() interface{} { return [2]int{1, 2} },
	func() interface{} { return (*interface{})(nil) },
	func() interface{} { return (*int)(nil) },
	func() interface{} { return (*map[string]interface{})(nil) },
	func() interface{} { return (**string)(nil) },
	func() interface{} { return (*struct{ A int })(nil) },
	func() interface{} { return map[string]interface{}(nil) },
	func() interface{} { return sereal.PerlUndef{} },
	func() interface{} { return true },
	func() interface{} { return 1.5 },
}

// runDoc performs the call a record describes and fills in its outcome
func (r *docRec) runDoc() {
	doc := place(unints(r.D))
	r.Zstd = haveZstd
	r.Infl = inflate(doc)
	d := decoder(r.Perl, r.Nori)
	var v, hv interface{}
	var pv, phv interface{} = &v, &hv
	if r.Bdst > 0 {
		pv = useless[r.Bdst]()
	}
	if r.Hdst > 0 {
		phv = useless[r.Hdst]()
	}
	err, p := guard(func() error {
		r.Looks = sereal.LooksLikeSereal(doc)
		switch r.Part {
		case "head":
			return d.UnmarshalHeader(doc, phv)
		case "both":
			return d.UnmarshalHeaderBody(doc, phv, pv)
		default:
			if !r.Perl && !r.Nori && !reuse {
				return sereal.Unmarshal(doc, pv)
			}
			return d.Unmarshal(doc, pv)
		}
	})
	r.Kept = (r.Bdst == 0 || reflect.DeepEqual(pv, useless[r.Bdst]())) && (r.Hdst == 0 || reflect.DeepEqual(phv, useless[r.Hdst]()))
	if r.Bdst == 0 && err == sereal.ErrHeaderPointer && v != nil || r.Hdst == 0 && r.Part == "body" && hv != nil {
		r.Kept = false
	}
	r.Ok = err == nil && p == ""
	r.Err = errKind(err, p)
	r.Note = p
	r.Val, r.Hval = toks{}, toks{}
	if r.Ok {
		r.Val, r.Hval = dump(v), dump(hv)
	}
	r.Mem = separate(r.D, doc, r.Ok, func() interface{} { return []toks{dump(v), dump(hv)} })
}

func mutate(r *rand.Rand, d []byte, from int) []byte {
	x := append([]byte{}, d...)
	if len(x) <= from {
		return x
	}
	for k := 1 + r.Intn(2); k > 0; k-- {
		i := from + r.Intn(len(x)-from)
		switch r.Intn(6) {
		case 0:
			x[i] ^= 1 << uint(r.Intn(8))
		case 1:
			x[i] = byte(r.Intn(256))
		case 2:
			x[i]++
		case 3:
			x[i]--
		case 4: // delete
			x = append(x[:i], x[i+1:]...)
		case 5: // insert a tag
			x = append(x[:i], append([]byte{byte(0x20 + r.Intn(0x20))}, x[i:]...)...)
		}
		if len(x) <= from {
			break
		}
	}
	return x
}

func init() {
	// decode: documents from the generator (-mode valid), cut short or
	// damaged ones (-mode bad)
	commands["decode"] = func() {
		rec := newRecorder()
		rnd := rand.New(rand.NewSource(*seed))
		seen := map[string]bool{}
		for rec.n < *count {
			c := genCfg{frozen: true, budget: 4 + rnd.Intn(14), depth: 1 + rnd.Intn(6), wides: rnd.Intn(2)}
			mode := mode
			if *mode == "reuse" {
				reuse = true
				m := []string{"valid", "share", "bad", "head"}[rnd.Intn(4)]
				mode = &m
			}
			if *mode == "share" {
				c.share, c.budget, c.depth = true, 10+rnd.Intn(14), 3+rnd.Intn(4)
			}
			if *mode == "far" {
				c.far, c.budget, c.depth = farLen(rec.n, rnd), 30, 5
			}
			if *mode == "vast" {
				c.vast, c.simple = vastLen(rec.n/2, rnd), rnd.Intn(2) == 0
				if rec.n%2 == 1 {
					c.nest = nestLen(rec.n / 2)
				}
			}
			if *mode == "bad" && rnd.Intn(3) == 0 {
				c.wild = 1 + rnd.Intn(2)
				c.share = rnd.Intn(3) == 0
			}
			doc, version, _, _ := randDoc(rnd, c)
			if *mode == "far" && len(doc) < c.far {
				continue
			}
			part := "body"
			hs, sz := readVarint(doc[5:])
			user := version > 1 && hs > 0 && doc[5+sz]&1 == 1
			if version > 1 && rnd.Intn(4) == 0 && (user || rnd.Intn(12) == 0) {
				part = []string{"head", "both"}[rnd.Intn(2)]
			}
			if *mode == "head" {
				if version == 1 || !user && rnd.Intn(10) > 0 {
					continue
				}
				part = []string{"head", "head", "both", "body"}[rnd.Intn(4)]
			}
			from := 5
			if rnd.Intn(3) > 0 { // damage the body (or user data) only
				from = 5 + sz + int(hs)
				if part == "head" {
					from = 5 + sz
				}
			}
			docs := [][]byte{doc}
			if *mode == "head" {
				// a damaged body, or none at all, is of no concern to the header
				switch rnd.Intn(5) {
				case 0:
					docs[0] = mutate(rnd, doc, 5+sz+int(hs))
				case 1:
					docs[0] = doc[:5+sz+int(hs)]
				case 2:
					docs[0] = mutate(rnd, doc, 5+sz)
				}
			} else if *mode == "bad" {
				k := rnd.Intn(3)
				if c.wild == 0 {
					docs = nil
				} else {
					k = -1
				}
				switch k {
				case -1:
				case 0: // every truncation of a short document
					if len(doc) > 40 {
						continue
					}
					for i := 5; i < len(doc); i++ {
						docs = append(docs, doc[:i])
					}
				default:
					for i := 0; i < 4; i++ {
						docs = append(docs, mutate(rnd, doc, from))
					}
				}
			} else if rnd.Intn(8) == 0 {
				docs[0] = append(append([]byte{}, doc...), byte(rnd.Intn(256)), byte(rnd.Intn(256)))
			}
			for _, doc := range docs {
				if len(doc) > 600 && c.far == 0 && c.vast == 0 {
					continue
				}
				r := &docRec{D: ints(doc), Part: part, Perl: rnd.Intn(3) == 0, Nori: rnd.Intn(4) == 0}
				key := string(doc) + part
				if r.Perl {
					key += "p"
				}
				if r.Nori {
					key += "n"
				}
				if seen[key] {
					continue
				}
				seen[key] = true
				rec.about(r)
				r.runDoc()
				rec.put(r)
			}
		}
		rec.close()
	}
	redoDoc := func(l []byte, rec *recorder) {
		r := &docRec{}
		if err := json.Unmarshal(l, r); err != nil {
			fatal(err)
		}
		rec.about(r)
		r.runDoc()
		rec.put(r)
	}
	redoers["decode"] = redoDoc
	redoers["bodies"] = redoDoc
	redoers["dest"] = redoDoc

	// dest: values that are no destinations
	commands["dest"] = func() {
		rec := newRecorder()
		rnd := rand.New(rand.NewSource(*seed))
		for rec.n < *count {
			c := genCfg{frozen: true, budget: 4 + rnd.Intn(6), depth: 1 + rnd.Intn(3), wild: rnd.Intn(6) / 5}
			doc, _, _, _ := randDoc(rnd, c)
			if rnd.Intn(3) == 0 {
				doc = mutate(rnd, doc, []int{0, 4, 6}[rnd.Intn(3)])
			}
			if len(doc) > 300 {
				continue
			}
			r := &docRec{D: ints(doc), Part: []string{"body", "head", "both", "both"}[rnd.Intn(4)], Perl: rnd.Intn(3) == 0,
				Nori: rnd.Intn(4) == 0}
			k := rnd.Intn(3)
			if r.Part == "head" || r.Part == "both" && k > 0 {
				r.Hdst = 1 + rnd.Intn(len(useless)-1)
			}
			if r.Part == "body" || r.Part == "both" && k < 2 {
				r.Bdst = 1 + rnd.Intn(len(useless)-1)
			}
			rec.about(r)
			r.runDoc()
			rec.put(r)
		}
		rec.close()
	}

	// bodies: short bodies over the tag alphabet: all of one byte, then random
	// ones of two to six bytes; -mode exh: all of two bytes
	commands["bodies"] = func() {
		rec := newRecorder()
		rnd := rand.New(rand.NewSource(*seed))
		var alpha []byte
		for _, t := range []int{0, 1, 2, 3, 15, 16, 31, 0x20, 0x21, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2d,
			0x2e, 0x2f, 0x30, 0x31, 0x32, 0x33, 0x39, 0x3a, 0x3b, 0x3f, 0x40, 0x41, 0x42, 0x50, 0x51, 0x60, 0x61, 0x62} {
			alpha = append(alpha, byte(t))
			if t >= 0x25 && t < 0x34 || t >= 0x3f {
				alpha = append(alpha, byte(t)|0x80)
			}
		}
		run := func(body []byte) {
			version := 1 + rnd.Intn(4)
			r := &docRec{D: ints(wrap(version, 0, nil, body, 0)), Part: "body", Perl: rnd.Intn(3) == 0, Nori: rnd.Intn(5) == 0}
			rec.about(r)
			r.runDoc()
			rec.put(r)
		}
		if *mode == "exh" {
			for i := 0; i < 65536; i++ {
				run([]byte{byte(i >> 8), byte(i)})
			}
			rec.close()
			return
		}
		run(nil)
		for i := 0; i < 256; i++ {
			run([]byte{byte(i)})
		}
		seen := map[string]bool{}
		for rec.n < *count {
			b := make([]byte, 2+rnd.Intn(6))
			for i := range b {
				switch {
				case i > 0 && rnd.Intn(4) == 0:
					b[i] = byte(1 + rnd.Intn(len(b)))
				case rnd.Intn(40) == 0:
					b[i] = byte(rnd.Intn(256))
				default:
					b[i] = alpha[rnd.Intn(len(alpha))]
				}
			}
			if !seen[string(b)] {
				seen[string(b)] = true
				run(b)
			}
		}
		rec.close()
	}
}
