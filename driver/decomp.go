package main

import (
	"bytes"
	"math/rand"

	"github.com/Sereal/Sereal/Go/sereal"
)

// decompRec: one call of DecompressDocument
type decompRec struct {
	D     []int     `json:"d"`
	Dst   int       `json:"dst"` // length of the destination, -1: nil
	Cap   int       `json:"cap"`
	Fill  int       `json:"fill"`
	Zstd  bool      `json:"zstd"`
	Infl  inflation `json:"infl"`
	Ok    bool      `json:"ok"`
	Err   string    `json:"err"`
	Out   []int     `json:"out"`
	Same  bool      `json:"same"`  // source unchanged
	Indep bool      `json:"indep"` // result survives overwriting the source
	Note  string    `json:"note,omitempty"`
}

func (r *decompRec) run() {
	doc := place(unints(r.D))
	r.Zstd = haveZstd
	r.Infl = inflate(doc)
	orig := append([]byte{}, doc...)
	var dst []byte
	if r.Dst >= 0 {
		dst = make([]byte, r.Dst, r.Cap)
		full := dst[:cap(dst)]
		for i := range full {
			full[i] = byte(r.Fill + i*7)
		}
	}
	var out []byte
	err, p := guard(func() (err error) { out, err = sereal.DecompressDocument(dst, doc); return })
	r.Ok, r.Err, r.Note = err == nil && p == "", errKind(err, p), p
	r.Same = undisturbed(orig, doc)
	r.Out = []int{}
	r.Indep = true
	if r.Ok {
		r.Out = ints(out)
		spoil(doc, 0xa5)
		r.Indep = bytes.Equal(out, unints(r.Out))
	}
}

func init() {
	commands["decompress"] = func() {
		rec := newRecorder()
		rnd := rand.New(rand.NewSource(*seed))
		for rec.n < *count {
			c := genCfg{budget: 4 + rnd.Intn(14), depth: 1 + rnd.Intn(4)}
			doc, version, typ, body := randDoc(rnd, c)
			if typ == 0 && rnd.Intn(8) > 0 {
				continue
			}
			if rnd.Intn(3) == 0 { // compressible
				body = append([]byte{0x26, 200, 1}, bytes.Repeat([]byte{byte(rnd.Intn(256))}, 200)...)
				var suffix []byte
				if rnd.Intn(2) == 0 {
					suffix = randSuffix(rnd)
				}
				doc = wrap(version, typ, suffix, body, 9)
			}
			_, sz := readVarint(doc[5:])
			if rnd.Intn(4) == 0 {
				if rnd.Intn(2) == 0 {
					doc = mutate(rnd, doc, 4)
				} else {
					doc = doc[:6+rnd.Intn(len(doc)-5)]
				}
			}
			if len(doc) < 5 || len(doc) > 500 {
				continue
			}
			hs := 0
			if n, s := readVarint(doc[5:]); s > 0 && n < uint64(len(doc)) {
				hs = int(n)
			}
			full := 5 + sz + hs + len(body)
			r := &decompRec{D: ints(doc), Fill: rnd.Intn(256)}
			switch rnd.Intn(9) {
			case 0:
				r.Dst = -1
			case 1:
				r.Dst = 0
			case 2:
				r.Dst = len(doc)
			case 3:
				r.Dst = full
			case 4:
				r.Dst = full - 1
			case 5:
				r.Dst = full + 1 + rnd.Intn(64)
			case 6:
				r.Dst = len(doc) - 1
			case 7:
				r.Dst = rnd.Intn(full + 8)
			case 8:
				r.Dst = full + 5000
			}
			if r.Dst < -1 {
				r.Dst = 0
			}
			r.Cap = r.Dst
			if rnd.Intn(2) == 0 && r.Dst >= 0 {
				r.Cap = r.Dst + rnd.Intn(2*full)
			}
			rec.about(r)
			r.run()
			rec.put(r)
		}
		rec.close()
	}
	redoers["decompress"] = func(l []byte, rec *recorder) {
		r := &decompRec{}
		parse(l, r)
		rec.about(r)
		r.run()
		rec.put(r)
	}
}
