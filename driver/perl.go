package main

import (
	"math/rand"
)

// perlRec: a document decoded and encoded again, both Perl-compatible
type perlRec struct {
	D    []int     `json:"d"`
	Opt  encOpts   `json:"opt"`
	Infl inflation `json:"infl"`
	Dok  bool      `json:"dok"`
	Eok  bool      `json:"eok"`
	Err  string    `json:"err"`
	Out  []int     `json:"out"`
	Note string    `json:"note,omitempty"`
}

func (r *perlRec) run() {
	doc := place(unints(r.D))
	r.Infl = inflate(doc)
	r.Out, r.Dok, r.Eok = []int{}, false, false
	d := decoder(true, false)
	var v interface{}
	err, p := guard(func() error { return d.Unmarshal(doc, &v) })
	r.Err, r.Note = errKind(err, p), p
	if err != nil || p != "" {
		return
	}
	r.Dok = true
	var out []byte
	err, p = guard(func() (err error) { out, err = r.Opt.encoder().Marshal(v); return })
	r.Err, r.Note = errKind(err, p), p
	if err != nil || p != "" {
		if err != nil {
			r.Note = err.Error()
		}
		return
	}
	r.Eok = true
	r.Out = ints(out)
}

func init() {
	commands["perl"] = func() {
		rec := newRecorder()
		rnd := rand.New(rand.NewSource(*seed))
		for rec.n < *count {
			c := genCfg{budget: 4 + rnd.Intn(14), depth: 1 + rnd.Intn(6), frozen: rnd.Intn(20) == 0}
			reuse = *mode == "reuse"
			if *mode == "share" || reuse && rnd.Intn(3) == 0 {
				c.share, c.budget, c.depth = true, 10+rnd.Intn(14), 3+rnd.Intn(4)
			}
			if rnd.Intn(12) == 0 {
				c.wild = 1
			}
			if *mode == "vast" {
				c.vast, c.simple, c.acyclic = vastLen(rec.n/2, rnd), rnd.Intn(2) == 0, rnd.Intn(5) > 0
				if rec.n%2 == 1 {
					c.nest = nestLen(rec.n / 2)
				}
			}
			doc, _, _, _ := randDoc(rnd, c)
			if len(doc) > 600 && c.vast == 0 {
				continue
			}
			if reuse && rnd.Intn(4) == 0 {
				doc = mutate(rnd, doc, 6)
			}
			r := &perlRec{D: ints(doc), Opt: encOpts{Ver: rnd.Intn(4), Perl: true, Nodedup: rnd.Intn(3) == 0, Comp: "none",
				Thr: 1024, Maxd: 2000}}
			rec.about(r)
			r.run()
			rec.put(r)
		}
		rec.close()
	}
	redoers["perl"] = func(l []byte, rec *recorder) {
		r := &perlRec{}
		parse(l, r)
		rec.about(r)
		r.run()
		rec.put(r)
	}
}
