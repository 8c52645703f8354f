package main

import (
	"bytes"
	"math/rand"

	"github.com/Sereal/Sereal/Go/sereal"
)

type mergeOpts struct {
	Ver    int    `json:"ver"` // 0: latest
	Top    int    `json:"top"` // 0 array, 1 arrayref, others: not defined
	Dedupe bool   `json:"dedupe"`
	Flat   bool   `json:"flat"`
	Comp   string `json:"comp"`
	Level  int    `json:"level"`
	Thr    int    `json:"thr"`
	Exp    int    `json:"exp"`
	Zero   bool   `json:"zero"` // made as &Merger{}
}

func (o mergeOpts) merger() *sereal.Merger {
	var m *sereal.Merger
	switch o.Ver {
	case 2:
		m = sereal.NewMergerV2()
	case 3:
		m = sereal.NewMergerV3()
	default:
		m = sereal.NewMerger()
		if o.Zero {
			m = &sereal.Merger{}
		}
	}
	switch o.Top {
	case 0:
		m.TopLevelElement = sereal.TopLevelArray
	case 1:
		m.TopLevelElement = sereal.TopLevelArrayRef
	default:
		m.TopLevelElement = 7
	}
	m.ExpectedSize = uint(o.Exp)
	o.apply(m)
	return m
}

// apply sets what may be changed between two calls
func (o mergeOpts) apply(m *sereal.Merger) {
	m.DedupeStrings, m.KeepFlat = o.Dedupe, o.Flat
	m.CompressionThreshold = o.Thr
	m.Compression = nil
	switch o.Comp {
	case "snappy":
		m.Compression = sereal.SnappyCompressor{}
	case "snappyinc":
		m.Compression = sereal.SnappyCompressor{Incremental: true}
	case "zlib":
		m.Compression = sereal.ZlibCompressor{Level: o.Level}
	case "zstd":
		m.Compression = sereal.ZstdCompressor{Level: o.Level}
	}
}

type mergeOp struct {
	Op   string    `json:"op"` // append, finish
	Cfg  mergeOpts `json:"cfg"` // the configuration at the time of the call
	D    []int     `json:"d"`
	Infl inflation `json:"infl"`
	Ok   bool      `json:"ok"`
	Err  string    `json:"err"`
	N    int       `json:"n"`
	Same bool      `json:"same"` // the argument was not modified

	Out   []int     `json:"out"`
	Oinfl inflation `json:"oinfl"`
	// what mergers give that were handed only the documents accepted so far:
	// with this configuration, and without compression
	Clean []int  `json:"clean"`
	Plain []int  `json:"plain"`
	Note  string `json:"note,omitempty"`
}

type mergeRec struct {
	Opt  mergeOpts  `json:"opt"`
	Zstd bool       `json:"zstd"`
	Ops  []*mergeOp `json:"ops"`
	Econ bool       `json:"econ"` // judge the result's economy, too
	Kept bool       `json:"kept"` // finished documents were never modified afterwards
}

func (r *mergeRec) run() {
	r.Zstd = haveZstd
	m := r.Opt.merger()
	var good [][]byte
	var cfgs []mergeOpts
	var outs, copies [][]byte
	for _, o := range r.Ops {
		o.Infl, o.Oinfl = inflation{B: []int{}}, inflation{B: []int{}}
		o.Out, o.Clean, o.Plain = []int{}, []int{}, []int{}
		o.Same, o.N = true, 0
		o.Cfg.apply(m)
		if o.Op == "append" {
			doc := place(unints(o.D))
			o.Infl = inflate(doc)
			orig := append([]byte{}, doc...)
			err, p := guard(func() (err error) { o.N, err = m.Append(doc); return })
			o.Ok, o.Err, o.Note = err == nil && p == "", errKind(err, p), p
			if err != nil {
				o.Note = err.Error()
			}
			o.Same = undisturbed(orig, doc)
			if o.Ok {
				good, cfgs = append(good, orig), append(cfgs, o.Cfg)
			}
			spoil(doc, 0x5a) // the merger must not rely on it
			continue
		}
		o.D = []int{}
		finish := func(m *sereal.Merger) ([]byte, bool) {
			var out []byte
			err, p := guard(func() (err error) { out, err = m.Finish(); return })
			if err != nil || p != "" {
				return nil, false
			}
			return out, true
		}
		var out []byte
		err, p := guard(func() (err error) { out, err = m.Finish(); return })
		o.Ok, o.Err, o.Note = err == nil && p == "", errKind(err, p), p
		if err != nil {
			o.Note = err.Error()
		}
		if o.Ok {
			o.Out = ints(out)
			o.Oinfl = inflate(out)
			outs, copies = append(outs, out), append(copies, append([]byte{}, out...))
		}
		for i, comp := range []string{o.Cfg.Comp, "none"} {
			c := r.Opt.merger()
			for j, d := range good {
				cfgs[j].apply(c)
				guard(func() (err error) { _, err = c.Append(append([]byte{}, d...)); return })
			}
			opt := o.Cfg
			opt.Comp = comp
			opt.apply(c)
			if out, ok := finish(c); ok {
				if i == 0 {
					o.Clean = ints(out)
				} else {
					o.Plain = ints(out)
				}
			}
		}
	}
	r.Kept = true
	for i := range outs {
		if !bytes.Equal(outs[i], copies[i]) {
			r.Kept = false
		}
	}
}

// mergeConfig makes a configuration
func mergeConfig(rnd *rand.Rand) mergeOpts {
	o := mergeOpts{Ver: []int{0, 2, 3}[rnd.Intn(3)], Top: rnd.Intn(2), Dedupe: rnd.Intn(2) == 0, Flat: rnd.Intn(2) == 0,
		Comp: "none", Thr: []int{0, 1024, 40, 80}[rnd.Intn(4)]}
	if rnd.Intn(60) == 0 {
		o.Top = 2
	}
	o.Zero = rnd.Intn(3) == 0
	if rnd.Intn(4) == 0 {
		o.Exp = rnd.Intn(200)
	}
	switch rnd.Intn(8) {
	case 0, 1:
		o.Comp = "snappyinc"
	case 2, 3:
		o.Comp, o.Level = "zlib", level(rnd)
	case 4:
		o.Comp = []string{"snappy", "zstd"}[rnd.Intn(2)]
	}
	if *mode == "life" {
		o.Comp = []string{"none", "snappyinc", "snappyinc", "zlib", "zlib", "snappy", "zstd"}[rnd.Intn(7)]
		o.Level = level(rnd)
		o.Thr = []int{0, 1, 20, 40, 60, 80, 120, 1024}[rnd.Intn(8)]
	}
	return o
}

// mergeHistory makes documents for a sequence of calls
func mergeHistory(rnd *rand.Rand, seq []int, far, vast, nest int) *mergeRec {
	o := mergeConfig(rnd)
	plain := false
	if *mode == "keys" || *mode == "rows" {
		o.Dedupe, plain = rnd.Intn(3) > 0, rnd.Intn(2) == 0
	}
	pool := [][]byte{[]byte("ab"), []byte("key"), []byte("Class"), []byte("\xc3\xa9"), []byte("")}
	pool = append(pool, bytes.Repeat([]byte("x"), []int{20, 30, 31, 32, 33, 39, 50, 64, 100, 127, 128}[rnd.Intn(11)]))
	if rnd.Intn(3) == 0 {
		pool = pool[:2]
	}
	r := &mergeRec{Opt: o, Ops: []*mergeOp{}, Econ: *mode == "keys" || *mode == "rows"}
	var names []string
	var past [][]byte
	doc := func(top int) []byte {
		c := genCfg{frozen: true, budget: 3 + rnd.Intn(10), depth: 1 + rnd.Intn(4), pool: pool, top: top, wides: rnd.Intn(2), plain: plain, ld: rnd.Intn(3) == 0}
		if *mode == "rows" {
			c.rows, c.vast, c.plain = &names, 1+rnd.Intn(2*vast), true
			d, _, _, _ := randDoc(rnd, c)
			return d
		}
		if far != 0 { // in the first document
			c.far, far = far, 0
		}
		if vast != 0 {
			c.vast, c.simple, c.acyclic = 1+vast/(1+rnd.Intn(3)), rnd.Intn(3) > 0, top != 0 || rnd.Intn(2) == 0
			if nest > 0 {
				c.nest = nest/2 + rnd.Intn(nest)
			}
			if rnd.Intn(3) == 0 {
				c.vast = 0
			}
		}
		d, _, _, _ := randDoc(rnd, c)
		for len(d) < c.far { // it has no string long enough
			d, _, _, _ = randDoc(rnd, c)
		}
		for len(d) > 400 && c.far == 0 && c.vast == 0 {
			d, _, _, _ = randDoc(rnd, c)
		}
		return d
	}
	// same envelope around a damaged body
	late := func() []byte {
		version := 1 + rnd.Intn(4)
		var body []byte
		c := genCfg{frozen: true, budget: 4 + rnd.Intn(10), depth: 2, pool: pool, top: 1 + rnd.Intn(4)}
		if rnd.Intn(3) == 0 {
			c.wild, c.depth = 1, 4
		}
		for len(body) < 4 {
			body = randBody(rnd, version, len(header(version, 0, nil)), c)
		}
		k := rnd.Intn(5)
		if c.wild > 0 {
			k = -1
		}
		switch i := len(body) - 1 - rnd.Intn(3); k {
		case 0: // an item too few
			body = body[:i]
		case 1: // reserved tags
			body[i] = []byte{0x24, 0x33, 0x34, 0x38, 0x3c, 0x3d, 0x3e}[rnd.Intn(7)]
		case 2: // an offset that leads nowhere
			body = append(body[:i], []byte{0x29, 0x2f, 0x2e, 0x2d}[rnd.Intn(4)], byte(rnd.Intn(len(body)+3)))
		case 3:
			body = append(body[:i], 0x26, byte(rnd.Intn(200)))
		case 4:
			body = append(body[:i], 0x2a, 1, 0x2b, 0)
		}
		typ := 0
		if rnd.Intn(4) == 0 {
			typ = []int{0, 1, 2, 3, 3}[version]
		}
		return wrap(version, typ, nil, body, -1)
	}
	add := func(d []byte) { r.Ops = append(r.Ops, &mergeOp{Op: "append", D: ints(d)}) }
	for _, x := range seq {
		switch x {
		case 6:
			r.Ops = append(r.Ops, &mergeOp{Op: "finish"})
			continue
		case 1:
			past = append(past, doc(0))
		case 2:
			top := 1
			if o.Top == 1 {
				top = 2 + rnd.Intn(2)
			}
			past = append(past, doc(top))
		case 3:
			past = append(past, late())
		case 4:
			past = append(past, mutate(rnd, doc(rnd.Intn(5)), 5*rnd.Intn(2)))
		case 5:
			if len(past) > 0 {
				past = append(past, past[rnd.Intn(len(past))])
			} else {
				past = append(past, doc(0))
			}
		}
		add(past[len(past)-1])
	}
	if seq[len(seq)-1] != 6 {
		r.Ops = append(r.Ops, &mergeOp{Op: "finish"})
	}
	// the configuration may be another one for every call
	change := !r.Econ && rnd.Intn(4) == 0
	for _, op := range r.Ops {
		if change && rnd.Intn(2) == 0 {
			x := mergeConfig(rnd)
			x.Ver, x.Top, x.Zero, x.Exp = o.Ver, o.Top, o.Zero, o.Exp
			o = x
		}
		op.Cfg = o
	}
	return r
}

func init() {
	commands["merge"] = func() {
		rec := newRecorder()
		rnd := rand.New(rand.NewSource(*seed))
		do := func(seq []int) {
			far, vast, nest := 0, 0, 0
			switch *mode {
			case "far":
				far = farLen(rec.n, rnd)
			case "rows": // documents of this many rows
				vast = []int{100, 500, 20, 900}[rec.n%4] / len(seq)
			case "vast":
				vast = []int{2000, 1030, 16500, 300, 600, 5000}[rec.n/2%6]
				if rec.n%2 == 1 {
					nest = nestLen(rec.n / 2)
				}
				if len(seq) > 20 {
					vast = 0
				}
				if len(seq) > 3 {
					vast /= len(seq) / 2
				}
			}
			r := mergeHistory(rnd, seq, far, vast, nest)
			rec.about(r)
			r.run()
			rec.put(r)
		}
		if *in != "" {
			seqs := sequences(rnd)
			for i := 0; i < len(seqs) && rec.n < *count; i++ {
				do(seqs[i])
			}
		}
		for rec.n < *count { // longer ones
			s := make([]int, 1+rnd.Intn(9))
			if *mode == "vast" {
				s = s[:1+len(s)/3]
				if rec.n%8 == 4 { // many small documents
					s = make([]int, []int{40, 300, 130}[rec.n/8%3]+rnd.Intn(9))
				}
			}
			for i := range s {
				switch *mode {
				case "fail":
					s[i] = []int{1, 2, 3, 3, 3, 4, 4, 5}[rnd.Intn(8)]
				case "vast":
					s[i] = []int{2, 2, 1, 3, 5, 6}[rnd.Intn(6)]
					if s[i] == 6 && i < len(s)-1 {
						s[i] = 2
					}
				case "far":
					s[i] = []int{1, 1, 2}[rnd.Intn(3)]
				case "rows":
					s[i] = []int{1, 2, 2, 5}[rnd.Intn(4)]
				case "keys":
					s[i] = []int{1, 2, 1, 2, 1, 2, 3, 5, 6}[rnd.Intn(9)]
					if s[i] == 6 && i < len(s)-1 {
						s[i] = 1
					}
				case "life":
					s[i] = []int{1, 2, 6, 5}[rnd.Intn(4)]
				default:
					s[i] = []int{1, 1, 2, 2, 3, 4, 5, 6}[rnd.Intn(8)]
					if s[i] == 6 && rnd.Intn(3) > 0 {
						s[i] = 1
					}
				}
			}
			if *mode == "fail" {
				s = append(s, 1+rnd.Intn(2))
			}
			do(s)
		}
		rec.close()
	}
	redoers["merge"] = func(l []byte, rec *recorder) {
		r := &mergeRec{}
		parse(l, r)
		rec.about(r)
		r.run()
		rec.put(r)
	}
}
