package main

import (
	"math/rand"
	"reflect"
	"runtime"

	"github.com/Sereal/Sereal/Go/sereal"
)

// nestRec is one encoding of a value that is nothing but nested: units around
// each other, in turn, as often as N says
type nestRec struct {
	GenS  int64    `json:"gens"`
	Opt   encOpts  `json:"opt"`
	Units []string `json:"units"` // from the inside out
	N     int      `json:"n"`     // how many altogether
	Head  bool     `json:"head"`  // it is the header
	Class []int    `json:"class"` // what struct types are called
	Ok    bool     `json:"ok"`
	Err   string   `json:"err"`
	D     []int    `json:"d"`
	Dok   bool     `json:"dok"` // its document was decoded
}

var nestUnits = []string{"slice", "map", "ptr", "struct", "pstruct", "array", "obj", "pobj", "weak", "pweak"}

func (r *nestRec) run() {
	var x interface{} = 1
	for i := 0; i < r.N; i++ {
		switch r.Units[i%len(r.Units)] {
		case "slice":
			x = []interface{}{x}
		case "map":
			x = map[string]interface{}{"key": x}
		case "ptr":
			y := x
			x = &y
		case "struct":
			x = Chain{x}
		case "pstruct":
			x = &Chain{x}
		case "array":
			x = [1]interface{}{x}
		case "obj":
			x = sereal.PerlObject{Class: "class", Reference: x}
		case "pobj":
			x = &sereal.PerlObject{Class: "class", Reference: x}
		case "weak":
			x = sereal.PerlWeakRef{Reference: x}
		case "pweak":
			x = &sereal.PerlWeakRef{Reference: x}
		}
	}
	r.Class = str(reflect.TypeOf(Chain{}).Name())
	var b []byte
	err, p := guard(func() (err error) {
		e := r.Opt.encoder()
		if r.Head {
			b, err = e.MarshalWithHeader(x, nil)
		} else {
			b, err = e.Marshal(x)
		}
		return
	})
	x = nil
	r.Ok, r.Err, r.D = err == nil && p == "", encErr(err, p), []int{}
	if r.Ok {
		r.D = ints(b)
		d := sereal.NewDecoder()
		d.PerlCompat = true
		var out interface{}
		err, p = guard(func() error {
			if r.Head {
				return d.UnmarshalHeader(b, &out)
			}
			return d.Unmarshal(b, &out)
		})
		r.Dok = err == nil && p == ""
	}
	runtime.GC()
}

func init() {
	commands["nest"] = func() {
		rec := newRecorder()
		rnd := rand.New(rand.NewSource(*seed))
		for rec.n < *count {
			r := &nestRec{GenS: rnd.Int63(), Class: []int{}, D: []int{}}
			r.Opt = encOpts{Ver: rnd.Intn(4), Perl: rnd.Intn(3) == 0, Nodedup: rnd.Intn(4) == 0, Comp: "none"}
			r.Head = r.Opt.Ver != 1 && rnd.Intn(5) == 0
			k := 1 + rnd.Intn(4)
			if rnd.Intn(3) == 0 {
				k = 1
			}
			for ; k > 0; k-- {
				r.Units = append(r.Units, nestUnits[rnd.Intn(len(nestUnits))])
			}
			r.N = []int{1 << 16, 1 << 15, 1<<15 + 1, 50000, 1 << 13, 1 << 12, 10000, 1 << 10}[rec.n%8] + rnd.Intn(20) - 3
			if *tier == "thorough" && rec.n%8 == 0 {
				r.N *= 1 + rnd.Intn(4)
			}
			if rnd.Intn(3) == 0 { // around the limit
				w := 0
				for i := 0; i < r.N; i++ {
					w += map[string]int{"pstruct": 2, "obj": 0, "weak": 0}[r.Units[i%len(r.Units)]]
					if u := r.Units[i%len(r.Units)]; u != "pstruct" && u != "obj" && u != "weak" {
						w++
					}
				}
				r.Opt.Maxd = w + rnd.Intn(4) - 1
				if rnd.Intn(4) == 0 {
					r.Opt.Maxd = 1 + rnd.Intn(w+1)
				}
				if r.Opt.Maxd < 0 {
					r.Opt.Maxd = 0
				}
			}
			rec.about(r)
			r.run()
			rec.put(r)
		}
		rec.close()
	}
	redoers["nest"] = func(l []byte, rec *recorder) {
		r := &nestRec{}
		parse(l, r)
		rec.about(r)
		r.run()
		rec.put(r)
	}
}
