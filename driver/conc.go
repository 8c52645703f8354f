package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"sync"

	"github.com/Sereal/Sereal/Go/sereal"
)

// Many calls at a time: see spec/SrlConc.tla and spec/T_Conc.tla.
type concRec struct {
	GenS  int64      `json:"gens"`
	Tasks []string   `json:"tasks"`
	Alone []string   `json:"alone"`
	Runs  [][]string `json:"runs"` // by goroutine, by call: the outcome
	What  [][]int    `json:"what"` // the task of it
	Same  bool       `json:"same"` // the arguments were not modified
}

// Slow gives way to others while it is marshalled
type Slow struct{ N int }

func (s Slow) MarshalBinary() ([]byte, error) {
	runtime.Gosched()
	return []byte{byte(s.N)}, nil
}

func (s *Slow) UnmarshalBinary(b []byte) error {
	runtime.Gosched()
	s.N = len(b)
	return nil
}

// freshValue is of types nobody has seen before
func freshValue(rnd *rand.Rand, seed int64) reflect.Value {
	g := &valGen{r: rnd, budget: 12, onekey: true}
	mk := func(name string, inner reflect.Type) reflect.Type {
		fs := []reflect.StructField{}
		for i := 1 + rnd.Intn(4); i > 0; i-- {
			f := reflect.StructField{Name: fmt.Sprintf("%s%d_%d", name, i, seed&0xffffff), Type: g.typ(1)}
			if rnd.Intn(3) == 0 {
				f.Tag = reflect.StructTag(fmt.Sprintf(`sereal:"t%d"`, i))
			}
			if i == 1 && inner != nil {
				f.Type = inner
			}
			if rnd.Intn(6) == 0 {
				f.Type = typeOf((*Slow)(nil))
			}
			fs = append(fs, f)
		}
		return reflect.StructOf(fs)
	}
	in := mk("A", nil)
	mid := mk("B", []reflect.Type{in, reflect.SliceOf(in), reflect.PtrTo(in), reflect.MapOf(typeOf((*string)(nil)), in)}[rnd.Intn(4)])
	out := reflect.SliceOf(mk("C", mid))
	rv := reflect.New(out).Elem()
	rv.Set(reflect.MakeSlice(out, 1, 1))
	g.fill(rv.Index(0), 3)
	return rv
}

func (r *concRec) run() {
	rnd := rand.New(rand.NewSource(r.GenS))
	r.Tasks, r.Alone, r.Runs, r.What, r.Same = []string{}, []string{}, [][]string{}, [][]int{}, true
	reuse, dontRecord, frozenCalls = false, true, nil
	defer func() { dontRecord = false }()
	kinds := []string{"encode", "encode fresh", "encode fresh", "encode fresh", "encode both", "encode bad", "decode", "decode bad",
		"into", "into share", "into fresh", "decode both", "decompress", "merge"}
	tasks := make([]histTask, 1+rnd.Intn(4))
	args := make([]*histArgs, len(tasks))
	before := [][]string{}
	for i := range tasks {
		t := histTask{Seed: rnd.Int63(), Kind: kinds[rnd.Intn(len(kinds))], Pkg: rnd.Intn(3) > 0, Reg: rnd.Intn(8)}
		switch t.Kind {
		case "encode both", "decode both", "decompress", "merge":
			t.Pkg = false
		}
		t.Enc = encOpts{Ver: 3, Comp: "none", Thr: 1024}
		if t.Pkg {
			t.Reg = 0
		} else {
			t.Enc.Ver, t.Enc.Perl, t.Enc.Nodedup = rnd.Intn(4), rnd.Intn(3) == 0, rnd.Intn(3) == 0
			t.Perl, t.Nori = rnd.Intn(3) == 0, rnd.Intn(4) == 0
			if rnd.Intn(2) == 0 {
				t.Enc.Comp, t.Enc.Thr, t.Enc.Level = []string{"zlib", "zlib", "snappyinc"}[rnd.Intn(3)], 0, rnd.Intn(11)-1
			}
		}
		tasks[i], args[i] = t, t.args()
		r.Tasks = append(r.Tasks, t.name())
		b := []string{}
		for _, h := range args[i].things {
			b = append(b, h.digest())
		}
		before = append(before, b)
	}
	n := 2 + rnd.Intn(7)
	finish := make([][]func() (string, []*held), n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for j := 0; j < n; j++ {
		// every goroutine has its own objects, but arguments may be common
		type job struct {
			t    histTask
			a    *histArgs
			i    int
			e    *sereal.Encoder
			d    *sereal.Decoder
			give bool
		}
		jobs := []job{}
		own := map[int]*sereal.Encoder{}
		what := []int{}
		for c := 1 + rnd.Intn(3); c > 0; c-- {
			i := rnd.Intn(len(tasks))
			t := tasks[i]
			x := job{t: t, i: i, give: rnd.Intn(3) == 0}
			x.a = t.args()
			if rnd.Intn(3) > 0 { // the very same document or value
				x.a.val, x.a.head, x.a.doc = args[i].val, args[i].head, args[i].doc
			}
			if own[i] == nil {
				own[i] = t.Enc.encoder()
			}
			x.e = own[i]
			x.d = sereal.NewDecoder()
			x.d.PerlCompat, x.d.DisableReferentialIntegrity = t.Perl, t.Nori
			register(x.d, t.Reg)
			jobs = append(jobs, x)
			what = append(what, i+1)
		}
		r.What = append(r.What, what)
		j := j
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, x := range jobs {
				if x.give {
					runtime.Gosched()
				}
				finish[j] = append(finish[j], x.t.perform(x.a, x.e, x.d))
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, fs := range finish {
		outs := []string{}
		for _, f := range fs {
			out, _ := f()
			outs = append(outs, out)
		}
		r.Runs = append(r.Runs, outs)
	}
	for i, t := range tasks {
		r.Alone = append(r.Alone, t.alone())
		for k, h := range args[i].things {
			if h.digest() != before[i][k] {
				r.Same = false
			}
		}
	}
}

func init() {
	commands["conc"] = func() {
		rec := newRecorder()
		rnd := rand.New(rand.NewSource(*seed))
		for rec.n < *count {
			r := &concRec{GenS: rnd.Int63()}
			rec.about(r)
			r.run()
			rec.put(r)
		}
		rec.close()
	}
	redoers["conc"] = func(l []byte, rec *recorder) {
		old := &concRec{}
		parse(l, old)
		r := &concRec{GenS: old.GenS}
		rec.about(r)
		r.run()
		rec.put(r)
	}
}
