package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"reflect"

	"github.com/Sereal/Sereal/Go/sereal"
)

// Histories: see spec/SrlHist.tla and spec/T_Hist.tla.
type histOp struct {
	Op   string   `json:"op"`   // call, scribble, change, config
	What string   `json:"what"` // for the reader
	Task int      `json:"task"` // what was asked for, 0: nothing that is judged
	Out  string   `json:"out"`  // the outcome
	H    int      `json:"h"`    // the thing modified by the caller
	New  string   `json:"new"`  // what it is afterwards
	Made []string `json:"made"` // the things the caller has got by this operation
	Snap []string `json:"snap"` // all things the caller has, afterwards
}

type histRec struct {
	GenS  int64    `json:"gens"`
	GenM  string   `json:"genm"`
	Seq   []int    `json:"seq"`
	Tasks []string `json:"tasks"` // names of the tasks
	Alone []string `json:"alone"` // their outcomes with objects of their own
	Ops   []histOp `json:"ops"`
	Names []string `json:"names"` // names of the things
}

func digest(x interface{}) string {
	h := fnv.New64a()
	b, ok := x.([]byte)
	if !ok {
		b, _ = json.Marshal(x)
	}
	h.Write(b)
	return fmt.Sprintf("%d.%016x", len(b), h.Sum64())
}

func digestTerm(rv reflect.Value) string {
	things, kept = map[thing]int{}, nil
	return digest(term(rv, 0))
}

// a thing the caller has
type held struct {
	name   string
	digest func() string
	buf    []byte        // may be overwritten
	val    reflect.Value // may be changed
	used   bool          // changed by the caller, not to be handed in again
}

// task: a call with its arguments and the configuration of the object
type histTask struct {
	Kind string  `json:"kind"`
	Seed int64   `json:"seed"`
	Enc  encOpts `json:"enc"`
	Perl bool    `json:"perl"`
	Nori bool    `json:"nori"`
	Reg  int     `json:"reg"` // bits: what is registered
	Pkg  bool    `json:"pkg"` // by the package-level function
}

func (t histTask) name() string { b, _ := json.Marshal(t); return string(b) }

// args are the caller's arguments of a task
type histArgs struct {
	val, head   reflect.Value
	doc         []byte
	dest, hdest reflect.Value
	things      []*held
}

func (a *histArgs) used() bool {
	for _, h := range a.things {
		if h.used {
			return true
		}
	}
	return false
}

func register(d *sereal.Decoder, bits int) {
	if bits&1 != 0 {
		d.RegisterName("Reg1", Frozen{})
	}
	if bits&2 != 0 {
		d.RegisterName("Reg2", FrozenStr(""))
	}
	if bits&4 != 0 {
		d.RegisterName("main.Frozen", &Frozen{})
	}
}

// histValue is encoded in one way only
func histValue(rnd *rand.Rand, bad bool) reflect.Value {
	g := &valGen{r: rnd, budget: 4 + rnd.Intn(20), onekey: true, ptrs: rnd.Intn(2) == 0, perl: rnd.Intn(3) == 0, frozen: rnd.Intn(3) == 0}
	depth := 1 + rnd.Intn(4)
	if !bad && rnd.Intn(3) == 0 {
		rv := reflect.New(g.typ(depth)).Elem()
		g.fill(rv, depth)
		return rv
	}
	n := 1 + rnd.Intn(4)
	s := make([]interface{}, n)
	for i := range s {
		s[i] = ifv(g.any(depth))
	}
	if bad {
		b := &valGen{r: rnd, budget: 9, onekey: true, bad: true}
		var x interface{} = []interface{}{make(chan int), func() {}, map[int]string{1: "a"}, Frozen{[]byte("fail")},
			struct{ C chan int }{}, complex(1, 2)}[rnd.Intn(6)]
		for i := rnd.Intn(4); i > 0; i-- {
			switch rnd.Intn(4) {
			case 0:
				x = []interface{}{ifv(b.any(1)), x}
			case 1:
				x = map[string]interface{}{"k": x}
			case 2:
				x = &S3{I: x}
			case 3:
				x = sereal.PerlObject{Class: "Class", Reference: x}
			}
		}
		s = append(s, x)
	}
	return reflect.ValueOf(s)
}

// byteThing is a buffer of the caller's
func byteThing(name string, b []byte) *held {
	return &held{name: name, buf: b, digest: func() string { return digest(b) }}
}

func valThing(name string, rv reflect.Value) *held {
	return &held{name: name, val: rv, digest: func() string { return digest(graphOpt(rv, true)) }}
}

// termThing is a variable that was decoded into
func termThing(name string, rv reflect.Value) *held {
	return &held{name: name, val: rv, digest: func() string { return digestTerm(rv) }}
}

func (t histTask) args() *histArgs {
	rnd := rand.New(rand.NewSource(t.Seed))
	a := &histArgs{}
	switch t.Kind {
	case "encode", "encode bad":
		a.val = histValue(rnd, t.Kind == "encode bad")
		a.things = append(a.things, valThing("value", a.val))
	case "encode fresh":
		a.val = freshValue(rnd, t.Seed)
		a.things = append(a.things, valThing("value", a.val))
	case "encode both":
		a.val, a.head = histValue(rnd, rnd.Intn(4) == 0), histValue(rnd, rnd.Intn(4) == 0)
		a.things = append(a.things, valThing("value", a.val), valThing("header value", a.head))
	case "into":
		r := &typedRec{GenS: t.Seed, GenM: []string{"", "frozen", "share"}[rnd.Intn(3)]}
		a.doc, a.dest, _ = r.setup()
	case "into share": // references and copies everywhere
		r := &typedRec{GenS: t.Seed, GenM: "share"}
		a.doc, a.dest, _ = r.setup()
	case "into fresh":
		a.val = freshValue(rnd, t.Seed)
		a.doc, _ = (&sereal.Encoder{DisableDedup: rnd.Intn(2) == 0}).Marshal(ifv(a.val))
		a.dest = reflect.New(a.val.Type())
	default:
		c := genCfg{frozen: true, budget: 4 + rnd.Intn(14), depth: 1 + rnd.Intn(6), share: rnd.Intn(3) == 0}
		if t.Kind == "decode bad" {
			c.wild = rnd.Intn(2)
		}
		for a.doc == nil || len(a.doc) > 600 {
			a.doc, _, _, _ = randDoc(rnd, c)
		}
		if t.Kind == "decode bad" {
			from := 5
			if hs, sz := readVarint(a.doc[5:]); sz > 0 && rnd.Intn(4) > 0 {
				from += sz + int(hs)
			}
			if rnd.Intn(3) == 0 && len(a.doc) > from+1 {
				a.doc = a.doc[:from+1+rnd.Intn(len(a.doc)-from-1)]
			} else {
				a.doc = mutate(rnd, a.doc, from)
			}
			a.doc = append([]byte{}, a.doc...)
		}
		a.dest = reflect.New(ifaceType)
		a.hdest = reflect.New(ifaceType)
	}
	if a.doc != nil {
		a.doc = place(a.doc)
		a.things = append(a.things, byteThing("document", a.doc[:cap(a.doc)]))
	}
	return a
}

// call performs the task with the given arguments on the given object; results
// are what the caller gets
func (t histTask) call(a *histArgs, e *sereal.Encoder, d *sereal.Decoder) (out string, results []*held) {
	frozenCalls = nil
	return t.perform(a, e, d)()
}

// perform makes the call; what it gives describes the outcome afterwards
func (t histTask) perform(a *histArgs, e *sereal.Encoder, d *sereal.Decoder) func() (out string, results []*held) {
	var doc []byte
	enc := func(f func() ([]byte, error)) func() (string, []*held) {
		err, p := guard(func() (err error) { doc, err = f(); return })
		return func() (out string, results []*held) {
			defer func() {
				if t.Enc.Maxd > 0 && (manyTimes(a.val) || manyTimes(a.head)) {
					out = "any" // depends on where it is met first
				}
			}()
			if err != nil || p != "" {
				out = "fails " + encErr(err, p)
				if t.Enc.Maxd > 0 && p == "" { // of two faults, the one met first is reported
					out = "fails"
				}
				return
			}
			out = "ok " + digest(doc)
			if t.Kind != "decompress" {
				out = "ok " + meaning(doc)
			}
			results = append(results, byteThing("encoded", doc))
			return
		}
	}
	dec := func(f func() error, dests ...reflect.Value) func() (string, []*held) {
		err, p := guard(f)
		return func() (out string, results []*held) {
			if err != nil || p != "" {
				out = "fails " + errKind(err, p) + " " + digest(frozenCalls)
				return
			}
			out = "ok"
			for _, x := range dests {
				h := termThing("decoded", x.Elem())
				out += " " + h.digest()
				results = append(results, h)
			}
			out += " " + digest(frozenCalls)
			return
		}
	}
	switch t.Kind {
	case "encode", "encode bad", "encode fresh":
		if t.Pkg {
			return enc(func() ([]byte, error) { return sereal.Marshal(ifv(a.val)) })
		}
		return enc(func() ([]byte, error) { return e.Marshal(ifv(a.val)) })
	case "encode both":
		return enc(func() ([]byte, error) { return e.MarshalWithHeader(ifv(a.head), ifv(a.val)) })
	case "decode head":
		return dec(func() error { return d.UnmarshalHeader(a.doc, a.hdest.Interface()) }, a.hdest)
	case "decode both":
		return dec(func() error { return d.UnmarshalHeaderBody(a.doc, a.hdest.Interface(), a.dest.Interface()) }, a.hdest, a.dest)
	case "decompress":
		return enc(func() ([]byte, error) {
			var dst []byte
			if t.Seed%3 > 0 {
				dst = make([]byte, int(t.Seed%701))
			}
			return sereal.DecompressDocument(dst, a.doc)
		})
	case "merge":
		m := mergeOpts{Ver: 3, Dedupe: t.Seed%2 == 0, Flat: t.Seed%3 == 0, Comp: "none"}
		if t.Seed%4 > 1 {
			m.Comp, m.Level = "zlib", int(t.Seed%9)
		}
		return enc(func() ([]byte, error) {
			x := m.merger()
			for i := 0; i < 3; i++ {
				if _, err := x.Append(a.doc); err != nil && i == 2 {
					break
				}
			}
			return x.Finish()
		})
	}
	return dec(func() error {
		if t.Pkg {
			return sereal.Unmarshal(a.doc, a.dest.Interface())
		}
		return d.Unmarshal(a.doc, a.dest.Interface())
	}, a.dest)
}

// meaning describes an encoded document up to the order of keys, which is random
func meaning(doc []byte) string {
	old := reuse
	reuse = false
	defer func() { reuse = old }()
	var v, h interface{}
	err, p := guard(func() error { return decoder(true, false).UnmarshalHeaderBody(doc, &h, &v) })
	if err != nil || p != "" {
		return fmt.Sprint(doc[4]&15, " not decoded")
	}
	return fmt.Sprint(doc[4]&15, " ", digest(dump(h)), " ", digest(dump(v)))
}

// manyTimes: is a part met more than once?
func manyTimes(rv reflect.Value) bool {
	if !rv.IsValid() {
		return false
	}
	n := map[int]int{}
	for _, x := range graphOpt(rv, true) {
		for _, c := range x.C {
			if n[c]++; n[c] > 1 {
				return true
			}
		}
	}
	return false
}

// alone is the outcome of the task with an object of its own
func (t histTask) alone() string {
	old := reuse
	reuse = false
	defer func() { reuse = old }()
	d := sereal.NewDecoder()
	d.PerlCompat, d.DisableReferentialIntegrity = t.Perl, t.Nori
	register(d, t.Reg)
	out, _ := t.call(t.args(), t.Enc.encoder(), d)
	return out
}

// change modifies a value in place, wherever it can
func change(rv reflect.Value, rnd *rand.Rand, seen map[uintptr]bool, depth int) {
	if !rv.IsValid() || depth > 40 || rv.Type() == typeOf((*sereal.PerlUndef)(nil)) {
		return
	}
	switch rv.Kind() {
	case reflect.Interface:
		change(rv.Elem(), rnd, seen, depth+1)
	case reflect.Ptr:
		if !rv.IsNil() && !seen[rv.Pointer()] {
			seen[rv.Pointer()] = true
			change(rv.Elem(), rnd, seen, depth+1)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			change(rv.Index(i), rnd, seen, depth+1)
		}
	case reflect.Map:
		if rv.IsNil() || seen[rv.Pointer()] || rv.Type().Key().Kind() != reflect.String {
			return
		}
		seen[rv.Pointer()] = true
		for _, k := range rv.MapKeys() {
			change(rv.MapIndex(k), rnd, seen, depth+1)
			if rnd.Intn(2) == 0 {
				rv.SetMapIndex(k, reflect.Zero(rv.Type().Elem()))
			}
		}
		rv.SetMapIndex(reflect.ValueOf("changed").Convert(rv.Type().Key()), reflect.Zero(rv.Type().Elem()))
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			if rv.Type().Field(i).PkgPath == "" {
				change(rv.Field(i), rnd, seen, depth+1)
			}
		}
	}
	if !rv.CanSet() || rnd.Intn(3) == 0 {
		return
	}
	switch rv.Kind() {
	case reflect.Bool:
		rv.SetBool(!rv.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		rv.SetInt(rv.Int() ^ 5)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		rv.SetUint(rv.Uint() ^ 5)
	case reflect.Float32, reflect.Float64:
		rv.SetFloat(17)
	case reflect.String:
		rv.SetString("changed")
	case reflect.Interface:
		if rv.NumMethod() == 0 {
			rv.Set(reflect.ValueOf("changed"))
		}
	}
}

func (r *histRec) run() {
	rnd := rand.New(rand.NewSource(r.GenS))
	r.Tasks, r.Alone, r.Ops, r.Names = []string{}, []string{}, []histOp{}, []string{}
	conf := func() (o encOpts) {
		o = encOpts{Perl: rnd.Intn(3) == 0, Nodedup: rnd.Intn(4) == 0, Nofreeze: rnd.Intn(10) == 0, Comp: "none", Thr: 1024}
		if rnd.Intn(4) == 0 {
			o.Exp = rnd.Intn(300)
		}
		if rnd.Intn(4) == 0 {
			o.Maxd = 3 + rnd.Intn(10)
		}
		if rnd.Intn(3) == 0 {
			o.Comp = []string{"snappy", "snappyinc", "zlib", "zlib"}[rnd.Intn(4)]
			o.Thr, o.Level = rnd.Intn(60), rnd.Intn(11)-1
		}
		return
	}
	encs, decs := make([]*sereal.Encoder, 2), []*sereal.Decoder{{}, {}}
	eo, do := make([]encOpts, 2), make([]histTask, 2)
	for i := range encs {
		eo[i] = conf()
		eo[i].Ver = rnd.Intn(4)
		encs[i] = eo[i].made()
		do[i] = histTask{Perl: rnd.Intn(3) == 0, Nori: rnd.Intn(4) == 0, Reg: rnd.Intn(8) & rnd.Intn(8)}
		register(decs[i], do[i].Reg)
	}
	var all []*held
	index := map[string]int{}
	var made []histTask
	past := map[string]*histArgs{}
	merger := sereal.NewMerger()
	merger.DedupeStrings = rnd.Intn(2) == 0
	merger.KeepFlat = rnd.Intn(2) == 0
	finished := false
	var early []string
	done := func(op histOp, fresh []*held) {
		if op.Made == nil {
			op.Made = []string{}
		}
		for _, h := range fresh {
			all = append(all, h)
			r.Names = append(r.Names, h.name)
			op.Made = append(op.Made, h.digest())
		}
		op.Snap = []string{}
		for _, h := range all {
			op.Snap = append(op.Snap, h.digest())
		}
		r.Ops = append(r.Ops, op)
	}
	perform := func(t histTask, who int) {
		switch {
		case t.Kind == "decompress":
		case t.Pkg:
			t.Enc = encOpts{Ver: 3, Comp: "none", Thr: 1024}
		default:
			t.Enc = eo[who]
			t.Perl, t.Nori, t.Reg = do[who].Perl, do[who].Nori, do[who].Reg
			eo[who].apply(encs[who])
			decs[who].PerlCompat, decs[who].DisableReferentialIntegrity = t.Perl, t.Nori
		}
		old := past[t.Kind+fmt.Sprint(t.Seed)]
		a := old
		fresh := []*held{}
		if a == nil || a.dest.IsValid() || a.used() || rnd.Intn(2) == 0 {
			a = t.args()
			past[t.Kind+fmt.Sprint(t.Seed)] = a
			if old != nil && old.doc != nil && !old.used() && rnd.Intn(2) == 0 { // the same buffer again
				a.doc, a.things = old.doc, old.things
			} else {
				fresh = append(fresh, a.things...)
			}
		}
		name := t.name()
		if index[name] == 0 {
			made = append(made, t)
			r.Tasks = append(r.Tasks, name)
			index[name] = len(made)
			if r.GenS%2 == 0 {
				early = append(early, t.alone())
			} else {
				early = append(early, "")
			}
		}
		op := histOp{Op: "call", What: t.Kind, Task: index[name]}
		before := []string{}
		for _, h := range fresh {
			before = append(before, h.digest())
		}
		out, results := t.call(a, encs[who], decs[who])
		op.Out = out
		// the arguments as they were before the call
		for i, h := range fresh {
			all = append(all, h)
			r.Names = append(r.Names, h.name)
			op.Made = append(op.Made, before[i])
		}
		done(op, results)
	}
	for _, x := range r.Seq {
		who := rnd.Intn(2)
		t := histTask{Seed: rnd.Int63(), Pkg: rnd.Intn(5) == 0}
		switch x {
		case 1:
			t.Kind = "encode"
		case 2:
			t.Kind = "encode bad"
		case 3:
			t.Kind, t.Pkg = "encode both", false
		case 4:
			t.Kind = "decode"
		case 5:
			t.Kind = "decode bad"
		case 6:
			t.Kind = []string{"into", "into", "into share"}[rnd.Intn(3)]
		case 7:
			t.Kind, t.Pkg = []string{"decode head", "decode both"}[rnd.Intn(2)], false
		case 8:
			t.Kind, t.Pkg = "decompress", false
		case 9: // merge
			if rnd.Intn(4) == 0 && !finished {
				finished = true
				out, err := merger.Finish()
				fresh := []*held{}
				if err == nil {
					fresh = append(fresh, byteThing("merged", out))
				}
				done(histOp{Op: "call", What: "finish"}, fresh)
				continue
			}
			t.Kind = []string{"decode", "decode", "decode bad"}[rnd.Intn(3)]
			a := t.args()
			op := histOp{Op: "call", What: "append", Made: []string{a.things[0].digest()}}
			all = append(all, a.things[0])
			r.Names = append(r.Names, a.things[0].name)
			guard(func() error { _, err := merger.Append(a.doc); return err })
			done(op, nil)
			continue
		case 10:
			if len(made) == 0 {
				continue
			}
			old := made[rnd.Intn(len(made))]
			t.Kind, t.Seed, t.Pkg = old.Kind, old.Seed, old.Pkg
		case 11, 12:
			if len(all) == 0 {
				continue
			}
			i := rnd.Intn(len(all))
			if rnd.Intn(2) == 0 { // something recent
				i = len(all) - 1 - rnd.Intn(1+len(all)/3)
			}
			h := all[i]
			op := histOp{Op: "scribble", What: h.name, H: i + 1}
			if h.name == "merged" && rnd.Intn(2) == 0 {
				continue
			}
			if h.buf != nil {
				for j := range h.buf {
					h.buf[j] ^= byte(0x5a + j)
				}
			} else if h.val.IsValid() {
				change(h.val, rnd, map[uintptr]bool{}, 0)
			}
			h.used = true
			op.New = h.digest()
			done(op, nil)
			continue
		case 13:
			if rnd.Intn(2) == 0 {
				v := eo[who].Ver
				eo[who] = conf()
				eo[who].Ver = v
			} else {
				do[who].Perl, do[who].Nori = rnd.Intn(3) == 0, rnd.Intn(4) == 0
				b := 1 << uint(rnd.Intn(3))
				do[who].Reg |= b
				register(decs[who], b)
			}
			done(histOp{Op: "config", What: "config"}, nil)
			continue
		}
		if t.Pkg {
			t.Enc, t.Perl, t.Nori, t.Reg = encOpts{}, false, false, 0
		}
		perform(t, who)
	}
	for i, t := range made {
		out := t.alone()
		if early[i] != "" && early[i] != out {
			out = "differs when alone: " + early[i] + " / " + out
		}
		r.Alone = append(r.Alone, out)
	}
}

func init() {
	commands["hist"] = func() {
		rec := newRecorder()
		rnd := rand.New(rand.NewSource(*seed))
		do := func(seq []int) {
			r := &histRec{GenS: rnd.Int63(), GenM: *mode, Seq: seq}
			rec.about(r)
			r.run()
			rec.put(r)
		}
		if *in != "" {
			seqs := sequences(rnd)
			for i := 0; i < len(seqs) && rec.n < *count; i++ {
				do(seqs[i])
			}
		}
		for rec.n < *count { // longer ones
			s := make([]int, 4+rnd.Intn(14))
			for i := range s {
				switch *mode {
				case "alias":
					s[i] = []int{1, 3, 4, 4, 5, 6, 6, 7, 8, 9, 9, 10, 10, 11, 11, 11, 11, 12, 12}[rnd.Intn(19)]
				default:
					s[i] = []int{1, 1, 2, 2, 3, 4, 5, 5, 6, 6, 7, 8, 10, 10, 10, 10, 10, 13}[rnd.Intn(18)]
				}
			}
			do(s)
		}
		rec.close()
	}
	redoers["hist"] = func(l []byte, rec *recorder) {
		r := &histRec{}
		parse(l, r)
		rec.about(r)
		r.run()
		rec.put(r)
	}
}
