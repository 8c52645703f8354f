// srlconf runs the real Go implementation of Sereal and records what it did,
// one JSON object per line, for validation against the TLA+ specification.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
)

var (
	seed  = flag.Int64("seed", 1, "random seed")
	count = flag.Int("n", 1000, "number of cases")
	out   = flag.String("out", "", "where to write the records")
	curf  = flag.String("cur", "", "file that holds the case being run")
	in    = flag.String("in", "", "input file (replay)")
	tier  = flag.String("tier", "quick", "quick or thorough")
	mode  = flag.String("mode", "", "variant of the command")
)

type recorder struct {
	f   *os.File
	w   *bufio.Writer
	cur *os.File
	n   int
}

func newRecorder() *recorder {
	r := &recorder{}
	var err error
	if r.f, err = os.Create(*out); err != nil {
		fatal(err)
	}
	r.w = bufio.NewWriterSize(r.f, 1<<20)
	if *curf != "" {
		if r.cur, err = os.Create(*curf); err != nil {
			fatal(err)
		}
	}
	return r
}

func (r *recorder) put(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		fatal(err)
	}
	r.w.Write(b)
	r.w.WriteByte('\n')
	r.n++
}

// about notes which case is about to run, so that a dead process can be traced
// to it.
func (r *recorder) about(v interface{}) {
	if r.cur == nil {
		return
	}
	b, err := json.Marshal(v)
	if err != nil {
		fatal(err)
	}
	b = append(b, '\n')
	r.cur.WriteAt(b, 0)
	r.cur.Truncate(int64(len(b)))
}

func (r *recorder) close() {
	r.w.Flush()
	r.f.Close()
	if r.cur != nil {
		r.cur.Truncate(0)
		r.cur.Close()
	}
	fmt.Printf("records %d\n", r.n)
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "srlconf:", err)
	os.Exit(3)
}

func ints(b []byte) []int {
	x := make([]int, len(b))
	for i, c := range b {
		x[i] = int(c)
	}
	return x
}

func unints(x []int) []byte {
	b := make([]byte, len(x))
	for i, c := range x {
		b[i] = byte(c)
	}
	return b
}

// place puts a document where a caller may have it: with nothing behind it, or
// at the start of a larger buffer, followed by bytes that could go on with it
func place(doc []byte) []byte {
	h := uint32(2166136261)
	for _, c := range doc {
		h = (h ^ uint32(c)) * 16777619
	}
	room := 0
	if h>>8&1 == 1 && len(doc) > 0 {
		room = 1 + int(h>>16)%600
	}
	buf := make([]byte, len(doc)+room)
	copy(buf, doc)
	for i := len(doc); i < len(buf); i++ {
		switch h >> 9 & 3 {
		case 0:
			buf[i] = 1
		case 1:
			buf[i] = doc[(i*7)%len(doc)]
		case 2:
			buf[i] = 0x60 + byte(i%3)
		default:
			buf[i] = 0
		}
	}
	return buf[:len(doc)]
}

// undisturbed tells whether a document is as it was placed
func undisturbed(orig, doc []byte) bool {
	w := place(orig)
	return bytes.Equal(w[:cap(w)], doc[:cap(doc)])
}

// spoil overwrites a document and what is behind it
func spoil(doc []byte, x byte) {
	doc = doc[:cap(doc)]
	for i := range doc {
		doc[i] ^= x
	}
}

// guard runs f and turns a panic into a description of it
func guard(f func() error) (err error, panicked string) {
	defer func() {
		if p := recover(); p != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			where := ""
			for _, l := range st {
				if strings.Contains(l, "/Go/sereal/") {
					where = strings.TrimSpace(l)
					break
				}
			}
			panicked = fmt.Sprintf("%v at %s", p, where)
		}
	}()
	return f(), ""
}

var commands = map[string]func(){}

// redoers run one recorded case of a command again and record the outcome
var redoers = map[string]func(line []byte, rec *recorder){}

// lines calls f with every line of -in
func lines(f func([]byte)) {
	file, err := os.Open(*in)
	if err != nil {
		fatal(err)
	}
	defer file.Close()
	sc := bufio.NewScanner(file)
	sc.Buffer(nil, 1<<28)
	for sc.Scan() {
		f(sc.Bytes())
	}
}

func init() {
	// redo: run the recorded cases in -in (of the command -mode) again
	commands["redo"] = func() {
		f := redoers[*mode]
		if f == nil {
			fatal(fmt.Errorf("cannot redo %s", *mode))
		}
		rec := newRecorder()
		lines(func(l []byte) { f(l, rec) })
		rec.close()
	}
}

func main() {
	if len(os.Args) < 2 {
		fatal(fmt.Errorf("no command"))
	}
	cmd := os.Args[1]
	flag.CommandLine.Parse(os.Args[2:])
	f := commands[cmd]
	if f == nil {
		fatal(fmt.Errorf("unknown command %s", cmd))
	}
	f()
}

func parse(l []byte, v interface{}) {
	if err := json.Unmarshal(l, v); err != nil {
		fatal(err)
	}
}

// sequences reads those made by the specification, in an order that only depends
// on the seed
func sequences(rnd *rand.Rand) [][]int {
	var seqs [][]int
	lines(func(l []byte) {
		var s []int
		parse(l, &s)
		seqs = append(seqs, s)
	})
	sort.Slice(seqs, func(i, j int) bool { return fmt.Sprint(seqs[i]) < fmt.Sprint(seqs[j]) })
	rnd.Shuffle(len(seqs), func(i, j int) { seqs[i], seqs[j] = seqs[j], seqs[i] })
	return seqs
}
