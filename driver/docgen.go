package main

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"math/rand"

	"github.com/golang/snappy"
)

// Tags (low seven bits).
const (
	tVARINT = 0x20 + iota
	tZIGZAG
	tFLOAT
	tDOUBLE
	tLDOUBLE
	tUNDEF
	tBINARY
	tUTF8
	tREFN
	tREFP
	tHASH
	tARRAY
	tOBJECT
	tOBJECTV
	tALIAS
	tCOPY
	tWEAKEN
	tREGEXP
	tFREEZE
	tFREEZEV
)
const (
	tCUNDEF = 0x39
	tFALSE  = 0x3a
	tTRUE   = 0x3b
	tPAD    = 0x3f
)

func putVarint(b []byte, n uint64) []byte {
	for n >= 0x80 {
		b = append(b, byte(n)|0x80)
		n >>= 7
	}
	return append(b, byte(n))
}

// docGen writes random document bodies, steered towards valid ones but not
// guaranteed to be: what a body means is decided by the specification alone.
type docGen struct {
	r       *rand.Rand
	b       []byte
	shift   int // what is added to a 1-based body position to give an offset
	items   []int
	closed  []int // items that are complete and contain no COPY as a value
	strs    []int
	classes []int
	tracked []int
	frozen  bool // allow frozen objects
	simple  bool // stay within what an encoder would emit
	copies  int
	budget  int
	ascii   bool
	pool    [][]byte // strings to use again and again
	share   bool     // many back references
	far     int      // length of the next string, if not 0
	wides   int      // wide containers still allowed
	calm    bool     // copies of strings only, references to other things than copies
	strict  bool     // weak references are references
	plain   bool     // no references back and no copies
	acyclic bool     // no references to containers that are still open
	ld      bool     // LONG_DOUBLEs, too
	offsAt  []int    // where offsets are, as indexes of b
	tags    []int    // all tags
	varsAt  []int    // where varints are, as indexes of b
}

func (g *docGen) p(n int) bool { return g.r.Intn(100) < n }

func (g *docGen) varint(n uint64) {
	start := len(g.b)
	g.varsAt = append(g.varsAt, start)
	g.b = putVarint(g.b, n)
	if !g.simple && g.p(4) { // not minimal
		k := 1 + g.r.Intn(2)
		if len(g.b)-start+k <= 10 {
			g.b[len(g.b)-1] |= 0x80
			for i := 1; i < k; i++ {
				g.b = append(g.b, 0x80)
			}
			g.b = append(g.b, 0)
		}
	}
}

func (g *docGen) offs(pos int) {
	g.offsAt = append(g.offsAt, len(g.b))
	g.varint(uint64(pos + g.shift))
}

// redirect makes an offset lead elsewhere: to any tag before, after or at it, or
// in between
func (g *docGen) redirect() {
	if len(g.offsAt) == 0 || len(g.tags) == 0 {
		return
	}
	at := g.offsAt[g.r.Intn(len(g.offsAt))]
	t := g.tags[g.r.Intn(len(g.tags))]
	switch g.r.Intn(8) {
	case 0:
		t = at
	case 1:
		t = 1 + g.r.Intn(len(g.b)+2)
	}
	_, n := readVarint(g.b[at:])
	v := putVarint(nil, uint64(t+g.shift))
	if len(v) != n || t == at+1 {
		return
	}
	copy(g.b[at:], v)
	if g.p(40) && t <= len(g.b) && g.b[t-1] < 0x80 {
		g.b[t-1] |= 0x80
	}
}

func (g *docGen) pads() {
	if g.simple {
		return
	}
	for g.p(3) {
		if g.p(20) && !g.plain {
			g.b = append(g.b, tPAD|0x80)
		} else {
			g.b = append(g.b, tPAD)
		}
	}
}

// warp makes a count, a length, an offset or a number a very large one, or no
// varint at all
func (g *docGen) warp() {
	if len(g.varsAt) == 0 {
		return
	}
	at := g.varsAt[g.r.Intn(len(g.varsAt))]
	if g.p(50) { // so that the rest stays valid
		at = g.varsAt[len(g.varsAt)-1]
	}
	_, n := readVarint(g.b[at:])
	var v []byte
	switch k := g.r.Intn(8); k {
	case 0, 1: // around a power of two
		v = putVarint(nil, uint64(1)<<uint([]int{7, 15, 16, 24, 28, 30, 31, 32, 33, 40, 61, 62, 63}[g.r.Intn(13)])+uint64(g.r.Intn(9))-4)
	case 2, 3: // a negative number
		v = putVarint(nil, -uint64(1+g.r.Intn(40)))
	case 4: // minus the position of something, or the like
		v = putVarint(nil, -uint64(1+g.r.Intn(len(g.b)+10)))
	case 5: // one more, one less
		x, _ := readVarint(g.b[at:])
		v = putVarint(nil, x+2*uint64(g.r.Intn(2))-1)
	case 6: // more bits than there are
		v = append(bytes.Repeat([]byte{0x80 | byte(g.r.Intn(2))*5}, 9), byte(2+g.r.Intn(0x7e)))
	case 7:
		v = append(bytes.Repeat([]byte{0x80}, 10+g.r.Intn(3)), byte(g.r.Intn(3)))
	}
	g.b = append(g.b[:at], append(v, g.b[at+n:]...)...)
	g.varsAt, g.offsAt, g.tags = nil, nil, nil // no longer known
}

// disturb damages an otherwise valid body
func (g *docGen) disturb() {
	if g.p(60) {
		g.redirect()
	} else {
		g.warp()
	}
}

// tag emits a tag byte and returns its 1-based position
func (g *docGen) tag(t byte) int {
	if !g.simple && g.p(6) && !g.plain {
		t |= 0x80
		g.tracked = append(g.tracked, len(g.b)+1)
	}
	g.b = append(g.b, t)
	g.tags = append(g.tags, len(g.b))
	return len(g.b)
}

var lens = []int{0, 1, 1, 2, 2, 3, 3, 4, 5, 7, 8}
var longLens = []int{15, 16, 30, 31, 32, 33, 63, 64, 127, 128, 129, 200, 255, 256, 300}

func (g *docGen) randLen() int {
	if n := g.far; n != 0 {
		g.far = 0
		return n
	}
	if g.p(4) {
		return longLens[g.r.Intn(len(longLens))]
	}
	return lens[g.r.Intn(len(lens))]
}

func (g *docGen) bytes(n int) []byte {
	x := make([]byte, n)
	for i := range x {
		if i > 1000 {
			break
		}
		switch {
		case g.ascii || g.p(60):
			x[i] = "abcdABCD_01"[g.r.Intn(11)]
		case g.p(30): // looks like tags
			x[i] = []byte{0x28, 0x2b, 0x29, 0x2f, 0xa8, 0xab, 0x2e, 0x3f, 0x61, 0x01}[g.r.Intn(10)]
		default:
			x[i] = byte(g.r.Intn(256))
		}
	}
	return x
}

func (g *docGen) rawString() int {
	n := g.randLen()
	var pos int
	var pooled []byte
	if len(g.pool) > 0 && g.far == 0 && g.p(70) {
		pooled = g.pool[g.r.Intn(len(g.pool))]
		n = len(pooled)
	}
	switch {
	case n < 32 && g.p(60):
		pos = g.tag(0x60 + byte(n))
	case g.p(50):
		pos = g.tag(tBINARY)
		g.varint(uint64(n))
	default:
		pos = g.tag(tUTF8)
		g.varint(uint64(n))
	}
	if pooled != nil {
		g.b = append(g.b, pooled...)
		g.strs = append(g.strs, pos)
		return pos
	}
	if g.p(25) && len(g.strs) > 0 { // repeat an earlier string now and then
		src := g.strs[g.r.Intn(len(g.strs))] - 1
		if t := g.b[src] & 0x7f; t >= 0x60 && int(t-0x60) == n {
			g.b = append(g.b, g.b[src+1:src+1+n]...)
			g.strs = append(g.strs, pos)
			return pos
		}
	}
	g.b = append(g.b, g.bytes(n)...)
	g.strs = append(g.strs, pos)
	return pos
}

// str emits a string where one is required (hash key, class, regexp part)
func (g *docGen) str() int {
	g.pads()
	if len(g.strs) > 0 && g.p(20) && !g.plain {
		t := g.strs[g.r.Intn(len(g.strs))]
		g.tag(tCOPY)
		g.offs(t)
		return t
	}
	return g.rawString()
}

func (g *docGen) randUint() uint64 {
	switch g.r.Intn(6) {
	case 0:
		return uint64(g.r.Intn(40))
	case 1:
		return uint64(1)<<uint(g.r.Intn(64)) - uint64(g.r.Intn(2))
	case 2:
		return ^uint64(0) - uint64(g.r.Intn(3))
	case 3:
		return uint64(1)<<63 + uint64(g.r.Intn(3)) - 1
	case 4:
		return g.r.Uint64() >> uint(g.r.Intn(64))
	default:
		return uint64(g.r.Intn(300))
	}
}

func (g *docGen) leaf() {
	var pos int
	if g.share && g.p(15) { // what a reference finds empty
		pos = g.tag([]byte{tUNDEF, tUNDEF, tCUNDEF}[g.r.Intn(3)])
		g.setTracked(pos)
		g.items = append(g.items, pos)
		g.closed = append(g.closed, pos)
		return
	}
	switch k := g.r.Intn(14); {
	case k < 3:
		pos = g.tag(byte(g.r.Intn(32)))
	case k == 3:
		pos = g.tag(tVARINT)
		g.varint(g.randUint())
	case k == 4:
		pos = g.tag(tZIGZAG)
		g.varint(g.randUint())
	case k == 5:
		pos = g.tag(tFLOAT)
		g.b = append(g.b, g.bytes(4)...)
	case k == 6 && g.ld && g.p(50):
		pos = g.tag(tLDOUBLE)
		for i := 0; i < 16; i++ {
			g.b = append(g.b, byte(g.r.Intn(256))&byte(-(g.r.Intn(2))))
		}
	case k == 6:
		pos = g.tag(tDOUBLE)
		g.b = append(g.b, g.bytes(8)...)
	case k == 7:
		pos = g.tag([]byte{tUNDEF, tUNDEF, tCUNDEF}[g.r.Intn(3)])
	case k == 8:
		pos = g.tag([]byte{tFALSE, tTRUE}[g.r.Intn(2)])
	default:
		pos = g.rawString()
	}
	g.items = append(g.items, pos)
	g.closed = append(g.closed, pos)
}

func (g *docGen) setTracked(pos int) {
	if pos >= 1 && g.b[pos-1]&0x80 == 0 {
		g.b[pos-1] |= 0x80
		g.tracked = append(g.tracked, pos)
	}
}

// wide gives a number of elements beyond the usual
func (g *docGen) wide(max int, depth *int) (int, bool) {
	if g.wides <= 0 || !g.p(4) {
		return 0, false
	}
	g.wides--
	*depth = 1
	n := []int{7, 8, 9, 15, 15, 16, 17, 127, 128, 129, 200, 255, 256}[g.r.Intn(13)]
	if n > max {
		n = 5 + g.r.Intn(max-4)
	}
	return n, true
}

func (g *docGen) fan() int {
	if g.share {
		return 1 + g.r.Intn(5)
	}
	return g.r.Intn(4)
}

// item emits one item; open: positions of the tags still being filled.
func (g *docGen) item(depth int, open []int) {
	g.pads()
	g.budget--
	if g.share && g.budget <= 0 && g.p(60) && len(g.tracked) > 0 {
		t := g.tracked[g.r.Intn(len(g.tracked))]
		g.items = append(g.items, g.tag([]byte{tREFP, tREFP, tALIAS}[g.r.Intn(3)]))
		g.offs(t)
		return
	}
	if depth <= 0 || g.budget <= 0 || g.p(22) && !(g.share && depth > 3) {
		g.leaf()
		return
	}
	start := len(g.b) + 1
	copiesBefore := g.copies
	isCopy := false
	k := g.r.Intn(100)
	if g.share {
		if g.p(40) {
			k = 85
		} else if g.p(30) {
			k = 50
		}
	}
	if g.plain && k >= 80 {
		k = g.r.Intn(60)
	}
	switch {
	case k < 14: // array
		n := g.fan()
		if w, ok := g.wide(300, &depth); ok {
			n = w
		}
		pos := g.tag(tARRAY)
		start = pos
		g.varint(uint64(n))
		for i := 0; i < n; i++ {
			g.item(depth-1, append(open, pos))
		}
	case k < 26: // hash
		n := g.r.Intn(4)
		if w, ok := g.wide(150, &depth); ok {
			n = w
		}
		pos := g.tag(tHASH)
		start = pos
		g.varint(uint64(n))
		for i := 0; i < n; i++ {
			g.str()
			g.item(depth-1, append(open, pos))
		}
	case k < 36: // arrayref
		n := g.fan()
		if w, ok := g.wide(15, &depth); ok {
			n = w
		}
		pos := g.tag(0x40 + byte(n))
		start = pos
		for i := 0; i < n; i++ {
			g.item(depth-1, append(open, pos))
		}
	case k < 45: // hashref
		n := g.r.Intn(4)
		if w, ok := g.wide(15, &depth); ok {
			n = w
		}
		pos := g.tag(0x50 + byte(n))
		start = pos
		for i := 0; i < n; i++ {
			g.str()
			g.item(depth-1, append(open, pos))
		}
	case k < 60: // reference
		pos := g.tag(tREFN)
		start = pos
		g.item(depth-1, append(open, pos))
	case k < 69: // object
		if len(g.classes) > 0 && g.p(50) {
			start = g.tag(tOBJECTV)
			g.offs(g.classes[g.r.Intn(len(g.classes))])
		} else {
			start = g.tag(tOBJECT)
			g.classes = append(g.classes, g.str())
		}
		g.item(depth-1, append(open, start))
	case k < 73: // weak reference
		start = g.tag(tWEAKEN)
		if g.strict || g.p(70) {
			g.tag(tREFN)
		}
		g.item(depth-1, append(open, start))
	case k < 76:
		start = g.tag(tREGEXP)
		g.str()
		g.str()
	case k < 80 && g.frozen:
		if len(g.classes) > 0 && g.p(40) {
			start = g.tag(tFREEZEV)
			g.offs(g.classes[g.r.Intn(len(g.classes))])
		} else {
			start = g.tag(tFREEZE)
			g.classes = append(g.classes, g.str())
		}
		g.b = append(g.b, tREFN, tARRAY, 1)
		n := g.randLen() % 32
		g.tag(0x60 + byte(n))
		g.b = append(g.b, g.bytes(n)...)
	case k < 90 && (len(g.items) > 0 || len(open) > 0): // back reference
		var t int
		switch {
		case len(open) > 0 && g.p(35):
			t = open[g.r.Intn(len(open))]
		case len(g.tracked) > 0 && g.p(50):
			t = g.tracked[g.r.Intn(len(g.tracked))]
		case len(g.items) > 0 && !(g.calm && len(g.closed) > 0):
			t = g.items[g.r.Intn(len(g.items))]
		case len(g.closed) > 0:
			t = g.closed[g.r.Intn(len(g.closed))]
		default:
			t = open[g.r.Intn(len(open))]
		}
		g.setTracked(t)
		start = g.tag([]byte{tREFP, tREFP, tALIAS}[g.r.Intn(3)])
		if !g.simple && g.p(2) { // to itself
			g.setTracked(start)
			t = start
		}
		g.offs(t)
	case len(g.closed) > 0 || len(g.strs) > 0:
		var t int
		if len(g.strs) > 0 && (len(g.closed) == 0 || g.calm || g.p(40)) {
			t = g.strs[g.r.Intn(len(g.strs))]
		} else {
			t = g.closed[g.r.Intn(len(g.closed))]
		}
		start = g.tag(tCOPY)
		g.offs(t)
		g.copies++
		isCopy = true
	default:
		g.leaf()
		return
	}
	g.items = append(g.items, start)
	if g.copies == copiesBefore && !isCopy {
		g.closed = append(g.closed, start)
	}
}

// vast emits a container with very many elements, most of them plain, some
// referring to the container or other things
func (g *docGen) vast(n int, open []int, array bool) {
	back := func() {
		t := 0
		switch {
		case g.acyclic:
			if len(g.closed) == 0 {
				g.leaf()
				return
			}
			t = g.closed[g.r.Intn(len(g.closed))]
		case len(open) > 0 && g.p(40):
			t = open[g.r.Intn(len(open))]
		case len(g.tracked) > 0:
			t = g.tracked[g.r.Intn(len(g.tracked))]
		default:
			t = open[len(open)-1]
		}
		g.setTracked(t)
		g.tag([]byte{tREFP, tREFP, tALIAS}[g.r.Intn(3)])
		g.offs(t)
	}
	g.strict = true
	hash := !array && g.p(40)
	if hash {
		n = n/4 + 1
	}
	pos := g.tag([]byte{tARRAY, tHASH}[map[bool]int{false: 0, true: 1}[hash]])
	g.varint(uint64(n))
	open = append(open, pos)
	rate := []int{1, 3, 20}[g.r.Intn(3)]
	defer func(b bool) { g.simple = b }(g.simple)
	wild := !g.simple && g.p(15) // stray flags in between
	for i := 0; i < n; i++ {
		g.simple = !wild
		if hash {
			if len(g.strs) > 0 && g.p(10) {
				g.tag(tCOPY)
				g.offs(g.strs[g.r.Intn(len(g.strs))])
			} else {
				k := fmt.Sprint("k", i)
				g.strs = append(g.strs, g.tag(0x60+byte(len(k))))
				g.b = append(g.b, k...)
			}
		}
		switch k := g.r.Intn(100); {
		case k < rate || i < 3 && g.p(30) || i == n-1 && g.p(50):
			back()
		case k < 2*rate:
			g.budget = 4
			if g.acyclic {
				g.item(2, nil)
			} else {
				g.item(2, open)
			}
		case k == 99 && len(g.strs) > 0:
			g.tag(tCOPY)
			g.offs(g.strs[g.r.Intn(len(g.strs))])
		case k > 95:
			g.rawString()
		default:
			pos := g.tag(byte(g.r.Intn(32)))
			if g.p(2) {
				g.items = append(g.items, pos)
			}
		}
	}
}

// rows emits hashes and objects whose keys, classes and strings are, mostly, new
// ones or ones that occurred long before
func (g *docGen) rows(names *[]string, n int) {
	name := func() string {
		l := *names
		if len(l) > 0 && g.p(25) {
			if g.p(30) { // one of the first
				return l[g.r.Intn(1+len(l)/20)]
			}
			return l[g.r.Intn(len(l))]
		}
		s := fmt.Sprint("n", len(l))
		if g.p(3) {
			s += string(g.bytes(26 + g.r.Intn(140)))
		}
		*names = append(l, s)
		return s
	}
	put := func() {
		s := name()
		switch {
		case g.p(20):
			g.tag(tUTF8)
			g.varint(uint64(len(s)))
		case len(s) < 32:
			g.tag(0x60 + byte(len(s)))
		default:
			g.tag(tBINARY)
			g.varint(uint64(len(s)))
		}
		g.b = append(g.b, s...)
	}
	for i := 0; i < n; i++ {
		switch k := g.r.Intn(10); {
		case k == 0:
			g.tag(tOBJECT)
			put()
			g.tag(tREFN)
			g.tag(tARRAY)
			g.b = append(g.b, 0)
		case k == 1:
			put()
		default:
			m := 1 + g.r.Intn(5)
			g.tag(0x50 + byte(m))
			for ; m > 0; m-- {
				put()
				if g.p(30) {
					put()
				} else {
					g.tag(byte(g.r.Intn(32)))
				}
			}
		}
	}
}

// nest emits containers and references within each other, with other things
// before and after the inner ones
func (g *docGen) nest(n int, open []int, array bool) {
	if n == 0 {
		g.leaf()
		return
	}
	side := func() {
		t := 0
		switch {
		case !g.p(12):
			g.leaf()
			return
		case g.p(20) && len(g.strs) > 0:
			g.tag(tCOPY)
			g.offs(g.strs[g.r.Intn(len(g.strs))])
			return
		case g.acyclic || len(open) == 0:
			if len(g.closed) == 0 {
				g.leaf()
				return
			}
			t = g.closed[g.r.Intn(len(g.closed))]
		case g.p(30):
			t = open[len(open)-1]
		default:
			t = open[g.r.Intn(len(open))]
		}
		g.setTracked(t)
		g.tag([]byte{tREFP, tREFP, tALIAS}[g.r.Intn(3)])
		g.offs(t)
	}
	k, pos := g.r.Intn(10), 0
	if array {
		k = 0
	}
	switch {
	case k < 6:
		m := 1 + g.r.Intn(6)/3
		switch {
		case k < 2:
			pos = g.tag(tARRAY)
			g.varint(uint64(m))
		case k == 2:
			pos = g.tag(0x40 + byte(m))
		case k < 5:
			pos = g.tag(tHASH)
			g.varint(uint64(m))
		default:
			pos = g.tag(0x50 + byte(m))
		}
		inner := append(open[:len(open):len(open)], pos)
		at := g.r.Intn(m)
		open = inner
		for i := 0; i < m; i++ {
			if k > 2 {
				g.str()
			}
			if i == at {
				g.nest(n-1, inner, false)
			} else {
				side()
			}
		}
		return
	case k < 8:
		pos = g.tag(tREFN)
	case k == 8:
		if len(g.classes) > 0 && g.p(50) {
			pos = g.tag(tOBJECTV)
			g.offs(g.classes[g.r.Intn(len(g.classes))])
		} else {
			pos = g.tag(tOBJECT)
			g.classes = append(g.classes, g.str())
		}
		g.tag(tREFN)
	default:
		pos = g.tag(tWEAKEN)
		g.tag(tREFN)
	}
	g.nest(n-1, append(open[:len(open):len(open)], pos), false)
}

// nestLen gives how deep something deeply nested is
func nestLen(i int) int {
	return []int{130, 20, 520, 35, 1030, 70, 17, 2100}[i%8]
}

// vastBody makes a body with a vast container somewhere in it
func vastBody(g *docGen, n, nest, top int) {
	var open []int
	g.calm = g.p(85)
	if top == 2 || top == 3 { // so that it fits a merger's flat mode
		g.b = append(g.b, tREFN)
	}
	for top == 0 && g.p(40) {
		switch g.r.Intn(5) {
		case 0:
			open = append(open, g.tag(tARRAY))
			g.varint(1)
		case 1:
			open = append(open, g.tag(0x51))
			g.rawString()
		case 2:
			open = append(open, g.tag(tREFN))
		case 3:
			open = append(open, g.tag(0x41))
		case 4:
			g.tag(tOBJECT)
			g.str()
			g.tag(tREFN)
		}
	}
	if nest > 0 {
		g.strict = true
		g.nest(nest, open, top > 0)
		return
	}
	g.vast(n, open, top > 0)
}

type docOpts struct {
	version  int
	suffix   []byte // header suffix, nil: none
	typ      int
	zlevel   int
	trailing []byte
}

func header(version, typ int, suffix []byte) []byte {
	var h []byte
	if version < 3 {
		h = append(h, "=srl"...)
	} else {
		h = append(h, "=\xf3rl"...)
	}
	h = append(h, byte(version|typ<<4))
	h = putVarint(h, uint64(len(suffix)))
	return append(h, suffix...)
}

func deflate(b []byte, level int) []byte {
	var w bytes.Buffer
	zw, _ := zlib.NewWriterLevel(&w, level)
	zw.Write(b)
	zw.Close()
	return w.Bytes()
}

// wrap frames a body as a document of the given type
func wrap(version, typ int, suffix, body []byte, level int) []byte {
	d := header(version, typ, suffix)
	switch typ {
	case 0:
		d = append(d, body...)
	case 1:
		d = append(d, snappy.Encode(nil, body)...)
	case 2:
		c := snappy.Encode(nil, body)
		d = putVarint(d, uint64(len(c)))
		d = append(d, c...)
	case 3:
		c := deflate(body, level)
		d = putVarint(d, uint64(len(body)))
		d = putVarint(d, uint64(len(c)))
		d = append(d, c...)
	case 4:
		c := zstdCompress(body)
		d = putVarint(d, uint64(len(c)))
		d = append(d, c...)
	}
	return d
}

type genCfg struct {
	pool           [][]byte
	top            int // 0: any item; 1 to 4: ARRAY, REFN ARRAY, ARRAYREF, HASH
	frozen, simple bool
	share          bool
	budget, depth  int
	wides, far     int
	wild           int // offsets to be changed
	vast           int // elements of a container, if not 0
	nest           int // in vast documents: levels of nesting instead
	acyclic        bool
	plain          bool      // no references back and no copies
	rows           *[]string // names of keys to use, for records of rows
	ld             bool      // LONG_DOUBLEs, too
}

// randBody makes a body for a document whose body starts at 0-based bodyStart
func randBody(r *rand.Rand, version, bodyStart int, c genCfg) []byte {
	g := &docGen{r: r, frozen: c.frozen, simple: c.simple, budget: c.budget, pool: c.pool, share: c.share,
		wides: c.wides, far: c.far, acyclic: c.acyclic, plain: c.plain, ld: c.ld}
	if version == 1 {
		g.shift = bodyStart - 1
	}
	g.fill(c)
	for i := 0; i < c.wild; i++ {
		g.disturb()
	}
	return g.b
}

func (g *docGen) fill(c genCfg) {
	r := g.r
	if c.rows != nil {
		g.simple = true
		if c.top != 1 {
			g.tag(tREFN)
		}
		g.tag(tARRAY)
		g.varint(uint64(c.vast))
		g.rows(c.rows, c.vast)
		return
	}
	if c.vast != 0 {
		vastBody(g, c.vast, c.nest, c.top)
		return
	}
	if c.top == 0 {
		g.item(c.depth, nil)
		return
	}
	n := r.Intn(5)
	max := 300
	if c.top > 2 {
		max = 15
	}
	if w, ok := g.wide(max, &c.depth); ok {
		n = w
	}
	pos := 0
	switch c.top {
	case 1:
		pos = g.tag(tARRAY)
		g.varint(uint64(n))
	case 2:
		g.tag(tREFN)
		pos = g.tag(tARRAY)
		g.varint(uint64(n))
	case 3:
		pos = g.tag(0x40 + byte(n))
	case 4:
		g.pads()
		pos = g.tag(tHASH)
		n &= ^1
		g.varint(uint64(n / 2))
	}
	var open []int
	if r.Intn(20) == 0 {
		open = []int{pos}
	}
	for i := 0; i < n; i++ {
		if c.top == 4 && i%2 == 0 {
			g.str()
		} else {
			g.item(c.depth, open)
		}
	}
}

func randSuffix(r *rand.Rand) []byte {
	switch r.Intn(6) {
	case 0:
		return []byte{0}
	case 1:
		n := 1 + r.Intn(6)
		s := make([]byte, n)
		for i := range s {
			s[i] = byte(r.Intn(256))
		}
		s[0] &^= 1
		return s
	case 2, 3, 4:
		b := randBody(r, 2, 0, genCfg{frozen: true, budget: 6, depth: 3})
		return append([]byte{1 | byte(r.Intn(2))*0x80}, b...)
	default:
		// long user data, so that the length takes two bytes
		g := &docGen{r: r, budget: 60}
		g.tag(tARRAY)
		n := 20 + r.Intn(30)
		g.b = append(g.b, byte(n))
		for i := 0; i < n; i++ {
			g.item(2, nil)
		}
		return append([]byte{1}, g.b...)
	}
}

// randDoc makes a document and returns it with its parts
func randDoc(r *rand.Rand, c genCfg) (doc []byte, version, typ int, body []byte) {
	version = []int{1, 2, 3, 3, 4}[r.Intn(5)]
	var suffix []byte
	if r.Intn(3) == 0 {
		suffix = randSuffix(r)
	}
	if r.Intn(4) == 0 {
		switch version {
		case 1:
			typ = 1 + r.Intn(2)
		case 2:
			typ = 2
		case 3:
			typ = 2 + r.Intn(2)
		case 4:
			typ = 2 + r.Intn(2)
			if haveZstd && r.Intn(2) == 0 {
				typ = 4
			}
		}
	}
	body = randBody(r, version, len(header(version, typ, suffix)), c)
	doc = wrap(version, typ, suffix, body, []int{-1, 0, 1, 9}[r.Intn(4)])
	return
}
