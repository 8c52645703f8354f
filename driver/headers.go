package main

import (
	"math/rand"
)

// headers: every version and document type under every magic, with header
// suffixes that fit or do not
func init() {
	commands["headers"] = func() {
		rec := newRecorder()
		rnd := rand.New(rand.NewSource(*seed))
		magics := []string{"=srl", "=\xF3rl", "=\xC3\xB3r"}
		parts := []string{"body", "body", "body", "head", "both"}
		run := func(d []byte) {
			r := &docRec{D: ints(d), Part: parts[rnd.Intn(len(parts))], Perl: rnd.Intn(4) == 0}
			rec.about(r)
			r.runDoc()
			rec.put(r)
		}
		full := []byte(magics[1] + "\x03\x00\x01")
		for i := 0; i <= len(full); i++ {
			run(full[:i])
		}
		for round := 0; rec.n < *count; round++ {
			for i := 0; i < 1024; i++ {
				tv, m := i>>2, i&3
				if round%2 == 1 { // the defined part of the space
					tv, m = rnd.Intn(6)<<4|rnd.Intn(6), rnd.Intn(4)
					if rnd.Intn(2) == 0 {
						m = 0
						if tv&15 > 2 {
							m = 1
						}
					}
				}
				{
					var magic string
					version, typ := tv&15, tv>>4
					switch {
					case m < 3:
						magic = magics[m]
					default: // one bit or byte off the one that fits
						x := []byte(magics[0])
						if version > 2 {
							x = []byte(magics[1])
						}
						i := rnd.Intn(4)
						if rnd.Intn(2) == 0 {
							x[i] ^= 1 << uint(rnd.Intn(8))
						} else {
							x[i] = byte(rnd.Intn(256))
						}
						magic = string(x)
					}
					wt := typ
					if typ > 4 || typ == 4 && !haveZstd {
						wt = 0
					}
					suffix := [][]byte{nil, nil, {0}, {1, 0x63, 'a', 'b', 'c'}, {2, 7}, {0xff, 5}}[rnd.Intn(6)]
					d := wrap(version, wt, suffix, []byte{[]byte{5, 0x61, 0x40, 0x2b}[rnd.Intn(4)], 0}, -1)
					copy(d, magic)
					d[4] = byte(tv)
					switch rnd.Intn(14) {
					case 0: // a suffix longer than the document
						d[5] = byte(len(d) - 6 + rnd.Intn(3))
					case 1:
						d = append(append(append([]byte{}, d[:5]...), 0x80|d[5], byte(rnd.Intn(2))*0x80), d[6:]...)
					case 2:
						d = append(append([]byte{}, d[:5]...), [][]byte{{0x80}, {0xff, 0xff, 0xff, 0xff, 0x0f},
							{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f},
							{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01},
							{0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01},
							{0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01}}[rnd.Intn(6)]...)
						d = append(d, 1, 2)
					case 3: // mangled as a whole
						if m == 2 {
							d = append([]byte(magics[2]+"l"), d[4:]...)
						}
					}
					run(d)
				}
			}
		}
		rec.close()
	}
	redoers["headers"] = redoers["decode"]
}
