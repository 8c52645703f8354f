package main

import (
	"encoding"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"

	"github.com/Sereal/Sereal/Go/sereal"
)

// A Go value as a graph: see spec/SrlValue.tla.
type vnode struct {
	K  string  `json:"k"`
	A  []int   `json:"a"`
	C  []int   `json:"c"`
	Ks [][]int `json:"ks"`
	O  int     `json:"o"`
	P  int     `json:"p"` // 1: a pointer to one of the Perl types
}

type ident struct {
	kind byte
	addr uintptr
	n    int
	t    reflect.Type
}

type walker struct {
	nodes []vnode
	ids   map[ident]int
	memo  map[ident]int
	max   int

	nofreeze bool
}

func str(s string) []int { return ints([]byte(s)) }

// graph describes a value; the root is the first node
func graph(v interface{}) []vnode { return graphValue(reflect.ValueOf(v)) }

func graphValue(rv reflect.Value) []vnode { return graphOpt(rv, false) }

func graphOpt(rv reflect.Value, nofreeze bool) []vnode {
	w := &walker{ids: map[ident]int{}, memo: map[ident]int{}, max: 9000, nofreeze: nofreeze}
	w.walk(rv)
	return w.nodes
}

func (w *walker) id(i ident) int {
	if n, ok := w.ids[i]; ok {
		return n
	}
	w.ids[i] = len(w.ids) + 1
	return len(w.ids)
}

// add appends a node and returns its 1-based number
func (w *walker) add(k string) int {
	w.nodes = append(w.nodes, vnode{K: k, A: []int{}, C: []int{}, Ks: [][]int{}})
	return len(w.nodes)
}

func (w *walker) leaf(t tok) int {
	n := w.add("leaf")
	w.nodes[n-1].A = t
	return n
}

func concreteName(t reflect.Type) string { return t.PkgPath() + "." + t.Name() }

// fieldNames lists the fields of a struct that are part of its encoding
func fieldNames(t reflect.Type) (names []string, idx []int) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag := f.Tag.Get("sereal")
		if tag == "-" {
			continue
		}
		if tag == "" {
			if f.PkgPath != "" {
				continue
			}
			tag = f.Name
		}
		names = append(names, tag)
		idx = append(idx, i)
	}
	return
}

func (w *walker) walk(rv reflect.Value) int {
	for rv.Kind() == reflect.Interface {
		rv = rv.Elem()
	}
	if len(w.nodes) > w.max {
		return w.add("cut")
	}
	if !rv.IsValid() {
		return w.leaf(tok{kNil})
	}
	if rv.CanInterface() {
		switch x := rv.Interface().(type) {
		case json.Number:
			if i, err := x.Int64(); err == nil {
				return w.leaf(intTok(i))
			} else if ne, ok := err.(*strconv.NumError); ok && ne.Err == strconv.ErrRange {
				return w.leaf(withBytes(kStr, []byte(x)))
			}
			if f, err := x.Float64(); err == nil {
				return w.leaf(f64Tok(f))
			}
			return w.leaf(withBytes(kStr, []byte(x)))
		case []byte:
			n := w.leaf(withBytes(kBin, x))
			if cap(x) > 0 {
				w.nodes[n-1].O = w.id(ident{'s', rv.Pointer(), len(x), rv.Type()})
			}
			return n
		case *sereal.PerlUndef:
			n := w.leaf(tok{kUndef})
			if x == sereal.PerlCanonicalUndef() {
				w.nodes[n-1].A = tok{kCUndef}
			}
			w.nodes[n-1].P = 1
			return n
		case sereal.PerlUndef:
			return w.leaf(tok{kUndef})
		case *sereal.PerlFreeze:
			n := w.add("frz")
			w.nodes[n-1].A = str(x.Class)
			w.nodes[n-1].Ks = [][]int{ints(x.Data)}
			return n
		case *sereal.PerlRegexp:
			n := w.walk(rv.Elem())
			w.nodes[n-1].P = 1
			return n
		case sereal.PerlRegexp:
			n := w.add("re")
			w.nodes[n-1].Ks = [][]int{ints(x.Pattern), ints(x.Modifiers)}
			return n
		case *sereal.PerlObject, *sereal.PerlWeakRef:
			k := ident{'w', rv.Pointer(), 0, rv.Type()}
			if n, ok := w.memo[k]; ok {
				return n
			}
			return w.wrapper(rv.Elem().Interface(), k)
		case sereal.PerlObject, sereal.PerlWeakRef:
			return w.wrapper(x, ident{})
		}
		if rv.Kind() != reflect.Ptr && !w.nofreeze {
			if m, ok := rv.Interface().(encoding.BinaryMarshaler); ok {
				b, err := m.MarshalBinary()
				if err != nil {
					return w.add("bad")
				}
				n := w.add("frz")
				w.nodes[n-1].A = str(concreteName(rv.Type()))
				w.nodes[n-1].Ks = [][]int{ints(b)}
				switch { // what a pointer to it may be known by
				case rv.Kind() == reflect.Map && !rv.IsNil():
					w.nodes[n-1].O = w.id(ident{'m', rv.Pointer(), 0, rv.Type()})
				case rv.Kind() == reflect.Slice && rv.Cap() > 0:
					w.nodes[n-1].O = w.id(ident{'s', rv.Pointer(), rv.Len(), rv.Type()})
				case rv.Kind() == reflect.String && rv.Len() > 0:
					w.nodes[n-1].O = w.id(ident{'t', stringData(rv.String()), rv.Len(), rv.Type()})
				}
				return n
			}
		}
	}
	switch rv.Kind() {
	case reflect.Bool:
		if rv.Bool() {
			return w.leaf(tok{kBool, 1})
		}
		return w.leaf(tok{kBool, 0})
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return w.leaf(intTok(rv.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return w.leaf(uintTok(rv.Uint()))
	case reflect.Float32:
		return w.leaf(f32Tok(float32(rv.Float())))
	case reflect.Float64:
		return w.leaf(f64Tok(rv.Float()))
	case reflect.String:
		s := rv.String()
		n := w.leaf(withBytes(kStr, []byte(s)))
		if len(s) > 0 {
			w.nodes[n-1].O = w.id(ident{'t', stringData(s), len(s), rv.Type()})
		}
		return n
	case reflect.Slice, reflect.Array:
		var k ident
		if rv.Kind() == reflect.Slice && rv.Cap() > 0 {
			k = ident{'s', rv.Pointer(), rv.Len(), rv.Type()}
			if n, ok := w.memo[k]; ok {
				return n
			}
		}
		n := w.add("slice")
		if k.kind != 0 {
			w.memo[k] = n
			w.nodes[n-1].O = w.id(k)
		}
		c := []int{}
		for i := 0; i < rv.Len(); i++ {
			c = append(c, w.walk(rv.Index(i)))
		}
		w.nodes[n-1].C = c
		return n
	case reflect.Map:
		kt := rv.Type().Key()
		var k ident
		if !rv.IsNil() {
			k = ident{'m', rv.Pointer(), 0, rv.Type()}
			if n, ok := w.memo[k]; ok {
				return n
			}
		}
		n := w.add("map")
		if k.kind != 0 {
			w.memo[k] = n
			w.nodes[n-1].O = w.id(k)
		}
		c, ks := []int{}, [][]int{}
		keys := rv.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		for _, key := range keys {
			s := key
			for s.Kind() == reflect.Interface {
				s = s.Elem()
			}
			if s.Kind() != reflect.String {
				w.nodes[n-1].K = "bad"
				return n
			}
			ks = append(ks, str(s.String()))
			c = append(c, w.walk(rv.MapIndex(key)))
		}
		_ = kt
		w.nodes[n-1].C, w.nodes[n-1].Ks = c, ks
		return n
	case reflect.Struct:
		n := w.add("struct")
		w.nodes[n-1].A = str(rv.Type().Name())
		c, ks := []int{}, [][]int{}
		names, idx := fieldNames(rv.Type())
		for i, f := range idx {
			ks = append(ks, str(names[i]))
			c = append(c, w.walk(rv.Field(f)))
		}
		w.nodes[n-1].C, w.nodes[n-1].Ks = c, ks
		return n
	case reflect.Ptr:
		if rv.IsNil() {
			return w.add("ptr")
		}
		k := ident{'p', rv.Pointer(), 0, rv.Type()}
		if n, ok := w.memo[k]; ok {
			return n
		}
		n := w.add("ptr")
		w.memo[k] = n
		w.nodes[n-1].O = w.id(k)
		c := w.walk(rv.Elem())
		w.nodes[n-1].C = []int{c}
		return n
	}
	return w.add("bad")
}

func (w *walker) wrapper(x interface{}, k ident) int {
	n := 0
	var in interface{}
	switch x := x.(type) {
	case sereal.PerlObject:
		n = w.add("obj")
		w.nodes[n-1].A = str(x.Class)
		in = x.Reference
	case sereal.PerlWeakRef:
		n = w.add("weak")
		in = x.Reference
	}
	if k.kind != 0 {
		w.memo[k] = n
		w.nodes[n-1].P = 1
	}
	c := w.walk(reflect.ValueOf(in))
	w.nodes[n-1].C = []int{c}
	return n
}
