package sim

import (
	"reflect"
	"strings"
	"unsafe"
)

// Package-level variables of the code under test.  Their contents, and what
// they point to, are recorded once the program has been initialised and put
// back before every run, so that a run never sees what an earlier one left
// behind (a filled cache, a parsed table, a changed word list) and a replay in
// a fresh process starts where the original run started.

var vars []reflect.Value

// RegisterVar is called by the instrumented packages with a pointer.
func RegisterVar(p any) { vars = append(vars, reflect.ValueOf(p).Elem()) }

type savedCell struct {
	at  reflect.Value // addressable
	val reflect.Value
}

type savedMap struct {
	at   reflect.Value
	k, v []reflect.Value
}

var (
	savedCells []savedCell
	savedMaps  []savedMap
	varsSaved  bool
)

// ResetVars restores the recorded values (records them on the first call).
func ResetVars() {
	if !varsSaved {
		varsSaved = true
		seen := map[seenKey]bool{}
		for _, v := range vars {
			save(v, seen, 0)
		}
		return
	}
	for _, c := range savedCells {
		c.at.Set(c.val)
	}
	for _, m := range savedMaps {
		m.at.Clear()
		for i := range m.k {
			m.at.SetMapIndex(m.k[i], m.v[i])
		}
	}
}

type seenKey struct {
	p unsafe.Pointer
	t reflect.Type
	n int
}

func mine(t reflect.Type) bool {
	p := t.PkgPath()
	return p == "" || p == "math/big" || p == "crypto/elliptic" || strings.Contains(p, "tokucore")
}

// save records one addressable value and what hangs off it.
func save(v reflect.Value, seen map[seenKey]bool, depth int) {
	v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	k := seenKey{unsafe.Pointer(v.UnsafeAddr()), v.Type(), 0}
	if seen[k] {
		return
	}
	seen[k] = true
	c := reflect.New(v.Type()).Elem()
	c.Set(v)
	savedCells = append(savedCells, savedCell{v, c})
	walk(v, seen, depth)
}

// walk records what an addressable, already recorded value refers to.
func walk(v reflect.Value, seen map[seenKey]bool, depth int) {
	if depth > 40 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() && mine(v.Type().Elem()) {
			save(v.Elem(), seen, depth+1)
		}
	case reflect.Interface:
		if e := v.Elem(); e.IsValid() && e.Kind() == reflect.Pointer && !e.IsNil() && mine(e.Type().Elem()) {
			save(e.Elem(), seen, depth+1)
		}
	case reflect.Struct:
		if !mine(v.Type()) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			walk(reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem(), seen, depth+1)
		}
	case reflect.Array:
		if holds(v.Type().Elem()) {
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), seen, depth+1)
			}
		}
	case reflect.Slice:
		if v.IsNil() || v.Len() == 0 {
			return
		}
		k := seenKey{v.UnsafePointer(), v.Type(), v.Len()}
		if seen[k] {
			return
		}
		seen[k] = true
		// the elements, as one array
		a := reflect.NewAt(reflect.ArrayOf(v.Len(), v.Type().Elem()), v.UnsafePointer()).Elem()
		c := reflect.New(a.Type()).Elem()
		c.Set(a)
		savedCells = append(savedCells, savedCell{a, c})
		walk(a, seen, depth+1)
	case reflect.Map:
		if v.IsNil() {
			return
		}
		k := seenKey{v.UnsafePointer(), v.Type(), 0}
		if seen[k] {
			return
		}
		seen[k] = true
		m := savedMap{at: v}
		// the map itself, should the variable be given another one
		h := reflect.New(v.Type()).Elem()
		h.Set(v)
		m.at = h
		for it := v.MapRange(); it.Next(); {
			mk, mv := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			mk.Set(it.Key())
			mv.Set(it.Value())
			m.k, m.v = append(m.k, mk), append(m.v, mv)
			walk(mv, seen, depth+1)
		}
		savedMaps = append(savedMaps, m)
	}
}

// holds reports whether values of a type can refer to others.
func holds(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Pointer, reflect.Interface, reflect.Struct, reflect.Array, reflect.Slice, reflect.Map:
		return true
	}
	return false
}
