package simrt

import (
	"reflect"
	"strings"
	"unsafe"
)

// Package-level variables of the code under test. What a process does only
// once (building a table at its first use, filling a cache) would otherwise
// happen in its first run and never again.

var (
	globals  []reflect.Value // pointers to the variables
	snapshot []func()        // restore them
	taken    bool
)

// Global makes the variable p points to known; the instrumented packages call
// it for each of theirs.
func Global(p any) { globals = append(globals, reflect.ValueOf(p)) }

// SnapshotGlobals remembers the variables as they are after initialisation.
func SnapshotGlobals() {
	if taken {
		return
	}
	taken = true
	seen := map[seenKey]bool{}
	for _, p := range globals {
		remember(p.Elem(), seen, 0)
	}
}

// ResetGlobals gives the variables the values they had after initialisation,
// as in a process that just started.
func ResetGlobals() {
	for _, f := range snapshot {
		f()
	}
	if s := Cur(); s != nil {
		s.Probe("fresh process state")
	}
}

type seenKey struct {
	p unsafe.Pointer
	t reflect.Type
}

// remember saves the memory of v, which is addressable, and what it refers to.
func remember(v reflect.Value, seen map[seenKey]bool, depth int) {
	v = open(v)
	k := seenKey{unsafe.Pointer(v.UnsafeAddr()), v.Type()}
	if seen[k] || !mutable(v.Type()) {
		return
	}
	seen[k] = true
	saved := reflect.New(v.Type()).Elem()
	saved.Set(v)
	snapshot = append(snapshot, func() { v.Set(saved) })
	follow(v, seen, depth)
}

func open(v reflect.Value) reflect.Value {
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

func follow(v reflect.Value, seen map[seenKey]bool, depth int) {
	if depth > 20 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && ours(v.Type().Elem()) {
			remember(v.Elem(), seen, depth+1)
		}
	case reflect.Interface:
		if x := v.Elem(); x.Kind() == reflect.Ptr && !x.IsNil() && ours(x.Type().Elem()) {
			remember(x.Elem(), seen, depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			follow(open(v.Field(i)), seen, depth+1)
		}
	case reflect.Array:
		if deep(v.Type().Elem()) {
			for i := 0; i < v.Len(); i++ {
				follow(open(v.Index(i)), seen, depth+1)
			}
		}
	case reflect.Slice:
		if v.IsNil() || v.Len() == 0 {
			return
		}
		k := seenKey{v.UnsafePointer(), v.Type()}
		if seen[k] {
			return
		}
		seen[k] = true
		all := v.Slice(0, v.Len())
		saved := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		reflect.Copy(saved, all)
		snapshot = append(snapshot, func() { reflect.Copy(all, saved) })
		if deep(v.Type().Elem()) {
			for i := 0; i < v.Len(); i++ {
				follow(open(v.Index(i)), seen, depth+1)
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		k := seenKey{v.UnsafePointer(), v.Type()}
		if seen[k] {
			return
		}
		seen[k] = true
		m := reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem().Interface()
		mv := reflect.ValueOf(m)
		var keys, vals []reflect.Value
		for it := mv.MapRange(); it.Next(); {
			keys, vals = append(keys, it.Key()), append(vals, it.Value())
			c := reflect.New(mv.Type().Elem()).Elem()
			c.Set(it.Value())
			follow(c, seen, depth+1)
		}
		snapshot = append(snapshot, func() {
			mv.Clear()
			for i := range keys {
				mv.SetMapIndex(keys[i], vals[i])
			}
		})
	}
}

// ours are the types of the code under test and of the simulated sync.
func ours(t reflect.Type) bool {
	p := t.PkgPath()
	return p == "" || strings.HasPrefix(p, "github.com/qmuntal/gltf") || p == "simv/simsync"
}

func mutable(t reflect.Type) bool { return t.Size() > 0 && t.String() != "simsync.Pool" }

func deep(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Map, reflect.Slice, reflect.Struct:
		return true
	case reflect.Array:
		return deep(t.Elem())
	}
	return false
}
