package mcrt

import (
	"fmt"
	"reflect"
)

var plainCache = map[reflect.Type]bool{}

func isPlain(v any) bool {
	t := reflect.TypeOf(v)
	if t == nil {
		return false
	}
	p, ok := plainCache[t]
	if !ok {
		p = plainType(t)
		plainCache[t] = p
	}
	return p
}

func plainType(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return true
	case reflect.Array:
		return plainType(t.Elem())
	case reflect.Struct:
		// padding is possible: accept only homogeneous byte-aligned structs
		var sz uintptr
		for i := 0; i < t.NumField(); i++ {
			if !plainType(t.Field(i).Type) {
				return false
			}
			sz += t.Field(i).Type.Size()
		}
		return sz == t.Size()
	}
	return false
}

func keyString(k any) string {
	v := reflect.ValueOf(k)
	if v.Kind() == reflect.Pointer || v.Kind() == reflect.UnsafePointer || v.Kind() == reflect.Chan {
		return ptrOrder(k)
	}
	return fmt.Sprintf("%T%+v", k, k)
}

// Pointers are ordered by first use, which is deterministic within an execution.
var ptrOrd map[any]int

func init() { OnReset(func() { ptrOrd = nil }) }

func ptrOrder(k any) string {
	if ptrOrd == nil {
		ptrOrd = map[any]int{}
	}
	n, ok := ptrOrd[k]
	if !ok {
		n = len(ptrOrd)
		ptrOrd[k] = n
	}
	return fmt.Sprintf("%09d", n)
}
