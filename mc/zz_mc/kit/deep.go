package kit

import (
	"encoding/binary"
	"math"
	"reflect"
	"strings"
	"unsafe"

	"github.com/levilutz/basiccoin/pkg/core"
)

// DeepHash hashes everything reachable from v except channels, functions, scheduler objects, buses
// and inventories. Maps are hashed without regard to order.
func DeepHash(v any) uint64 {
	d := &deep{seen: map[unsafe.Pointer]bool{}}
	return d.val(reflect.ValueOf(v), 0)
}

type deep struct{ seen map[unsafe.Pointer]bool }

func mixh(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + h<<6 + h>>2
	h *= 0xff51afd7ed558ccd
	return h ^ h>>29
}

func hashT(h H) uint64 {
	d := h.Data()
	return binary.LittleEndian.Uint64(d[:]) ^ binary.LittleEndian.Uint64(d[20:])
}

func skipType(t reflect.Type) bool {
	p := t.PkgPath()
	return strings.Contains(p, "/zz_mc/") || strings.HasSuffix(p, "/internal/bus") || strings.HasSuffix(p, "/internal/inv") ||
		strings.HasSuffix(p, "/pkg/topic")
}

func (d *deep) val(v reflect.Value, depth int) uint64 {
	if !v.IsValid() || depth > 40 {
		return 1
	}
	t := v.Type()
	if skipType(t) {
		return 2
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case core.HashT:
			return hashT(x)
		case core.Utxo:
			return mixh(mixh(hashT(x.TxId), x.Ind), x.Value)
		}
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return 3
		}
		return 4
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return mixh(5, uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return mixh(6, v.Uint())
	case reflect.Float32, reflect.Float64:
		return mixh(7, math.Float64bits(v.Float()))
	case reflect.String:
		h := uint64(8)
		for _, b := range []byte(v.String()) {
			h = mixh(h, uint64(b))
		}
		return h
	case reflect.Pointer:
		if v.IsNil() {
			return 9
		}
		p := v.UnsafePointer()
		if d.seen[p] {
			return 10
		}
		d.seen[p] = true
		h := mixh(11, d.val(v.Elem(), depth+1))
		delete(d.seen, p)
		return h
	case reflect.Interface:
		if v.IsNil() {
			return 12
		}
		return d.val(v.Elem(), depth+1)
	case reflect.Struct:
		h := uint64(13)
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.CanAddr() && !f.CanInterface() {
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			h = mixh(h, d.val(f, depth+1))
		}
		return h
	case reflect.Array, reflect.Slice:
		h := mixh(14, uint64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			h = mixh(h, d.val(v.Index(i), depth+1))
		}
		return h
	case reflect.Map:
		h := mixh(15, uint64(v.Len()))
		it := v.MapRange()
		for it.Next() {
			h += mixh(d.val(it.Key(), depth+1), d.val(it.Value(), depth+1))
		}
		return mixh(16, h)
	}
	return 17
}
