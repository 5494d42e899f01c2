package simrt

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
)

// Iter enumerates a map in a decided order.
type Iter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	vals []V // only for keys that do not equal themselves
	i    int
}

func (it *Iter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			if key == key {
				continue // deleted meanwhile
			}
			val = it.vals[it.i-1]
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

func MapIterKV[M ~map[K]V, K comparable, V any](m M) (k K, v V, it *Iter[K, V]) {
	return k, v, newIter[K, V](m)
}
func MapIterK[M ~map[K]V, K comparable, V any](m M) (k K, it *Iter[K, V]) {
	return k, newIter[K, V](m)
}
func MapIterV[M ~map[K]V, K comparable, V any](m M) (v V, it *Iter[K, V]) {
	return v, newIter[K, V](m)
}
func MapIter0[M ~map[K]V, K comparable, V any](m M) *Iter[K, V] {
	return newIter[K, V](m)
}

func newIter[K comparable, V any](m map[K]V) *Iter[K, V] {
	it := &Iter[K, V]{m: m}
	if len(m) == 0 {
		return it
	}
	it.keys = make([]K, 0, len(m))
	nan := false
	for k, v := range m {
		it.keys = append(it.keys, k)
		if k != k {
			nan = true
		}
		it.vals = append(it.vals, v)
	}
	if !nan {
		it.vals = nil
	}
	names := make([]string, len(it.keys))
	for i := range it.keys {
		names[i] = keyName(reflect.ValueOf(&it.keys[i]).Elem())
	}
	ord := order(names)
	keys := make([]K, len(ord))
	var vals []V
	for i, o := range ord {
		keys[i] = it.keys[o]
		if nan {
			vals = append(vals, it.vals[o])
		}
	}
	it.keys, it.vals = keys, vals
	return it
}

// keyName gives a sortable name to a key.
func keyName(v reflect.Value) string {
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", uint64(v.Int())+(1<<63))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprintf("%020d", v.Uint())
	case reflect.Interface:
		if v.IsNil() {
			return ""
		}
		if v.CanInterface() {
			if t, ok := v.Interface().(reflect.Type); ok {
				return t.PkgPath() + " " + t.String()
			}
		}
		return v.Elem().Type().String() + " " + keyName(v.Elem())
	case reflect.Ptr, reflect.UnsafePointer, reflect.Chan:
		return fmt.Sprintf("%016x", v.Pointer())
	case reflect.Struct:
		var sb strings.Builder
		for i := 0; i < v.NumField(); i++ {
			sb.WriteString(keyName(v.Field(i)))
			sb.WriteByte(0)
		}
		return sb.String()
	case reflect.Array:
		var sb strings.Builder
		for i := 0; i < v.Len(); i++ {
			sb.WriteString(keyName(v.Index(i)))
			sb.WriteByte(0)
		}
		return sb.String()
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Float32, reflect.Float64:
		return fmt.Sprintf("%024.6f", v.Float())
	default:
		return v.Type().String()
	}
}

// order decides an enumeration order: sorted, reversed, rotated or shuffled.
func order(names []string) []int {
	n := len(names)
	ord := make([]int, n)
	for i := range ord {
		ord[i] = i
	}
	sort.SliceStable(ord, func(a, b int) bool { return names[ord[a]] < names[ord[b]] })
	mapIters++
	if n < 2 || src == nil {
		return ord
	}
	switch src.Draw(StreamMap, 8) {
	case 0:
	case 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			ord[i], ord[j] = ord[j], ord[i]
		}
		mapPerm++
	case 2:
		r := int(src.Draw(StreamMap, uint64(n)))
		ord = append(append([]int{}, ord[r:]...), ord[:r]...)
		mapPerm++
	default:
		for i := n - 1; i > 0; i-- {
			// draw 0 keeps the element where it is
			j := i - int(src.Draw(StreamMap, uint64(i+1)))
			ord[i], ord[j] = ord[j], ord[i]
		}
		mapPerm++
	}
	return ord
}

// MapKeys replaces reflect.Value.MapKeys.
func MapKeys(v reflect.Value) []reflect.Value {
	keys := v.MapKeys()
	names := make([]string, len(keys))
	for i, k := range keys {
		names[i] = keyName(k)
	}
	ord := order(names)
	ret := make([]reflect.Value, len(keys))
	for i, o := range ord {
		ret[i] = keys[o]
	}
	return ret
}

// RIter replaces reflect.MapIter.
type RIter struct {
	m    reflect.Value
	keys []reflect.Value
	i    int
}

func MapRange(v reflect.Value) *RIter { return &RIter{m: v, keys: MapKeys(v), i: -1} }

func (it *RIter) Next() bool {
	for it.i++; it.i < len(it.keys); it.i++ {
		if it.m.MapIndex(it.keys[it.i]).IsValid() {
			return true
		}
	}
	return false
}
func (it *RIter) Key() reflect.Value   { return it.keys[it.i] }
func (it *RIter) Value() reflect.Value { return it.m.MapIndex(it.keys[it.i]) }
