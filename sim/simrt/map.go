package simrt

import (
	"fmt"
	"reflect"
	"runtime/debug"
	"sort"
)

// MapIterator walks a map in a simulator-decided order.
type MapIterator[K comparable, V any] struct {
	K    K
	V    V
	m    map[K]V
	keys []K
	i    int
}

// MapIter replaces range over a map: the keys are sorted and then rotated and
// possibly reversed by a recorded choice, so that the order is arbitrary but
// replayable.
func MapIter[M ~map[K]V, K comparable, V any](m M) *MapIterator[K, V] {
	it := &MapIterator[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sortKeys(it.keys)
	if n := len(it.keys); n > 1 && W != nil && !dead() {
		r := W.Choose("map", n)
		rot := append(append([]K{}, it.keys[r:]...), it.keys[:r]...)
		it.keys = rot
		if n > 2 && W.Choose("maprev", 2) == 1 {
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		}
	}
	return it
}

func (it *MapIterator[K, V]) Next() bool {
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		v, ok := it.m[k]
		if !ok {
			if k != k { // NaN keys cannot be looked up; skip
				continue
			}
			continue // deleted during the iteration
		}
		it.K, it.V = k, v
		return true
	}
	return false
}

func sortKeys[K comparable](ks []K) {
	if len(ks) < 2 {
		return
	}
	rv := reflect.ValueOf(ks[0])
	switch rv.Kind() {
	case reflect.String:
		sort.Slice(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).String() < reflect.ValueOf(ks[j]).String() })
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.Slice(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).Int() < reflect.ValueOf(ks[j]).Int() })
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		sort.Slice(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).Uint() < reflect.ValueOf(ks[j]).Uint() })
	default:
		// pointers carry no stable order: sort by pointed-to content
		id := make(map[K]string, len(ks))
		for _, k := range ks {
			id[k] = stableKey(reflect.ValueOf(&k).Elem(), 6)
		}
		sort.SliceStable(ks, func(i, j int) bool { return id[ks[i]] < id[ks[j]] })
	}
}

// stableKey renders a value without any address in it.
func stableKey(v reflect.Value, depth int) string {
	if depth == 0 || !v.IsValid() {
		return "-"
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		if v.Kind() == reflect.Ptr {
			switch v.Type() {
			case reflect.TypeOf((*connEnd)(nil)):
				return fmt.Sprintf("conn%08d/%d", v.Elem().FieldByName("id").Int(), v.Elem().FieldByName("dir").Int())
			case reflect.TypeOf((*Timer)(nil)):
				return fmt.Sprintf("timer%08d", v.Elem().FieldByName("id").Int())
			case reflect.TypeOf((*Node)(nil)):
				return "node" + v.Elem().FieldByName("Name").String()
			case reflect.TypeOf((*World)(nil)), reflect.TypeOf((*FS)(nil)), reflect.TypeOf((*Network)(nil)):
				return "-"
			}
		}
		return stableKey(v.Elem(), depth-1)
	case reflect.Struct:
		s := v.Type().Name() + "{"
		for i := 0; i < v.NumField(); i++ {
			s += stableKey(v.Field(i), depth-1) + ","
		}
		return s + "}"
	case reflect.Slice, reflect.Array:
		n := v.Len()
		s := fmt.Sprintf("%d[", n)
		for i := 0; i < n && i < 64; i++ {
			s += stableKey(v.Index(i), depth-1) + ","
		}
		return s + "]"
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprintf("%020d", v.Uint())
	case reflect.Float32, reflect.Float64:
		return fmt.Sprint(v.Float())
	case reflect.Map:
		return fmt.Sprint(v.Len())
	}
	return v.Kind().String()
}

// Map replaces sync.Map: same contents, but a simulator-decided order.
type Map struct {
	m map[interface{}]interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) { Y(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v interface{})                 { m.Swap(k, v) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	Y()
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	old, ok := m.m[k]
	m.m[k] = v
	return old, ok
}
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	Y()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	Y()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }
func (m *Map) Clear()               { Y(); m.m = nil }
func (m *Map) CompareAndSwap(k, old, v interface{}) bool {
	Y()
	if cur, ok := m.m[k]; !ok || cur != old {
		return false
	}
	m.m[k] = v
	return true
}
func (m *Map) CompareAndDelete(k, old interface{}) bool {
	Y()
	if cur, ok := m.m[k]; !ok || cur != old {
		return false
	}
	delete(m.m, k)
	return true
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	for it := MapIter(m.m); it.Next(); {
		if !f(it.K, it.V) {
			return
		}
	}
}

// MapR and MapW guard the accesses to maps. Go maps are not safe for
// concurrent use: an access that meets a write in progress ends the process
// with an unrecoverable error, so that is what happens here. A write takes one
// scheduling point, during which other tasks can meet it.
func MapR[M ~map[K]V, K comparable, V any](m M) M {
	if m != nil && W != nil && W.cur != nil && len(W.mapw) > 0 {
		mapMeet(reflect.ValueOf(m).Pointer(), "read")
	}
	return m
}

func MapW[M ~map[K]V, K comparable, V any](m M) M {
	if m == nil || W == nil || W.cur == nil || W.cur.dead {
		return m
	}
	w := W
	p := reflect.ValueOf(m).Pointer()
	mapMeet(p, "write")
	if w.mapw == nil {
		w.mapw = map[uintptr]*Task{}
	}
	w.mapw[p] = w.cur
	defer delete(w.mapw, p)
	w.hot(15)
	Y()
	return m
}

func mapMeet(p uintptr, what string) {
	t := W.mapw[p]
	if t == nil || t == W.cur || t.dead || W.cur.dead {
		return
	}
	msg := "fatal error: concurrent map " + what + " and map write"
	n := W.cur.Node
	n.Panic = msg
	n.Stack = string(debug.Stack())
	exitNode(2, msg)
}

// YV is a scheduling point between the computation of a value and its
// assignment.
func YV[T any](v T) T { Y(); return v }
