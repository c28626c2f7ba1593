package vsim

import (
	"fmt"
	"reflect"
	"sort"
)

// Entry is one element of a map being ranged over.
type Entry[K comparable, V any] struct {
	k K
	m map[K]V
}

func (e Entry[K, V]) K() K { return e.k }

func (e Entry[K, V]) V() V { return e.m[e.k] }

// Live tells whether the element is still in the map.
func (e Entry[K, V]) Live() bool {
	_, ok := e.m[e.k]
	return ok || e.k != e.k
}

// Entries lists the elements of m in an order chosen by the simulator.
func Entries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	out := make([]Entry[K, V], 0, len(m))
	for k := range m {
		out = append(out, Entry[K, V]{k, m})
	}
	if len(out) < 2 {
		return out
	}
	sortEntries(out)
	perm := order(len(out))
	if perm == nil {
		return out
	}
	shuffled := make([]Entry[K, V], len(out))
	for i, p := range perm {
		shuffled[i] = out[p]
	}
	return shuffled
}

func sortEntries[K comparable, V any](out []Entry[K, V]) {
	var z K
	switch any(z).(type) {
	case string:
		sort.Slice(out, func(i, j int) bool { return any(out[i].k).(string) < any(out[j].k).(string) })
		return
	case int:
		sort.Slice(out, func(i, j int) bool { return any(out[i].k).(int) < any(out[j].k).(int) })
		return
	}
	keys := make([]string, len(out))
	idx := make([]int, len(out))
	for i := range out {
		keys[i] = keyString(out[i].k)
		idx[i] = i
	}
	sort.SliceStable(idx, func(i, j int) bool { return keys[idx[i]] < keys[idx[j]] })
	tmp := append([]Entry[K, V](nil), out...)
	for i, j := range idx {
		out[i] = tmp[j]
	}
}

func keyString(k any) string {
	v := reflect.ValueOf(k)
	if v.Kind() == reflect.Pointer && !v.IsNil() {
		// order by content: addresses differ between executions
		return fmt.Sprintf("%T %+v", k, v.Elem().Interface())
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprintf("%020d", v.Uint())
	}
	return fmt.Sprintf("%T %+v", k, k)
}

//go:norace
func order(n int) []int32 {
	t := cur
	if t == nil || t.dead {
		return nil
	}
	t.op, t.n = opMapOrder, n
	call(t)
	p := t.rPerm
	t.rPerm = nil
	return p
}
