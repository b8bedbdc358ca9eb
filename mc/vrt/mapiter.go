package vrt

import (
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// RangeChan gives the loop variable of a range over a channel its type.
func RangeChan[T any](ch <-chan T) (_ <-chan T, v T) { return ch, v }

// MapIter walks a map in an order that is the same in every replay: Go's own
// order is random.  Entries deleted on the way are not produced and entries
// added on the way may be left out, as the language allows.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	k    K
	v    V
}

// RangeMap starts a walk over m; the other results give the loop variables
// their types.
func RangeMap[M ~map[K]V, K comparable, V any](m M) (_ *MapIter[K, V], _ K, _ V) {
	it := &MapIter[K, V]{m: m}
	var names []string
	for k := range m {
		it.keys = append(it.keys, k)
		names = append(names, keyName(k))
	}
	sort.Stable(&byName[K]{it.keys, names})
	return it, it.k, it.v
}

// Next goes to the next entry.
func (it *MapIter[K, V]) Next() bool {
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		if v, ok := it.m[k]; ok {
			it.k, it.v = k, v
			return true
		}
	}
	return false
}

// Key is the current key, Val the current value.
func (it *MapIter[K, V]) Key() K { return it.k }
func (it *MapIter[K, V]) Val() V { return it.v }

type byName[K any] struct {
	k []K
	n []string
}

func (b *byName[K]) Len() int           { return len(b.k) }
func (b *byName[K]) Less(i, j int) bool { return b.n[i] < b.n[j] }
func (b *byName[K]) Swap(i, j int) {
	b.k[i], b.k[j] = b.k[j], b.k[i]
	b.n[i], b.n[j] = b.n[j], b.n[i]
}

// Ordered is implemented by shim objects with an identity of their own.
type Ordered interface{ VrtOrder() int }

// keyName describes a key without any address in it.
func keyName(k interface{}) string {
	var b strings.Builder
	n := 200
	describeKey(&b, reflect.ValueOf(k), 6, &n)
	return b.String()
}

var objType = reflect.TypeOf(Obj{})

func describeKey(b *strings.Builder, v reflect.Value, depth int, budget *int) {
	if depth == 0 || *budget <= 0 || !v.IsValid() {
		return
	}
	*budget--
	switch v.Kind() {
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		num(b, uint64(v.Int())^1<<63)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		num(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		b.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.String:
		b.WriteString(v.String())
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			describeKey(b, v.Index(i), depth-1, budget)
		}
	case reflect.Interface:
		describeKey(b, v.Elem(), depth, budget)
	case reflect.Ptr:
		if v.CanInterface() && !v.IsNil() {
			if o, ok := v.Interface().(Ordered); ok {
				num(b, uint64(o.VrtOrder()))
				return
			}
		}
		if Race { // looking inside would count as an access of the program
			return
		}
		describeKey(b, v.Elem(), depth-1, budget)
	case reflect.Struct:
		if v.Type() == objType {
			if v.Field(0).Uint() == execCount {
				num(b, uint64(v.Field(1).Int()))
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			describeKey(b, v.Field(i), depth-1, budget)
		}
	}
	b.WriteByte(',')
}

func num(b *strings.Builder, n uint64) {
	s := strconv.FormatUint(n, 16)
	b.WriteString("0000000000000000"[len(s):])
	b.WriteString(s)
}
