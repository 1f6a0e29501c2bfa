package vs

import (
	"math"
	"reflect"
	"sort"
	"strconv"

	"verif.local/vsim/core"
)

// It iterates over a map in an order decided by the scheduler.
type It[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

// MapIter starts an iteration over m.
func MapIter[M ~map[K]V, K comparable, V any](m M) *It[K, V] {
	it := &It[K, V]{m: m, keys: make([]K, 0, len(m))}
	if len(m) < 2 {
		for k := range m {
			it.keys = append(it.keys, k)
		}
		return it
	}
	all := make([]ranked[K], 0, len(m))
	for k := range m {
		r := ranked[K]{key: k}
		r.rank, r.num, r.text = rank(k)
		all = append(all, r)
	}
	sort.Slice(all, func(i, j int) bool {
		a, b := &all[i], &all[j]
		if a.rank != b.rank {
			return a.rank < b.rank
		}
		if a.num != b.num {
			return a.num < b.num
		}
		return a.text < b.text
	})
	for i := range all {
		it.keys = append(it.keys, all[i].key)
	}
	return it
}

// ranked is a key with its place in an order that is the same in every execution of a run.
type ranked[K any] struct {
	key  K
	rank int
	num  uint64
	text string
}

// MapIterKV also declares a key and a value variable.
func MapIterKV[M ~map[K]V, K comparable, V any](m M) (*It[K, V], K, V) {
	var k K
	var v V
	return MapIter(m), k, v
}

// MapIterK also declares a key variable.
func MapIterK[M ~map[K]V, K comparable, V any](m M) (*It[K, V], K) {
	var k K
	return MapIter(m), k
}

// MapIterV also declares a value variable.
func MapIterV[M ~map[K]V, K comparable, V any](m M) (*It[K, V], V) {
	var v V
	return MapIter(m), v
}

// Next advances; k and v may be nil.
func (it *It[K, V]) Next(k *K, v *V) bool {
	for len(it.keys) > 0 {
		i := core.Choose(len(it.keys))
		key := it.keys[i]
		last := len(it.keys) - 1
		it.keys[i] = it.keys[last]
		it.keys = it.keys[:last]
		val, ok := it.m[key]
		if !ok {
			if key == key {
				continue // deleted meanwhile
			}
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

func rank(x interface{}) (int, uint64, string) {
	switch v := x.(type) {
	case nil:
		return 0, 0, ""
	case bool:
		if v {
			return 1, 1, ""
		}
		return 1, 0, ""
	case int:
		return 2, uint64(v) ^ 1<<63, ""
	case int8:
		return 3, uint64(v) ^ 1<<63, ""
	case int16:
		return 4, uint64(v) ^ 1<<63, ""
	case int32:
		return 5, uint64(v) ^ 1<<63, ""
	case int64:
		return 6, uint64(v) ^ 1<<63, ""
	case uint:
		return 7, uint64(v), ""
	case uint8:
		return 8, uint64(v), ""
	case uint16:
		return 9, uint64(v), ""
	case uint32:
		return 10, uint64(v), ""
	case uint64:
		return 11, v, ""
	case float64:
		b := math.Float64bits(v)
		if b>>63 == 1 {
			b = ^b
		} else {
			b |= 1 << 63
		}
		return 12, b, ""
	case string:
		return 13, 0, v
	}
	v := reflect.ValueOf(x)
	return 14, 0, v.Type().String() + " " + encode(v)
}

// encode tells comparable values of one type apart, by the order of their insertion where all they
// have is an address. It follows no pointer: what is there may be in use by others.
func encode(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return pad(uint64(v.Int()) ^ 1<<63)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return pad(v.Uint())
	case reflect.Float32, reflect.Float64:
		return pad(math.Float64bits(v.Float()))
	case reflect.Complex64, reflect.Complex128:
		return pad(math.Float64bits(real(v.Complex()))) + pad(math.Float64bits(imag(v.Complex())))
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Ptr, reflect.Chan, reflect.UnsafePointer:
		return pad(uint64(core.KeyID(v.UnsafePointer())))
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return v.Elem().Type().String() + " " + encode(v.Elem())
	case reflect.Struct:
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			s += encode(v.Field(i)) + ","
		}
		return s
	case reflect.Array:
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += encode(v.Index(i)) + ","
		}
		return s
	}
	return ""
}

func pad(n uint64) string {
	s := strconv.FormatUint(n, 36)
	return "0000000000000"[len(s):] + s
}

// MK is put around the key of every insertion into a map whose keys may hold pointers: the addresses
// differ between executions, the order in which they first became keys does not.
func MK[K any](k K) K {
	switch x := any(k).(type) {
	case nil, bool, int, string, int64, uint32, uint64, float64:
	default:
		register(reflect.ValueOf(x))
	}
	return k
}

func register(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Chan, reflect.UnsafePointer:
		core.KeyID(v.UnsafePointer())
	case reflect.Interface:
		if !v.IsNil() {
			register(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			register(v.Field(i))
		}
	case reflect.Array:
		if k := v.Type().Elem().Kind(); k == reflect.Ptr || k == reflect.Chan || k == reflect.UnsafePointer || k == reflect.Interface || k == reflect.Struct || k == reflect.Array {
			for i := 0; i < v.Len(); i++ {
				register(v.Index(i))
			}
		}
	}
}
