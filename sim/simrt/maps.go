package simrt

import (
	"fmt"
	"reflect"
	"sort"
)

// Entry is an entry of a map that is being iterated.
type Entry[K comparable, V any] struct {
	m map[K]V
	K K
}

// In tells whether the map still has the entry.
func (e Entry[K, V]) In() bool { _, ok := e.m[e.K]; return ok }

// V is the value the entry has now.
func (e Entry[K, V]) V() V { return e.m[e.K] }

// mapRng decides the order of maps where no simulation runs, if it is not 0.
var mapRng uint64

// OrderMaps draws the order of maps from a seed where no simulation runs. Only for one goroutine at a time.
func OrderMaps(seed uint64) { mapRng = seed | 1 }

func pick(n int) int {
	if in() {
		return Rand(n)
	}
	mapRng += 0x9E3779B97F4A7C15
	z := mapRng
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return int((z ^ (z >> 31)) % uint64(n))
}

//go:norace
func shuffled() bool { return in() || mapRng != 0 }

// Entries lists a map's entries in an order that the simulation draws; outside of one, keys are sorted unless OrderMaps
// was called.
func Entries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	l := make([]Entry[K, V], 0, len(m))
	for k := range m {
		l = append(l, Entry[K, V]{m, k})
	}
	if len(l) < 2 {
		return l
	}
	names := make([]string, len(l))
	for i := range l {
		names[i] = mapKey(reflect.ValueOf(&l[i].K).Elem())
	}
	sort.Sort(byName[K, V]{names, l})
	if shuffled() {
		for i := len(l) - 1; i > 0; i-- {
			j := pick(i + 1)
			l[i], l[j] = l[j], l[i]
		}
	}
	return l
}

// MapKeys lists a map's keys like Entries.
func MapKeys(m reflect.Value) []reflect.Value {
	ks := m.MapKeys()
	names := make(map[reflect.Value]string, len(ks))
	for _, k := range ks {
		names[k] = mapKey(k)
	}
	sort.SliceStable(ks, func(i, j int) bool { return names[ks[i]] < names[ks[j]] })
	if shuffled() {
		for i := len(ks) - 1; i > 0; i-- {
			j := pick(i + 1)
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	return ks
}

type byName[K comparable, V any] struct {
	names []string
	l     []Entry[K, V]
}

func (b byName[K, V]) Len() int           { return len(b.l) }
func (b byName[K, V]) Less(i, j int) bool { return b.names[i] < b.names[j] }
func (b byName[K, V]) Swap(i, j int) {
	b.names[i], b.names[j] = b.names[j], b.names[i]
	b.l[i], b.l[j] = b.l[j], b.l[i]
}

func mapKey(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", uint64(v.Int())+1<<63)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprintf("%020d", v.Uint())
	case reflect.String:
		return v.String()
	case reflect.Interface:
		if v.IsNil() {
			return ""
		}
		return v.Elem().Type().String() + " " + mapKey(v.Elem())
	case reflect.Array:
		s := ""
		for i := 0; i < v.Len(); i++ {
			s += mapKey(v.Index(i)) + ","
		}
		return s
	case reflect.Struct:
		s := ""
		for i := 0; i < v.NumField(); i++ {
			s += mapKey(v.Field(i)) + ";"
		}
		return s
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	default:
		return "" // no order of its own
	}
}

//go:norace
func in() bool { return active != nil }
