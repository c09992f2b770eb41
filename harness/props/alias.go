package props

import (
	"math/rand/v2"
	"reflect"
	"sort"
	"strings"
	"unsafe"
)

// reach collects everything that can be held on to inside of a value: what
// its pointers point to, its maps, and its slices up to their capacity, in an
// order that depends on the value only. Locations of pointers, maps and slices
// which can be set are collected as well.
type reach struct {
	kept  []reflect.Value // maps, slices up to capacity, targets of pointers
	slots []slot
	seen  map[unsafe.Pointer]bool
}

// slot is a pointer, map or slice that can be set. The slots are in preorder.
type slot struct{ v reflect.Value }

func (r *reach) walk(v reflect.Value, depth int) {
	if depth > 100 || len(r.kept) > 500 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.CanSet() && v.Type().Elem().Kind() != reflect.Pointer {
			r.slots = append(r.slots, slot{v})
		}
		if v.IsNil() || r.seen[v.UnsafePointer()] && v.Elem().Kind() != reflect.Struct {
			return
		}
		if v.Elem().Kind() == reflect.Pointer {
			// Whether null clears the inner or the outer one is left open.
			return
		}
		r.seen[v.UnsafePointer()] = true
		if v.Type().Elem() != rawType {
			r.kept = append(r.kept, v.Elem())
		}
		r.walk(v.Elem(), depth+1)
	case reflect.Interface:
		if !v.IsNil() {
			r.walk(v.Elem(), depth+1)
		}
	case reflect.Struct:
		if v.Type() == timeType {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			r.walk(v.Field(i), depth+1)
		}
	case reflect.Slice:
		if v.CanSet() && v.Type() != rawType {
			r.slots = append(r.slots, slot{v})
		}
		if v.IsNil() || v.Type() == rawType {
			// Raw messages get memory of their own, where encoding/json
			// overwrites what they have: neither is promised.
			return
		}
		if v.Type().Elem() != rawType {
			r.kept = append(r.kept, v.Slice(0, v.Cap()))
		}
		for i := 0; i < v.Len(); i++ {
			r.walk(v.Index(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			r.walk(v.Index(i), depth+1)
		}
	case reflect.Map:
		if v.CanSet() {
			r.slots = append(r.slots, slot{v})
		}
		if v.IsNil() {
			return
		}
		r.kept = append(r.kept, v)
		type kv struct {
			k string
			v reflect.Value
		}
		var es []kv
		for it := v.MapRange(); it.Next(); {
			es = append(es, kv{dump(it.Key()), it.Value()})
		}
		sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
		for i, e := range es {
			if i > 0 && e.k == es[i-1].k {
				// Keys that look the same have no order.
				continue
			}
			r.walk(e.v, depth+1)
		}
	}
}

func reachOf(v reflect.Value) *reach {
	r := &reach{seen: map[unsafe.Pointer]bool{}}
	r.walk(v, 0)
	return r
}

// entangle makes some pointers, slices and maps inside of v refer to the same
// memory as others, without making cycles, and returns how many.
func entangle(r *rand.Rand, v reflect.Value) int {
	s := reachOf(v).slots
	byType := map[reflect.Type][]int{}
	for i, x := range s {
		byType[x.v.Type()] = append(byType[x.v.Type()], i)
	}
	n := 0
	for try := 0; try < 6 && len(s) > 1; try++ {
		i := r.IntN(len(s))
		if hasType(s[i].v.Type(), rawType, map[reflect.Type]bool{}) {
			continue
		}
		same := byType[s[i].v.Type()]
		j := same[r.IntN(len(same))]
		how := r.IntN(3)
		// Only what comes later in preorder, so that no cycles come about.
		if j <= i || s[j].v.IsNil() {
			continue
		}
		y := s[j].v
		if y.Kind() == reflect.Slice && how > 0 && y.Len() > 0 {
			// Overlapping parts of one array.
			y = y.Slice(0, y.Len()-1)
			if how == 2 {
				y = y.Slice(y.Len()/2, y.Len())
			}
		}
		s[i].v.Set(y)
		n++
	}
	return n
}

// dumpKept spells out what was collected, as it is now.
func (r *reach) dumpKept() string {
	var sb strings.Builder
	for _, v := range r.kept {
		dumpTo(&sb, v, 0)
		sb.WriteString("\n")
	}
	return sb.String()
}
