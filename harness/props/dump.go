package props

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"
)

var (
	anyType  = reflect.TypeOf((*interface{})(nil)).Elem()
	durType  = reflect.TypeOf(time.Duration(0))
	timeType = reflect.TypeOf(time.Time{})
)

// same compares two values deeply, including what reflect.DeepEqual compares,
// but taking times with the same instant and offset as equal.
func same(a, b reflect.Value) bool {
	if reflect.DeepEqual(a.Interface(), b.Interface()) {
		return true
	}
	return dump(a) == dump(b)
}

// dump spells a value out completely, following pointers.
func dump(v reflect.Value) string {
	var sb strings.Builder
	dumpTo(&sb, v, 0)
	return sb.String()
}

func dumpTo(sb *strings.Builder, v reflect.Value, depth int) {
	if depth > 200 {
		sb.WriteString("(deep)")
		return
	}
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	if v.Type() == timeType && v.CanInterface() {
		t := v.Interface().(time.Time)
		_, off := t.Zone()
		fmt.Fprintf(sb, "time(%s,%d)", t.UTC().Format(time.RFC3339Nano), off)
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			fmt.Fprintf(sb, "(%s)nil", v.Type())
			return
		}
		// Whether null clears the inner or the outer of two pointers is left
		// open: the existing tests fix the former, encoding/json does the latter.
		for e := v.Elem(); e.Kind() == reflect.Pointer; e = e.Elem() {
			if e.IsNil() {
				fmt.Fprintf(sb, "(%s)nil", v.Type())
				return
			}
		}
		sb.WriteString("&")
		dumpTo(sb, v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("iface(nil)")
			return
		}
		fmt.Fprintf(sb, "iface(%s)", v.Elem().Type())
		dumpTo(sb, v.Elem(), depth+1)
	case reflect.Struct:
		sb.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			sb.WriteString(v.Type().Field(i).Name + ":")
			dumpTo(sb, v.Field(i), depth+1)
			sb.WriteString(" ")
		}
		sb.WriteString("}")
	case reflect.Slice:
		if v.IsNil() {
			sb.WriteString("nil[]")
			return
		}
		fallthrough
	case reflect.Array:
		fmt.Fprintf(sb, "%d[", v.Len())
		for i := 0; i < v.Len(); i++ {
			dumpTo(sb, v.Index(i), depth+1)
			sb.WriteString(",")
		}
		sb.WriteString("]")
	case reflect.Map:
		if v.IsNil() {
			sb.WriteString("nilmap")
			return
		}
		var es []string
		for it := v.MapRange(); it.Next(); {
			var e strings.Builder
			dumpTo(&e, it.Key(), depth+1)
			e.WriteString("=")
			dumpTo(&e, it.Value(), depth+1)
			es = append(es, e.String())
		}
		sort.Strings(es)
		sb.WriteString("map[" + strings.Join(es, "; ") + "]")
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(sb, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(sb, "%x/%v", math.Float64bits(v.Float()), v.Float())
	default:
		fmt.Fprintf(sb, "<%s>", v.Type())
	}
}
