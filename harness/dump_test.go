package harness

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// dump renders a value completely and deterministically, unexported fields included.
// Pointers are followed; functions, channels and contexts are rendered by identity class only.
func dump(v any) string {
	var sb strings.Builder
	dumpValue(&sb, reflect.ValueOf(v), 0, map[uintptr]bool{})
	return sb.String()
}

func dumpValue(sb *strings.Builder, v reflect.Value, depth int, seen map[uintptr]bool) {
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		sb.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sb.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		sb.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		sb.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.String:
		sb.WriteString(strconv.Quote(v.String()))
	case reflect.Pointer:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		p := v.Pointer()
		if seen[p] {
			sb.WriteString("<cycle>")
			return
		}
		seen[p] = true
		sb.WriteByte('&')
		dumpValue(sb, v.Elem(), depth+1, seen)
		delete(seen, p)
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString("(" + v.Elem().Type().String() + ")")
		dumpValue(sb, v.Elem(), depth+1, seen)
	case reflect.Struct:
		sb.WriteString(v.Type().Name() + "{")
		for i := range v.NumField() {
			f := v.Type().Field(i)
			if f.Type.String() == "context.Context" {
				continue
			}
			fmt.Fprintf(sb, "%s:", f.Name)
			dumpValue(sb, v.Field(i), depth+1, seen)
			sb.WriteByte(' ')
		}
		sb.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			sb.WriteString("nil[]")
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 && v.Kind() == reflect.Slice {
			sb.WriteString(strconv.Quote(string(v.Bytes())))
			return
		}
		sb.WriteByte('[')
		for i := range v.Len() {
			dumpValue(sb, v.Index(i), depth+1, seen)
			sb.WriteByte(' ')
		}
		sb.WriteByte(']')
	case reflect.Map:
		if v.IsNil() {
			sb.WriteString("nilmap")
			return
		}
		var es []string
		it := v.MapRange()
		for it.Next() {
			var e strings.Builder
			dumpValue(&e, it.Key(), depth+1, seen)
			e.WriteByte('=')
			dumpValue(&e, it.Value(), depth+1, seen)
			es = append(es, e.String())
		}
		sort.Strings(es)
		sb.WriteString("map[" + strings.Join(es, " ") + "]")
	default:
		if v.IsZero() {
			sb.WriteString("nil")
		} else {
			sb.WriteString("<" + v.Kind().String() + ">")
		}
	}
}
