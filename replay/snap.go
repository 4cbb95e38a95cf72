package main

import (
	"fmt"
	"reflect"
	"strings"
)

// nodes writes down every node reachable from the given tree, exported or not: its address, its fields and its links.
func nodes(t interface{}) string {
	var s strings.Builder
	seen := map[uintptr]bool{}
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			fmt.Fprintf(&s, "&%x", v.Pointer())
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			s.WriteString("->")
			rec(v.Elem())
		case reflect.Interface:
			if v.IsNil() {
				s.WriteString("nil")
				return
			}
			rec(v.Elem())
		case reflect.Struct:
			s.WriteByte('{')
			for i := 0; i < v.NumField(); i++ {
				fmt.Fprintf(&s, " %s:", v.Type().Field(i).Name)
				rec(v.Field(i))
			}
			s.WriteByte('}')
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				s.WriteByte(' ')
				rec(v.Index(i))
			}
		case reflect.Slice:
			fmt.Fprintf(&s, "[%d", v.Len())
			for i := 0; i < v.Len(); i++ {
				s.WriteByte(' ')
				rec(v.Index(i))
			}
			s.WriteByte(']')
		case reflect.String:
			fmt.Fprintf(&s, "%q", v.String())
		case reflect.Bool:
			fmt.Fprint(&s, v.Bool())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			fmt.Fprint(&s, v.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			fmt.Fprint(&s, v.Uint())
		case reflect.Func, reflect.Map, reflect.Chan:
			fmt.Fprintf(&s, "%v", v.IsNil())
		}
	}
	rec(reflect.ValueOf(t))
	return s.String()
}

// diff shows where two dumps part.
func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	if i > 60 {
		i -= 60
	} else {
		i = 0
	}
	cut := func(s string) string {
		if len(s) > i+140 {
			return s[i : i+140]
		}
		return s[i:]
	}
	return fmt.Sprintf("before: ...%s\nafter:  ...%s", cut(a), cut(b))
}
