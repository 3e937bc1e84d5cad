package nd

import (
	"reflect"
	"strings"
)

// Size counts the map entries, slice elements and objects reachable from a value
// without passing through the harness
func Size(root interface{}) int {
	n := 0
	type key struct {
		p uintptr
		t reflect.Type
		n int
	}
	seen := map[key]bool{}
	harness := func(t reflect.Type) bool {
		if t.Kind() == reflect.Ptr {
			t = t.Elem()
		}
		return strings.HasPrefix(t.PkgPath(), "verifh/")
	}
	var visit func(v reflect.Value)
	visit = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			k := key{v.Pointer(), v.Type(), 0}
			if v.IsNil() || seen[k] {
				return
			}
			seen[k] = true
			n++
			visit(v.Elem())
		case reflect.Interface:
			if !v.IsNil() && !harness(v.Elem().Type()) {
				visit(v.Elem())
			}
		case reflect.Struct:
			if p := v.Type().PkgPath(); p == "sync" || p == "time" || p == "log" {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				visit(v.Field(i))
			}
		case reflect.Array, reflect.Slice:
			if v.Kind() == reflect.Slice {
				k := key{v.Pointer(), v.Type(), v.Len()}
				if v.Len() == 0 || seen[k] {
					return
				}
				seen[k] = true
				n += v.Len()
			}
			switch v.Type().Elem().Kind() {
			case reflect.Uint8:
				return
			}
			for i := 0; i < v.Len(); i++ {
				visit(v.Index(i))
			}
		case reflect.Map:
			k := key{v.Pointer(), v.Type(), 0}
			if v.IsNil() || seen[k] {
				return
			}
			seen[k] = true
			for it := v.MapRange(); it.Next(); {
				n++
				visit(it.Key())
				visit(it.Value())
			}
		}
	}
	visit(reflect.ValueOf(root))
	return n
}
