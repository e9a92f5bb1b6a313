package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
)

// Leaf is one observable value inside a decoded message.
type Leaf struct {
	Path string      // dotted path of exported field names; embedded structs and interfaces add no element
	Val  interface{} // int64, uint64 (as int64), float64, bool, string or []byte as hex string
	Type string      // Go type of the leaf
	RV   reflect.Value
}

// Flatten lists every exported leaf of a decoded value, following embedded
// structs, embedded interfaces and pointers. A nil pointer yields "<nil>".
func Flatten(v interface{}) []Leaf {
	var out []Leaf
	flattenInto(reflect.ValueOf(v), "", &out)
	return out
}

func flattenInto(v reflect.Value, path string, out *[]Leaf) {
	for v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr {
		if v.IsNil() {
			*out = append(*out, Leaf{Path: path, Val: "<nil>", Type: v.Type().String(), RV: v})
			return
		}
		v = v.Elem()
	}
	switch v.Kind() {
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" && !f.Anonymous {
				continue // unexported
			}
			p := path
			if !f.Anonymous {
				if p != "" {
					p += "."
				}
				p += f.Name
			}
			flattenInto(v.Field(i), p, out)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			*out = append(*out, Leaf{Path: path, Val: fmt.Sprintf("%x", b), Type: v.Type().String(), RV: v})
			return
		}
		for i := 0; i < v.Len(); i++ {
			flattenInto(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.Bool:
		*out = append(*out, Leaf{path, v.Bool(), v.Type().String(), v})
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		*out = append(*out, Leaf{path, v.Int(), v.Type().String(), v})
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		*out = append(*out, Leaf{path, int64(v.Uint()), v.Type().String(), v})
	case reflect.Float32, reflect.Float64:
		*out = append(*out, Leaf{path, v.Float(), v.Type().String(), v})
	case reflect.String:
		*out = append(*out, Leaf{path, v.String(), v.Type().String(), v})
	default:
		*out = append(*out, Leaf{path, fmt.Sprintf("?%s", v.Kind()), v.Type().String(), v})
	}
}

// TypeName is the type of the value behind pointers and interfaces, e.g. "bds62.TargetStateAndStatus1".
func TypeName(v interface{}) string {
	rv := reflect.ValueOf(v)
	for rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Interface {
		rv = rv.Elem()
	}
	if !rv.IsValid() {
		return "<nil>"
	}
	return rv.Type().String()
}

// IsNilResult says whether an interface holds nil, or a nil pointer.
func IsNilResult(v interface{}) bool {
	if v == nil {
		return true
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Map, reflect.Slice:
		return rv.IsNil()
	}
	return false
}

func leafString(ls []Leaf) string {
	s := make([]string, len(ls))
	for i, l := range ls {
		s[i] = fmt.Sprintf("%s=%v", l.Path, l.Val)
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// typeChain is the type of a value and of everything embedded in it, outermost first.
func typeChain(v interface{}) []string {
	var out []string
	var walk func(rv reflect.Value)
	walk = func(rv reflect.Value) {
		for rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Interface {
			if rv.IsNil() {
				return
			}
			rv = rv.Elem()
		}
		if !rv.IsValid() {
			return
		}
		out = append(out, rv.Type().String())
		if rv.Kind() != reflect.Struct {
			return
		}
		t := rv.Type()
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).Anonymous {
				walk(rv.Field(i))
			}
		}
	}
	walk(reflect.ValueOf(v))
	return out
}

// inner finds, in a value and what it embeds, the first part that satisfies a test.
func inner(v interface{}, test func(interface{}) bool) (interface{}, bool) {
	var found interface{}
	var walk func(rv reflect.Value) bool
	walk = func(rv reflect.Value) bool {
		if !rv.IsValid() {
			return false
		}
		if rv.CanInterface() && !((rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Interface) && rv.IsNil()) && test(rv.Interface()) {
			found = rv.Interface()
			return true
		}
		for rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Interface {
			if rv.IsNil() {
				return false
			}
			rv = rv.Elem()
			if rv.CanInterface() && test(rv.Interface()) {
				found = rv.Interface()
				return true
			}
		}
		if rv.Kind() != reflect.Struct {
			return false
		}
		for i := 0; i < rv.NumField(); i++ {
			if rv.Type().Field(i).Anonymous && walk(rv.Field(i)) {
				return true
			}
		}
		return false
	}
	return found, walk(reflect.ValueOf(v))
}

// registerID is the register a message says it comes from, or "".
func registerID(m interface{}) string {
	x, ok := inner(m, func(v interface{}) bool { return reflect.ValueOf(v).MethodByName("GetRegister").IsValid() })
	if !ok {
		return ""
	}
	out := reflect.ValueOf(x).MethodByName("GetRegister").Call(nil)
	if r, ok := out[0].Interface().(interface{ GetId() string }); ok {
		return r.GetId()
	}
	return ""
}
