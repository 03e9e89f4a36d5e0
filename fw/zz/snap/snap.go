//go:build go1.21

// Package snap copies and dumps arbitrary Go values, including unexported
// fields, so that checks can snapshot, restore and compare the state of real
// implementation objects without depending on how they are built.
package snap

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unsafe"
)

func rd(v reflect.Value) reflect.Value {
	if v.CanInterface() || !v.CanAddr() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

// Copy returns a deep copy of v, a pointer to a struct. Interfaces, functions
// and channels are shared.
func Copy[T any](v *T) *T {
	out := new(T)
	seen := map[uintptr]reflect.Value{}
	cp(reflect.ValueOf(out).Elem(), reflect.ValueOf(v).Elem(), seen)
	return out
}

func cp(dst, src reflect.Value, seen map[uintptr]reflect.Value) {
	dst, src = rd(dst), rd(src)
	switch src.Kind() {
	case reflect.Ptr:
		if src.IsNil() {
			dst.Set(reflect.Zero(src.Type()))
			return
		}
		p := src.Pointer()
		if o, ok := seen[p]; ok && o.Type() == src.Type() {
			dst.Set(o)
			return
		}
		n := reflect.New(src.Type().Elem())
		seen[p] = n
		cp(n.Elem(), src.Elem(), seen)
		dst.Set(n)
	case reflect.Struct:
		if src.Type().PkgPath() == "time" || src.Type().String() == "time.Time" {
			dst.Set(src)
			return
		}
		for i := 0; i < src.NumField(); i++ {
			cp(dst.Field(i), src.Field(i), seen)
		}
	case reflect.Slice:
		if src.IsNil() {
			dst.Set(reflect.Zero(src.Type()))
			return
		}
		n := reflect.MakeSlice(src.Type(), src.Len(), src.Len())
		for i := 0; i < src.Len(); i++ {
			cp(n.Index(i), src.Index(i), seen)
		}
		dst.Set(n)
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			cp(dst.Index(i), src.Index(i), seen)
		}
	case reflect.Map:
		if src.IsNil() {
			dst.Set(reflect.Zero(src.Type()))
			return
		}
		n := reflect.MakeMapWithSize(src.Type(), src.Len())
		it := src.MapRange()
		for it.Next() {
			k := reflect.New(src.Type().Key()).Elem()
			k.Set(it.Key())
			e := reflect.New(src.Type().Elem()).Elem()
			t := reflect.New(src.Type().Elem()).Elem()
			t.Set(it.Value())
			cp(e, t, seen)
			n.SetMapIndex(k, e)
		}
		dst.Set(n)
	default:
		dst.Set(src)
	}
}

// Dump renders the value canonically. Fields for which skip returns true are
// left out.
func Dump(v interface{}, skip func(path string) bool) string {
	var b strings.Builder
	dump(&b, reflect.ValueOf(v), "", skip, 0)
	return b.String()
}

func dump(b *strings.Builder, v reflect.Value, path string, skip func(string) bool, depth int) {
	if depth > 30 || skip != nil && skip(path) {
		return
	}
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	v = rd(v)
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('&')
		dump(b, v.Elem(), path, skip, depth+1)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		dump(b, v.Elem(), path, skip, depth+1)
	case reflect.Struct:
		if v.Type().String() == "time.Time" {
			m := reflect.New(v.Type()).Elem()
			m.Set(v)
			fmt.Fprintf(b, "T%v", m.Interface())
			return
		}
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			n := v.Type().Field(i).Name
			p := path + "." + n
			if skip != nil && skip(p) {
				continue
			}
			b.WriteString(n)
			b.WriteByte(':')
			f := v.Field(i)
			if !v.CanAddr() {
				t := reflect.New(v.Type()).Elem()
				t.Set(v)
				f = t.Field(i)
			}
			dump(b, f, p, skip, depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString("[]")
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b.WriteByte('x')
			for i := 0; i < v.Len(); i++ {
				fmt.Fprintf(b, "%02x", v.Index(i).Uint())
			}
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i), path+"[]", skip, depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.Map:
		var l []string
		it := v.MapRange()
		for it.Next() {
			var kb strings.Builder
			k := reflect.New(v.Type().Key()).Elem()
			k.Set(it.Key())
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(it.Value())
			dump(&kb, k, path+"<k>", skip, depth+1)
			kb.WriteByte('=')
			dump(&kb, e, path+"<v>", skip, depth+1)
			l = append(l, kb.String())
		}
		sort.Strings(l)
		b.WriteString("map" + fmt.Sprint(l))
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if v.IsNil() {
			b.WriteString("nil")
		} else {
			b.WriteString(v.Kind().String())
		}
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(b, v.Float())
	default:
		fmt.Fprintf(b, "?%s", v.Kind())
	}
}
