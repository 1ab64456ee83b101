package main

import (
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// deep writes out everything that can be reached from a value, unexported
// fields included. Functions are opaque.
func deep(v any) string {
	d := &dumper{seen: map[seenKey]int{}}
	d.dump(reflect.ValueOf(v), 0)
	return d.sb.String()
}

type seenKey struct {
	p uintptr
	t reflect.Type
	n int
}

type dumper struct {
	sb   strings.Builder
	seen map[seenKey]int
}

var regexpType = reflect.TypeOf(&regexp.Regexp{})

func (d *dumper) again(v reflect.Value, n int) bool {
	k := seenKey{v.Pointer(), v.Type(), n}
	if id, has := d.seen[k]; has {
		fmt.Fprintf(&d.sb, "#%d", id)
		return true
	}
	d.seen[k] = len(d.seen)
	return false
}

func (d *dumper) dump(v reflect.Value, depth int) {
	if !v.IsValid() {
		d.sb.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		d.sb.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.sb.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		d.sb.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(&d.sb, v.Float())
	case reflect.Complex64, reflect.Complex128:
		fmt.Fprint(&d.sb, v.Complex())
	case reflect.String:
		d.sb.WriteString(strconv.Quote(v.String()))
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if v.IsNil() {
			d.sb.WriteString("nil")
		} else {
			d.sb.WriteString(v.Kind().String())
		}
	case reflect.Interface:
		if v.IsNil() {
			d.sb.WriteString("nil")
			return
		}
		d.sb.WriteString(v.Elem().Type().String())
		d.sb.WriteByte(' ')
		d.dump(v.Elem(), depth)
	case reflect.Pointer:
		switch {
		case v.IsNil():
			d.sb.WriteString("nil")
		case v.Type() == regexpType:
			d.sb.WriteString("re" + strconv.Quote(v.Elem().FieldByName("expr").String()))
		case !d.again(v, 0):
			d.sb.WriteByte('&')
			d.dump(v.Elem(), depth+1)
		}
	case reflect.Slice:
		if v.IsNil() {
			d.sb.WriteString("nil")
			return
		}
		if v.Len() > 0 && d.again(v, v.Len()) {
			return
		}
		d.list(v, depth)
	case reflect.Array:
		d.list(v, depth)
	case reflect.Map:
		if v.IsNil() {
			d.sb.WriteString("nil")
			return
		}
		if d.again(v, 0) {
			return
		}
		// Keys are written on their own first, to order them.
		type entry struct {
			k string
			v reflect.Value
		}
		var es []entry
		for it := v.MapRange(); it.Next(); {
			kd := &dumper{seen: map[seenKey]int{}}
			kd.dump(it.Key(), 0)
			es = append(es, entry{kd.sb.String(), it.Value()})
		}
		sort.SliceStable(es, func(i, j int) bool { return es[i].k < es[j].k })
		d.sb.WriteByte('{')
		for _, e := range es {
			d.sb.WriteString(e.k)
			d.sb.WriteByte(':')
			d.dump(e.v, depth+1)
			d.sb.WriteByte(',')
		}
		d.sb.WriteByte('}')
	case reflect.Struct:
		t := v.Type()
		d.sb.WriteString(t.Name())
		if synchronized(t) {
			d.sb.WriteString("{...}")
			return
		}
		d.sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			d.sb.WriteString(t.Field(i).Name)
			d.sb.WriteByte(':')
			d.dump(v.Field(i), depth+1)
			d.sb.WriteByte(',')
		}
		d.sb.WriteByte('}')
	default:
		d.sb.WriteString(v.Kind().String())
	}
}

func (d *dumper) list(v reflect.Value, depth int) {
	if v.Type().Elem().Kind() == reflect.Uint8 {
		if v.Kind() == reflect.Slice {
			d.sb.WriteString(strconv.Quote(string(v.Bytes())))
			return
		}
	}
	d.sb.WriteByte('[')
	for i := 0; i < v.Len(); i++ {
		d.dump(v.Index(i), depth+1)
		d.sb.WriteByte(',')
	}
	d.sb.WriteByte(']')
}

// firstDiff shows where two dumps part.
func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		from, to := i-60, i+120
		if from < 0 {
			from = 0
		}
		if to > len(s) {
			to = len(s)
		}
		if from > to {
			from = to
		}
		return s[from:to]
	}
	return fmt.Sprintf("…%s… became …%s…", cut(a), cut(b))
}

// synchronized tells whether values of a type are made to change while they are
// shared: what they hold is seen only through what they do.
func synchronized(t reflect.Type) bool {
	for t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	if p := t.PkgPath(); p == "sync" || p == "sync/atomic" {
		return true
	}
	if t.Kind() == reflect.Struct {
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i).Type
			if p := f.PkgPath(); p == "sync" || p == "sync/atomic" {
				return true
			}
			if f.Kind() == reflect.Pointer {
				if p := f.Elem().PkgPath(); p == "sync" || p == "sync/atomic" {
					return true
				}
			}
		}
	}
	return false
}
