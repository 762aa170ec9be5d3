package spec

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"unsafe"
)

// Dump writes a Go value, shared parts included, in a form that is the same for equal
// values only: pointers, maps and slices met again are shown by number.
func Dump(v any) string {
	d := &dumper{seen: map[any]int{}}
	d.dump(reflect.ValueOf(v))
	return string(d.b)
}

type dumper struct {
	b    []byte
	seen map[any]int
}

type dumpID struct {
	p uintptr
	n int
	t reflect.Type
}

func (d *dumper) old(k dumpID) bool {
	if k.p == 0 {
		return false
	}
	if n, ok := d.seen[k]; ok {
		d.b = fmt.Appendf(d.b, "#%d", n)
		return true
	}
	d.seen[k] = len(d.seen)
	return false
}

func (d *dumper) dump(v reflect.Value) {
	if !v.IsValid() {
		d.b = append(d.b, "nil"...)
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			d.b = append(d.b, "nil"...)
			return
		}
		d.b = append(d.b, v.Elem().Type().String()...)
		d.b = append(d.b, ':')
		d.dump(v.Elem())
	case reflect.Ptr:
		if v.IsNil() {
			d.b = append(d.b, "nil"...)
			return
		}
		if d.old(dumpID{v.Pointer(), -1, v.Type()}) {
			return
		}
		d.b = append(d.b, '&')
		d.dump(v.Elem())
	case reflect.Map:
		if v.IsNil() {
			d.b = append(d.b, "nilmap"...)
			return
		}
		if d.old(dumpID{v.Pointer(), -1, v.Type()}) {
			return
		}
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		d.b = append(d.b, '{')
		for _, k := range keys {
			d.dump(k)
			d.b = append(d.b, ':')
			d.dump(v.MapIndex(k))
			d.b = append(d.b, ' ')
		}
		d.b = append(d.b, '}')
	case reflect.Slice:
		if v.IsNil() {
			d.b = append(d.b, "nilslice"...)
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			d.b = append(d.b, "b\""...)
			d.b = append(d.b, v.Bytes()...)
			d.b = append(d.b, '"')
			return
		}
		if v.Len() > 0 && d.old(dumpID{v.Pointer(), v.Len(), v.Type()}) {
			return
		}
		fallthrough
	case reflect.Array:
		d.b = append(d.b, '[')
		for i := 0; i < v.Len(); i++ {
			d.dump(v.Index(i))
			d.b = append(d.b, ' ')
		}
		d.b = append(d.b, ']')
	case reflect.Struct:
		d.b = append(d.b, '(')
		for i := 0; i < v.NumField(); i++ {
			d.dump(v.Field(i))
			d.b = append(d.b, ' ')
		}
		d.b = append(d.b, ')')
	case reflect.String:
		d.b = append(d.b, '"')
		d.b = append(d.b, v.String()...)
		d.b = append(d.b, '"')
	case reflect.Bool:
		d.b = strconv.AppendBool(d.b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.b = strconv.AppendInt(d.b, v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		d.b = strconv.AppendUint(d.b, v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		d.b = strconv.AppendUint(d.b, math.Float64bits(v.Float()), 16)
	default:
		d.b = fmt.Appendf(d.b, "<%s>", v.Kind())
	}
}

// Region is a range of memory that a value owns.
type Region struct {
	Lo, Hi uintptr
	What   string
	RO     bool // the contents of a string
}

// Regions lists the memory a value reaches: byte slices, other slices (with their
// capacity), and strings.
func Regions(v any) []Region {
	r := &regions{seen: map[any]bool{}}
	r.walk(reflect.ValueOf(v))
	return r.l
}

type regions struct {
	l    []Region
	seen map[any]bool
}

func (r *regions) walk(v reflect.Value) {
	if !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		r.walk(v.Elem())
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		k := dumpID{v.Pointer(), 0, v.Type()}
		if r.seen[k] {
			return
		}
		r.seen[k] = true
		r.walk(v.Elem())
	case reflect.Map:
		if v.IsNil() || r.seen[v.Pointer()] {
			return
		}
		r.seen[v.Pointer()] = true
		it := v.MapRange()
		for it.Next() {
			r.walk(it.Key())
			r.walk(it.Value())
		}
	case reflect.Slice:
		if v.Cap() == 0 {
			return
		}
		es := v.Type().Elem().Size()
		what := "slice"
		if es == 1 {
			what = "byte slice"
		} else {
			k := dumpID{v.Pointer(), v.Len(), v.Type()}
			if r.seen[k] {
				return
			}
			r.seen[k] = true
		}
		if es > 0 {
			r.l = append(r.l, Region{v.Pointer(), v.Pointer() + uintptr(v.Cap())*es, what, false})
		}
		if k := v.Type().Elem().Kind(); es == 1 && (k == reflect.Uint8 || k == reflect.Int8 || k == reflect.Bool) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			r.walk(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			r.walk(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			r.walk(v.Field(i))
		}
	case reflect.String:
		s := v.String()
		if len(s) > 0 {
			p := uintptr(unsafe.Pointer(unsafe.StringData(s)))
			r.l = append(r.l, Region{p, p + uintptr(len(s)), "string", true})
		}
	}
}

// Overlap looks for writable memory that belongs to two values.
func Overlap(l []Region) string {
	l = append([]Region(nil), l...)
	sort.SliceStable(l, func(i, j int) bool { return l[i].Lo < l[j].Lo })
	var w, ro *Region // with the highest end so far
	for i := range l {
		x := &l[i]
		for _, y := range []*Region{w, ro} {
			if y != nil && y.Hi > x.Lo && !(y.RO && x.RO) {
				return fmt.Sprintf("a %s of %d bytes and a %s of %d bytes overlap", y.What, y.Hi-y.Lo, x.What, x.Hi-x.Lo)
			}
		}
		if x.RO {
			if ro == nil || ro.Hi < x.Hi {
				ro = x
			}
		} else if w == nil || w.Hi < x.Hi {
			w = x
		}
	}
	return ""
}

// Within tells whether some region overlaps memory from b.
func Within(l []Region, b []byte) string {
	if cap(b) == 0 {
		return ""
	}
	lo := uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	hi := lo + uintptr(cap(b))
	for _, x := range l {
		if x.Lo < hi && lo < x.Hi {
			return fmt.Sprintf("a %s of %d bytes", x.What, x.Hi-x.Lo)
		}
	}
	return ""
}

// BytesRegion is the memory of a slice.
func BytesRegion(b []byte) Region {
	p := uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	return Region{p, p + uintptr(cap(b)), "byte slice", false}
}
