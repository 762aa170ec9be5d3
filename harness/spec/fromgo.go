package spec

import (
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"unsafe"

	"github.com/Sereal/Sereal/Go/sereal"
)

// GoOpts are the encoder settings that decide what a value means.
type GoOpts struct {
	Perl     bool // PerlCompat
	NoFreeze bool // DisableFREEZE
}

type ptrID struct {
	p uintptr
	t reflect.Type
}

type backing struct {
	p   uintptr
	len int
	t   reflect.Type
}

type fromGo struct {
	o     GoOpts
	ptrs  map[ptrID]*Node
	backs map[any]*Node
	steps int
}

var errUnsupported = errors.New("value can't be represented")

// FromGo gives the meaning of a Go value for the encoder. Items are shared exactly
// if they are reached through equal pointers.
func FromGo(v any, o GoOpts) (n *Node, err error) {
	f := &fromGo{o: o, ptrs: map[ptrID]*Node{}, backs: map[any]*Node{}}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(error)
			if ok && errors.Is(e, errUnsupported) {
				err = e
				return
			}
			panic(r)
		}
	}()
	return f.value(reflect.ValueOf(v), false), nil
}

func (f *fromGo) bad(v reflect.Value) {
	panic(fmt.Errorf("%w: %s", errUnsupported, v.Type()))
}

var (
	tNumber  = reflect.TypeOf(json.Number(""))
	tBytes   = reflect.TypeOf([]byte(nil))
	tPUndef  = reflect.TypeOf(sereal.PerlUndef{})
	tPObject = reflect.TypeOf(sereal.PerlObject{})
	tPRegexp = reflect.TypeOf(sereal.PerlRegexp{})
	tPWeak   = reflect.TypeOf(sereal.PerlWeakRef{})
)

// NumberNode is the meaning of a json.Number.
func NumberNode(s string) *Node {
	i, err := strconv.ParseInt(s, 10, 64)
	if err == nil {
		return Int(i)
	}
	if errors.Is(err, strconv.ErrRange) {
		return &Node{K: KStr, S: s}
	}
	if x, err := strconv.ParseFloat(s, 64); err == nil {
		return F64(x)
	}
	return &Node{K: KStr, S: s}
}

func (f *fromGo) ref(n *Node, v reflect.Value, behindPtr bool) *Node {
	if f.o.Perl && !behindPtr {
		// within objects with pointers to them that count as equal
		if n.ID2, _ = identity(v); n.ID2 == nil {
			n.ID2 = v.Type()
		}
		return &Node{K: KRef, Items: []*Node{n}}
	}
	return n
}

func (f *fromGo) value(v reflect.Value, behindPtr bool) *Node {
	if f.steps++; f.steps > 2000000 {
		panic("FromGo: value too large or cyclic without pointers")
	}
	for v.IsValid() && v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if !v.IsValid() {
		return &Node{K: KUndef}
	}
	t := v.Type()
	switch t {
	case tNumber:
		return NumberNode(v.String())
	case tBytes:
		return &Node{K: KBytes, S: string(v.Bytes())}
	case tPUndef:
		if v.Interface() == any(*sereal.PerlCanonicalUndef()) {
			return &Node{K: KCanonUndef}
		}
		return &Node{K: KUndef}
	case tPObject:
		return &Node{K: KObject, S: v.Field(0).String(), Items: []*Node{f.value(v.Field(1), false)}}
	case tPRegexp:
		return &Node{K: KRegexp, S: string(v.Field(0).Bytes()), S2: string(v.Field(1).Bytes())}
	case tPWeak:
		return &Node{K: KWeak, Items: []*Node{f.value(v.Field(0), false)}}
	}
	if !f.o.NoFreeze && v.Kind() != reflect.Ptr && plain(t) {
		if m, ok := v.Interface().(encoding.BinaryMarshaler); ok {
			b, err := m.MarshalBinary()
			if err != nil {
				panic(fmt.Errorf("%w: %v", errUnsupported, err))
			}
			return &Node{K: KFreeze, S: t.PkgPath() + "." + t.Name(), S2: string(b)}
		}
	}
	switch v.Kind() {
	case reflect.Bool:
		return &Node{K: KBool, B: v.Bool()}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return Int(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return Uint(v.Uint())
	case reflect.Float32:
		if t == reflect.TypeOf(float32(0)) {
			return F32(v.Interface().(float32))
		}
		return F32(float32(v.Float()))
	case reflect.Float64:
		return F64(v.Float())
	case reflect.String:
		return &Node{K: KStr, S: v.String()}
	case reflect.Slice, reflect.Array:
		n := &Node{K: KArray, Items: make([]*Node, v.Len())}
		for i := range n.Items {
			n.Items[i] = f.value(v.Index(i), false)
		}
		return f.ref(n, v, behindPtr)
	case reflect.Map:
		n := &Node{K: KHash}
		it := v.MapRange()
		for it.Next() {
			k := it.Key()
			if k.Kind() == reflect.Interface {
				k = k.Elem()
			}
			if k.Kind() != reflect.String {
				f.bad(v)
			}
			n.Keys = append(n.Keys, k.String())
			n.KUTF = append(n.KUTF, true)
			n.Items = append(n.Items, f.value(it.Value(), false))
		}
		return f.ref(n, v, behindPtr)
	case reflect.Struct:
		h := &Node{K: KHash}
		for _, fl := range Fields(t) {
			h.Keys = append(h.Keys, fl.Key)
			h.KUTF = append(h.KUTF, true)
			h.Items = append(h.Items, f.value(v.Field(fl.Index), false))
		}
		return &Node{K: KObject, S: t.Name(), Items: []*Node{f.ref(h, v, false)}}
	case reflect.Ptr:
		if v.IsNil() {
			return &Node{K: KRef, Items: []*Node{{K: KUndef}}}
		}
		switch t.Elem() {
		case tPUndef, tPObject, tPRegexp, tPWeak:
			return f.value(v.Elem(), false)
		}
		id := ptrID{v.Pointer(), t.Elem()}
		if c, ok := f.ptrs[id]; ok {
			return &Node{K: KRef, Items: []*Node{c}}
		}
		id2, hard := identity(v.Elem())
		if hard {
			if c, ok := f.backs[id2]; ok {
				f.ptrs[id] = c
				return &Node{K: KRef, Items: []*Node{c}}
			}
		}
		// the target may refer to itself
		c := &Node{}
		f.ptrs[id] = c
		if hard {
			f.backs[id2] = c
		}
		x := f.value(v.Elem(), true)
		*c = *x
		c.ID2, c.Hard = id2, hard
		return &Node{K: KRef, Items: []*Node{c}}
	}
	f.bad(v)
	return nil
}

// identity tells what else than its address may identify a pointer's target.
func identity(v reflect.Value) (any, bool) {
	switch v.Kind() {
	case reflect.Interface:
		return identity(v.Elem())
	case reflect.Map:
		if !v.IsNil() {
			return backing{v.Pointer(), 0, v.Type()}, true
		}
	case reflect.Slice:
		if v.Cap() > 0 {
			return backing{v.Pointer(), v.Len(), v.Type()}, true
		}
	case reflect.Ptr:
		return backing{v.Pointer(), -1, v.Type()}, false
	case reflect.String:
		s := v.String()
		return backing{uintptr(unsafe.Pointer(unsafe.StringData(s))), len(s), v.Type()}, false
	}
	return nil, false
}

func plain(t reflect.Type) bool { return t.Kind() != reflect.Interface }

// Field is a struct field that is encoded.
type Field struct {
	Key   string
	Index int
}

// Fields lists the fields of a struct type that are encoded.
func Fields(t reflect.Type) []Field {
	var l []Field
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		key := f.Tag.Get("sereal")
		if key == "-" {
			continue
		}
		if key == "" {
			if f.PkgPath != "" {
				continue
			}
			key = f.Name
		}
		l = append(l, Field{key, i})
	}
	return l
}

// GoDepth counts how deep the containers and pointers of a value nest: 0 for scalars.
// A pointer met again counts for itself only. The result is -1 if it is infinite and
// -2 if it depends on whether pointers to equal pointers are one item.
func GoDepth(v any, noFreeze bool) int {
	d := &depther{noFreeze: noFreeze, ptrs: map[ptrID]bool{}, backs: map[any]bool{}, onpath: map[any]bool{}}
	r := d.depth(reflect.ValueOf(v))
	if d.inf {
		return -1
	}
	if d.unsure {
		return -2
	}
	return r
}

type depther struct {
	noFreeze bool
	unsure   bool
	ptrs     map[ptrID]bool
	backs    map[any]bool
	onpath   map[any]bool
	inf      bool
}

func (d *depther) depth(v reflect.Value) int {
	for v.IsValid() && v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if !v.IsValid() || d.inf {
		return 0
	}
	t := v.Type()
	switch t {
	case tNumber, tBytes, tPUndef, tPRegexp:
		return 0
	case tPObject:
		return d.depth(v.Field(1))
	case tPWeak:
		return d.depth(v.Field(0))
	}
	if !d.noFreeze && v.Kind() != reflect.Ptr {
		if _, ok := v.Interface().(encoding.BinaryMarshaler); ok {
			return 0
		}
	}
	m := 0
	up := func(x int) { m = max(m, x) }
	switch v.Kind() {
	case reflect.Map, reflect.Slice:
		if v.Len() > 0 {
			id := any(backing{v.Pointer(), v.Len(), t})
			if d.onpath[id] {
				d.inf = true
				return 0
			}
			d.onpath[id] = true
			defer delete(d.onpath, id)
		}
		if v.Kind() == reflect.Map {
			for it := v.MapRange(); it.Next(); {
				up(d.depth(it.Value()))
			}
			return m + 1
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			up(d.depth(v.Index(i)))
		}
		return m + 1
	case reflect.Struct:
		for _, fl := range Fields(t) {
			up(d.depth(v.Field(fl.Index)))
		}
		return m + 1
	case reflect.Ptr:
		if v.IsNil() {
			return 1
		}
		switch t.Elem() {
		case tPUndef, tPObject, tPRegexp, tPWeak:
			return 1 + d.depth(v.Elem())
		}
		id := ptrID{v.Pointer(), t.Elem()}
		if d.ptrs[id] {
			return 1
		}
		d.ptrs[id] = true
		if id2, hard := identity(v.Elem()); id2 != nil {
			if d.backs[id2] {
				if hard {
					return 1
				}
				if id2.(backing).len < 0 { // strings have no depth
					d.unsure = true
				}
			}
			d.backs[id2] = true
		}
		return 1 + d.depth(v.Elem())
	}
	return 0
}

// Faithful tells whether the Go variable v, zero before, may be the result of
// decoding n into it by default settings: "" or the difference.
func Faithful(n *Node, v reflect.Value) string {
	f := &faith{seen: map[seenKey]bool{}}
	return f.cmp(n, v)
}

type faith struct {
	seen map[seenKey]bool
	path []string
}

func (f *faith) fail(n *Node, v reflect.Value) string {
	return fmt.Sprintf("at /%v: %s was stored as %s", f.path, n, Show(v.Interface()))
}

func (f *faith) sub(p string, n *Node, v reflect.Value) string {
	f.path = append(f.path, p)
	r := f.cmp(n, v)
	f.path = f.path[:len(f.path)-1]
	return r
}

func (f *faith) cmp(n *Node, v reflect.Value) string {
	for n.K == KRef && !n.REFP || n.K == KWeak || n.K == KObject {
		n = n.Items[0]
	}
	if n.REFP && v.Kind() == reflect.Ptr && !v.IsNil() {
		switch v.Interface().(type) {
		case *sereal.PerlRegexp, *sereal.PerlFreeze:
		default:
			k := seenKey{n, backing{v.Pointer(), -5, v.Type()}}
			if f.seen[k] {
				return ""
			}
			f.seen[k] = true
			return f.sub("refp", n.Items[0], v.Elem())
		}
	}
	for steps := 0; n.K == KRef && !n.REFP || n.K == KWeak || n.K == KObject || n.REFP && v.Kind() != reflect.Interface; steps++ {
		if steps > 1000 {
			return "" // a reference to itself
		}
		n = n.Items[0]
	}
	if n.K == KUndef || n.K == KCanonUndef {
		if v.Kind() == reflect.Interface && !v.IsNil() {
			v = v.Elem() // the value of a typed variable
		}
		if !v.IsZero() {
			return f.fail(n, v)
		}
		return ""
	}
	t := v.Type()
	if t.Kind() == reflect.Interface {
		m := Matcher{Typed: func(n *Node, v reflect.Value) string {
			if !v.CanAddr() {
				return f.cmp(n, v)
			}
			k := seenKey{n, backing{v.Addr().Pointer(), -4, v.Type()}}
			if f.seen[k] {
				return ""
			}
			f.seen[k] = true
			return f.sub("refp", n, v)
		}}
		if v.IsNil() {
			return m.Match(n, nil)
		}
		return m.Match(n, v.Elem().Interface())
	}
	if n.K == KThawed {
		n = &Node{K: KFreeze, S: n.S, S2: n.S2, SUTF: n.SUTF, Body: n}
	}
	if r, ok := v.Interface().(sereal.PerlFreeze); ok && n.K == KFreeze {
		return (&Matcher{}).Match(n, &r)
	}
	if r, ok := v.Interface().(*sereal.PerlFreeze); ok && n.K == KFreeze {
		return (&Matcher{}).Match(n, r)
	}
	if n.K == KRegexp {
		if r, ok := v.Interface().(*sereal.PerlRegexp); ok {
			return (&Matcher{}).Match(n, r)
		}
		return f.fail(n, v)
	}
	switch v.Kind() {
	case reflect.Bool:
		if n.K == KBool && n.B == v.Bool() {
			return ""
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if n.K != KInt {
			break
		}
		i := int64(n.U)
		if n.Neg {
			i = -i
		}
		if !n.Neg && n.U > math.MaxInt64 || n.Neg && n.U > 1<<63 {
			break
		}
		if v.Int() == i {
			return ""
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if n.K != KInt {
			break
		}
		if !n.Neg && v.Uint() == n.U || n.U == 0 && v.Uint() == 0 {
			return ""
		}
	case reflect.Float32:
		if n.K == KF32 {
			x := math.Float32frombits(uint32(n.U))
			if y := float32(v.Float()); x == y && math.Signbit(float64(x)) == math.Signbit(float64(y)) || x != x && y != y {
				return ""
			}
		}
		if n.K == KF64 {
			d := math.Float64frombits(n.U)
			x := float32(d)
			if y := float32(v.Float()); x == y && math.IsInf(d, 0) == math.IsInf(float64(y), 0) && math.Signbit(d) == math.Signbit(float64(y)) || x != x && y != y {
				return ""
			}
		}
	case reflect.Float64:
		if n.K == KF32 {
			x := float64(math.Float32frombits(uint32(n.U)))
			if y := v.Float(); x == y && math.Signbit(x) == math.Signbit(y) || x != x && y != y {
				return ""
			}
		}
		if n.K == KF64 && math.Float64bits(v.Float()) == n.U {
			return ""
		}
	case reflect.String:
		if (n.K == KStr || n.K == KBytes) && v.String() == n.S {
			return ""
		}
	case reflect.Slice:
		if n.K == KBytes && t.Elem().Kind() == reflect.Uint8 && string(v.Bytes()) == n.S {
			return ""
		}
		if n.K == KFreeze && t.Elem().Kind() == reflect.Uint8 && string(v.Bytes()) == n.S2 {
			return ""
		}
		if n.K != KArray || v.Len() != len(n.Items) {
			break
		}
		k := seenKey{n, backing{v.Pointer(), v.Len(), t}}
		if f.seen[k] && v.Len() > 0 {
			return ""
		}
		f.seen[k] = true
		for i := range n.Items {
			if r := f.sub(strconv.Itoa(i), n.Items[i], v.Index(i)); r != "" {
				return r
			}
		}
		return ""
	case reflect.Array:
		if n.K == KBytes && t.Elem().Kind() == reflect.Uint8 {
			for i := 0; i < v.Len(); i++ {
				c := byte(0)
				if i < len(n.S) {
					c = n.S[i]
				}
				if byte(v.Index(i).Uint()) != c {
					return f.fail(n, v)
				}
			}
			return ""
		}
		if n.K != KArray {
			break
		}
		for i := 0; i < v.Len(); i++ {
			if i >= len(n.Items) {
				if !v.Index(i).IsZero() {
					return f.fail(n, v)
				}
				continue
			}
			if r := f.sub(strconv.Itoa(i), n.Items[i], v.Index(i)); r != "" {
				return r
			}
		}
		return ""
	case reflect.Map:
		if n.K != KHash || v.Len() != len(n.Items) {
			break
		}
		k := seenKey{n, backing{v.Pointer(), -2, t}}
		if f.seen[k] {
			return ""
		}
		f.seen[k] = true
		for i, key := range n.Keys {
			x := v.MapIndex(reflect.ValueOf(key))
			if !x.IsValid() {
				return f.fail(n, v)
			}
			if r := f.sub(short(key), n.Items[i], x); r != "" {
				return r
			}
		}
		return ""
	case reflect.Ptr:
		if v.IsNil() {
			break
		}
		k := seenKey{n, backing{v.Pointer(), -3, t}}
		if f.seen[k] {
			return ""
		}
		f.seen[k] = true
		return f.sub("*", n, v.Elem())
	case reflect.Struct:
		if n.K != KHash {
			break
		}
		set, twice := map[int]bool{}, map[int]bool{}
		for _, key := range n.Keys {
			if fi := FieldFor(t, key); fi >= 0 {
				twice[fi] = set[fi]
				set[fi] = true
			}
		}
		for i, key := range n.Keys {
			fi := FieldFor(t, key)
			if fi < 0 || twice[fi] {
				continue // two keys for one field: any of them
			}
			if r := f.sub(short(key), n.Items[i], v.Field(fi)); r != "" {
				return r
			}
		}
		for i := 0; i < t.NumField(); i++ {
			if !set[i] && !v.Field(i).IsZero() {
				return fmt.Sprintf("at /%v: field %s was set though %s has no such key", f.path, t.Field(i).Name, n)
			}
		}
		return ""
	}
	return f.fail(n, v)
}

// FieldFor returns the index of the field a key is decoded to, or -1.
func FieldFor(t reflect.Type, key string) int {
	fs := Fields(t)
	for _, f := range fs {
		if f.Key == key {
			return f.Index
		}
	}
	title := titleCase(key)
	for _, f := range fs {
		if f.Key == title {
			return f.Index
		}
	}
	return -1
}
