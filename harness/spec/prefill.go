package spec

import (
	"fmt"
	"reflect"

	"pgregory.net/rapid"
)

// DeepType draws a type of nested structs, pointers to structs, slices, arrays and maps.
func DeepType(t *rapid.T, depth int) reflect.Type {
	if depth <= 0 {
		return fieldTypes[N(t, 0, len(fieldTypes)-1)]
	}
	switch Pick(t, 3, 2, 3, 3, 1, 2) {
	case 0:
		return reflect.SliceOf(DeepType(t, depth-1))
	case 1:
		return reflect.ArrayOf(N(t, 0, 3), DeepType(t, depth-1))
	case 2:
		return reflect.MapOf(reflect.TypeOf(""), DeepType(t, depth-1))
	case 3:
		return TaggedStruct(t, depth-1)
	case 4:
		return fieldTypes[N(t, 0, len(fieldTypes)-1)]
	}
	return reflect.PointerTo(TaggedStruct(t, depth-1))
}

// FillUp gives a variable content, some of it where n has something and some where it
// has nothing.
func (g *GoGen) FillUp(v reflect.Value, n *Node) {
	if !v.CanSet() {
		return
	}
	t := g.T
	var keys []string
	var items []*Node
	if n != nil {
		n = Hash(n)
		keys, items = n.Keys, n.Items
	}
	at := func(i int) *Node {
		if n == nil || n.K != KArray || i >= len(items) {
			return nil
		}
		return items[i]
	}
	small := g.Budget <= 0
	g.Budget--
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			var x *Node
			for j, k := range keys {
				if n.K == KHash && FieldFor(v.Type(), k) == i {
					x = items[j]
				}
			}
			g.FillUp(v.Field(i), x)
		}
	case reflect.Ptr:
		if !small && v.Type().Elem().Kind() == reflect.Struct && !Chance(t, 3) {
			p := reflect.New(v.Type().Elem())
			g.FillUp(p.Elem(), n)
			v.Set(p)
		}
	case reflect.Slice:
		ln := Pick(t, 2, 1, 3, 3, 2) - 1
		if ln < 0 || small {
			return
		}
		s := reflect.MakeSlice(v.Type(), ln, ln+N(t, 0, 3))
		full := s.Slice(0, s.Cap())
		for i := 0; i < s.Cap(); i++ {
			g.FillUp(full.Index(i), at(i))
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.FillUp(v.Index(i), at(i))
		}
	case reflect.Map:
		if small || Chance(t, 4) {
			return
		}
		m := reflect.MakeMap(v.Type())
		put := func(k string, x *Node) {
			e := reflect.New(v.Type().Elem()).Elem()
			g.FillUp(e, x)
			m.SetMapIndex(reflect.ValueOf(k), e)
		}
		if n != nil && n.K == KHash {
			for j, k := range keys {
				if Bool(t) {
					put(k, items[j])
				}
			}
		}
		for i := N(t, 0, 2); i > 0; i-- {
			put(One(t, "other", "", "k", "foo", "é"), nil)
		}
		v.Set(m)
	case reflect.Interface:
		if Chance(t, 25) {
			v.Set(reflect.ValueOf(One[any](t, 1, "s", []any{1}, map[string]any{"a": 1}, &Leaf{})))
		}
	default:
		g.fill(v)
	}
}

// Before is a copy of what a variable held.
type Before struct {
	V    reflect.Value
	orig map[[2]any]uintptr // of its pointers and maps
}

// Snapshot copies what FillUp and decoding make.
func Snapshot(v reflect.Value) Before {
	b := Before{orig: map[[2]any]uintptr{}}
	b.V = reflect.New(v.Type()).Elem()
	b.V.Set(b.copy(v))
	return b
}

func (b *Before) copy(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || v.Type().Elem().Kind() != reflect.Struct {
			return v
		}
		p := reflect.New(v.Type().Elem())
		b.orig[[2]any{p.Pointer(), p.Type()}] = v.Pointer()
		p.Elem().Set(b.copy(v.Elem()))
		return p
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < n.NumField(); i++ {
			if n.Field(i).CanSet() {
				n.Field(i).Set(b.copy(v.Field(i)))
			}
		}
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Cap())
		full := v.Slice(0, v.Cap())
		for i := 0; i < v.Cap(); i++ {
			n.Slice(0, v.Cap()).Index(i).Set(b.copy(full.Index(i)))
		}
		return n
	case reflect.Array:
		n := reflect.New(v.Type()).Elem()
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(b.copy(v.Index(i)))
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(v.Type())
		b.orig[[2]any{n.Pointer(), n.Type()}] = v.Pointer()
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, b.copy(v.MapIndex(k)))
		}
		return n
	}
	return v
}

// Filled compares a variable with what it held before a document with n was decoded
// into it. MayFail is set where an interface holds something already.
type Filled struct {
	b       Before
	MayFail bool
	InPlace int // items stored in what was there
	Kept    int // items left alone
}

// Check tells what is wrong with v.
func (b Before) Check(n *Node, v reflect.Value) (string, *Filled) {
	f := &Filled{b: b}
	return f.cmp(n, b.V, v), f
}

// Blocked tells whether n hits an interface that holds something.
func (b Before) Blocked(n *Node) bool {
	f := &Filled{b: b}
	f.blocked(n, b.V)
	return f.MayFail
}

func (f *Filled) blocked(n *Node, v reflect.Value) {
	m := Hash(n)
	if !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		f.MayFail = f.MayFail || !v.IsNil()
	case reflect.Struct:
		for i, k := range m.Keys {
			if fi := FieldFor(v.Type(), k); m.K == KHash && fi >= 0 {
				f.blocked(m.Items[i], v.Field(fi))
			}
		}
	case reflect.Ptr:
		if !v.IsNil() {
			f.blocked(m, v.Elem())
		}
	case reflect.Slice, reflect.Array:
		for i, x := range m.Items {
			if m.K == KArray && i < v.Len() {
				f.blocked(x, v.Index(i))
			}
		}
	case reflect.Map:
		for i, k := range m.Keys {
			if m.K == KHash {
				f.blocked(m.Items[i], v.MapIndex(reflect.ValueOf(k)))
			}
		}
	}
}

func (f *Filled) same(what string, before, v reflect.Value) string {
	f.Kept++
	if a, b := Dump(before.Interface()), Dump(v.Interface()); a != b {
		return fmt.Sprintf("%s is not in the document, but was changed from %s to %s", what, Show(before.Interface()), Show(v.Interface()))
	}
	return f.where(before, v)
}

// where tells whether a pointer or map is still the same one.
func (f *Filled) where(before, v reflect.Value) string {
	if k := v.Kind(); (k == reflect.Ptr || k == reflect.Map) && !before.IsNil() {
		if o, ok := f.b.orig[[2]any{before.Pointer(), before.Type()}]; ok && o != v.Pointer() {
			return fmt.Sprintf("the %s was replaced", v.Type())
		}
	}
	return ""
}

func (f *Filled) cmp(n *Node, before, v reflect.Value) string {
	m := Hash(n)
	if m.K == KUndef || m.K == KCanonUndef {
		switch v.Kind() {
		case reflect.Ptr, reflect.Map, reflect.Slice:
			if !v.IsNil() {
				return fmt.Sprintf("undef was stored as %s", Show(v.Interface()))
			}
			return ""
		}
		if Dump(before.Interface()) != Dump(v.Interface()) {
			return fmt.Sprintf("undef changed %s to %s", Show(before.Interface()), Show(v.Interface()))
		}
		return ""
	}
	switch {
	case v.Kind() == reflect.Struct && m.K == KHash:
		set := map[int][]*Node{}
		for i, k := range m.Keys {
			fi := FieldFor(v.Type(), k)
			set[fi] = append(set[fi], m.Items[i])
		}
		for i := 0; i < v.NumField(); i++ {
			fd := v.Type().Field(i)
			if fd.PkgPath != "" {
				if !v.Field(i).IsZero() {
					return fmt.Sprintf("unexported field %s was set", fd.Name)
				}
				continue
			}
			if set[i] == nil {
				if s := f.same("field "+fd.Name, before.Field(i), v.Field(i)); s != "" {
					return s
				}
				continue
			}
			d := ""
			for _, x := range set[i] {
				if d = f.cmp(x, before.Field(i), v.Field(i)); d == "" {
					break
				}
			}
			if d != "" {
				return fd.Name + ": " + d
			}
		}
		return ""

	case v.Kind() == reflect.Ptr && v.Type().Elem().Kind() == reflect.Struct && m.K == KHash:
		if v.IsNil() {
			return "the pointer is nil"
		}
		b := reflect.New(v.Type().Elem()).Elem()
		if !before.IsNil() {
			f.InPlace++
			b = before.Elem()
			if s := f.where(before, v); s != "" {
				return s
			}
		}
		return f.cmp(m, b, v.Elem())

	case (v.Kind() == reflect.Slice || v.Kind() == reflect.Array) && (m.K == KArray || m.K == KBytes || m.K == KStr):
		fresh := v.Kind() == reflect.Slice && before.Len() == 0
		items := m.Items
		if m.K != KArray {
			if v.Type().Elem().Kind() != reflect.Uint8 {
				break
			}
			items = nil
			for _, x := range []byte(m.S) {
				items = append(items, Int(int64(x)))
			}
		}
		want := before.Len()
		if fresh {
			want = len(items)
		}
		if v.Len() != want {
			return fmt.Sprintf("%d elements of %d in a slice of %d", v.Len(), len(items), before.Len())
		}
		for i := 0; i < v.Len(); i++ {
			b := reflect.Zero(v.Type().Elem())
			if !fresh {
				b = before.Index(i)
				f.InPlace++
			}
			if i >= len(items) {
				if s := f.same(fmt.Sprint("element ", i), b, v.Index(i)); s != "" {
					return s
				}
			} else if s := f.cmp(items[i], b, v.Index(i)); s != "" {
				return fmt.Sprintf("%d: %s", i, s)
			}
		}
		if v.Kind() == reflect.Slice && !fresh && v.Cap() == before.Cap() {
			return f.same("what is beyond the slice's length", before.Slice(before.Len(), before.Cap()), v.Slice(v.Len(), v.Cap()))
		}
		return ""

	case v.Kind() == reflect.Map && m.K == KHash:
		if v.IsNil() {
			return "the map is nil"
		}
		if !before.IsNil() {
			if s := f.where(before, v); s != "" {
				return s
			}
		}
		in := map[string]bool{}
		for i, k := range m.Keys {
			in[k] = true
			x := v.MapIndex(reflect.ValueOf(k))
			if !x.IsValid() {
				return fmt.Sprintf("key %q is missing", k)
			}
			b := reflect.Zero(x.Type())
			if !before.IsNil() && before.MapIndex(reflect.ValueOf(k)).IsValid() {
				b = before.MapIndex(reflect.ValueOf(k))
				f.InPlace++
			}
			if s := f.cmp(m.Items[i], b, x); s != "" {
				return fmt.Sprintf("%q: %s", k, s)
			}
		}
		left := 0
		for _, k := range before.MapKeys() {
			if in[k.String()] {
				continue
			}
			left++
			x := v.MapIndex(k)
			if !x.IsValid() {
				return fmt.Sprintf("key %q, which is not in the document, is gone", k.String())
			}
			if s := f.same(fmt.Sprintf("key %q", k.String()), before.MapIndex(k), x); s != "" {
				return s
			}
		}
		if v.Len() != left+len(in) {
			return fmt.Sprintf("%d keys, want %d", v.Len(), left+len(in))
		}
		return ""
	}
	return Faithful(n, v)
}
