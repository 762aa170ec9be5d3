package spec

import (
	"fmt"
	"math"
	"reflect"

	"github.com/Sereal/Sereal/Go/sereal"
)

// Matcher compares what a decoder returned with the node it should represent.
type Matcher struct {
	Perl    bool // PerlCompat
	NoRI    bool // DisableReferentialIntegrity
	Sharing bool // maps and slices reached more than once must be the same ones
	// Frozen tells whether v is right for a frozen object of a registered name
	Frozen func(n *Node, v any) bool
	// Typed compares what a reference in a typed variable refers to, and what has another type than it has by default
	Typed  func(n *Node, v reflect.Value) string
	seen   map[seenKey]bool
	ids    map[*Node]any
	thawed map[*Node]any // objects by KThawed
	rev    map[any]*Node
	path   []string
}

type seenKey struct {
	n *Node
	p any
}

type sliceID struct {
	p   uintptr
	len int
}

type mapID uintptr

// Match returns "" or how v differs from n.
func (m *Matcher) Match(n *Node, v any) string {
	m.seen = map[seenKey]bool{}
	m.ids = map[*Node]any{}
	m.thawed = map[*Node]any{}
	m.rev = map[any]*Node{}
	m.path = m.path[:0]
	return m.match(n, v)
}

func (m *Matcher) fail(n *Node, v any) string {
	return fmt.Sprintf("at /%v: want %s, got %s", m.path, n, Show(v))
}

func (m *Matcher) sub(p string, n *Node, v any) string {
	m.path = append(m.path, p)
	r := m.match(n, v)
	m.path = m.path[:len(m.path)-1]
	return r
}

// identity records that container node n is the Go object id.
func (m *Matcher) identity(n *Node, id any) string {
	if x, ok := m.ids[n]; ok && x != id && m.Sharing {
		return fmt.Sprintf("at /%v: the shared item %s was decoded to separate objects", m.path, n)
	}
	if x, ok := m.rev[id]; ok && x != n && !m.NoRI {
		return fmt.Sprintf("at /%v: separate items %s and %s were decoded to one object", m.path, x, n)
	}
	m.ids[n] = id
	m.rev[id] = n
	return ""
}

func deref(v any) (any, uintptr, bool) {
	rv := reflect.ValueOf(v)
	if !rv.IsValid() || rv.Kind() != reflect.Ptr || rv.IsNil() {
		return nil, 0, false
	}
	e := rv.Elem()
	if e.Kind() == reflect.Interface {
		if e.IsNil() {
			return nil, rv.Pointer(), true
		}
		return e.Elem().Interface(), rv.Pointer(), true
	}
	return e.Interface(), rv.Pointer(), true
}

// foreign tells whether v is nothing that n is decoded as into an empty interface:
// references to items in typed variables have their types.
func foreign(n *Node, v any) bool {
	if n.K == KUndef {
		return v != nil
	}
	switch v := v.(type) {
	case uint:
		return n.K == KInt && uint64(v) <= math.MaxInt64
	case nil, bool, int, float32, float64, []byte, []interface{}, map[string]interface{}:
		return n.K == KF64 && reflect.TypeOf(v).Kind() == reflect.Float32 || n.K == KF32 && reflect.TypeOf(v).Kind() == reflect.Float64
	case string:
		return n.K == KBytes
	}
	return n.K == KHash || reflect.TypeOf(v).Kind() != reflect.Ptr && n.K != KRef && n.K != KObject && n.K != KWeak
}

func (m *Matcher) match(n *Node, v any) string {
	if m.Typed != nil && foreign(n, v) {
		return m.Typed(n, reflect.ValueOf(v))
	}
	switch n.K {
	case KUndef, KCanonUndef:
		if m.Perl {
			if u, ok := v.(*sereal.PerlUndef); ok && u != nil && (u == sereal.PerlCanonicalUndef()) == (n.K == KCanonUndef) {
				return ""
			}
			return m.fail(n, v)
		}
		if v != nil {
			return m.fail(n, v)
		}
		return ""
	case KBool:
		if b, ok := v.(bool); ok && b == n.B {
			return ""
		}
		return m.fail(n, v)
	case KInt:
		switch x := v.(type) {
		case int:
			if !n.Neg && x >= 0 && uint64(x) == n.U || n.Neg && x < 0 && -uint64(int64(x)) == n.U {
				return ""
			}
		case uint:
			if !n.Neg && uint64(x) == n.U && n.U > math.MaxInt64 {
				return ""
			}
		}
		return m.fail(n, v)
	case KF32:
		if f, ok := v.(float32); ok && uint64(math.Float32bits(f)) == n.U {
			return ""
		}
		return m.fail(n, v)
	case KF64:
		if f, ok := v.(float64); ok && math.Float64bits(f) == n.U {
			return ""
		}
		return m.fail(n, v)
	case KBytes:
		if b, ok := v.([]byte); ok && string(b) == n.S {
			return ""
		}
		return m.fail(n, v)
	case KStr:
		if s, ok := v.(string); ok && s == n.S {
			return ""
		}
		return m.fail(n, v)
	case KRegexp:
		if r, ok := v.(*sereal.PerlRegexp); ok && r != nil && string(r.Pattern) == n.S && string(r.Modifiers) == n.S2 {
			return ""
		}
		return m.fail(n, v)
	case KFreeze:
		if n.Body != nil && v != nil && reflect.TypeOf(v).Kind() == reflect.Ptr {
			if x, ok := m.thawed[n.Body]; ok && x != v {
				return m.fail(n, v) + ": not the same as another reference to it"
			}
			m.thawed[n.Body] = v
		}
		if m.Frozen != nil && m.Frozen(n, v) {
			return ""
		}
		if f, ok := v.(*sereal.PerlFreeze); ok && f != nil && f.Class == n.S && string(f.Data) == n.S2 {
			return ""
		}
		return m.fail(n, v)
	case KRef:
		c := n.Items[0]
		if c.K == KThawed {
			return m.match(&Node{K: KFreeze, S: c.S, S2: c.S2, Body: c}, v)
		}
		if n.REFP && m.NoRI {
			if v == nil && n.Ancestor && (c.K == KRef || c.K == KObject || c.K == KWeak) {
				return "" // not known yet
			}
			return m.sub("refp", c, v)
		}
		if !m.Perl && !n.REFP {
			return m.sub("ref", c, v)
		}
		e, p, ok := deref(v)
		if !ok {
			return m.fail(n, v)
		}
		k := seenKey{n, p}
		if m.seen[k] {
			return ""
		}
		m.seen[k] = true
		if m.Typed != nil {
			return m.Typed(c, reflect.ValueOf(v).Elem())
		}
		return m.sub("ref", c, e)
	case KWeak:
		if !m.Perl {
			return m.sub("weak", n.Items[0], v)
		}
		w, ok := v.(*sereal.PerlWeakRef)
		if !ok || w == nil {
			return m.fail(n, v)
		}
		if k := (seenKey{n, w}); m.seen[k] {
			return ""
		} else {
			m.seen[k] = true
		}
		return m.sub("weak", n.Items[0], w.Reference)
	case KObject:
		if !m.Perl {
			return m.sub("obj", n.Items[0], v)
		}
		o, ok := v.(*sereal.PerlObject)
		if !ok || o == nil || o.Class != n.S {
			return m.fail(n, v)
		}
		if k := (seenKey{n, o}); m.seen[k] {
			return ""
		} else {
			m.seen[k] = true
		}
		return m.sub("obj", n.Items[0], o.Reference)
	case KArray:
		s, ok := v.([]interface{})
		if !ok || s == nil || len(s) != len(n.Items) {
			return m.fail(n, v)
		}
		var id any
		if cap(s) > 0 {
			id = sliceID{reflect.ValueOf(s).Pointer(), len(s)}
			if r := m.identity(n, id); r != "" {
				return r
			}
		}
		k := seenKey{n, id}
		if m.seen[k] {
			return ""
		}
		m.seen[k] = true
		for i := range s {
			if r := m.sub(fmt.Sprint(i), n.Items[i], s[i]); r != "" {
				return r
			}
		}
		return ""
	case KHash:
		h, ok := v.(map[string]interface{})
		if !ok || h == nil || len(h) != len(n.Items) {
			return m.fail(n, v)
		}
		id := mapID(reflect.ValueOf(h).Pointer())
		if r := m.identity(n, id); r != "" {
			return r
		}
		k := seenKey{n, id}
		if m.seen[k] {
			return ""
		}
		m.seen[k] = true
		for i, key := range n.Keys {
			x, ok := h[key]
			if !ok {
				return fmt.Sprintf("at /%v: key %s is missing", m.path, short(key))
			}
			if r := m.sub(short(key), n.Items[i], x); r != "" {
				return r
			}
		}
		return ""
	}
	panic("kind")
}

// Show renders any Go value, cutting cycles and long parts.
func Show(v any) string {
	s := &shower{onpath: map[any]bool{}}
	s.show(reflect.ValueOf(v), 0)
	return string(s.b)
}

type shower struct {
	b      []byte
	onpath map[any]bool
}

func (s *shower) pf(f string, a ...any) { s.b = fmt.Appendf(s.b, f, a...) }

func (s *shower) show(v reflect.Value, depth int) {
	if len(s.b) > 1500 || depth > 60 {
		s.pf("...")
		return
	}
	if !v.IsValid() {
		s.pf("nil")
		return
	}
	var id any
	switch v.Kind() {
	case reflect.Map, reflect.Ptr:
		if !v.IsNil() {
			id = [2]any{v.Type(), v.Pointer()}
		}
	case reflect.Slice:
		if v.Len() > 0 {
			id = [3]any{v.Type(), v.Pointer(), v.Len()}
		}
	}
	if id != nil {
		if s.onpath[id] {
			s.pf("<cycle>")
			return
		}
		s.onpath[id] = true
		defer delete(s.onpath, id)
	}
	t := v.Type().String()
	if len(t) > 60 {
		t = t[:60] + "..."
	}
	switch v.Kind() {
	case reflect.Interface:
		s.show(v.Elem(), depth)
	case reflect.Ptr:
		if v.IsNil() {
			s.pf("(%s)(nil)", t)
			return
		}
		s.pf("&")
		s.show(v.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			s.pf("%s(nil)", t)
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 && v.Kind() == reflect.Slice {
			s.pf("%s(%s)", t, short(string(v.Bytes())))
			return
		}
		s.pf("%s[", t)
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				s.pf(" ")
			}
			if i > 40 {
				s.pf("...%d", v.Len())
				break
			}
			s.show(v.Index(i), depth+1)
		}
		s.pf("]")
	case reflect.Map:
		if v.IsNil() {
			s.pf("%s(nil)", t)
			return
		}
		s.pf("%s{", t)
		for i, k := range v.MapKeys() {
			if i > 40 {
				s.pf("...%d", v.Len())
				break
			}
			s.show(k, depth+1)
			s.pf(":")
			s.show(v.MapIndex(k), depth+1)
			s.pf(" ")
		}
		s.pf("}")
	case reflect.Struct:
		s.pf("%s{", t)
		for i := 0; i < v.NumField(); i++ {
			s.pf("%s:", v.Type().Field(i).Name)
			s.show(v.Field(i), depth+1)
			s.pf(" ")
		}
		s.pf("}")
	case reflect.String:
		s.pf("%s(%s)", t, short(v.String()))
	case reflect.Float32:
		s.pf("%s(%v %#x)", t, v.Float(), math.Float32bits(float32(v.Float())))
	case reflect.Float64:
		s.pf("%s(%v %#x)", t, v.Float(), math.Float64bits(v.Float()))
	case reflect.Bool:
		s.pf("%v", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		s.pf("%s(%d)", t, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		s.pf("%s(%d)", t, v.Uint())
	default:
		s.pf("<%s>", t)
	}
}
