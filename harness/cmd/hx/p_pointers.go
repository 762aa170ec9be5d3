package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/Sereal/Sereal/Go/sereal"
	"verif/harness/spec"
)

func init() {
	register(&Prop{ID: "C18", Fn: c18, Quick: 1200000, Thorough: 30000000,
		Rule: "graphs of variables of 17 kinds (maps, slices, arrays, structs, scalars, pointers) with pointers to them and to their parts, drawn before the contents " +
			"so that all forms of sharing and cycles occur; the document is compared with the identity of the variables by an independent parser, what is decoded with the document; " +
			"non-trivial: some item of the document is referred to more than once",
		Assume: []string{"pointers to strings with the same backing data, and pointers to equal pointers, may or may not be one item",
			"maps and slices that contain themselves without a pointer between are the subject of C19"}})
}

// gnode is a struct with pointers.
type gnode struct {
	First  ginner // at the address of the struct
	P      *gnode `sereal:"p"`
	Q      interface{}
	L      []*gnode
	Nested map[string]*gnode
	Any    *interface{} `sereal:"any"`
}

type ginner struct {
	X interface{}
	N int
	B bool
}

// graph draws a value full of pointers.
type graph struct {
	t     *caseT
	g     *spec.GoGen
	ptrs  []any
	nodes []*gnode
	anys  []*interface{}
	fill  []func()
	left  int
	plain bool // only structs that can be decoded into structs
	perl  bool // for PerlCompat, where containers count as references
	// PerlObjects and PerlWeakRefs
	wrappers []any
}

// containsItself tells whether a value contains itself without pointers in between that a
// document has references for.
func containsItself(v any) bool {
	done := map[any]bool{}
	var walk func(v reflect.Value, path map[any]bool) bool
	walk = func(v reflect.Value, path map[any]bool) bool {
		switch v.Kind() {
		case reflect.Interface:
			return walk(v.Elem(), path)
		case reflect.Ptr:
			if v.IsNil() {
				return false
			}
			type key struct {
				p uintptr
				t reflect.Type
			}
			id := key{v.Pointer(), v.Type()}
			switch v.Interface().(type) {
			case *sereal.PerlObject, *sereal.PerlWeakRef:
				if path[id] {
					return true
				}
				path[id] = true
				defer delete(path, id)
				return walk(v.Elem().FieldByName("Reference"), path)
			}
			if done[id] {
				return false
			}
			done[id] = true
			return walk(v.Elem(), map[any]bool{})
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				if walk(v.Index(i), path) {
					return true
				}
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				if walk(v.MapIndex(k), path) {
					return true
				}
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if walk(v.Field(i), path) {
					return true
				}
			}
		}
		return false
	}
	return walk(reflect.ValueOf(v), map[any]bool{})
}

type caseT = Case

func (gr *graph) any() interface{} {
	t := gr.t.T
	gr.left--
	w := []int{6, 3, 2, 1}
	if gr.left < 0 {
		w = []int{0, 1, 0, 0}
	}
	switch spec.Pick(t, w...) {
	case 0:
		return gr.ptrs[spec.N(t, 0, len(gr.ptrs)-1)]
	case 1:
		return spec.One[any](t, nil, 0, 1, "", "x", "str", true, 2.5, []byte("b"), uint64(1<<63))
	case 2:
		var l []interface{}
		for i := spec.N(t, 0, 3); i > 0; i-- {
			l = append(l, gr.any())
		}
		return l
	}
	m := map[string]interface{}{}
	for i := spec.N(t, 0, 3); i > 0; i-- {
		m[spec.One(t, "a", "b", "str", "")] = gr.any()
	}
	return m
}

func (gr *graph) node() *gnode {
	if len(gr.nodes) == 0 || spec.Chance(gr.t.T, 4) {
		return nil
	}
	return gr.nodes[spec.N(gr.t.T, 0, len(gr.nodes)-1)]
}

func (gr *graph) add(p ...any) { gr.ptrs = append(gr.ptrs, p...) }

// variable makes a variable and pointers to it.
func (gr *graph) variable() {
	t := gr.t.T
	later := func(f func()) { gr.fill = append(gr.fill, f) }
	kind := spec.N(t, 0, 16)
	if gr.plain {
		kind = 3
	}
	switch kind {
	case 0:
		p := new(interface{})
		gr.anys = append(gr.anys, p)
		gr.add(p)
		later(func() { *p = gr.any() })
	case 1:
		s := make([]interface{}, spec.N(t, 0, 4), 4)
		gr.add(&s)
		if spec.Bool(t) { // pointers to the same array
			lo := spec.N(t, 0, len(s))
			sub := s[lo:spec.N(t, lo, len(s))]
			same := s
			gr.add(&sub, &same)
			if len(s) > 0 {
				gr.add(&s[0], &s[len(s)-1])
			}
		}
		later(func() {
			for i := range s {
				s[i] = gr.any()
			}
		})
	case 2:
		m := map[string]interface{}{}
		m2 := m
		gr.add(&m)
		if spec.Bool(t) {
			var x interface{} = m
			gr.add(&m2, &x)
		}
		later(func() {
			for i := spec.N(t, 0, 3); i > 0; i-- {
				m[spec.One(t, "a", "b", "c", "str")] = gr.any()
			}
		})
	case 3, 4:
		n := new(gnode)
		gr.nodes = append(gr.nodes, n)
		gr.add(n)
		if spec.Bool(t) {
			gr.add(&n.First)
		}
		if spec.Chance(t, 3) {
			gr.add(&n.First.X, &n.P, &n.First.N, &n.First.B, &n.L, &n.Q)
		}
		later(func() {
			n.First.N = spec.N(t, 0, 3)
			n.P = gr.node()
			if !gr.plain && spec.Bool(t) {
				n.Q = gr.any()
			}
			if !gr.plain && spec.Chance(t, 3) {
				n.First.X = gr.any()
			}
			for i := spec.N(t, 0, 3) - 1; i > 0; i-- {
				n.L = append(n.L, gr.node())
			}
			if spec.Chance(t, 3) {
				n.Nested = map[string]*gnode{"k": gr.node(), "str": gr.node()}
			}
			if len(gr.anys) > 0 && spec.Chance(t, 2) {
				n.Any = gr.anys[spec.N(t, 0, len(gr.anys)-1)]
			}
		})
	case 5:
		x := spec.N(t, -20, 300)
		y := spec.MyInt(x)
		px := &x
		gr.add(px, &y, &px)
	case 6:
		s := spec.One(t, "str", "", "some text", "a text with more than thirty-one bytes")
		sub := s[:len(s)/2]
		gr.add(&s, &sub)
		if spec.Bool(t) {
			other := s
			gr.add(&other)
		}
	case 7:
		b := []byte(spec.One(t, "bytes", "", "0123456789"))
		sub := b[:len(b)/2]
		gr.add(&b, &sub)
	case 8:
		f := 1.5
		ok := true
		var f32 float32 = 0.25
		gr.add(&f, &ok, &f32)
	case 9:
		a := new([2]interface{})
		gr.add(a, &a[0])
		if spec.Bool(t) {
			s := a[:]
			gr.add(&s)
		}
		later(func() { a[0], a[1] = gr.any(), gr.any() })
	case 10: // variables without size have no address of their own
		x, y := struct{}{}, [0]int{}
		gr.add(&x, &y)
	case 11:
		l := []int{1, 2, 3, 4}
		a, b := l[:2], l[2:]
		gr.add(&l, &a, &b, &l[0], &l[2], (*[4]int)(l))
	case 12: // pointers to pointers
		p := gr.node()
		pp := &p
		gr.add(&p, pp, &pp)
	case 13:
		p := new(*interface{})
		if len(gr.anys) > 0 {
			*p = gr.anys[spec.N(t, 0, len(gr.anys)-1)]
		}
		gr.add(p)
	case 14:
		var nilMap map[string]interface{}
		var nilSlice []interface{}
		empty := []interface{}{}
		gr.add(&nilMap, &nilSlice, &empty, (*int)(nil), (*gnode)(nil))
	case 16: // objects and weak references, perhaps within themselves
		o, w := &sereal.PerlObject{Class: "C"}, &sereal.PerlWeakRef{}
		if len(gr.wrappers) > 3 {
			gr.add(&o)
			o.Reference = new(interface{})
			return
		}
		target := new(interface{})
		gr.add(o, w)
		gr.wrappers = append(gr.wrappers, o, w)
		inner := func() any {
			x := gr.ptrs[spec.N(t, 0, len(gr.ptrs)-1)]
			switch x.(type) {
			case *sereal.PerlObject, *sereal.PerlWeakRef:
				*target, x = x, target
			}
			if reflect.ValueOf(x).IsNil() {
				x = target
			}
			if gr.perl && spec.Bool(t) {
				y := spec.One[any](t, o, w, gr.wrappers[spec.N(t, 0, len(gr.wrappers)-1)])
				return spec.One[any](t, []interface{}{x, y}, []interface{}{y}, map[string]interface{}{"a": y}, map[string]any{"k": x})
			}
			return x
		}
		later(func() {
			o.Reference = inner()
			w.Reference = inner()
			if spec.Chance(t, 20) {
				o.Reference = spec.One[any](t, o, w)
				w.Reference = o
			}
		})
	case 15:
		m := map[string]string{"a": "b"}
		mi := map[string]int{"a": 1}
		ts := []string{"x", "str"}
		gr.add(&m, &mi, &ts, &ts[0])
	}
}

func c18(c *Case) {
	t := c.T
	cfg := spec.Enc(t)
	c.Descf("settings %+v", cfg)
	gr := &graph{t: c, left: spec.One(t, 12, 30, 60)}
	gr.plain = spec.Chance(t, 5)
	gr.perl = cfg.Perl
	for i := spec.N(t, 1, 7); i > 0; i-- {
		gr.variable()
	}
	if spec.Chance(t, 6) {
		gr.ptrs = append(gr.ptrs, spec.One[any](t, &sereal.PerlWeakRef{Reference: gr.ptrs[0]}, &sereal.PerlObject{Class: "C", Reference: gr.ptrs[0]}))
	}
	for i := 0; i < len(gr.fill); i++ {
		gr.fill[i]()
	}
	var v any
	far := false
	form := spec.Pick(t, 4, 2, 1)
	if gr.plain {
		form = 3
	}
	switch form {
	case 3:
		v = gr.nodes[0]
	case 0:
		l := []interface{}{}
		if far = spec.Chance(t, 25); far { // offsets that need more bytes
			l = append(l, strings.Repeat("f", max(0, varintStep(t)-spec.N(t, 0, 60))))
		}
		for i := spec.N(t, 1, 6); i > 0; i-- {
			l = append(l, gr.any())
		}
		v = l
	case 1:
		v = gr.ptrs[spec.N(t, 0, len(gr.ptrs)-1)]
	case 2:
		m := map[string]interface{}{}
		for i := spec.N(t, 1, 6); i > 0; i-- {
			m[fmt.Sprint(i)] = gr.any()
		}
		v = m
	}
	c.Describe(func() string { return "value " + spec.Show(v) })
	if len(gr.wrappers) > 0 && containsItself(v) {
		c.Class("endless")
		if _, err := cfg.Marshal(v); err != sereal.ErrMaxRecursionLimit {
			c.Fail("objects that contain only themselves: %v", err)
		}
		return
	}
	b := encode(c, cfg, v)
	c.Describe(func() string { return fmt.Sprintf("document % x", cut(b)) })
	doc := checkDoc(c, b, v, cfg)

	var got interface{}
	if err := sereal.Unmarshal(b, &got); err != nil {
		c.Fail("decoding failed: %v", err)
	}
	if r := (&spec.Matcher{}).Match(doc.Body, got); r != "" {
		c.Fail("%s", r)
	}
	got = nil
	if err := (&sereal.Decoder{PerlCompat: true}).Unmarshal(b, &got); err != nil {
		c.Fail("decoding with PerlCompat failed: %v", err)
	}
	if r := (&spec.Matcher{Perl: true, Sharing: true}).Match(doc.Body, got); r != "" {
		c.Fail("PerlCompat: %s", r)
	}
	if n, ok := v.(*gnode); ok && n != nil {
		if hasTyped(n) {
			var out *gnode
			if err := sereal.Unmarshal(b, &out); err != nil {
				c.Fail("decoding into a struct failed: %v", err)
			}
			if d := typedGraph(n, out, map[[2]*gnode]bool{}, ""); d != "" {
				c.Fail("decoding into a struct: %s", d)
			}
			c.Class("decoded into structs")
		}
	}
	cycle := false
	onpath := map[*spec.Node]bool{}
	var walk func(n *spec.Node)
	done := map[*spec.Node]bool{}
	walk = func(n *spec.Node) {
		if onpath[n] {
			cycle = true
			return
		}
		if done[n] {
			return
		}
		done[n], onpath[n] = true, true
		for _, x := range n.Items {
			walk(x)
		}
		delete(onpath, n)
	}
	walk(doc.Body)
	c.ClassIf(far, "a long string first")
	c.ClassIf(cycle, "cyclic")
	c.ClassIf(doc.Stats.RefP > 0, "REFP")
	c.ClassIf(doc.Stats.RefP > 3, "more than 3 REFP")
	cfgClasses(c, cfg)
	c.Key(b)
	c.NonTrivial(doc.Stats.RefP > 0)
}

// hasTyped tells whether all that n leads to can be decoded into typed variables.
func hasTyped(n *gnode) bool {
	ok := true
	seen := map[*gnode]bool{}
	var walk func(n *gnode)
	walk = func(n *gnode) {
		if n == nil || seen[n] {
			return
		}
		seen[n] = true
		if n.Any != nil {
			ok = false // pointers to interfaces are not decoded
		}
		if n.Q != nil || n.First.X != nil {
			ok = false // may refer to the structs as maps
		}
		walk(n.P)
		for _, x := range n.L {
			walk(x)
		}
		for _, x := range n.Nested {
			walk(x)
		}
	}
	walk(n)
	return ok
}

// typedGraph compares two graphs of structs as if they were infinite trees.
func typedGraph(a, b *gnode, seen map[[2]*gnode]bool, path string) string {
	if a == nil || b == nil {
		if a != b {
			return fmt.Sprintf("at %q: %v became %v", path, a != nil, b != nil)
		}
		return ""
	}
	k := [2]*gnode{a, b}
	for o := range seen {
		if (o[0] == a) != (o[1] == b) {
			return fmt.Sprintf("at %q: other sharing", path)
		}
	}
	if seen[k] {
		return ""
	}
	seen[k] = true
	if !reflect.DeepEqual(a.First, b.First) {
		return fmt.Sprintf("at %q: %+v became %+v", path, a.First, b.First)
	}
	if d := typedGraph(a.P, b.P, seen, path+".P"); d != "" {
		return d
	}
	if len(a.L) != len(b.L) || len(a.Nested) != len(b.Nested) {
		return fmt.Sprintf("at %q: other lengths", path)
	}
	for i := range a.L {
		if d := typedGraph(a.L[i], b.L[i], seen, fmt.Sprintf("%s[%d]", path, i)); d != "" {
			return d
		}
	}
	for k := range a.Nested {
		if d := typedGraph(a.Nested[k], b.Nested[k], seen, path+"."+k); d != "" {
			return d
		}
	}
	return ""
}
