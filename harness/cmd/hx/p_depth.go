package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"

	"github.com/Sereal/Sereal/Go/sereal"
	"verif/harness/spec"
)

func init() {
	register(&Prop{ID: "C19", Fn: c19, Quick: 1500000, Thorough: 25000000,
		Rule: "generated trees and graphs, chains of mixed containers, wide values with one deep place and values that contain themselves x limits at, around and far from their depth; " +
			"non-trivial: the limit is within 2 of the depth, or the depth is infinite",
		Assume: []string{"graphs whose depth depends on the order of map iteration are left out"}})
}

type (
	selfSlice []selfSlice
	selfMap   map[string]selfMap
	selfAnys  []interface{}
	selfS     struct {
		A int
		L []selfS
		M map[string]selfS `sereal:"m"`
	}
)

// wrap puts a value into one more container. What it returns nests d levels deeper.
func wrap(c *Case, x any, spread bool) (any, int) {
	t := c.T
	pad := func(l []interface{}) []interface{} {
		if spread && spec.Chance(t, 3) {
			for i := spec.N(t, 0, 4); i > 0; i-- {
				l = append(l, spec.One[any](t, 1, "a", nil, true, []byte("b")))
			}
		}
		return l
	}
	switch spec.N(t, 0, 12) {
	case 0:
		return append(pad([]interface{}{}), x), 1
	case 1:
		return pad([]interface{}{x}), 1
	case 2:
		return map[string]interface{}{"k": x}, 1
	case 3:
		return &x, 1
	case 4:
		return struct{ X interface{} }{x}, 1
	case 5:
		return struct {
			B int
			X interface{} `sereal:"x"`
			C string
		}{1, x, "c"}, 1
	case 6:
		return [1]interface{}{x}, 1
	case 7:
		return spec.MyAnys{x}, 1
	case 8:
		return spec.MyMap{"k": x}, 1
	case 9:
		return sereal.PerlObject{Class: "C", Reference: x}, 0
	case 10:
		return &sereal.PerlObject{Class: "C", Reference: x}, 1
	case 11:
		return &sereal.PerlWeakRef{Reference: x}, 1
	}
	switch x := x.(type) {
	case []interface{}:
		return [][]interface{}{x}, 1
	case map[string]interface{}:
		return map[string]map[string]interface{}{"a": x}, 1
	case string:
		return []string{x}, 1
	case int:
		return map[string]int{"a": x}, 1
	}
	return []interface{}{x}, 1
}

// endless makes a value that contains itself without a pointer.
func endless(c *Case) any {
	t := c.T
	switch spec.N(t, 0, 7) {
	case 0:
		s := []interface{}{1, 2}
		s[spec.N(t, 0, 1)] = s
		return s
	case 1:
		m := map[string]interface{}{}
		m["a"] = m
		return m
	case 2:
		s := make(selfSlice, 2)
		s[1] = s
		return s
	case 3:
		m := selfMap{}
		m["x"] = m
		return m
	case 4:
		s := make(selfAnys, 1)
		m := map[string]interface{}{"s": s}
		s[0] = struct{ M interface{} }{m}
		return s
	case 5:
		l := make([]selfS, 1)
		l[0].L = l
		return l
	case 6:
		m := map[string]selfS{}
		m["m"] = selfS{M: m}
		return m
	}
	s := make([]interface{}, 1)
	s[0] = []interface{}{map[string]interface{}{"s": [1]interface{}{s}}}
	return s
}

func c19(c *Case) {
	t := c.T
	cfg := spec.Enc(t, 1, 2, 3)
	var v any
	depth := 0
	form := spec.Pick(t, 4, 3, 2, 3)
	switch form {
	case 0: // any value
		g := spec.NewGoGen(t)
		g.Typed, g.Perl, g.JSON = spec.Bool(t), spec.Bool(t), true
		g.Ptrs = spec.Chance(t, 3)
		g.Extra = frozenLeaf
		v = g.Value()
		depth = spec.GoDepth(v, cfg.NoFreeze)
		if depth == -2 || unordered(reflect.ValueOf(v)) && shared(reflect.ValueOf(v)) {
			form = 3
			v = endless(c)
		}
	case 1: // a chain
		v = spec.One[any](t, nil, 1, "x", []byte("b"), []interface{}{}, map[string]interface{}{}, [0]int{}, struct{}{}, Frozen{"f"}, (*int)(nil), &sereal.PerlUndef{})
		depth = spec.GoDepth(v, cfg.NoFreeze)
		n := spec.N(t, 0, 30)
		if spec.Chance(t, 10) {
			n = spec.N(t, 31, 300)
		}
		for ; n > 0; n-- {
			var d int
			v, d = wrap(c, v, true)
			depth += d
		}
		if d := spec.GoDepth(v, cfg.NoFreeze); d != depth {
			panic(fmt.Sprintf("GoDepth %d, want %d", d, depth))
		}
	case 2: // wide, deep in some places
		l := []interface{}{}
		top := spec.N(t, 0, 12)
		for i := spec.N(t, 1, 8); i > 0; i-- {
			var x any = "x"
			for k := spec.N(t, 0, top); k > 0; k-- {
				x, _ = wrap(c, x, false)
			}
			l = append(l, x)
			if spec.Chance(t, 6) {
				for k := 0; k < 50; k++ {
					l = append(l, []interface{}{})
				}
			}
		}
		v = l
		if spec.Chance(t, 3) {
			m := map[string]interface{}{}
			for i, x := range l {
				m[fmt.Sprint(i)] = x
			}
			v = m
		}
		depth = spec.GoDepth(v, cfg.NoFreeze)
	case 3:
		v = endless(c)
	}
	if form == 3 {
		depth = math.MaxInt
		for n := spec.N(t, 0, 5); n > 0; n-- {
			v, _ = wrap(c, v, true)
		}
		if d := spec.GoDepth(v, cfg.NoFreeze); d != -1 {
			panic(fmt.Sprintf("GoDepth %d", d))
		}
	} else if depth < 0 {
		panic(fmt.Sprintf("a tree of infinite depth %d form %d %s", depth, form, spec.Show(v)))
	}
	c.Descf("settings %+v", cfg)
	if form != 3 {
		c.Describe(func() string { return "value " + spec.Show(v) })
	} else {
		c.Descf("a value that contains itself, a %T", v)
	}

	limit := 0
	if form == 3 {
		limit = spec.One(t, 1, 2, 3, 10, 100, 1000)
	} else {
		switch spec.Pick(t, 3, 4, 2, 2, 2, 1) {
		case 0:
			limit = depth
		case 1:
			limit = depth + 1
		case 2:
			limit = depth - 1
		case 3:
			limit = depth + 2
		case 4:
			limit = spec.N(t, 1, 2*depth+2)
		case 5:
			limit = spec.One(t, 0, -1, math.MinInt, math.MaxInt, 1<<31, 1<<32+1)
		}
	}
	cfg.MaxDepth = limit
	want := limit > 0 && depth >= limit
	c.Describe(func() string { return fmt.Sprintf("depth %d, limit %d", depth, limit) })

	e := cfg.New()
	// calls before must not matter
	for i := spec.N(t, 0, 3); i > 0; i-- {
		switch spec.N(t, 0, 3) {
		case 0:
			if limit > 0 && limit < 5000 {
				e.Marshal(endless(c))
			}
		case 1:
			e.Marshal([]interface{}{[]interface{}{[]interface{}{1}}})
		case 2:
			e.Marshal(v)
		case 3:
			e.Marshal([]interface{}{make(chan int)})
		}
	}
	var b []byte
	var err error
	if cfg.Version > 1 && spec.Chance(t, 4) { // the header has a limit of its own
		var h any = "h"
		hd := 0
		for n := spec.N(t, 0, 4); n > 0; n-- {
			var d int
			h, d = wrap(c, h, false)
			hd += d
		}
		c.Describe(func() string { return fmt.Sprintf("header of depth %d", hd) })
		want = want || limit > 0 && hd >= limit
		b, err = e.MarshalWithHeader(h, v)
		c.Class("with header")
	} else {
		b, err = e.Marshal(v)
	}
	switch {
	case want && err == nil:
		c.Fail("encoded in spite of the limit")
	case want && !errors.Is(err, sereal.ErrMaxRecursionLimit):
		c.Fail("error %q, want %q", err, sereal.ErrMaxRecursionLimit)
	case !want && err != nil:
		c.Fail("refused: %v", err)
	case err == nil:
		checkDoc(c, b, v, cfg)
	}
	if limit > 0 && spec.Chance(t, 4) { // and again
		if b, err := e.Marshal(v); (err != nil) != (depth >= limit) {
			c.Fail("the second call gave % x, %v", cut(b), err)
		}
	}
	c.Class([...]string{"value", "chain", "wide", "endless"}[form])
	c.Class(map[bool]string{true: "refused", false: "accepted"}[want])
	c.ClassIf(depth == limit, "depth = limit")
	c.ClassIf(depth+1 == limit, "depth = limit-1")
	c.KeyStr(fmt.Sprintf("%d %d %T", limit, form, v))
	if b != nil {
		c.Key(b)
	} else if form != 3 {
		c.KeyStr(spec.Show(v))
	}
	c.NonTrivial(form == 3 || limit-depth <= 2 && depth-limit <= 2)
}

// shared tells whether a pointer occurs twice.
func shared(v reflect.Value) bool {
	seen := map[any]bool{}
	var walk func(v reflect.Value) bool
	walk = func(v reflect.Value) bool {
		switch v.Kind() {
		case reflect.Interface:
			return walk(v.Elem())
		case reflect.Ptr:
			if v.IsNil() {
				return false
			}
			k := v.Pointer()
			if seen[k] {
				return true
			}
			seen[k] = true
			return walk(v.Elem())
		case reflect.Map:
			if seen[v.Pointer()] && !v.IsNil() { // an empty one may be behind pointers
				return true
			}
			seen[v.Pointer()] = true
			for it := v.MapRange(); it.Next(); {
				if walk(it.Value()) {
					return true
				}
			}
		case reflect.Slice, reflect.Array:
			if v.Kind() == reflect.Slice && v.Len() > 0 {
				if seen[v.Pointer()] {
					return true
				}
				seen[v.Pointer()] = true
			}
			for i := 0; i < v.Len(); i++ {
				if walk(v.Index(i)) {
					return true
				}
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if walk(v.Field(i)) {
					return true
				}
			}
		}
		return false
	}
	return walk(v)
}
