package main

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/Sereal/Sereal/Go/sereal"
	"verif/harness/spec"
)

func init() {
	register(&Prop{ID: "C17", Fn: c17, Quick: 20000, Thorough: 200000, Batch: 3000, Race: true, Procs: 4,
		Rule: "2 to 6 goroutines, each with several calls of package functions and of instances of its own on shared values, documents and struct types " +
			"never used before, under the race detector; non-trivial: two goroutines use one value, document or type",
		Assume: []string{"schedules are those that the Go scheduler gives; the race detector judges the happens-before relation of the accesses, not their timing"}})
}

var typeSerial int

// freshType makes a struct type that no one has seen before, a document that fills it, and the value then.
func freshType(c *Case) (typ reflect.Type, body []byte, val reflect.Value) {
	t := c.T
	typeSerial++
	serial := fmt.Sprintf("%d_%d", c.w.seed, typeSerial)
	n := spec.N(t, 1, 5)
	var inner reflect.Type
	var innerBody []byte
	var innerVal reflect.Value
	if spec.Chance(t, 3) && typeSerial%4 != 0 {
		inner, innerBody, innerVal = freshType(c)
	}
	var fs []reflect.StructField
	var sets []func(v reflect.Value)
	body = []byte{spec.TObject, 0x61, 'T', spec.THash, 0}
	str := func(s string) {
		body = append(append(body, spec.TStr, byte(len(s))), s...)
	}
	for i := 0; i < n; i++ {
		i := i
		name := fmt.Sprintf("F%s_%d", serial, i)
		key := name
		f := reflect.StructField{Name: name}
		switch spec.N(t, 0, 3) {
		case 1:
			key = fmt.Sprint("k", i)
			f.Tag = reflect.StructTag(fmt.Sprintf("sereal:%q", key))
		case 2:
			f.Tag = `sereal:"-"`
			key = "-"
		}
		kind := spec.N(t, 0, 3)
		if kind == 3 && inner == nil {
			kind = 0
		}
		set := func(x any) { sets = append(sets, func(v reflect.Value) { v.Field(i).Set(reflect.ValueOf(x)) }) }
		if key != "-" {
			body[4]++
			str(key)
		}
		switch kind {
		case 0:
			f.Type = reflect.TypeOf(0)
			if key != "-" {
				x := spec.N(t, 0, 15)
				body = append(body, byte(x))
				set(x)
			}
		case 1:
			f.Type = reflect.TypeOf("")
			if key != "-" {
				s := strings.Repeat("s", spec.N(t, 0, 40))
				str(s)
				set(s)
			}
		case 2:
			f.Type = reflect.TypeOf((*interface{})(nil)).Elem()
			if key != "-" {
				s := spec.One(t, "x", "some string")
				str(s)
				set(s)
			}
		case 3:
			f.Type = inner
			if key != "-" {
				body = append(body, innerBody...)
				iv := innerVal
				sets = append(sets, func(v reflect.Value) { v.Field(i).Set(iv) })
			}
		}
		fs = append(fs, f)
	}
	typ = reflect.StructOf(fs)
	val = reflect.New(typ).Elem()
	for _, f := range sets {
		f(val)
	}
	return
}

func c17(c *Case) {
	t := c.T
	g := spec.NewGoGen(t)
	g.Budget = min(g.Budget, 30)
	g.Bytes = 8000
	g.Ptrs, g.Typed, g.JSON = spec.Bool(t), spec.Bool(t), true
	g.Perl = spec.Chance(t, 3)
	g.Extra = frozenLeaf
	type shared struct {
		v    any
		desc func() string
	}
	var vals []shared
	var docs, typed, mergeable [][]byte
	var nodes []*spec.Node
	var typedVals []reflect.Value
	for i := spec.N(t, 1, 2); i > 0; i-- {
		v := g.Value()
		vals = append(vals, shared{v, func() string { return spec.Show(v) }})
	}
	for i := spec.N(t, 0, 2); i > 0; i-- {
		typ, body, val := freshType(c)
		_ = typ
		vals = append(vals, shared{val.Interface(), func() string { return fmt.Sprintf("%s: %s", typ, spec.Show(val.Interface())) }})
		ver := spec.N(t, 1, 4)
		types := spec.Types(ver)
		typed = append(typed, spec.Assemble(ver, noZstd(types[spec.N(t, 0, len(types)-1)]), []byte{0}, nil, body, spec.N(t, 1, 9)))
		typedVals = append(typedVals, val)
		if spec.Chance(t, 2) { // also in a container
			vals = append(vals, shared{[]interface{}{val.Interface(), map[string]interface{}{"k": val.Interface()}}, func() string { return fmt.Sprintf("%s in a slice", typ) }})
		}
	}
	for i := spec.N(t, 1, 2); i > 0; i-- {
		d := spec.Gen(t, spec.DocOpts{NoStrPad: true, NoZstd: true})
		docs = append(docs, d.Bytes)
		nodes = append(nodes, d.Body)
		if d.Version < 4 {
			mergeable = append(mergeable, d.Bytes)
		}
		c.Describe(func() string { return "document " + d.String() })
	}
	for i := range vals {
		i := i
		c.Describe(func() string { return fmt.Sprintf("value %d: %s", i, vals[i].desc()) })
	}
	var copies [][]byte
	all := append(append([][]byte{}, docs...), typed...)
	for _, b := range all {
		copies = append(copies, bytes.Clone(b))
		c.Key(b)
	}

	type op struct {
		kind, arg int
		cfg       spec.EncCfg
		out       []byte
		got       any
		err       error
		res       string
	}
	ng := spec.N(t, 2, 6)
	ops := make([][]*op, ng)
	level := spec.N(t, 0, 9)
	uses := map[[2]int]int{}
	same := spec.Chance(t, 3) // all do the same
	for i := range ops {
		if same && i > 0 {
			for _, o := range ops[0] {
				n := *o
				ops[i] = append(ops[i], &n)
			}
			continue
		}
		for k := spec.N(t, 1, 4); k > 0; k-- {
			o := &op{kind: spec.Pick(t, 5, 4, 3, 2, 4, 2, 2)}
			switch o.kind {
			case 0, 1:
				o.arg = spec.N(t, 0, len(vals)-1)
				if o.kind == 1 {
					o.cfg = spec.Enc(t, 1, 2, 3)
					if spec.Bool(t) {
						o.cfg.Level = level
					}
				}
			case 2, 3, 5:
				o.arg = spec.N(t, 0, len(docs)-1)
			case 4:
				if len(typed) == 0 {
					o.kind = 2
					break
				}
				o.arg = spec.N(t, 0, len(typed)-1)
			}
			ops[i] = append(ops[i], o)
		}
	}
	seen := map[[2]int]bool{}
	for i, l := range ops {
		for k, o := range l {
			group := 0
			switch o.kind {
			case 2, 3, 5, 6:
				group = 1
			case 4:
				group = 2
			}
			id := [2]int{group, o.arg}
			if u, ok := uses[id]; ok && u != i {
				seen[id] = true
			}
			uses[id] = i
			c.KeyStr(fmt.Sprint(i, k, o.kind, o.arg, o.cfg))
		}
	}
	c.NonTrivial(len(seen) > 0)
	c.Describe(func() string {
		var sb strings.Builder
		for i, l := range ops {
			fmt.Fprintf(&sb, "goroutine %d:", i)
			for _, o := range l {
				fmt.Fprintf(&sb, " %s(%d)", [...]string{"Marshal", "Encoder.Marshal", "Unmarshal", "PerlCompat Unmarshal", "typed Unmarshal", "DecompressDocument", "Merger"}[o.kind], o.arg)
			}
			sb.WriteString("; ")
		}
		return sb.String()
	})

	do := func(o *op) {
		switch o.kind {
		case 0:
			o.out, o.err = sereal.Marshal(vals[o.arg].v)
		case 1:
			o.out, o.err = o.cfg.New().Marshal(vals[o.arg].v)
		case 2:
			o.err = sereal.Unmarshal(docs[o.arg], &o.got)
		case 3:
			o.err = (&sereal.Decoder{PerlCompat: true}).Unmarshal(docs[o.arg], &o.got)
		case 4:
			p := reflect.New(typedVals[o.arg].Type())
			if o.cfg.Version == 0 {
				o.err = sereal.Unmarshal(typed[o.arg], p.Interface())
			} else {
				o.err = sereal.NewDecoder().Unmarshal(typed[o.arg], p.Interface())
			}
			o.got = p.Elem().Interface()
		case 5:
			o.out, o.err = sereal.DecompressDocument(nil, docs[o.arg])
		case 6:
			m := sereal.NewMerger()
			m.DedupeStrings = true
			for _, b := range mergeable {
				if _, err := m.Append(b); err != nil {
					o.res += err.Error()
				}
			}
			o.out, o.err = m.Finish()
		}
	}
	var wg sync.WaitGroup
	var ready atomic.Int32
	for i := range ops {
		wg.Add(1)
		go func(l []*op) {
			defer wg.Done()
			ready.Add(1)
			for ready.Load() < int32(ng) {
				runtime.Gosched()
			}
			for _, o := range l {
				func() {
					defer func() {
						if r := recover(); r != nil {
							o.res = fmt.Sprintf("panic: %v", r)
						}
					}()
					do(o)
				}()
			}
		}(ops[i])
	}
	wg.Wait()

	for i, b := range all {
		if !bytes.Equal(b, copies[i]) {
			c.Fail("an input buffer was changed")
		}
	}
	for i, l := range ops {
		for _, o := range l {
			if strings.HasPrefix(o.res, "panic") {
				c.Fail("goroutine %d: %s", i, o.res)
			}
			if o.err != nil {
				c.Fail("goroutine %d: operation %d failed: %v", i, o.kind, o.err)
			}
			switch o.kind {
			case 0, 1:
				checkDoc(c, o.out, vals[o.arg].v, o.cfg)
			case 2, 3:
				m := &spec.Matcher{Perl: o.kind == 3, Sharing: o.kind == 3}
				if r := m.Match(nodes[o.arg], o.got); r != "" {
					c.Fail("goroutine %d: %s", i, r)
				}
			case 4:
				if d := spec.SameTyped(typedVals[o.arg], reflect.ValueOf(o.got)); d != "" {
					c.Fail("goroutine %d: %s", i, d)
				}
			case 5, 6:
				alone := *o
				alone.res = ""
				do(&alone)
				if alone.res != o.res || !bytes.Equal(alone.out, o.out) || alone.err != nil {
					c.Fail("goroutine %d: operation %d gave % x, alone % x (%s, %s)", i, o.kind, cut(o.out), cut(alone.out), o.res, alone.res)
				}
			}
			c.Class([...]string{"Marshal", "Encoder.Marshal", "Unmarshal", "PerlCompat Unmarshal", "typed Unmarshal", "DecompressDocument", "Merger"}[o.kind])
		}
	}
	c.ClassIf(same, "the same calls in all goroutines")
}

// noZstd replaces Zstandard, which the build for the race detector has no library for.
func noZstd(typ int) int {
	if typ == spec.DZstd {
		return spec.DRaw
	}
	return typ
}
