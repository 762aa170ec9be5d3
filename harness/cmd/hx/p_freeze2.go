package main

import (
	"bytes"
	"encoding"
	"encoding/binary"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/Sereal/Sereal/Go/sereal"
	"verif/harness/spec"
)

func init() {
	register(&Prop{ID: "C20", Fn: c20, Quick: 600000, Thorough: 15000000, Batch: 30000,
		Rule: "values of 12 kinds of types with methods (structs, numbers, strings, slices, maps, arrays, functions, embedded, generic, time.Time) at generated places " +
			"of typed and untyped values, encoder and decoder settings, registered names, methods that fail, and hand-made documents with both tags; " +
			"non-trivial: at least one frozen item with a payload that is not empty",
		Assume: []string{"methods do not keep or change the bytes they are given"}})
}

// More types with methods. The payload of each is the text of it.
type (
	zStr   string
	zBytes []byte
	zMap   map[string]string
	zArr   [6]byte
	zBool  bool
	zFunc  func() string
	zEmb   struct {
		Frozen
		extra int
	}
	zGen[T any] struct {
		X T
		s string
	}
	zBad struct{ S string }
	// zPtr has its methods on the pointer: it is no BinaryMarshaler as a value.
	zPtr struct{ S string }
)

func (z zStr) MarshalBinary() ([]byte, error)    { return []byte(z), nil }
func (z *zStr) UnmarshalBinary(b []byte) error   { *z = zStr(b); return nil }
func (z zBytes) MarshalBinary() ([]byte, error)  { return bytes.Clone(z), nil }
func (z *zBytes) UnmarshalBinary(b []byte) error { *z = append(zBytes{}, b...); return nil }
func (z zMap) MarshalBinary() ([]byte, error)    { return []byte(z["payload"]), nil }
func (z *zMap) UnmarshalBinary(b []byte) error   { *z = zMap{"payload": string(b)}; return nil }
func (z zArr) MarshalBinary() ([]byte, error)    { return append([]byte{}, z[:]...), nil }
func (z *zArr) UnmarshalBinary(b []byte) error   { copy(z[:], b); return nil }
func (z zBool) MarshalBinary() ([]byte, error)   { return fmt.Appendf(nil, "%t", z), nil }
func (z *zBool) UnmarshalBinary(b []byte) error  { *z = string(b) == "true"; return nil }
func (z zFunc) MarshalBinary() ([]byte, error)   { return []byte(z()), nil }
func (z *zFunc) UnmarshalBinary(b []byte) error {
	s := string(b)
	*z = func() string { return s }
	return nil
}
func (z zGen[T]) MarshalBinary() ([]byte, error)  { return []byte(z.s), nil }
func (z *zGen[T]) UnmarshalBinary(b []byte) error { z.s = string(b); return nil }
func (z *zPtr) MarshalBinary() ([]byte, error)    { panic("not called") }

// methodError is what methods fail with.
type methodError struct{ s string }

func (e *methodError) Error() string { return "method: " + e.s }

func (z zBad) MarshalBinary() ([]byte, error) {
	if strings.HasPrefix(z.S, "enc") {
		return []byte("partial"), &methodError{z.S}
	}
	return []byte(z.S), nil
}

func (z *zBad) UnmarshalBinary(b []byte) error {
	if strings.HasPrefix(string(b), "dec") {
		return &methodError{string(b)}
	}
	z.S = string(b)
	return nil
}

// frozenKinds makes values from payloads.
var frozenKinds = []func(s string) any{
	func(s string) any { return Frozen{s} },
	func(s string) any { return zStr(s) },
	func(s string) any { return zBytes(s) },
	func(s string) any { return zMap{"payload": s} },
	func(s string) any { var a zArr; copy(a[:], s); return a },
	func(s string) any { return zBool(len(s)%2 == 1) },
	func(s string) any { return zEmb{Frozen: Frozen{s}} },
	func(s string) any { return zGen[int]{s: s} },
	func(s string) any { return zGen[[]string]{s: s} },
	func(s string) any { return FrozenInt(len(s)) },
	func(s string) any { return time.Unix(int64(len(s)), int64(len(s)%10)).UTC() },
	func(s string) any { return zBad{s} },
	func(s string) any { return zFunc(func() string { return s }) },
}

func payload(z any) string {
	b, err := z.(encoding.BinaryMarshaler).MarshalBinary()
	if err != nil {
		return ""
	}
	return string(b)
}

func goClass(z any) string { t := reflect.TypeOf(z); return t.PkgPath() + "." + t.Name() }

func drawPayload(c *Case) string {
	t := c.T
	switch spec.Pick(t, 4, 2, 2, 1) {
	case 0:
		return spec.AnyStr(t, false, 300)
	case 1:
		return spec.One(t, "", "a", "payload", "=srl\x03\x00", "\x28\x2b\x01\x61a", "\x80\xff", "string")
	case 2:
		return spec.Expand(spec.N(t, 0, 9), spec.One(t, 30, 31, 32, 33, 127, 128, 1000), false)
	}
	return spec.Expand(1, spec.One(t, 16383, 16384, 70000), false)
}

func c20(c *Case) {
	switch spec.Pick(c.T, 4, 4, 3, 2, 2) {
	case 4:
		c20gen(c)
	case 0:
		c20typed(c)
	case 1:
		c20any(c)
	case 2:
		c20doc(c)
	case 3:
		c20errors(c)
	}
}

// holder puts a type into a larger one.
func holder(c *Case, base reflect.Type, depth int) reflect.Type {
	t := c.T
	for ; depth > 0; depth-- {
		switch spec.N(t, 0, 6) {
		case 0:
			base = reflect.SliceOf(base)
		case 1:
			base = reflect.MapOf(reflect.TypeOf(""), base)
		case 2:
			base = reflect.ArrayOf(spec.N(t, 1, 3), base)
		case 3:
			base = reflect.StructOf([]reflect.StructField{
				{Name: "A", Type: reflect.TypeOf(0)},
				{Name: "Z", Type: base, Tag: reflect.StructTag(spec.One(t, "", `sereal:"z"`))},
				{Name: "S", Type: reflect.TypeOf("")},
			})
		case 4:
			base = reflect.StructOf([]reflect.StructField{{Name: "Z", Type: base}, {Name: "Y", Type: reflect.SliceOf(base)}, {Name: "X", Type: base}})
		case 5, 6:
			if base.Kind() == reflect.Struct {
				base = reflect.PointerTo(base)
			} else {
				base = reflect.SliceOf(base)
			}
		}
	}
	return base
}

// fillHolder fills a variable whose leaves are frozen.
func fillHolder(c *Case, v reflect.Value, leaf reflect.Type, mk func() reflect.Value, pool map[reflect.Type][]reflect.Value) {
	t := c.T
	if v.Type() == leaf {
		v.Set(mk())
		return
	}
	switch v.Kind() {
	case reflect.Int:
		v.SetInt(int64(spec.N(t, 0, 3)))
	case reflect.String:
		v.SetString(spec.One(t, "", "s", "payload"))
	case reflect.Slice:
		n := spec.N(t, 0, 3)
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			fillHolder(c, v.Index(i), leaf, mk, pool)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fillHolder(c, v.Index(i), leaf, mk, pool)
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		for i := spec.N(t, 0, 3); i > 0; i-- {
			x := reflect.New(v.Type().Elem()).Elem()
			fillHolder(c, x, leaf, mk, pool)
			v.SetMapIndex(reflect.ValueOf(spec.One(t, "a", "b", "payload")), x)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fillHolder(c, v.Field(i), leaf, mk, pool)
		}
	case reflect.Ptr:
		if l := pool[v.Type()]; len(l) > 0 && spec.Chance(t, 3) {
			v.Set(l[spec.N(t, 0, len(l)-1)])
			return
		}
		if spec.Chance(t, 6) {
			return
		}
		p := reflect.New(v.Type().Elem())
		fillHolder(c, p.Elem(), leaf, mk, pool)
		pool[v.Type()] = append(pool[v.Type()], p)
		v.Set(p)
	}
}

// c20typed: into variables of the same type.
func c20typed(c *Case) {
	t := c.T
	kind := spec.N(t, 0, len(frozenKinds)-2) // functions can't be compared
	mk := func() reflect.Value { return reflect.ValueOf(frozenKinds[kind](drawPayload(c))) }
	z := mk()
	for strings.HasPrefix(payload(z.Interface()), "enc") || strings.HasPrefix(payload(z.Interface()), "dec") {
		z = mk()
	}
	leaf := z.Type()
	typ := holder(c, leaf, spec.N(t, 0, 3))
	v := reflect.New(typ).Elem()
	first := true
	fillHolder(c, v, leaf, func() reflect.Value {
		if first || spec.Chance(t, 3) {
			first = false
			return z
		}
		x := mk()
		if p := payload(x.Interface()); strings.HasPrefix(p, "enc") || strings.HasPrefix(p, "dec") {
			return z
		}
		return x
	}, map[reflect.Type][]reflect.Value{})
	cfg := spec.Enc(t)
	cfg.NoFreeze = false
	c.Descf("settings %+v", cfg)
	c.Descf("type %s", typ)
	c.Describe(func() string { return "value " + spec.Show(v.Interface()) })
	b := encode(c, cfg, v.Interface())
	c.Describe(func() string { return fmt.Sprintf("document % x", cut(b)) })
	doc := checkDoc(c, b, v.Interface(), cfg)
	frozen := 0
	doc.Body.Walk(func(n *spec.Node) {
		if n.K == spec.KFreeze {
			frozen++
		}
	})
	dec := sereal.NewDecoder()
	if spec.Bool(t) { // names have no effect on typed variables
		dec.RegisterName(goClass(z.Interface()), &Frozen{})
	}
	for i := 0; i < 2; i++ {
		w := reflect.New(typ)
		if err := dec.Unmarshal(b, w.Interface()); err != nil {
			c.Fail("decoding into %s failed: %v", typ, err)
		}
		if !reflect.DeepEqual(v.Interface(), w.Elem().Interface()) {
			c.Fail("decoded %s", spec.Show(w.Elem().Interface()))
		}
	}
	c.Class("typed " + leaf.String())
	c.Key(b)
	c.KeyStr(typ.String())
	c.NonTrivial(frozen > 0 && payload(z.Interface()) != "")
}

// c20any: into an interface.
func c20any(c *Case) {
	t := c.T
	g := spec.NewGoGen(t)
	g.Ptrs, g.Typed = spec.Bool(t), spec.Chance(t, 3)
	filled := false
	g.Extra = func(g *spec.GoGen) any {
		k := spec.N(t, 0, len(frozenKinds)-1)
		p := drawPayload(c)
		if strings.HasPrefix(p, "enc") || strings.HasPrefix(p, "dec") {
			p = ""
		}
		filled = filled || p != ""
		z := frozenKinds[k](p)
		switch spec.N(t, 0, 3) {
		case 1: // behind a pointer
			x := reflect.New(reflect.TypeOf(z))
			x.Elem().Set(reflect.ValueOf(z))
			return x.Interface()
		case 2:
			return []encoding.BinaryMarshaler{z.(encoding.BinaryMarshaler)}
		}
		return z
	}
	v := []interface{}{g.Value(), g.Extra(g), zPtr{"z"}}
	cfg := spec.Enc(t)
	c.Descf("settings %+v", cfg)
	c.Describe(func() string { return "value " + spec.Show(v) })
	if _, err := spec.FromGo(v, cfg.GoOpts()); err != nil {
		if _, err := cfg.Marshal(v); err == nil {
			c.Fail("a function was encoded with DisableFREEZE")
		}
		c.Class("function refused")
		c.KeyStr(fmt.Sprint(cfg))
		return
	}
	b := encode(c, cfg, v)
	c.Describe(func() string { return fmt.Sprintf("document % x", cut(b)) })
	doc := checkDoc(c, b, v, cfg)
	frozen := 0
	doc.Body.Walk(func(n *spec.Node) {
		if n.K == spec.KFreeze {
			frozen++
		}
	})
	if cfg.NoFreeze != (frozen == 0) {
		c.Fail("%d frozen items", frozen)
	}
	readFrozen(c, doc, b)
	c.ClassIf(cfg.NoFreeze, "DisableFREEZE")
	c.Class("untyped")
	c.Key(b)
	c.NonTrivial(frozen > 0 && filled)
}

// readFrozen decodes a document with and without PerlCompat and registered names.
func readFrozen(c *Case, doc *spec.Doc, b []byte) {
	t := c.T
	var got interface{}
	if err := (&sereal.Decoder{PerlCompat: true}).Unmarshal(b, &got); err != nil {
		c.Fail("decoding with PerlCompat failed: %v", err)
	}
	if r := (&spec.Matcher{Perl: true, Sharing: true}).Match(doc.Body, got); r != "" {
		c.Fail("PerlCompat: %s", r)
	}
	dec := sereal.NewDecoder()
	classes := map[string]bool{}
	doc.Body.Walk(func(n *spec.Node) {
		if n.K == spec.KFreeze {
			classes[n.S] = true
		}
	})
	reg := map[string]bool{}
	if spec.Bool(t) {
		names := make([]string, 0, len(classes)+1)
		for n := range classes {
			names = append(names, n)
		}
		// an order that does not depend on the map
		for i := range names {
			for k := range names[:i] {
				if names[i] < names[k] {
					names[i], names[k] = names[k], names[i]
				}
			}
		}
		names = append(names, "other", "")
		for _, n := range names {
			if spec.Bool(t) {
				dec.RegisterName(n, new(recorder))
				reg[n] = true
			}
		}
	}
	for i := 0; i < 2; i++ {
		got = nil
		if err := dec.Unmarshal(b, &got); err != nil {
			c.Fail("decoding failed: %v", err)
		}
		m := &spec.Matcher{Frozen: func(n *spec.Node, v any) bool {
			if !reg[n.S] {
				return false
			}
			r, ok := v.(*recorder)
			if !ok || r.data != n.S2 || r.calls != 1 {
				c.Fail("class %q is registered, %s became %s", n.S, n, spec.Show(v))
			}
			return true
		}}
		if r := m.Match(doc.Body, got); r != "" {
			c.Fail("%s", r)
		}
	}
	c.ClassIf(len(reg) > 0, "registered names")
}

// recorder keeps what it gets.
type recorder struct {
	data  string
	calls int
}

func (r *recorder) UnmarshalBinary(b []byte) error {
	r.data = string(b)
	r.calls++
	return nil
}

// c20doc: documents made by hand.
func c20doc(c *Case) {
	t := c.T
	version := spec.N(t, 1, 4)
	base := 1
	if version == 1 {
		base = 6
	}
	var body []byte
	n := spec.N(t, 1, 6)
	body = append(body, spec.TRefN, spec.TArray, byte(n))
	type cls struct {
		name string
		off  int
	}
	var known []cls
	var want []*Frozen
	str := func(s string, bin bool) {
		switch {
		case len(s) < 32 && spec.Bool(t):
			body = append(body, 0x60|byte(len(s)))
		case bin:
			body = append(body, spec.TBinary)
			body = binary.AppendUvarint(body, uint64(len(s)))
		default:
			body = append(body, spec.One(t, byte(spec.TStr), spec.TBinary))
			body = binary.AppendUvarint(body, uint64(len(s)))
		}
		body = append(body, s...)
	}
	v := uint(0)
	copies := 0
	var offs []int
	for i := 0; i < n; i++ {
		offs = append(offs, len(body)+base)
		switch form := spec.N(t, 0, 3); {
		case form == 3 && i > 0:
			k := spec.N(t, 0, i-1)
			body = append(body, spec.TCopy)
			body = binary.AppendUvarint(body, uint64(offs[k]))
			offs[i] = offs[k]
			want = append(want, &Frozen{want[k].Data})
			copies++
			continue
		case form == 1 && len(known) > 0:
			k := known[spec.N(t, 0, len(known)-1)]
			body = append(body, spec.TObjVFreeze)
			body = binary.AppendUvarint(body, uint64(k.off))
			v++
		case form == 2 && len(known) > 0:
			k := known[spec.N(t, 0, len(known)-1)]
			body = append(body, spec.TObjFreeze, spec.TCopy)
			body = binary.AppendUvarint(body, uint64(k.off))
		default:
			k := cls{spec.One(t, "main.Frozen", "A", "", "Foo::Bar", "a class name that is longer than thirty-one bytes", "\u00e9"), 0}
			body = append(body, spec.TObjFreeze)
			k.off = len(body) + base
			str(k.name, false)
			known = append(known, k)
		}
		body = append(body, spec.TRefN, spec.TArray, 1)
		p := drawPayload(c)
		str(p, true)
		want = append(want, &Frozen{p})
	}
	types := spec.Types(version)
	b := spec.Assemble(version, types[spec.N(t, 0, len(types)-1)], []byte{0}, nil, body, 6)
	c.Describe(func() string { return fmt.Sprintf("document % x (raw body % x)", cut(b), cut(body)) })
	doc, err := spec.Parse(b)
	if err != nil {
		panic(err)
	}
	readFrozen(c, doc, b)
	var l []*Frozen
	if err := sereal.Unmarshal(b, &l); err != nil {
		c.Fail("decoding into []*Frozen failed: %v", err)
	}
	if !reflect.DeepEqual(l, want) {
		c.Fail("[]*Frozen: %s, want %s", spec.Show(l), spec.Show(want))
	}
	var ls []zStr
	var lb [][]byte
	if err := sereal.Unmarshal(b, &ls); err != nil {
		c.Fail("decoding into []zStr failed: %v", err)
	}
	if err := sereal.Unmarshal(b, &lb); err != nil {
		c.Fail("decoding into [][]byte failed: %v", err)
	}
	if len(ls) != n || len(lb) != n {
		c.Fail("%d and %d elements", len(ls), len(lb))
	}
	for i := range want {
		if string(ls[i]) != want[i].Data || string(lb[i]) != want[i].Data {
			c.Fail("element %d: %q and %q, want %q", i, ls[i], lb[i], want[i].Data)
		}
	}
	// something that is no frozen object's variable
	var li []int
	if err := sereal.Unmarshal(b, &li); err == nil {
		c.Fail("decoded into []int: %v", li)
	}
	c.Class("documents by hand")
	c.ClassIf(v > 0, "OBJECTV_FREEZE")
	c.ClassIf(copies > 0, "COPY of frozen items")
	c.Key(b)
	c.NonTrivial(true)
}

// c20gen: any documents with frozen items.
func c20gen(c *Case) {
	d := spec.Gen(c.T, spec.DocOpts{MaxItems: 30, Frozen: true})
	c.Describe(func() string { return "document " + d.String() })
	doc, err := spec.Parse(d.Bytes)
	if err != nil {
		panic(err)
	}
	readFrozen(c, doc, d.Bytes)
	n := 0
	doc.Body.Walk(func(x *spec.Node) {
		if x.K == spec.KFreeze {
			n++
		}
	})
	c.Class("any document")
	c.Key(d.Bytes)
	c.NonTrivial(n > 0)
}

// c20errors: methods that fail.
func c20errors(c *Case) {
	t := c.T
	cfg := spec.Enc(t)
	cfg.NoFreeze = false
	enc := spec.Bool(t)
	text := "dec" + spec.One(t, "", "x", "oding")
	if enc {
		text = "enc" + text
	}
	var x any = zBad{text}
	n := spec.N(t, 0, 4)
	for i := 0; i < n; i++ {
		x, _ = wrap(c, x, true)
	}
	c.Descf("settings %+v", cfg)
	c.Describe(func() string { return "value " + spec.Show(x) })
	b, err := cfg.Marshal(x)
	c.KeyStr(fmt.Sprintf("%v %T %s", cfg, x, text))
	c.NonTrivial(true)
	var me *methodError
	if enc {
		if !errors.As(err, &me) || me.s != text {
			c.Fail("the error of MarshalBinary became %v", err)
		}
		c.Class("MarshalBinary fails")
		return
	}
	if err != nil {
		c.Fail("encoding failed: %v", err)
	}
	c.Describe(func() string { return fmt.Sprintf("document % x", cut(b)) })
	dec := sereal.NewDecoder()
	class := goClass(zBad{})
	dec.RegisterName(class, &zBad{})
	var got interface{}
	if err := dec.Unmarshal(b, &got); !errors.As(err, &me) || me.s != text {
		c.Fail("the error of UnmarshalBinary became %v", err)
	}
	if n == 0 {
		var z zBad
		if err := sereal.Unmarshal(b, &z); !errors.As(err, &me) || me.s != text {
			c.Fail("the error of UnmarshalBinary became %v", err)
		}
	}
	// all is well afterwards
	b, err = cfg.Marshal([]zBad{{"fine"}})
	if err != nil {
		c.Fail("encoding failed: %v", err)
	}
	var l []zBad
	if err := dec.Unmarshal(b, &l); err != nil || len(l) != 1 || l[0].S != "fine" {
		c.Fail("decoded %v, %v", l, err)
	}
	c.Class("UnmarshalBinary fails")
}
