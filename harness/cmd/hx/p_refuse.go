package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"net"
	"reflect"
	"time"
	"unsafe"

	"github.com/Sereal/Sereal/Go/sereal"
	"pgregory.net/rapid"
	"verif/harness/spec"
)

func init() {
	register(&Prop{ID: "C25", Fn: c25, Quick: 900000, Thorough: 10000000, Batch: 20000,
		Rule: "values with something unsupported somewhere, and values near those x all settings; documents of all kinds x types that fit, nearly fit and don't fit at all; " +
			"non-trivial: the call fails, or the value or document has more than one item",
		Assume: []string{"byte strings and arrays longer than a Go array lose their end, as documented in the code", "maps with keys of different types that are the same string are left out"}})
}

type (
	oddChan   chan string
	oddFunc   func(int) int
	oddKey    struct{ A, B int }
	oddIface  interface{ Odd() }
	oddImpl   struct{ C chan int }
	oddStr    string
	oddStruct struct {
		A    int
		F    func() `sereal:"f"`
		Next *oddStruct
	}
	evenStruct struct {
		A    int
		F    func()   `sereal:"-"`
		c    chan int //nolint
		Next *evenStruct
	}
)

func (oddImpl) Odd() {}

// types with methods that other packages use to encode them; this one doesn't
type (
	talkInt    int
	talkStr    string
	talkBytes  []byte
	talkStruct struct {
		A int
		b string //nolint
	}
)

func (talkInt) String() string                   { return "talk" }
func (talkInt) MarshalText() ([]byte, error)     { return []byte("text"), nil }
func (talkInt) MarshalJSON() ([]byte, error)     { return []byte("7"), nil }
func (talkInt) Error() string                    { return "error" }
func (talkInt) GobEncode() ([]byte, error)       { return []byte("gob"), nil }
func (talkStr) String() string                   { return "talk" }
func (talkStr) MarshalText() ([]byte, error)     { return []byte("text"), nil }
func (talkStr) MarshalJSON() ([]byte, error)     { return []byte("7"), nil }
func (talkBytes) String() string                 { return "talk" }
func (talkBytes) MarshalText() ([]byte, error)   { return []byte("text"), nil }
func (talkBytes) Error() string                  { return "error" }
func (talkStruct) String() string                { return "talk" }
func (talkStruct) MarshalText() ([]byte, error)  { return []byte("text"), nil }
func (talkStruct) MarshalJSON() ([]byte, error)  { return []byte("7"), nil }
func (talkStruct) Error() string                 { return "error" }
func (talkStruct) MarshalSereal() ([]byte, bool) { return nil, false }
func (*talkInt) UnmarshalText([]byte) error      { panic("UnmarshalText was called") }
func (*talkInt) UnmarshalJSON([]byte) error      { panic("UnmarshalJSON was called") }
func (*talkStr) UnmarshalText([]byte) error      { panic("UnmarshalText was called") }
func (*talkStruct) UnmarshalText([]byte) error   { panic("UnmarshalText was called") }
func (*talkStruct) UnmarshalJSON([]byte) error   { panic("UnmarshalJSON was called") }
func (*talkStruct) Scan(any) error               { panic("Scan was called") }

func talk(t *rapid.T) any {
	return spec.One[any](t, talkInt(spec.N(t, -3, 200)), talkStr("a"), talkBytes("ab"), talkStruct{A: 1, b: "b"}, &talkStruct{A: 2}, time.Duration(spec.N(t, 0, 1<<40)), errors.New("e"),
		net.IP{1, 2, 3, 4}, json.RawMessage("{}"), big.NewInt(7), []error{errors.New("e"), talkInt(1)}, []fmt.Stringer{talkStr("x"), talkStruct{}}, map[string]talkInt{"a": 1}, struct {
			I talkInt
			S talkStr
			T talkStruct
			B talkBytes
			E error
		}{1, "s", talkStruct{A: 1}, talkBytes("b"), talkInt(3)})
}

// odd draws a value that can't be encoded, or looks like it.
func odd(c *Case, g *spec.GoGen) any {
	t := c.T
	k := spec.N(t, 0, 33)
	switch k {
	case 0:
		return make(chan int)
	case 1:
		return oddChan(nil)
	case 2:
		return func() {}
	case 3:
		return oddFunc(nil)
	case 4:
		return complex(1, 2)
	case 5:
		return complex64(0)
	case 6:
		return uintptr(spec.N(t, 0, 9))
	case 7:
		return unsafe.Pointer(nil)
	case 8:
		return map[int]string{spec.N(t, 0, 9): "a"}
	case 9:
		return map[interface{}]interface{}{spec.One[any](t, 1, 2.5, true, struct{}{}, [1]string{"x"}, oddKey{}, nil, 'x', byte(1)): 1}
	case 10:
		return map[interface{}]interface{}{spec.One[any](t, "a", oddStr("b"), spec.MyStr("c")): g.Scalar()}
	case 11:
		return map[interface{}]int{"a": 1, spec.One[any](t, "b", 1): 2, oddStr("c"): 3}
	case 12:
		return map[[2]string]int{{"a", "b"}: 1}
	case 13:
		return map[oddStr]interface{}{"k": g.Scalar()}
	case 14:
		return map[bool]int{true: 1}
	case 15:
		return map[float64]int{1.5: 1}
	case 16:
		return map[oddKey]int{{1, 2}: 3}
	case 17:
		return map[*int]int{new(int): 1}
	case 18:
		return oddStruct{A: 1}
	case 19:
		return &oddStruct{A: 1, Next: &oddStruct{}}
	case 20:
		return evenStruct{A: 1, F: func() {}, Next: &evenStruct{F: func() {}}}
	case 21:
		return oddIface(oddImpl{})
	case 22:
		return []oddIface{oddImpl{}, nil}
	case 23:
		return []complex64{1}
	case 24:
		return []chan int{nil}
	case 25:
		return [2]func(){}
	case 26:
		return map[string]chan int{"a": nil}
	case 27:
		return spec.One[any](t, []func(){}, map[string]complex128{}, map[int]int{}, map[interface{}]int(nil), [0]chan int{}, (*chan int)(nil), (*func())(nil))
	case 28:
		ch := make(chan int)
		return &ch
	case 29:
		x := complex(0, 1)
		return &x
	case 30:
		return talk(t)
	case 31:
		return map[interface{}]interface{}{spec.One[any](t, talkInt(1), talkStr("k"), talkStruct{A: 1}, &talkStruct{}, time.Second, errors.New("e"), json.Number("1")): talk(t)}
	case 32:
		return spec.One[any](t, map[talkInt]int{1: 1, 2: 2}, map[talkStruct]string{{A: 1}: "a"}, map[*talkStruct]int{{}: 1}, map[fmt.Stringer]int{talkInt(1): 1}, map[fmt.Stringer]int{talkStr("key"): 1},
			map[error]int{talkInt(1): 2}, map[talkStr]int{"key": 1, "other": 2}, map[time.Duration]int{1: 1})
	}
	return &sereal.PerlWeakRef{Reference: make(chan int)}
}

func c25(c *Case) {
	if spec.Chance(c.T, 3) {
		c25encode(c)
		return
	}
	c25decode(c)
}

func c25encode(c *Case) {
	t := c.T
	cfg := spec.Enc(t)
	g := spec.NewGoGen(t)
	g.Budget = 12
	g.Bytes = 2000
	g.Typed, g.Ptrs, g.Perl, g.JSON = spec.Bool(t), spec.Bool(t), spec.Bool(t), true
	g.Extra = func(g *spec.GoGen) any { return odd(c, g) }
	var v any
	if spec.Chance(t, 3) {
		v = odd(c, g)
		for n := spec.N(t, 0, 20); n > 0; n-- {
			v, _ = wrap(c, v, false)
		}
	} else {
		v = g.Value()
	}
	c.Descf("settings %+v", cfg)
	c.Describe(func() string { return "value " + spec.Show(v) })
	_, bad := spec.FromGo(v, cfg.GoOpts())
	b, err := cfg.Marshal(v)
	switch {
	case err == nil && bad != nil:
		c.Fail("encoded though %v: % x", bad, cut(b))
	case err == nil:
		checkDoc(c, b, v, cfg)
		c.Key(b)
	case b != nil:
		c.Fail("an error (%v) and a document", err)
	}
	c.Class(map[bool]string{true: "encode: refused", false: "encode: accepted"}[err != nil])
	c.ClassIf(err != nil && bad == nil, "encode: refused, though representable")
	c.KeyStr(spec.Show(v))
	c.NonTrivial(err != nil || len(b) > 10)
}

var oddTypes = []reflect.Type{
	reflect.TypeOf(make(chan int)), reflect.TypeOf(func() {}), reflect.TypeOf(complex64(0)), reflect.TypeOf(complex128(0)), reflect.TypeOf(uintptr(0)), reflect.TypeOf(unsafe.Pointer(nil)),
	reflect.TypeOf(map[int]string{}), reflect.TypeOf(map[interface{}]interface{}{}), reflect.TypeOf(map[oddStr]string{}), reflect.TypeOf(map[[1]string]int{}),
	reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf((*oddIface)(nil)).Elem(), reflect.TypeOf((*fmt.Stringer)(nil)).Elem(),
	reflect.TypeOf((**int)(nil)), reflect.TypeOf((*string)(nil)), reflect.TypeOf((*interface{})(nil)), reflect.TypeOf((*[]int)(nil)), reflect.TypeOf((*map[string]int)(nil)), reflect.TypeOf((**spec.Leaf)(nil)),
	reflect.TypeOf(sereal.PerlObject{}), reflect.TypeOf((*sereal.PerlObject)(nil)), reflect.TypeOf(sereal.PerlRegexp{}), reflect.TypeOf((*sereal.PerlRegexp)(nil)),
	reflect.TypeOf(sereal.PerlUndef{}), reflect.TypeOf((*sereal.PerlUndef)(nil)), reflect.TypeOf(sereal.PerlWeakRef{}), reflect.TypeOf((*sereal.PerlFreeze)(nil)),
	reflect.TypeOf(oddStruct{}), reflect.TypeOf(evenStruct{}), reflect.TypeOf([4]byte{}), reflect.TypeOf([0]int{}), reflect.TypeOf([][]byte{}),
	reflect.TypeOf(talkInt(0)), reflect.TypeOf(talkStr("")), reflect.TypeOf(talkBytes(nil)), reflect.TypeOf(talkStruct{}), reflect.TypeOf((*talkStruct)(nil)), reflect.TypeOf(map[string]talkInt{}), reflect.TypeOf([]talkStr{}),
	reflect.TypeOf(nestS(nil)), reflect.TypeOf(nestM(nil)), reflect.TypeOf(nestP{}),
}

// perturb makes a type that resembles another.
func perturb(c *Case, g *spec.GoGen, typ reflect.Type, depth int) reflect.Type {
	t := c.T
	if spec.Chance(t, 6) || depth > 6 {
		if spec.Chance(t, 3) {
			return spec.One(t, oddTypes...)
		}
		return g.Type(1)
	}
	switch typ.Kind() {
	case reflect.Slice:
		e := perturb(c, g, typ.Elem(), depth+1)
		if spec.Chance(t, 5) {
			return reflect.ArrayOf(spec.N(t, 0, 4), e)
		}
		return reflect.SliceOf(e)
	case reflect.Array:
		e := perturb(c, g, typ.Elem(), depth+1)
		if spec.Chance(t, 5) {
			return reflect.SliceOf(e)
		}
		return reflect.ArrayOf(typ.Len(), e)
	case reflect.Map:
		if typ.Key() != reflect.TypeOf("") {
			return typ
		}
		return reflect.MapOf(typ.Key(), perturb(c, g, typ.Elem(), depth+1))
	case reflect.Ptr:
		if typ.Elem().Kind() != reflect.Struct || typ.Elem().Name() != "" {
			return typ
		}
		e := perturb(c, g, typ.Elem(), depth+1)
		if spec.Chance(t, 4) {
			return e
		}
		return reflect.PointerTo(e)
	case reflect.Struct:
		if typ.Name() != "" {
			return typ
		}
		var fs []reflect.StructField
		for i := 0; i < typ.NumField(); i++ {
			f := typ.Field(i)
			if spec.Chance(t, 12) {
				continue
			}
			fs = append(fs, reflect.StructField{Name: f.Name, PkgPath: f.PkgPath, Tag: f.Tag, Type: perturb(c, g, f.Type, depth+1)})
		}
		return reflect.StructOf(fs)
	}
	return typ
}

func c25decode(c *Case) {
	t := c.T
	g := spec.NewGoGen(t)
	g.Budget, g.Bytes = 20, 2000
	var b []byte
	var body *spec.Node
	var typ reflect.Type
	source := spec.Pick(t, 3, 4, 2)
	switch source {
	case 0: // any document, any type
		d := spec.Gen(t, spec.DocOpts{MaxItems: 30, NoCycle: spec.Bool(t)})
		b, body = d.Bytes, d.Body
		typ = g.Type(2)
		if spec.Chance(t, 3) {
			typ = spec.One(t, oddTypes...)
		}
	case 1: // the document of a type like this
		base := spec.TaggedStruct(t, 2)
		switch spec.N(t, 0, 3) {
		case 1:
			base = reflect.SliceOf(base)
		case 2:
			base = reflect.MapOf(reflect.TypeOf(""), base)
		case 3:
			base = g.Type(2)
			b = encode(c, spec.Enc(t), g.OfType(base).Interface())
			doc, err := spec.Parse(b)
			if err != nil {
				c.Fail("malformed: %v", err)
			}
			body = doc.Body
		}
		if b == nil {
			d := spec.StructDoc(t, base, spec.Bool(t))
			b, body = d.Bytes, d.Body
		}
		typ = perturb(c, g, base, 0)
	case 2: // any value, odd containers
		v := g.Value()
		b = encode(c, spec.Enc(t), v)
		doc, err := spec.Parse(b)
		if err != nil {
			c.Fail("malformed: %v", err)
		}
		body = doc.Body
		typ = spec.One(t, oddTypes...)
		for n := spec.N(t, 0, 2); n > 0; n-- {
			switch spec.N(t, 0, 3) {
			case 0:
				typ = reflect.SliceOf(typ)
			case 1:
				typ = reflect.MapOf(reflect.TypeOf(""), typ)
			case 2:
				typ = reflect.PointerTo(typ)
			case 3:
				typ = reflect.ArrayOf(2, typ)
			}
		}
	}
	c.Describe(func() string { return fmt.Sprintf("document % x = %s", cut(b), body) })
	c.Descf("type %s", typ)
	v := reflect.New(typ)
	dec := sereal.NewDecoder()
	if spec.Chance(t, 20) { // not a pointer
		if typ.Kind() != reflect.Ptr && typ.Kind() != reflect.Interface {
			if err := dec.Unmarshal(b, v.Elem().Interface()); err == nil {
				c.Fail("decoding into something that isn't a pointer succeeded")
			}
			c.Class("not a pointer")
		}
	}
	err := dec.Unmarshal(b, v.Interface())
	if err == nil {
		if r := spec.Faithful(body, v.Elem()); r != "" {
			c.Fail("%s\ndecoded: %s", r, spec.Show(v.Elem().Interface()))
		}
	}
	c.Class(map[bool]string{true: "decode: refused", false: "decode: accepted"}[err != nil])
	c.Class(fmt.Sprintf("decode source %d %v", source, err == nil))
	c.KeyStr(typ.String())
	c.Key(b)
	c.NonTrivial(err != nil || body.Count() > 1)
}
