package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"

	"github.com/Sereal/Sereal/Go/sereal"
	"verif/harness/spec"
)

func init() {
	register(&Prop{ID: "C01", Fn: c01, Quick: 1200000, Thorough: 30000000,
		Rule: "random untyped trees x encoder settings; non-trivial: the tree has a container with at least one element"})
	register(&Prop{ID: "C02", Fn: c02, Quick: 1600000, Thorough: 30000000, Batch: 20000,
		Rule:   "random types (named ones and ones made at run time) and values of them x encoder settings; non-trivial: the type is a container and the value not empty",
		Assume: []string{"typed pointers other than to structs are outside of the domain: the decoder documents no support for them"}})
	register(&Prop{ID: "C03", Fn: c03, Quick: 800000, Thorough: 15000000,
		Rule: "random values with pointers, Perl wrappers and typed parts x encoder settings, read by the independent parser; non-trivial: the document has a container with an element"})
	register(&Prop{ID: "C21", Fn: c21, Quick: 3000000, Thorough: 100000000,
		Rule: "numbers near boundaries x Go types x encodings; non-trivial: the number is not a small integer"})
}

func drawBody(c *Case, b []byte) {
	c.Key(b)
}

// encode marshals or fails.
func encode(c *Case, cfg spec.EncCfg, v any) []byte {
	b, err := cfg.Marshal(v)
	if err != nil {
		c.Fail("encoding failed: %v", err)
	}
	return b
}

func c01(c *Case) {
	t := c.T
	cfg := spec.Enc(t)
	g := spec.NewGoGen(t)
	g.Far = true
	v := g.Value()
	c.Descf("settings %+v", cfg)
	c.Describe(func() string { return "value " + spec.Show(v) })
	hdr := spec.Chance(t, 6) && cfg.Version != 0
	var b []byte
	var err error
	if hdr {
		b, err = cfg.New().MarshalWithHeader(g.Scalar(), v)
	} else {
		b, err = cfg.Marshal(v)
	}
	if err != nil {
		c.Fail("encoding failed: %v", err)
	}
	c.Describe(func() string { return fmt.Sprintf("document % x", cut(b)) })
	var got interface{}
	if spec.Bool(t) {
		err = sereal.Unmarshal(b, &got)
	} else {
		err = sereal.NewDecoder().Unmarshal(b, &got)
	}
	if err != nil {
		c.Fail("decoding failed: %v", err)
	}
	want, err := spec.FromGo(v, spec.GoOpts{})
	if err != nil {
		panic(err)
	}
	if d := (&spec.Matcher{}).Match(want, got); d != "" {
		c.Fail("round trip: %s", d)
	}
	n := want.Count()
	c.Key(b)
	c.NonTrivial(n > 1)
	cfgClasses(c, cfg)
	c.ClassIf(hdr, "with header")
	c.ClassIf(len(b) > 16384, "over 16 KB")
	c.ClassIf(len(b) > 1<<21, "over 2 MB")
	c.ClassIf(n > 15, "over 15 items")
	c.ClassIf(b[4]>>4 != 0, "compressed")
}

func cfgClasses(c *Case, cfg spec.EncCfg) {
	c.Class(fmt.Sprintf("version %d", cfg.Version))
	c.ClassIf(cfg.Perl, "PerlCompat")
	c.ClassIf(cfg.NoDedup, "DisableDedup")
	c.ClassIf(cfg.Comp != 0, fmt.Sprintf("compressor %d", cfg.Comp))
}

func cut(b []byte) []byte {
	if len(b) > 300 {
		return b[:300]
	}
	return b
}

func c02(c *Case) {
	t := c.T
	cfg := spec.Enc(t)
	g := spec.NewGoGen(t)
	typ := g.Type(3)
	v := g.OfType(typ)
	c.Descf("settings %+v", cfg)
	c.Descf("type %s", typ)
	c.Describe(func() string { return "value " + spec.Show(v.Interface()) })
	byPtr := spec.Chance(t, 4) && typ.Kind() == reflect.Struct
	arg := v.Interface()
	if byPtr {
		arg = v.Addr().Interface()
	}
	b := encode(c, cfg, arg)
	c.Describe(func() string { return fmt.Sprintf("document % x", cut(b)) })
	dec := sereal.NewDecoder()
	rounds := 1
	if spec.Chance(t, 5) {
		rounds = 2
	}
	for i := 0; i < rounds; i++ {
		w := reflect.New(typ)
		if err := dec.Unmarshal(b, w.Interface()); err != nil {
			c.Fail("decoding into %s failed: %v", typ, err)
		}
		if d := spec.SameTyped(v, w.Elem()); d != "" {
			c.Fail("round trip: %s", d)
		}
	}
	if spec.Chance(t, 10) { // its own encoding twice
		w := reflect.New(typ)
		if err := dec.Unmarshal(encode(c, cfg, w.Elem().Interface()), w.Interface()); err != nil {
			c.Fail("decoding the zero value of %s failed: %v", typ, err)
		}
	}
	c.KeyStr(typ.String())
	c.Key(b)
	c.NonTrivial(!v.IsZero() && len(b) > 12)
	c.Class(typ.Kind().String())
	cfgClasses(c, cfg)
}

func c03(c *Case) {
	t := c.T
	cfg := spec.Enc(t)
	g := spec.NewGoGen(t)
	g.Far, g.Ptrs, g.Typed, g.JSON = true, spec.Bool(t), spec.Bool(t), true
	g.Perl, g.Bare = spec.Bool(t), cfg.Perl
	g.Extra = frozenLeaf
	v := g.Value()
	c.Descf("settings %+v", cfg)
	c.Describe(func() string { return "value " + spec.Show(v) })
	var hdr any
	var b []byte
	var err error
	if spec.Chance(t, 5) && cfg.Version != 0 {
		g.Budget = 8
		hdr = g.Value()
		c.Describe(func() string { return "header " + spec.Show(hdr) })
		b, err = cfg.New().MarshalWithHeader(hdr, v)
	} else {
		b, err = cfg.Marshal(v)
	}
	if err != nil {
		c.Fail("encoding failed: %v", err)
	}
	c.Describe(func() string { return fmt.Sprintf("document % x", cut(b)) })
	doc := checkDoc(c, b, v, cfg)
	if doc.Type != spec.DRaw && cfg.Comp == 0 {
		c.Fail("compressed without a compressor")
	}
	if doc.Version >= 2 && (hdr != nil) != doc.HasHeader {
		c.Fail("header %v, want %v", doc.HasHeader, hdr != nil)
	}
	if doc.HasHeader {
		want, err := spec.FromGo(hdr, cfg.GoOpts())
		if err != nil {
			panic(err)
		}
		if d := spec.Equal(want, doc.Header, spec.EqOpts{Sharing: true}); d != "" {
			c.Fail("the header means something else: %s", d)
		}
	}
	if cfg.Version != 0 {
		other := cfg
		other.NoDedup = !cfg.NoDedup
		b2 := encode(c, other, v)
		d2 := checkDoc(c, b2, v, other)
		if other.NoDedup && d2.Stats.Copy > 0 {
			c.Fail("COPY tags in spite of DisableDedup")
		}
		if d := spec.Equal(doc.Body, d2.Body, spec.EqOpts{Sharing: true}); d != "" {
			c.Fail("deduplication changes the meaning: %s", d)
		}
	}
	c.Key(b)
	c.NonTrivial(doc.Stats.Items > 1)
	cfgClasses(c, cfg)
	c.ClassIf(doc.Stats.Copy > 0, "COPY")
	c.ClassIf(doc.Stats.RefP > 0, "REFP")
	c.ClassIf(doc.Stats.MaxOffset > 127, "offset > 127")
	c.ClassIf(doc.Stats.MaxOffset > 16383, "offset > 16383")
	c.ClassIf(doc.HasHeader, "header")
}

// checkDoc reads a document that should mean v.
func checkDoc(c *Case, b []byte, v any, cfg spec.EncCfg) *spec.Doc {
	doc, err := spec.Parse(b)
	if err != nil {
		c.Fail("the document is malformed: %v", err)
	}
	if doc.Version != cfg.Effective() {
		c.Fail("version %d, want %d", doc.Version, cfg.Effective())
	}
	want, err := spec.FromGo(v, cfg.GoOpts())
	if err != nil {
		panic(err)
	}
	if d := spec.Equal(want, doc.Body, spec.EqOpts{Sharing: true}); d != "" {
		c.Fail("the document means something else: %s", d)
	}
	return doc
}

func c21(c *Case) {
	t := c.T
	switch spec.Pick(t, 3, 3, 2, 1) {
	case 0: // encoding of Go numbers
		cfg := spec.Enc(t, 3, 2, 1, 0)
		g := spec.NewGoGen(t)
		var v any
		switch spec.Pick(t, 3, 2, 2) {
		case 0:
			v = g.Scalar()
			for _, ok := v.(string); ok || v == nil || reflect.TypeOf(v).Kind() == reflect.Slice; _, ok = v.(string) {
				v = int(spec.AnyInt(t))
			}
		case 1:
			v = g.Number()
		case 2:
			v = g.OfType(numTypes[spec.N(t, 0, len(numTypes)-1)]).Interface()
		}
		where := spec.N(t, 0, 3)
		arg := v
		switch where {
		case 1:
			arg = []interface{}{v}
		case 2:
			arg = map[string]interface{}{"k": v}
		case 3:
			s := reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(v)), 1, 1)
			s.Index(0).Set(reflect.ValueOf(v))
			arg = s.Interface()
		}
		c.Descf("settings %+v", cfg)
		c.Describe(func() string { return "value " + spec.Show(arg) })
		b := encode(c, cfg, arg)
		c.Describe(func() string { return fmt.Sprintf("document % x", cut(b)) })
		checkDoc(c, b, arg, cfg)
		want, _ := spec.FromGo(arg, spec.GoOpts{})
		var got interface{}
		if err := sereal.Unmarshal(b, &got); err != nil {
			c.Fail("decoding failed: %v", err)
		}
		if d := (&spec.Matcher{}).Match(want, got); d != "" {
			c.Fail("%s", d)
		}
		if num, _ := spec.FromGo(v, spec.GoOpts{}); where == 0 || where == 3 && want.K == spec.KArray {
			decodeNumber(c, b, num, arg, where == 3)
		}
		c.Class("encode " + reflect.TypeOf(v).Kind().String())
		c.Key(b)
		c.KeyStr(reflect.TypeOf(arg).String())
		c.NonTrivial(len(b) > 8)
	case 1: // any encoding of integers
		ver := spec.N(t, 1, 4)
		var body []byte
		n := &spec.Node{}
		switch spec.Pick(t, 1, 1, 4, 4) {
		case 0:
			n = spec.Int(int64(spec.N(t, 0, 15)))
			body = []byte{byte(n.U)}
		case 1:
			x := spec.N(t, -16, -1)
			n = spec.Int(int64(x))
			body = []byte{byte(32 + x)}
		case 2:
			u := spec.AnyUint(t)
			n = spec.Uint(u)
			body = sloppyVarint(c, []byte{spec.TVarint}, u)
		case 3:
			i := spec.AnyInt(t)
			n = spec.Int(i)
			body = sloppyVarint(c, []byte{spec.TZigzag}, uint64(i<<1)^uint64(i>>63))
		}
		b := spec.Assemble(ver, spec.DRaw, []byte{0}, nil, body, 0)
		c.Descf("document % x", b)
		decodeNumber(c, b, n, nil, false)
		arr := spec.Assemble(ver, spec.DRaw, []byte{0}, nil, append([]byte{spec.TArray, 1}, body...), 0)
		decodeNumber(c, arr, n, nil, true)
		c.Class("document integer")
		c.Key(b)
		c.NonTrivial(len(body) > 1)
	case 2: // floats
		ver := spec.N(t, 1, 4)
		var body []byte
		n := &spec.Node{}
		if spec.Bool(t) {
			n.K, n.U = spec.KF32, uint64(spec.AnyF32(t))
			body = []byte{spec.TFloat}
			for i := 0; i < 4; i++ {
				body = append(body, byte(n.U>>(8*i)))
			}
		} else {
			n.K, n.U = spec.KF64, spec.AnyF64(t)
			body = []byte{spec.TDouble}
			for i := 0; i < 8; i++ {
				body = append(body, byte(n.U>>(8*i)))
			}
		}
		b := spec.Assemble(ver, spec.DRaw, []byte{0}, nil, body, 0)
		c.Descf("document % x", b)
		decodeNumber(c, b, n, nil, false)
		c.Class("document float")
		c.Key(b)
		c.NonTrivial(true)
	case 3: // a typed slice of many numbers
		typ := numTypes[spec.N(t, 0, len(numTypes)-1)]
		g := spec.NewGoGen(t)
		ln := spec.N(t, 1, 20)
		s := reflect.MakeSlice(reflect.SliceOf(typ), ln, ln)
		for i := 0; i < ln; i++ {
			s.Index(i).Set(g.OfType(typ))
		}
		c.Describe(func() string { return "value " + spec.Show(s.Interface()) })
		b := encode(c, spec.Enc(t, 3, 2, 1), s.Interface())
		p := reflect.New(s.Type())
		if err := sereal.Unmarshal(b, p.Interface()); err != nil {
			c.Fail("decoding failed: %v", err)
		}
		if d := spec.SameTyped(s, p.Elem()); d != "" {
			c.Fail("%s", d)
		}
		c.Class("typed slice")
		c.Key(b)
		c.NonTrivial(true)
	}
}

var numTypes = func() []reflect.Type {
	var l []reflect.Type
	for _, v := range []any{int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), float32(0), float64(0),
		spec.MyInt(0), spec.MyI8(0), spec.MyI16(0), spec.MyI32(0), spec.MyI64(0), spec.MyUint(0), spec.MyU8(0), spec.MyU16(0), spec.MyU32(0), spec.MyU64(0),
		spec.MyF32(0), spec.MyF64(0)} {
		l = append(l, reflect.TypeOf(v))
	}
	return l
}()

func sloppyVarint(c *Case, b []byte, u uint64) []byte {
	k := 0
	for u >= 0x80 {
		b = append(b, byte(u)|0x80)
		u >>= 7
		k++
	}
	b = append(b, byte(u))
	k++
	if spec.Chance(c.T, 3) {
		for i := spec.N(c.T, 0, 10-k); i > 0; i-- {
			b[len(b)-1] |= 0x80
			b = append(b, 0)
		}
	}
	return b
}

// decodeNumber decodes a document holding n, or an array of it, into all types that can hold it.
func decodeNumber(c *Case, b []byte, n *spec.Node, orig any, inArray bool) {
	node := n
	if inArray {
		node = &spec.Node{K: spec.KArray, Items: []*spec.Node{n}}
	}
	for _, perl := range []bool{false, true} {
		var got interface{}
		if err := (&sereal.Decoder{PerlCompat: perl}).Unmarshal(b, &got); err != nil {
			c.Fail("decoding failed: %v", err)
		}
		if p, ok := got.(*[]interface{}); ok { // the encoder's PerlCompat
			got = *p
		}
		if d := (&spec.Matcher{Perl: perl}).Match(node, got); d != "" {
			c.Fail("%s", d)
		}
	}
	if orig != nil {
		p := reflect.New(reflect.TypeOf(orig))
		if _, isNum := orig.(fmt.Stringer); !isNum && p.Elem().Kind() != reflect.String && !(inArray && p.Elem().Type().Elem().Kind() == reflect.String) {
			if err := sereal.Unmarshal(b, p.Interface()); err != nil {
				c.Fail("decoding into %T failed: %v", orig, err)
			}
			if d := spec.SameTyped(reflect.ValueOf(orig), p.Elem()); d != "" {
				if p.Elem().Kind() != reflect.Slice || p.Elem().Type().Elem().Kind() != reflect.Float32 { // signalling NaNs
					c.Fail("%s", d)
				}
			}
		}
	}
	for _, typ := range numTypes {
		k := typ.Kind()
		isInt := k >= reflect.Int && k <= reflect.Uint64
		if n.K != spec.KInt && n.K != spec.KF32 && n.K != spec.KF64 {
			continue
		}
		pt := typ
		if inArray {
			pt = reflect.ArrayOf(1, typ)
		}
		p := reflect.New(pt)
		x := p.Elem()
		if inArray {
			x = x.Index(0)
		}
		ok := false
		switch {
		case isInt:
			ok = n.K == spec.KInt && fits(n, x)
		case k == reflect.Float32 && n.K == spec.KF64:
			ok = !x.OverflowFloat(math.Float64frombits(n.U))
		default:
			ok = n.K != spec.KInt
		}
		err := sereal.Unmarshal(b, p.Interface())
		if err != nil && ok {
			c.Fail("decoding into %s failed: %v", typ, err)
		}
		if err != nil {
			continue
		}
		if d := spec.Faithful(n, x); d != "" {
			c.Fail("decoding into %s: %s", typ, d)
		}
	}
}

func fits(n *spec.Node, v reflect.Value) bool {
	if v.CanInt() {
		if n.Neg {
			return n.U <= 1<<63 && !v.OverflowInt(-int64(n.U))
		}
		return n.U <= math.MaxInt64 && !v.OverflowInt(int64(n.U))
	}
	return !n.Neg && !v.OverflowUint(n.U)
}

var _ = bytes.Equal
