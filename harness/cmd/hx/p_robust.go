package main

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"

	"github.com/Sereal/Sereal/Go/sereal"
	"verif/harness/spec"
)

func init() {
	register(&Prop{ID: "C06", Fn: c06, Quick: 1000000, Thorough: 16000000,
		Rule:   "damaged valid documents, random tags, deep nesting, false claims, lies about compression, noise, given to every entry point; non-trivial: the document header is accepted",
		Assume: []string{"40 s of CPU time for one input count as an endless loop"}})
	register(&Prop{ID: "C07", Fn: c07, Quick: 600000, Thorough: 10000000,
		Rule: "proper prefixes of generated documents (all of them for short ones); non-trivial: the document holds more than one item"})
	register(&Prop{ID: "C08", Fn: c08, Quick: 800000, Thorough: 10000000,
		Rule: "hostile documents with the bytes allocated counted; non-trivial: the document header is accepted"})
	register(&Prop{ID: "C14", Fn: c14, Quick: 1600000, Thorough: 40000000,
		Rule: "all versions, types and magics with valid bodies; non-trivial: the magic is one of the known ones"})
}

type nestS []nestS
type nestM map[string]nestM
type nestP struct {
	Next *nestP
	N    []nestP
	M    map[string]interface{}
}

type nestB struct{ A, B *nestB }
type nestV struct{ X, Y, Z []nestV }

// targets a hostile document is decoded into.
var targets = []func() any{
	func() any { return new(interface{}) },
	func() any { var v interface{} = map[string]interface{}{"a": 1}; return &v },
	func() any { var v interface{} = &spec.Rec{}; return &v },
	func() any { return new(spec.Rec) },
	func() any { return new(spec.Pair) },
	func() any { return new(spec.Leaf) },
	func() any { return new(spec.Wide) },
	func() any { return new(spec.Emb) },
	func() any { return new([]spec.Rec) },
	func() any { return new([]*spec.Rec) },
	func() any { return new([]spec.Wide) },
	func() any { return new(map[string]*spec.Rec) },
	func() any { return new([]interface{}) },
	func() any { return new(map[string]interface{}) },
	func() any { return new(map[spec.MyStr]int) },
	func() any { return new(map[int]int) },
	func() any { return new(map[string]map[string][]string) },
	func() any { return new([][][]int) },
	func() any { return new([]string) },
	func() any { return new([][]byte) },
	func() any { return new([]byte) },
	func() any { return new([4]byte) },
	func() any { return new([3]interface{}) },
	func() any { return new([2][2]int8) },
	func() any { return new(string) },
	func() any { return new(int) },
	func() any { return new(int8) },
	func() any { return new(uint64) },
	func() any { return new(float32) },
	func() any { return new(float64) },
	func() any { return new(bool) },
	func() any { return new(*int) },
	func() any { return new(**spec.Leaf) },
	func() any { return new(chan int) },
	func() any { return new(func()) },
	func() any { return new(complex128) },
	func() any { return new(fmt.Stringer) },
	func() any { return new(uintptr) },
	func() any { return new(nestS) },
	func() any { return new(nestM) },
	func() any { return new(nestP) },
	func() any { return new([]nestB) },
	func() any { return new([]*nestB) },
	func() any { return new(map[string]nestB) },
	func() any { return new([]nestV) },
	func() any { return new([]nestP) },
	func() any { return new([]nestM) },
	func() any { return new([]map[string]interface{}) },
	func() any { return new(Frozen) },
	func() any { return new(FrozenInt) },
	func() any { return new(FrozenSlice) },
	func() any { return new([]Frozen) },
	func() any { return new(map[string]*Frozen) },
	func() any { return new(sereal.PerlObject) },
	func() any { return new(*sereal.PerlObject) },
	func() any { return new(sereal.PerlRegexp) },
	func() any { return new(*sereal.PerlRegexp) },
	func() any { return new(sereal.PerlWeakRef) },
	func() any { return new(*sereal.PerlFreeze) },
	func() any { return new(sereal.PerlUndef) },
	func() any { return new(spec.MyBytes) },
	func() any { return new(spec.MyMap) },
}

func newMerger(c *Case) *sereal.Merger {
	t := c.T
	var m *sereal.Merger
	switch spec.N(t, 0, 3) {
	case 0:
		m = sereal.NewMerger()
	case 1:
		m = sereal.NewMergerV3()
	case 2:
		m = sereal.NewMergerV2()
	case 3:
		m = &sereal.Merger{}
	}
	m.KeepFlat = spec.Bool(t)
	m.DedupeStrings = spec.Bool(t)
	if spec.Bool(t) {
		m.TopLevelElement = sereal.TopLevelArray
	} else {
		m.TopLevelElement = sereal.TopLevelArrayRef
	}
	return m
}

func c06(c *Case) {
	t := c.T
	deep := 3000
	if spec.Chance(t, 40) {
		deep = 150000
		if c.Thorough {
			deep = 1500000
		}
	}
	h := spec.GenHostile(t, spec.HostileOpts{Deep: deep})
	b := h.Bytes
	c.Describe(func() string { return fmt.Sprintf("%s: %d bytes % x", h.Kind, len(b), cut(b)) })
	orig := append([]byte(nil), b...)
	dec := &sereal.Decoder{PerlCompat: spec.Chance(t, 3), DisableReferentialIntegrity: spec.Chance(t, 4)}
	what := spec.Pick(t, 6, 8, 2, 2, 3, 4)
	var err error
	switch what {
	case 0:
		var v interface{}
		err = dec.Unmarshal(b, &v)
		c.Class("untyped")
	case 1:
		var dst any
		if spec.Chance(t, 4) {
			typ := spec.NewGoGen(t).Type(3)
			dst = reflect.New(typ).Interface()
		} else {
			dst = targets[spec.N(t, 0, len(targets)-1)]()
		}
		c.Descf("into %T", dst)
		if spec.Chance(t, 3) {
			dec.RegisterName("C", &Frozen{})
			dec.RegisterName("a", &Frozen{})
		}
		err = dec.Unmarshal(b, dst)
		if err == nil && spec.Chance(t, 5) { // again into the same variable
			err = dec.Unmarshal(b, dst)
		}
		c.Class("typed")
	case 2:
		var hd interface{}
		err = dec.UnmarshalHeader(b, &hd)
		c.Class("header")
	case 3:
		hd, bd := targets[spec.N(t, 0, len(targets)-1)](), targets[spec.N(t, 0, len(targets)-1)]()
		c.Descf("header into %T, body into %T", hd, bd)
		err = dec.UnmarshalHeaderBody(b, hd, bd)
		c.Class("header and body")
	case 4:
		var dst []byte
		if spec.Bool(t) {
			dst = make([]byte, spec.N(t, 0, 2*len(b)+100))
		}
		c.Descf("DecompressDocument with a destination of %d", len(dst))
		var out []byte
		out, err = sereal.DecompressDocument(dst, b)
		if err == nil && !sereal.LooksLikeSereal(out) && sereal.LooksLikeSereal(b) && len(out) >= 7 {
			c.Fail("the result % x is no document", cut(out))
		}
		c.Class("DecompressDocument")
	case 5:
		m := newMerger(c)
		c.Descf("merger %+v", *m)
		if spec.Bool(t) {
			if _, err := m.Append(spec.Gen(t, spec.DocOpts{NoFreeze: true, MaxItems: 6, NoStrPad: true}).Bytes); err != nil {
				c.Class("first append failed")
			}
		}
		_, err = m.Append(b)
		if err == nil {
			_, err = m.Append(b)
		}
		var out []byte
		out, ferr := m.Finish()
		if ferr != nil || !sereal.LooksLikeSereal(out) {
			c.Fail("Finish: %v, % x", ferr, cut(out))
		}
		c.Class("merger")
	}
	looks := sereal.LooksLikeSereal(b)
	if !bytes.Equal(b, orig) {
		c.Fail("the input was modified")
	}
	c.Key(b)
	c.KeyStr(fmt.Sprint(what))
	c.NonTrivial(looks)
	c.Class(h.Kind)
	c.ClassIf(err == nil, "accepted")
	c.ClassIf(looks, "header accepted")
}

// c07: no proper prefix is accepted.
func c07(c *Case) {
	t := c.T
	merge := spec.Chance(t, 4)
	o := spec.DocOpts{NoTrailing: true, MaxItems: 40}
	if merge {
		o.NoStrPad = true
	}
	d := spec.Gen(t, o)
	c.Describe(func() string { return "document " + d.String() })
	b := d.Bytes
	end := len(b)
	var cuts []int
	if end <= 200 && !merge || end <= 60 {
		for i := 0; i < end; i++ {
			cuts = append(cuts, i)
		}
	} else {
		for i := 0; i < 12; i++ {
			switch spec.Pick(t, 2, 2, 1) {
			case 0:
				cuts = append(cuts, spec.N(t, 0, end-1))
			case 1:
				cuts = append(cuts, end-1-spec.N(t, 0, min(end-1, 20)))
			case 2:
				cuts = append(cuts, spec.N(t, 0, min(end-1, 40)))
			}
		}
	}
	perl := spec.Chance(t, 3)
	typed := spec.Chance(t, 4)
	for _, k := range cuts {
		// a slice of its own, lest the rest be read beyond its end
		p := append(make([]byte, 0, k), b[:k]...)
		if merge {
			m := newMerger(c)
			m.KeepFlat = spec.Bool(t)
			if n, err := m.Append(p); err == nil {
				c.Fail("Append accepts the first %d bytes (%d elements)", k, n)
			}
			continue
		}
		var v interface{}
		var dst any = &v
		if typed {
			dst = new(interface{})
			*dst.(*interface{}) = 1 // decoded by way of reflection
		}
		if err := (&sereal.Decoder{PerlCompat: perl}).Unmarshal(p, dst); err == nil {
			c.Fail("the first %d bytes are accepted (PerlCompat %v, reflection %v): %s", k, perl, typed, spec.Show(v))
		}
		if d.HasHeader && k < d.BodyStart {
			if err := (&sereal.Decoder{PerlCompat: perl}).UnmarshalHeader(p, dst); err == nil {
				c.Fail("the first %d bytes are accepted as a header: %s", k, spec.Show(v))
			}
		}
		if d.Type != spec.DRaw && k < len(b) {
			if r, err := sereal.DecompressDocument(nil, p); err == nil {
				c.Fail("DecompressDocument accepts the first %d bytes: % x", k, cut(r))
			}
		}
	}
	// the header's content cut short, by its stated length
	if d.HasHeader && !merge {
		_, n, _ := spec.Uvarint(b[5:])
		hd := b[5+n : d.BodyStart]
		for i := 0; i < 6; i++ {
			k := spec.N(t, 1, len(hd)-1)
			// PADs at the end are no loss
			x := append(append([]byte(nil), b[:5]...), byte(k&127))
			if k > 127 {
				x = append(append([]byte(nil), b[:5]...), byte(k&127|128), byte(k>>7))
			}
			if k > 16383 {
				break
			}
			x = append(x, hd[:k]...)
			x = append(x, 0x60)
			var v interface{}
			if err := (&sereal.Decoder{PerlCompat: perl}).UnmarshalHeader(x, &v); err == nil {
				c.Fail("the first %d bytes of the metadata are accepted: %s", k, spec.Show(v))
			}
		}
	}
	docClasses(c, d)
	c.ClassIf(merge, "merger")
	c.Key(b)
	c.NonTrivial(d.Body.Count() > 1)
}

// c08: what is allocated depends on what is there.
func c08(c *Case) {
	t := c.T
	h := spec.GenHostile(t, spec.HostileOpts{Deep: 3000, NoCopy: true})
	b := h.Bytes
	c.Describe(func() string { return fmt.Sprintf("%s: %d bytes % x", h.Kind, len(b), cut(b)) })
	real := len(b)
	factor := 1
	// decompressed size, if it can be decompressed
	body := h.Body
	if body == nil {
		body = b
	}
	real += len(body)
	copies := 1
	for _, x := range body {
		if x&0x7f == spec.TCopy {
			copies++
		}
	}
	perl := spec.Chance(t, 3)
	dec := &sereal.Decoder{PerlCompat: perl}
	what := spec.Pick(t, 5, 6, 2, 3, 2)
	var dst any
	var m *sereal.Merger
	switch what {
	case 0:
		dst = new(interface{})
	case 1, 4:
		dst = targets[spec.N(t, 0, len(targets)-1)]()
		factor = 1 + elemSize(reflect.TypeOf(dst).Elem(), 0)/16
		c.Descf("into %T", dst)
	case 3:
		m = newMerger(c)
		c.Descf("merger %+v", *m)
	}
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	var err error
	switch what {
	case 0, 1:
		err = dec.Unmarshal(b, dst)
	case 2:
		_, err = sereal.DecompressDocument(nil, b)
	case 3:
		_, err = m.Append(b)
	case 4:
		err = dec.UnmarshalHeader(b, dst)
	}
	runtime.ReadMemStats(&after)
	used := after.TotalAlloc - before.TotalAlloc
	bound := uint64(300000) + uint64(real)*600*uint64(factor)*uint64(copies)
	if used > bound && len(b) > 5 && b[4]>>4 != spec.DRaw {
		// damage that left the compressed body readable
		inner := spec.Inflate(b)
		for _, x := range inner {
			if x&0x7f == spec.TCopy {
				copies++
			}
		}
		bound = uint64(300000) + uint64(len(b)+len(inner))*600*uint64(factor)*uint64(copies)
	}
	if len(b) > 5 && b[4]>>4 != spec.DRaw { // the formats bound the size by 1032 times
		bound += uint64(len(b)) * 3 * 1100
		if len(b) > 5 && b[4]>>4 == spec.DZstd {
			bound += 4 << 20
		}
	}
	if used > bound {
		c.Fail("%d bytes were allocated for %d real bytes (operation %d, PerlCompat %v, error %v); the bound is %d", used, real, what, perl, err, bound)
	}
	c.Key(b)
	c.KeyStr(fmt.Sprint(what))
	c.NonTrivial(sereal.LooksLikeSereal(b))
	c.Class(h.Kind)
	c.Class(fmt.Sprintf("operation %d", what))
	c.ClassIf(h.Kind == "many" && err == nil, "many, accepted")
	switch r := float64(used) / float64(bound); {
	case r > 0.5:
		c.Class("over half of the bound")
	case r > 0.1:
		c.Class("over a tenth of the bound")
	}
}

// elemSize is the size of the largest element type within a type.
func elemSize(t reflect.Type, depth int) int {
	n := int(t.Size())
	if depth > 4 {
		return n
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array:
		n = max(n, elemSize(t.Elem(), depth+1))
	case reflect.Map:
		n = max(n, elemSize(t.Elem(), depth+1)+elemSize(t.Key(), depth+1))
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			n = max(n, elemSize(t.Field(i).Type, depth+1))
		}
	}
	return n
}

// c14: which headers are accepted.
func c14(c *Case) {
	t := c.T
	g := spec.Gen(t, spec.DocOpts{NoCompress: true, MinVer: 2, MaxVer: 2, NoCanon: true, NoBig: true, NoHeader: true, MaxItems: 8, NoStrPad: true, NoTrailing: true})
	magic := spec.Pick(t, 6, 6, 3, 2, 1, 1)
	var mb []byte
	switch magic {
	case 0:
		mb = []byte("=srl")
	case 1:
		mb = []byte("=\xf3rl")
	case 2:
		mb = []byte("=\xc3\xb3rl")
	case 3: // one byte off
		mb = []byte(spec.One(t, "=srl", "=\xf3rl"))
		mb[spec.N(t, 0, 3)] ^= 1 << spec.N(t, 0, 7)
	case 4:
		mb = []byte(spec.One(t, "srl=", "=SRL", "=sr", "", "\x00\x00\x00\x00", "lrs=", "lr\xf3=", "=\xf3\xf3rl", "\xef\xbb\xbf=srl", " =srl"))
	case 5:
		mb = []byte(spec.Expand(4*spec.N(t, 0, 1000)+2, 4, false))
	}
	vt := byte(spec.N(t, 0, 255))
	if spec.Bool(t) {
		vt = byte(spec.N(t, 1, 5) | spec.N(t, 0, 5)<<4)
	}
	ver, typ := int(vt&15), int(vt>>4)
	body := g.RawBody
	known := string(mb) == "=srl" && (ver == 1 || ver == 2) || string(mb) == "=\xf3rl" && (ver == 3 || ver == 4)
	ok := known && spec.TypeOK(ver, typ)
	utf := len(mb) == 5 && string(mb) == "=\xc3\xb3rl"
	looksWant := string(mb) == "=srl" && (ver == 1 || ver == 2) || string(mb) == "=\xf3rl" && ver >= 3
	b := append([]byte(nil), mb...)
	b = append(b, vt)
	b = append(b, 0)
	n := g.Body
	if ver == 1 { // other offsets
		body = []byte{spec.TArray, 2, 1, 0x61, 'x'}
		n = nil
	}
	if typ >= spec.DSnappy && typ <= spec.DZstd {
		body = spec.Compress(typ, body, 6)
	}
	b = append(b, body...)
	if string(b[:min(4, len(b))]) == "=\xf3rl" && magic >= 3 || string(b[:min(4, len(b))]) == "=srl" && magic >= 3 {
		return // became one by accident
	}
	c.Descf("version %d type %d document % x", ver, typ, cut(b))
	var v interface{}
	err := sereal.Unmarshal(b, &v)
	_, derr := sereal.DecompressDocument(nil, b)
	m := sereal.NewMerger()
	_, merr := m.Append(b)
	var hv interface{}
	herr := (&sereal.Decoder{}).UnmarshalHeader(b, &hv)
	if ok {
		if err != nil || derr != nil || merr != nil || herr != nil {
			c.Fail("valid document refused: Unmarshal: %v, DecompressDocument: %v, Append: %v, UnmarshalHeader: %v", err, derr, merr, herr)
		}
		if n != nil {
			if r := (&spec.Matcher{}).Match(n, v); r != "" {
				c.Fail("%s", r)
			}
		}
	} else {
		if err == nil || derr == nil || merr == nil || herr == nil {
			c.Fail("invalid header accepted: Unmarshal: %v, DecompressDocument: %v, Append: %v, UnmarshalHeader: %v", err, derr, merr, herr)
		}
		if v != nil || hv != nil {
			c.Fail("a refused document was decoded: %s", spec.Show(v))
		}
		if utf && (err != sereal.ErrBadHeaderUTF8 || derr != sereal.ErrBadHeaderUTF8 || merr != sereal.ErrBadHeaderUTF8 || herr != sereal.ErrBadHeaderUTF8) {
			c.Fail("document damaged by UTF-8 encoding: %v, %v, %v, %v", err, derr, merr, herr)
		}
		if !utf && (err == sereal.ErrBadHeaderUTF8 || derr == sereal.ErrBadHeaderUTF8 || merr == sereal.ErrBadHeaderUTF8) {
			c.Fail("not damaged by UTF-8 encoding: %v, %v, %v", err, derr, merr)
		}
		out, ferr := m.Finish()
		var l interface{}
		if ferr != nil || sereal.Unmarshal(out, &l) != nil || len(l.([]interface{})) != 0 {
			c.Fail("merger after a refused document: %v % x", ferr, cut(out))
		}
	}
	if looks := sereal.LooksLikeSereal(b); len(b) >= 7 && looks != looksWant {
		c.Fail("LooksLikeSereal %v", looks)
	}
	for k := range b[:min(7, len(b))] { // no document is that short
		if p := b[:k:k]; sereal.LooksLikeSereal(p) {
			c.Fail("LooksLikeSereal(% x)", p)
		}
	}
	c.Key(b)
	c.NonTrivial(magic <= 2)
	c.Class(fmt.Sprintf("magic %d", magic))
	c.ClassIf(ok, "valid")
	c.ClassIf(known, "known version")
}
