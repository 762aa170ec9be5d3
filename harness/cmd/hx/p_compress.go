package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"

	"github.com/Sereal/Sereal/Go/sereal"
	"verif/harness/spec"
)

func init() {
	register(&Prop{ID: "C12", Fn: c12, Pure: true, Quick: 250000, Thorough: 6000000,
		Rule: "values x compressors x levels x thresholds around the body's size, and generated compressed documents with all kinds of destination buffers; non-trivial: the document is compressed, or has to be refused"})
	register(&Prop{ID: "C13", Fn: c13, Quick: 600000, Thorough: 20000000,
		Rule: "pairs of header and body, encoded by the library or generated from the specification, with one of the two destroyed; non-trivial: there is header metadata"})
}

// destination draws a buffer for DecompressDocument.
func destination(c *Case, b []byte, raw int) []byte {
	t := c.T
	var n int
	switch spec.Pick(t, 2, 2, 2, 2, 1, 1) {
	case 0:
		return nil
	case 1:
		n = spec.N(t, 0, 2*len(b)+10)
	case 2:
		n = len(b) + raw + spec.N(t, -10, 10)
	case 3:
		n = raw + spec.N(t, -3, 12)
	case 4:
		n = 0
	case 5:
		n = 2*(len(b)+raw) + spec.N(t, 0, 100)
	}
	n = max(n, 0)
	d := make([]byte, n, n+spec.One(t, 0, 0, 1, 7, raw))
	for i := range d[:cap(d)] {
		d[:cap(d)][i] = 0xcc
	}
	return d
}

func checkDecompress(c *Case, b []byte, bodyStart int, raw []byte) []byte {
	want := append(append([]byte(nil), b[:bodyStart]...), raw...)
	want[4] &= 15
	for i := 0; i < 2; i++ {
		in := append([]byte(nil), b...)
		dst := destination(c, b, len(raw))
		out, err := sereal.DecompressDocument(dst, in)
		if err != nil {
			c.Fail("DecompressDocument with a destination of %d/%d: %v", len(dst), cap(dst), err)
		}
		if !bytes.Equal(out, want) {
			c.Fail("DecompressDocument with a destination of %d/%d: % x, want % x", len(dst), cap(dst), cut(out), cut(want))
		}
		if !bytes.Equal(in, b) {
			c.Fail("DecompressDocument modifies its input")
		}
		if x := spec.Within([]spec.Region{spec.BytesRegion(out)}, in); x != "" && len(out) > 0 {
			c.Fail("DecompressDocument returns its input")
		}
	}
	return want
}

func c12(c *Case) {
	t := c.T
	if spec.Bool(t) {
		c12docs(c)
		return
	}
	cfg := spec.Enc(t, 3, 2, 1, -1)
	cfg.Comp = 0
	g := spec.NewGoGen(t)
	g.Ptrs, g.Typed = spec.Chance(t, 3), spec.Chance(t, 3)
	var v any = g.Value()
	if spec.Chance(t, 12) { // a large body
		n := spec.One(t, 1000, 1023, 1024, 1025, 32768, 65535, 65536, 65537, 131072, 200000)
		if spec.Chance(t, 8) {
			n = spec.One(t, 1<<20, 1<<20+1, 1<<21, 3000000)
		}
		v = []interface{}{spec.Expand(spec.N(t, 0, 40), n, true), v}
	}
	e := cfg.New()
	kind := spec.Pick(t, 1, 2, 4, 5, 1)
	level := spec.N(t, -1, 9)
	if spec.Chance(t, 10) {
		level = spec.N(t, -5, 25)
	}
	switch kind {
	case 1:
		e.Compression = sereal.SnappyCompressor{}
	case 2:
		e.Compression = sereal.SnappyCompressor{Incremental: true}
	case 3:
		e.Compression = sereal.ZlibCompressor{Level: level}
	case 4:
		e.Compression = sereal.ZstdCompressor{Level: spec.N(t, 0, 5)}
	}
	plain := encode(c, cfg, v)
	pdoc, err := spec.Parse(plain)
	if err != nil {
		c.Fail("the uncompressed document is malformed: %v", err)
	}
	size := len(pdoc.RawBody)
	switch spec.N(t, 0, 4) {
	case 0:
		e.CompressionThreshold = 0
	case 1:
		e.CompressionThreshold = size + spec.N(t, -2, 2)
	case 2:
		e.CompressionThreshold = spec.N(t, 0, 2*size)
	case 3: // the constructor's
		e.CompressionThreshold = 1024
	case 4:
		e.CompressionThreshold = spec.One(t, 1, -1, 1<<30)
	}
	c.Descf("settings %+v compression %+v threshold %d", cfg, e.Compression, e.CompressionThreshold)
	c.Describe(func() string { return fmt.Sprintf("value %s (%d bytes)", spec.Show(v), size) })
	var hdr any
	if spec.Chance(t, 3) {
		hdr = map[string]interface{}{"h": g.Scalar(), "x": []interface{}{1, "y"}}
	}
	var b []byte
	if hdr != nil {
		b, err = e.MarshalWithHeader(hdr, v)
	} else {
		b, err = e.Marshal(v)
	}
	ver := cfg.Effective()
	allowed := kind == 0 || kind == 1 && ver == 1 || kind == 2 || kind == 3 && ver >= 3
	unclear := kind == 3 && (level < -1 || level > 9)
	if !allowed && err == nil && len(b) > 4 && b[4]>>4 != 0 {
		c.Fail("compression that version %d does not allow: % x", ver, cut(b))
	}
	if err != nil {
		if allowed && !unclear {
			c.Fail("encoding failed: %v", err)
		}
		c.Key(plain)
		c.NonTrivial(true)
		c.Class("refused")
		return
	}
	doc, err := spec.Parse(b)
	if err != nil {
		c.Fail("malformed document % x: %v", cut(b), err)
	}
	if d := spec.Equal(pdoc.Body, doc.Body, spec.EqOpts{Sharing: true}); d != "" {
		c.Fail("compression changes the meaning: %s", d)
	}
	compressed := kind != 0 && (e.CompressionThreshold == 0 || len(doc.RawBody) >= e.CompressionThreshold)
	if (doc.Type != spec.DRaw) != compressed && (allowed || doc.Type != spec.DRaw) {
		c.Fail("document type %d with a body of %d bytes", doc.Type, len(doc.RawBody))
	}
	if !allowed && compressed {
		c.Fail("a compressor that version %d does not allow was ignored", ver)
	}
	if compressed && doc.Type != []int{0, spec.DSnappy, spec.DSnappyIncr, spec.DZlib, spec.DZstd}[kind] {
		c.Fail("document type %d", doc.Type)
	}
	if doc.HasHeader != (hdr != nil && ver > 1) {
		c.Fail("header metadata: %v", doc.HasHeader)
	}
	same(c, plain, b, reflect.TypeOf(v))
	// the library's own decompression
	dd := checkDecompress(c, b, doc.BodyStart, doc.RawBody)
	same(c, plain, dd, nil)
	if hdr != nil && ver > 1 {
		checkHeader(c, b, hdr, cfg)
		checkHeader(c, dd, hdr, cfg)
	}
	c.Key(b)
	c.NonTrivial(compressed)
	c.ClassIf(compressed, fmt.Sprintf("compressed type %d", doc.Type))
	c.ClassIf(!compressed, "not compressed")
	c.ClassIf(size > 100000, "over 100000 bytes")
}

// refuseZstd checks that a build without zstd says so.
func refuseZstd(c *Case, d *spec.GenDoc) {
	t := c.T
	perl := spec.Chance(t, 3)
	dec := &sereal.Decoder{PerlCompat: perl}
	var v, h, w interface{}
	if err := dec.Unmarshal(d.Bytes, &v); err == nil {
		c.Fail("a build without zstd decodes a zstd document")
	}
	if err := dec.UnmarshalHeaderBody(d.Bytes, &h, &w); err == nil {
		c.Fail("a build without zstd decodes a zstd document")
	}
	if out, err := sereal.DecompressDocument(destination(c, d.Bytes, len(d.RawBody)), d.Bytes); err == nil {
		c.Fail("a build without zstd decompresses a zstd document: % x", cut(out))
	}
	m := sereal.NewMerger()
	if n, err := m.Append(d.Bytes); err == nil {
		c.Fail("a build without zstd merges a zstd document: %d", n)
	}
	if d.HasHeader { // is not compressed
		h = nil
		if err := dec.UnmarshalHeader(d.Bytes, &h); err != nil {
			c.Fail("decoding the header failed: %v", err)
		}
		if x := (&spec.Matcher{Perl: perl}).Match(d.Header, h); x != "" {
			c.Fail("header: %s", x)
		}
	}
	c.Key(d.Bytes)
	c.NonTrivial(true)
	c.Class("zstd refused by a build without it")
}

func checkHeader(c *Case, b []byte, hdr any, cfg spec.EncCfg) {
	var h interface{}
	if err := sereal.NewDecoder().UnmarshalHeader(b, &h); err != nil {
		c.Fail("decoding the header failed: %v", err)
	}
	n, err := spec.FromGo(hdr, cfg.GoOpts())
	if err != nil {
		panic(err)
	}
	if d := (&spec.Matcher{}).Match(n, h); d != "" {
		c.Fail("header: %s", d)
	}
}

// same checks that two documents decode alike.
func same(c *Case, a, b []byte, typ reflect.Type) {
	var x, y interface{}
	e1 := sereal.Unmarshal(a, &x)
	e2 := sereal.Unmarshal(b, &y)
	if e1 != nil || e2 != nil {
		c.Fail("decoding failed: %v, %v", e1, e2)
	}
	if spec.Dump(x) != spec.Dump(y) {
		n, err := spec.Parse(b) // sharing may be met in another order
		if err != nil {
			c.Fail("malformed document: %v", err)
		}
		if d := (&spec.Matcher{}).Match(n.Body, y); d != "" {
			c.Fail("decoded differently: %s", d)
		}
	}
	if typ != nil && typ.Kind() != reflect.Ptr {
		p, q := reflect.New(typ), reflect.New(typ)
		e1 := sereal.Unmarshal(a, p.Interface())
		e2 := sereal.Unmarshal(b, q.Interface())
		if (e1 == nil) != (e2 == nil) {
			c.Fail("decoding into %s: %v, %v", typ, e1, e2)
		}
	}
}

func c12docs(c *Case) {
	t := c.T
	d := spec.Gen(t, spec.DocOpts{})
	if d.Type == spec.DRaw && spec.Chance(t, 2) { // compress it after all
		d.Type = spec.One(t, spec.Types(d.Version)...)
		head := append([]byte(nil), d.Bytes[:d.BodyStart]...)
		head[4] |= byte(d.Type) << 4
		d.Bytes = append(head, spec.Compress(d.Type, d.RawBody, spec.N(t, 1, 9))...)
	}
	c.Describe(func() string { return "document " + d.String() })
	perl := spec.Chance(t, 3)
	if pureGo && d.Type == spec.DZstd {
		refuseZstd(c, d)
		return
	}
	dd := checkDecompress(c, d.Bytes, d.BodyStart, d.RawBody)
	for i, b := range [][]byte{d.Bytes, dd} {
		var v interface{}
		if err := (&sereal.Decoder{PerlCompat: perl}).Unmarshal(b, &v); err != nil {
			c.Fail("decoding document %d failed: %v", i, err)
		}
		if x := (&spec.Matcher{Perl: perl}).Match(d.Body, v); x != "" {
			c.Fail("document %d: %s", i, x)
		}
		if d.HasHeader {
			var h interface{}
			if err := (&sereal.Decoder{PerlCompat: perl}).UnmarshalHeader(b, &h); err != nil {
				c.Fail("decoding header %d failed: %v", i, err)
			}
			if x := (&spec.Matcher{Perl: perl}).Match(d.Header, h); x != "" {
				c.Fail("header %d: %s", i, x)
			}
		}
	}
	// a compressed document of a type the version does not have
	if spec.Chance(t, 4) && d.Type != spec.DRaw {
		for ver := 1; ver <= 4; ver++ {
			if spec.TypeOK(ver, d.Type) {
				continue
			}
			b := append([]byte(nil), d.Bytes...)
			b[1] = 's'
			if ver >= 3 {
				b[1] = 0xf3
			}
			b[4] = b[4]&0xf0 | byte(ver)
			var v interface{}
			if err := sereal.Unmarshal(b, &v); err == nil {
				c.Fail("type %d is accepted in version %d", d.Type, ver)
			}
			if _, err := sereal.DecompressDocument(nil, b); err == nil {
				c.Fail("DecompressDocument accepts type %d in version %d", d.Type, ver)
			}
		}
	}
	c.Key(d.Bytes)
	c.NonTrivial(d.Type != spec.DRaw)
	c.Class(fmt.Sprintf("document type %d", d.Type))
	c.ClassIf(d.HasHeader, "document with header")
}

// c13: headers and bodies.
func c13(c *Case) {
	t := c.T
	if spec.Chance(t, 2) {
		c13docs(c)
		return
	}
	cfg := spec.Enc(t, 3, 2, 1, -1)
	g := spec.NewGoGen(t)
	g.Ptrs, g.Typed, g.Perl = spec.Chance(t, 3), spec.Chance(t, 3), cfg.Perl
	g.Bare = cfg.Perl
	g.Extra = frozenLeaf
	body := g.Value()
	g.Budget = spec.One(t, 3, 20, 60)
	hdr := g.Value()
	if spec.Chance(t, 15) {
		hdr = []interface{}{spec.Expand(1, spec.One(t, 100, 120, 125, 126, 127, 128, 16380, 16390, 70000), true), hdr}
	}
	if spec.Chance(t, 6) {
		body = spec.One[any](t, nil, hdr, 0, "")
	}
	c.Descf("settings %+v", cfg)
	c.Describe(func() string { return "header " + spec.Show(hdr) + " body " + spec.Show(body) })
	b, err := cfg.New().MarshalWithHeader(hdr, body)
	if err != nil {
		c.Fail("encoding failed: %v", err)
	}
	c.Describe(func() string { return fmt.Sprintf("document % x", cut(b)) })
	doc, err := spec.Parse(b)
	if err != nil {
		c.Fail("malformed document: %v", err)
	}
	want, err := spec.FromGo(body, cfg.GoOpts())
	if err != nil {
		panic(err)
	}
	if d := spec.Equal(want, doc.Body, spec.EqOpts{Sharing: true}); d != "" {
		c.Fail("body: %s", d)
	}
	ver := cfg.Effective()
	has := hdr != nil && ver > 1
	if doc.HasHeader != has {
		c.Fail("header metadata: %v", doc.HasHeader)
	}
	wanth := (*spec.Node)(nil)
	if has {
		wanth, err = spec.FromGo(hdr, cfg.GoOpts())
		if err != nil {
			panic(err)
		}
		if d := spec.Equal(wanth, doc.Header, spec.EqOpts{Sharing: true}); d != "" {
			c.Fail("header: %s", d)
		}
		// a typed variable
		if hv := reflect.ValueOf(hdr); hv.Kind() != reflect.Ptr && !cfg.Perl {
			plainErr := error(nil)
			if p := reflect.New(hv.Type()); true {
				x, err := cfg.Marshal(hdr)
				if err != nil {
					c.Fail("encoding failed: %v", err)
				}
				plainErr = sereal.NewDecoder().Unmarshal(x, p.Interface())
			}
			p := reflect.New(hv.Type())
			err := sereal.NewDecoder().UnmarshalHeader(b, p.Interface())
			if (err == nil) != (plainErr == nil) {
				c.Fail("decoding the header into %T: %v, the same as a body: %v", hdr, err, plainErr)
			}
		}
	}
	headerAndBody(c, b, doc.Header, doc.Body, doc.BodyStart, false, true)
	c.Key(b)
	c.NonTrivial(has)
	cfgClasses(c, cfg)
	c.ClassIf(len(b) > 0 && doc.BodyStart > 127+6, "header over 127 bytes")
	c.ClassIf(doc.Type != 0, "compressed")
}

// headerAndBody checks all ways to read a document.
func headerAndBody(c *Case, b []byte, hdr, body *spec.Node, bodyStart int, perl, encoded bool) {
	t := c.T
	dec := &sereal.Decoder{PerlCompat: perl}
	readHeader := func(what string, b []byte) {
		var h interface{}
		if hdr == nil {
			h = "untouched"
		}
		if err := dec.UnmarshalHeader(b, &h); err != nil {
			c.Fail("UnmarshalHeader%s: %v", what, err)
		}
		if hdr == nil {
			if h != "untouched" {
				c.Fail("UnmarshalHeader%s without header metadata yields %s", what, spec.Show(h))
			}
			s := struct{ A, B int }{3, 4}
			if err := dec.UnmarshalHeader(b, &s); err != nil || s.A != 3 || s.B != 4 {
				c.Fail("UnmarshalHeader%s without header metadata: %v, %+v", what, err, s)
			}
			return
		}
		if d := (&spec.Matcher{Perl: perl}).Match(hdr, h); d != "" {
			c.Fail("UnmarshalHeader%s: %s", what, d)
		}
	}
	readBody := func(what string, b []byte) {
		var v interface{}
		if err := dec.Unmarshal(b, &v); err != nil {
			c.Fail("Unmarshal%s: %v", what, err)
		}
		if d := (&spec.Matcher{Perl: perl}).Match(body, v); d != "" {
			c.Fail("Unmarshal%s: %s", what, d)
		}
	}
	readHeader("", b)
	readBody("", b)
	var h, v interface{}
	if hdr == nil {
		h = "untouched"
	}
	if err := dec.UnmarshalHeaderBody(b, &h, &v); err != nil {
		c.Fail("UnmarshalHeaderBody: %v", err)
	}
	if d := (&spec.Matcher{Perl: perl}).Match(body, v); d != "" {
		c.Fail("UnmarshalHeaderBody: body: %s", d)
	}
	if hdr == nil && h != "untouched" {
		c.Fail("UnmarshalHeaderBody without header metadata yields %s", spec.Show(h))
	}
	if hdr != nil {
		if d := (&spec.Matcher{Perl: perl}).Match(hdr, h); d != "" {
			c.Fail("UnmarshalHeaderBody: header: %s", d)
		}
	}
	// destroy the body
	x := append([]byte(nil), b...)
	switch spec.N(t, 0, 3) {
	case 0:
		for i := bodyStart; i < len(x); i++ {
			x[i] = 0x3f
		}
	case 1:
		x = x[:bodyStart+spec.N(t, min(1, 7-min(bodyStart, 7)), len(x)-bodyStart)]
	case 2:
		for i := bodyStart; i < len(x); i++ {
			x[i] ^= byte(0x80 >> (i % 8))
		}
	case 3:
		x = append(x, "and more"...)
	}
	if len(x) > 6 || hdr != nil {
		readHeader(" with a broken body", x)
	}
	// destroy the header
	if hdr != nil {
		x := append([]byte(nil), b...)
		_, sz, _ := spec.Uvarint(b[5:])
		lo := 5 + sz
		switch spec.N(t, 0, 2) {
		case 0:
			for i := lo; i < bodyStart; i++ {
				x[i] = 0xff
			}
		case 1:
			for i := lo + 1; i < bodyStart; i++ {
				x[i] ^= byte(0x80 >> (i % 8))
			}
		case 2: // other flags and nothing more
			x[lo] = byte(spec.N(t, 0, 255))
			for i := lo + 1; i < bodyStart; i++ {
				x[i] = spec.TRefP
			}
		}
		readBody(" with a broken header", x)
		// no header at all
		ver := int(b[4] & 15)
		if ver >= 2 {
			y := append(append([]byte(nil), b[:5]...), 0)
			y = append(y, b[bodyStart:]...)
			readBody(" with the header cut out", y)
		}
	}
}

func c13docs(c *Case) {
	t := c.T
	d := spec.Gen(t, spec.DocOpts{MaxItems: 40})
	if !d.HasHeader && spec.Chance(t, 2) {
		d = spec.Gen(t, spec.DocOpts{MaxItems: 40})
	}
	c.Describe(func() string { return "document " + d.String() })
	if d.HasHeader && spec.Chance(t, 3) {
		c13separately(c, d)
		return
	}
	headerAndBody(c, d.Bytes, d.Header, d.Body, d.BodyStart, spec.Chance(t, 3), false)
	c.Key(d.Bytes)
	c.NonTrivial(d.HasHeader)
	c.Class(fmt.Sprintf("document v%d header %v", d.Version, d.HasHeader))
}

// c13separately checks that header and body mean the same together as each on its own, whatever is wrong with one of them.
func c13separately(c *Case, d *spec.GenDoc) {
	t := c.T
	_, sz, _ := spec.Uvarint(d.Bytes[5:])
	hdr, body := append([]byte(nil), d.Bytes[5+sz:d.BodyStart]...), append([]byte(nil), d.RawBody...)
	what := spec.Pick(t, 1, 2, 2, 3, 5)
	// other offsets and tracking: what the body refers to may exist in the header alone, and the other way round
	retarget := func(x []byte) {
		for k := spec.N(t, 1, 4); k > 0 && len(x) > 1; k-- {
			i := spec.N(t, 0, len(x)-1)
			switch spec.N(t, 0, 2) {
			case 0:
				x[i] &^= 0x80
			case 1:
				x[i] ^= 0x80
			case 2:
				if i+1 < len(x) {
					x[i] = spec.One[byte](t, spec.TRefP, spec.TAlias, spec.TCopy, spec.TObjectV)
					x[i+1] = byte(spec.N(t, 1, min(i+1, 127)))
				}
			}
		}
	}
	switch what {
	case 0: // the header serves as the body
		body = hdr[1:]
	case 1:
		body = spec.Mutate(t, body)
	case 2:
		hdr = append(hdr[:1:1], spec.Mutate(t, hdr[1:])...)
	case 3:
		retarget(body)
	case 4: // much alike, but for some bits
		body = append([]byte(nil), hdr[1:]...)
		if spec.Bool(t) {
			hdr = append(append([]byte(nil), hdr[0]), d.RawBody...)
			body = append([]byte(nil), d.RawBody...)
		}
		for i := range body {
			if body[i] >= 0x80 && spec.Chance(t, 3) {
				body[i] &^= 0x80
			}
		}
		if spec.Bool(t) {
			retarget(body)
		}
	}
	typ := spec.One(t, spec.DRaw, spec.DRaw, d.Type)
	if pureGo && typ == spec.DZstd {
		typ = spec.DRaw
	}
	b := spec.Assemble(d.Version, typ, binary.AppendUvarint(nil, uint64(len(hdr))), hdr, body, 1)
	c.Descf("kind %d, header % x body % x: document % x", what, cut(hdr), cut(body), cut(b))
	perl := spec.Chance(t, 3)
	one := func() *sereal.Decoder { return &sereal.Decoder{PerlCompat: perl} }
	var h, v, h2, v2 interface{}
	eh, ev := one().UnmarshalHeader(b, &h), one().Unmarshal(b, &v)
	dec := one()
	err := dec.UnmarshalHeaderBody(b, &h2, &v2)
	if (err != nil) != (eh != nil || ev != nil) {
		c.Fail("UnmarshalHeader: %v, Unmarshal: %v, UnmarshalHeaderBody: %v", eh, ev, err)
	}
	if err == nil {
		if x, y := spec.Dump(h), spec.Dump(h2); x != y {
			c.Fail("UnmarshalHeader yields %s, UnmarshalHeaderBody %s", x, y)
		}
		if x, y := spec.Dump(v), spec.Dump(v2); x != y {
			c.Fail("Unmarshal yields %s, UnmarshalHeaderBody %s", x, y)
		}
	}
	// the body is as good as without the header, and the header as good as with an empty body
	var h3, v3 interface{}
	if e := one().Unmarshal(spec.Assemble(d.Version, typ, []byte{0}, nil, body, 1), &v3); (e != nil) != (ev != nil) {
		c.Fail("the body with the header: %v, without: %v", ev, e)
	} else if x, y := spec.Dump(v), spec.Dump(v3); e == nil && x != y {
		c.Fail("the body is %s with the header, %s without", x, y)
	}
	if e := one().UnmarshalHeader(spec.Assemble(d.Version, spec.DRaw, binary.AppendUvarint(nil, uint64(len(hdr))), hdr, []byte{spec.TUndef}, 1), &h3); (e != nil) != (eh != nil) {
		c.Fail("the header with the body: %v, without: %v", eh, e)
	} else if x, y := spec.Dump(h), spec.Dump(h3); e == nil && x != y {
		c.Fail("the header is %s with the body, %s without", x, y)
	}
	c.Key(b)
	c.NonTrivial(true)
	c.Class(fmt.Sprintf("separately: header %v, body %v", eh == nil, ev == nil))
}
