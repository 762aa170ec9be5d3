package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"slices"

	"github.com/Sereal/Sereal/Go/sereal"
	"pgregory.net/rapid"
	"verif/harness/spec"
)

func init() {
	register(&Prop{ID: "C15", Fn: c15, Quick: 150000, Thorough: 4000000,
		Rule: "sequences of generated documents (also produced by the library's encoder) x merger settings; non-trivial: two or more parts",
		Assume: []string{"a PAD between an OBJECT or REGEXP tag and its string is refused by the merger with an error (allowed here)",
			"KeepFlat with a reference to the array that is to be flattened fails with an error (allowed here)"}})
	register(&Prop{ID: "C16", Fn: c16, Quick: 200000, Thorough: 4000000,
		Rule: "sequences of valid, damaged, truncated and random documents x merger settings, against a second merger given only the accepted ones; non-trivial: an Append fails and another one succeeds"})
}

// mergerCfg are the settings of a merger.
type mergerCfg struct {
	Ctor     int // 0 NewMerger, 1 V3, 2 V2, 3 zero value
	Ref      bool
	Flat     bool
	Dedupe   bool
	Comp     int // 0 none, 2 incremental snappy, 3 zlib
	Thresh   int
	Expected uint
}

func drawMerger(c *Case) mergerCfg {
	t := c.T
	m := mergerCfg{Ctor: spec.N(t, 0, 3), Ref: spec.Bool(t), Flat: spec.Bool(t), Dedupe: spec.Bool(t)}
	if spec.Chance(t, 3) {
		m.Comp = 2
		if m.Ctor != 2 && spec.Bool(t) {
			m.Comp = 3
		}
		m.Thresh = spec.One(t, 0, 1, 50, 1024)
	}
	if spec.Chance(t, 5) {
		m.Expected = uint(spec.One(t, 5, 6, 7, 10, 100, 5000)) // at least the header
	}
	return m
}

func (m mergerCfg) version() int {
	if m.Ctor == 2 {
		return 2
	}
	return 3
}

func (m mergerCfg) New() *sereal.Merger {
	var x *sereal.Merger
	switch m.Ctor {
	case 0:
		x = sereal.NewMerger()
	case 1:
		x = sereal.NewMergerV3()
	case 2:
		x = sereal.NewMergerV2()
	default:
		x = &sereal.Merger{}
	}
	x.TopLevelElement = sereal.TopLevelArray
	if m.Ref {
		x.TopLevelElement = sereal.TopLevelArrayRef
	}
	x.KeepFlat, x.DedupeStrings, x.ExpectedSize = m.Flat, m.Dedupe, m.Expected
	switch m.Comp {
	case 2:
		x.Compression = sereal.SnappyCompressor{Incremental: true}
	case 3:
		x.Compression = sereal.ZlibCompressor{Level: 1}
	}
	if m.Comp != 0 {
		x.CompressionThreshold = m.Thresh
	}
	return x
}

// part is a document to be merged.
type part struct {
	b       []byte
	raw     []byte
	typ     int
	version int
}

func drawPart(c *Case, m mergerCfg, prev []part) part {
	t := c.T
	switch spec.Pick(t, 8, 3, 1) {
	case 1: // from the encoder
		g := spec.NewGoGen(t)
		g.Budget = min(g.Budget, 30)
		g.Ptrs, g.Typed, g.Perl = spec.Bool(t), spec.Bool(t), spec.Bool(t)
		g.Extra = frozenLeaf
		cfg := spec.Enc(t)
		b := encode(c, cfg, g.Value())
		doc, err := spec.Parse(b)
		if err != nil {
			c.Fail("malformed document % x: %v", cut(b), err)
		}
		return part{b, doc.RawBody, doc.Type, doc.Version}
	case 2:
		if len(prev) > 0 {
			return prev[spec.N(t, 0, len(prev)-1)]
		}
	}
	o := spec.DocOpts{NoStrPad: true, MaxItems: 30, Long: true}
	if m.Flat && spec.Chance(t, 2) || spec.Chance(t, 6) {
		o.TopArray = 1
		if m.Ref != spec.Chance(t, 8) {
			o.TopArray = 2
		}
	}
	if m.version() == 2 {
		o.NoCanon = true // of version 3
	}
	d := spec.Gen(t, o)
	return part{d.Bytes, d.RawBody, d.Type, d.Version}
}

// flatten gives the elements a document contributes, and whether a reference to the
// array that vanishes may make Append fail.
func (m mergerCfg) flatten(body *spec.Node, raw []byte) (els []*spec.Node, mayFail, pad bool) {
	arr := (*spec.Node)(nil)
	if m.Flat {
		switch {
		case !m.Ref && body.K == spec.KArray:
			arr = body
		case m.Ref && body.K == spec.KRef && !body.REFP && body.Items[0].K == spec.KArray:
			arr = body.Items[0]
		}
	}
	if arr == nil {
		return []*spec.Node{body}, false, false
	}
	i := 0
	if raw[0]&0x7f == spec.TPad || m.Ref && raw[0]&0x7f == spec.TRefN && raw[1]&0x7f == spec.TPad {
		return nil, true, true
	}
	// is one of the vanishing items referred to?
	for _, e := range arr.Items {
		e.Walk(func(n *spec.Node) {
			if n == body || n == arr {
				mayFail = true
			}
			for _, x := range n.Items {
				if x == body || x == arr {
					mayFail = true
				}
			}
		})
	}
	_ = i
	return arr.Items, mayFail, false
}

func c15(c *Case) {
	t := c.T
	cfg := drawMerger(c)
	m := cfg.New()
	c.Descf("merger %+v", cfg)
	if spec.Chance(t, 200) {
		c15Bulk(c, cfg, m)
		return
	}
	n := spec.Pick(t, 1, 2, 6, 4, 2, 2, 1)
	if spec.Chance(t, 30) {
		n = spec.N(t, 7, 20)
	}
	rep := 1
	if spec.Chance(t, 40) {
		rep = spec.One(t, 40, 64, 128, 140)
	}
	want := &spec.Node{K: spec.KArray}
	var parts []part
	done := 0
	filler := rep == 1 && spec.Chance(t, 30)
	for i := 0; i < n; i++ {
		p := part{}
		if filler && i == 0 {
			p = drawFiller(t)
		} else {
			p = drawPart(c, cfg, parts)
		}
		if rep > 1 && len(p.b) > 300 {
			continue
		}
		parts = append(parts, p)
		c.Describe(func() string { return fmt.Sprintf("part %d: % x (raw body % x)", i, cut(p.b), cut(p.raw)) })
		for k := 0; k < rep; k++ {
			doc, err := spec.ParseLong(p.b)
			if err != nil {
				panic(err)
			}
			els, mayFail, pad := cfg.flatten(doc.Body, p.raw)
			in := append([]byte(nil), p.b...)
			got, err := m.Append(in)
			if err != nil {
				if mayFail {
					c.Class("reference to the flattened array")
					continue
				}
				c.Fail("part %d: %v", i, err)
			}
			if pad {
				els = []*spec.Node{doc.Body}
				if got != 1 {
					els = doc.Body.Items
					if cfg.Ref {
						els = doc.Body.Items[0].Items
					}
				}
			}
			if got != len(els) {
				c.Fail("part %d: Append returns %d, want %d", i, got, len(els))
			}
			if !bytes.Equal(in, p.b) {
				c.Fail("part %d was modified", i)
			}
			want.Items = append(want.Items, els...)
			done++
		}
		c.Key(p.b)
	}
	out, err := m.Finish()
	if err != nil {
		c.Fail("Finish: %v", err)
	}
	c.Describe(func() string { return fmt.Sprintf("merged %d bytes % x", len(out), cut(out)) })
	checkMerged(c, cfg, out, want)
	c.KeyStr(fmt.Sprint(cfg, rep))
	c.NonTrivial(done > 1)
	c.Class(fmt.Sprintf("version %d", cfg.version()))
	c.ClassIf(cfg.Flat, "KeepFlat")
	c.ClassIf(cfg.Dedupe, "DedupeStrings")
	c.ClassIf(out[4]>>4 != 0, "compressed")
	c.ClassIf(filler, "a long string first")
	c.ClassIf(len(out) > 1<<21, "over 2 MB")
	c.ClassIf(len(want.Items) > 127, "over 127 elements")
	c.ClassIf(len(want.Items) > 16383, "over 16383 elements")
	for _, p := range parts {
		c.Class(fmt.Sprintf("part v%d type %d", p.version, p.typ))
	}
}

// varintStep draws a number near one where a varint gets longer.
func varintStep(t *rapid.T) int {
	n := 1 << 7
	if spec.Chance(t, 3) {
		n = 1 << 14
	} else if spec.Chance(t, 50) {
		n = 1 << 21
	}
	return n
}

// drawFiller draws a long string, so that the offsets of what follows need more bytes.
func drawFiller(t *rapid.T) part {
	n := max(0, varintStep(t)-spec.N(t, 0, 80))
	ver := spec.N(t, 1, 4)
	raw := append(binary.AppendUvarint([]byte{spec.One[byte](t, spec.TBinary, spec.TStr)}, uint64(n)), bytes.Repeat([]byte{'f'}, n)...)
	return part{spec.Assemble(ver, spec.DRaw, []byte{0}, nil, raw, 6), raw, spec.DRaw, ver}
}

// c15Bulk merges arrays of a great number of small integers.
func c15Bulk(c *Case, cfg mergerCfg, m *sereal.Merger) {
	t := c.T
	left := varintStep(t) + spec.N(t, -2, 3)
	c.Descf("%d elements", left)
	want := make([]int, 0, left)
	for left > 0 {
		k := left
		if spec.Bool(t) {
			k = max(1, min(left, left-spec.N(t, 0, 4)))
		} else if spec.Bool(t) {
			k = (left + 1) / 2
		}
		if !cfg.Flat && k < 100 {
			break
		}
		if len(want) > 0 && spec.Chance(t, 3) {
			k = 1 // not an array
		}
		left -= k
		var raw []byte
		switch {
		case k == 1:
		case cfg.Ref && k < 16 && spec.Bool(t):
			raw = append(raw, spec.TArrayRef+byte(k))
		case cfg.Ref:
			raw = binary.AppendUvarint([]byte{spec.TRefN, spec.TArray}, uint64(k))
		default:
			raw = binary.AppendUvarint([]byte{spec.TArray}, uint64(k))
		}
		if k == 1 && cfg.Flat && spec.Bool(t) {
			if cfg.Ref {
				raw = []byte{spec.TArrayRef + 1}
			} else {
				raw = []byte{spec.TArray, 1}
			}
		}
		step := 0
		if k < 100 || spec.Bool(t) {
			step = spec.N(t, 1, 31)
		}
		head := len(raw)
		for i := 0; i < k; i++ {
			raw = append(raw, byte((i*step+k)&31))
		}
		if !cfg.Flat && k > 1 {
			// one by one
			for i, x := range raw[head:] {
				if n, err := m.Append(spec.Assemble(3, spec.DRaw, []byte{0}, nil, []byte{x}, 6)); err != nil || n != 1 {
					c.Fail("append of integer %d yields %d, %v", i, n, err)
				}
			}
		} else {
			b := spec.Assemble(spec.N(t, 1, 4), spec.DRaw, []byte{0}, nil, raw, 6)
			c.Descf("part of %d elements", k)
			c.Key(b[:min(len(b), 200)])
			if n, err := m.Append(b); err != nil || n != k {
				c.Fail("append of an array of %d elements yields %d, %v", k, n, err)
			}
		}
		for _, x := range raw[head:] {
			if x > 15 {
				want = append(want, int(x)-32)
			} else {
				want = append(want, int(x))
			}
		}
	}
	out, err := m.Finish()
	if err != nil {
		c.Fail("Finish: %v", err)
	}
	c.Describe(func() string { return fmt.Sprintf("merged %d bytes % x", len(out), cut(out)) })
	raw := out
	if typ := out[4] >> 4; typ != 0 {
		body, err := spec.Decompress(int(typ), out[6:])
		if err != nil {
			c.Fail("the merged document cannot be decompressed: %v", err)
		}
		raw = append(out[:6:6], body...)
	}
	raw = raw[6:]
	item := func() byte { // the next tag
		for len(raw) > 0 && raw[0]&0x7f == spec.TPad {
			raw = raw[1:]
		}
		if len(raw) == 0 {
			c.Fail("the merged document is too short")
		}
		x := raw[0]
		raw = raw[1:]
		return x &^ spec.Track
	}
	tag := item()
	n := uint64(0)
	if cfg.Ref && tag == spec.TRefN {
		tag = item()
	} else if cfg.Ref {
		n = uint64(tag - spec.TArrayRef)
		if tag < spec.TArrayRef || n > 15 {
			c.Fail("the merged document has the tag %#x", tag)
		}
		tag = 0
	}
	if tag == spec.TArray {
		u, sz, err := spec.Uvarint(raw)
		if err != nil {
			c.Fail("the number of elements is malformed: % x", raw[:min(20, len(raw))])
		}
		n, raw = u, raw[sz:]
	} else if tag != 0 {
		c.Fail("the merged document has the tag %#x", tag)
	}
	if n != uint64(len(want)) {
		c.Fail("the merged document has %d elements, want %d", n, len(want))
	}
	for i, x := range want {
		if y := item(); y != byte(x&31) {
			c.Fail("element %d has the tag %#x, want %d", i, y, x)
		}
	}
	if len(bytes.Trim(raw, "\x3f")) > 0 {
		c.Fail("the merged document has %d bytes too many", len(raw))
	}
	var got []int
	if err := sereal.Unmarshal(out, &got); err != nil {
		c.Fail("decoding the merged document: %v", err)
	}
	if !slices.Equal(got, want) {
		c.Fail("%d elements were decoded, which are not those that were merged", len(got))
	}
	c.KeyStr(fmt.Sprint(cfg, len(want)))
	c.NonTrivial(len(want) > 1)
	c.Class("bulk")
	c.ClassIf(len(want) > 1<<21-3, "bulk over 2097149")
}

func checkMerged(c *Case, cfg mergerCfg, out []byte, want *spec.Node) {
	top := want
	if cfg.Ref {
		top = &spec.Node{K: spec.KRef, Items: []*spec.Node{want}}
	}
	doc, err := spec.ParseLong(out)
	if err != nil {
		c.Fail("the merged document is malformed: %v", err)
	}
	if doc.Version != cfg.version() || doc.HasHeader {
		c.Fail("merged document: version %d, header %v", doc.Version, doc.HasHeader)
	}
	if d := spec.Equal(top, doc.Body, spec.EqOpts{Iso: true}); d != "" {
		c.Fail("merged document: %s", d)
	}
	size := len(doc.RawBody)
	switch {
	case cfg.Comp == 0 || size+20 < cfg.Thresh:
		if doc.Type != spec.DRaw {
			c.Fail("merged document of %d bytes has type %d", size, doc.Type)
		}
	case size >= cfg.Thresh:
		if doc.Type != cfg.Comp {
			c.Fail("merged document of %d bytes has type %d", size, doc.Type)
		}
	}
	if doc.Stats.Long > 0 {
		c.Class("long doubles")
		return // which the decoder refuses
	}
	for _, perl := range []bool{false, true} {
		var v interface{}
		if err := (&sereal.Decoder{PerlCompat: perl}).Unmarshal(out, &v); err != nil {
			c.Fail("decoding the merged document (PerlCompat %v): %v", perl, err)
		}
		if d := (&spec.Matcher{Perl: perl, Sharing: true}).Match(doc.Body, v); d != "" {
			c.Fail("merged document (PerlCompat %v): %s", perl, d)
		}
	}
}

// c16: failed Append.
func c16(c *Case) {
	t := c.T
	cfg := drawMerger(c)
	a, b := cfg.New(), cfg.New()
	c.Descf("merger %+v", cfg)
	var parts []part
	oks, bads := 0, 0
	for i := spec.N(t, 1, 8); i > 0; i-- {
		var in []byte
		kind := spec.Pick(t, 5, 4, 3, 1, 2, 3)
		p := part{}
		if kind == 5 {
			p = namesPart(t)
		} else if len(parts) == 0 && spec.Chance(t, 40) {
			p = drawFiller(t)
		} else {
			p = drawPart(c, cfg, parts)
		}
		parts = append(parts, p)
		switch kind {
		case 0:
			in = p.b
		case 1: // damaged raw body
			bs := len(p.b) - len(p.raw)
			if p.typ != spec.DRaw {
				in = spec.Mutate(t, p.b)
				break
			}
			in = append(append([]byte(nil), p.b[:bs]...), spec.Mutate(t, p.raw)...)
		case 2:
			in = p.b[:spec.N(t, 0, len(p.b))]
			if spec.Bool(t) { // the last item missing
				in = p.b[:len(p.b)-spec.N(t, 0, min(4, len(p.b)))]
			}
		case 3:
			in = spec.GenHostile(t, spec.HostileOpts{Deep: 100}).Bytes
		case 5:
			in = p.b
		case 4: // good for a while, then something impossible
			in = append([]byte(nil), p.b...)
			if p.typ == spec.DRaw {
				k := spec.One[byte](t, spec.TCopy, spec.TRefP, spec.TObjectV, spec.TArray, 0x3e, spec.TObject)
				extra := []byte{k, byte(spec.N(t, 0, 127))}
				in = []byte{'=', 0xf3, 'r', 'l', 3, 0, spec.TArray, 2}
				if p.version == 1 {
					in = p.b // offsets would have to move
				} else {
					in = append(shift(p.raw), extra...)
				}
			}
		}
		in = append([]byte(nil), in...)
		keep := append([]byte(nil), in...)
		c.Describe(func() string { return fmt.Sprintf("append (%d) % x", kind, cut(keep)) })
		n, err := a.Append(in)
		if !bytes.Equal(in, keep) {
			c.Fail("Append modifies its input")
		}
		c.Key(keep)
		if err != nil {
			bads++
			if n != 0 {
				c.Fail("Append fails (%v) but returns %d", err, n)
			}
			c.Class("refused " + fmt.Sprint(kind))
			continue
		}
		oks++
		n2, err := b.Append(keep)
		if err != nil || n2 != n {
			c.Fail("Append yields %d after failures, otherwise %d, %v", n, n2, err)
		}
		c.Class("accepted " + fmt.Sprint(kind))
	}
	if spec.Chance(t, 10) { // Finish fails first
		comp, thr := a.Compression, a.CompressionThreshold
		a.CompressionThreshold = 0
		a.Compression = sereal.SnappyCompressor{}
		if _, err := a.Finish(); err == nil {
			c.Fail("Finish with unusable compression succeeds")
		}
		a.Compression, a.CompressionThreshold = comp, thr
		if spec.Bool(t) {
			p := drawPart(c, cfg, nil)
			c.Describe(func() string { return fmt.Sprintf("append after failed Finish % x", cut(p.b)) })
			n1, e1 := a.Append(p.b)
			n2, e2 := b.Append(p.b)
			if n1 != n2 || (e1 == nil) != (e2 == nil) {
				c.Fail("Append after a failed Finish: %d, %v, want %d, %v", n1, e1, n2, e2)
			}
		}
		c.Class("failed Finish")
	}
	oa, ea := a.Finish()
	ob, eb := b.Finish()
	if ea != nil || eb != nil {
		c.Fail("Finish: %v, %v", ea, eb)
	}
	if !bytes.Equal(oa, ob) {
		da, err1 := spec.ParseLong(oa)
		db, err2 := spec.ParseLong(ob)
		if err1 != nil || err2 != nil {
			c.Fail("the results differ: % x, want % x (%v, %v)", cut(oa), cut(ob), err1, err2)
		}
		if d := spec.Equal(db.Body, da.Body, spec.EqOpts{Iso: true}); d != "" {
			c.Fail("the results differ: %s", d)
		}
	}
	// Finish again, Append after it
	oa = append([]byte(nil), oa...)
	for i := spec.N(t, 1, 4); i > 0; i-- {
		if spec.Bool(t) {
			p := drawPart(c, cfg, parts)
			if n, err := a.Append(p.b); err == nil || n != 0 {
				c.Fail("Append after Finish yields %d, %v", n, err)
			}
		} else if o, err := a.Finish(); err != nil || !bytes.Equal(o, oa) {
			c.Fail("another Finish yields %v, % x", err, cut(o))
		}
	}
	if o, err := a.Finish(); err != nil || !bytes.Equal(o, oa) {
		c.Fail("the last Finish yields %v, % x", err, cut(o))
	}
	c.KeyStr(fmt.Sprint(cfg, oks, bads))
	c.NonTrivial(oks > 0 && bads > 0)
}

// namesPart draws an array of hashes and objects with a few names that occur again, as
// strings or as COPY and OBJECTV tags, whose end may be missing.
func namesPart(t *rapid.T) part {
	k := spec.N(t, 1, 6)
	raw := []byte{spec.TArrayRef + byte(k)}
	var names, classes []byte // positions
	str := func(class bool) {
		if len(names) > 0 && spec.Bool(t) {
			o := spec.One(t, names...)
			raw = append(raw, spec.TCopy, o)
			if class {
				classes = append(classes, o)
			}
			return
		}
		names = append(names, byte(len(raw)+1))
		if class {
			classes = append(classes, byte(len(raw)+1))
		}
		raw = append(raw, spec.One(t, "\x63abc", "\x63Foo", "\x27\x03Foo", "\x62ab")...)
	}
	for i := 0; i < k; i++ {
		switch spec.Pick(t, 3, 4, 2) {
		case 0:
			raw = append(raw, spec.THashRef+1)
			str(false)
		case 1:
			raw = append(raw, spec.One[byte](t, spec.TObject, spec.TObject, spec.TObjFreeze))
			freeze := raw[len(raw)-1] == spec.TObjFreeze
			str(true)
			if freeze {
				raw = append(raw, spec.TRefN, spec.TArray, 1, spec.TBinary, 0)
				continue
			}
			raw = append(raw, spec.TArrayRef)
			continue
		case 2:
			if len(classes) > 0 {
				raw = append(raw, spec.TObjectV, spec.One(t, classes...), spec.TArrayRef)
				continue
			}
		}
		raw = append(raw, byte(i))
	}
	if spec.Chance(t, 3) { // more items are announced
		raw[0]++
		if spec.Bool(t) {
			raw = append(raw, spec.TObject, 1)
		}
	}
	return part{spec.Assemble(3, spec.DRaw, []byte{0}, nil, raw, 6), raw, spec.DRaw, 3}
}

// shift makes the document of an array of two that starts with an item (of version 2 to 4).
func shift(raw []byte) []byte {
	// a header metadata block leaves offsets of the body as they are, and so do PADs in
	// front of nothing: the item comes first, followed by the start of something else
	return append([]byte{'=', 0xf3, 'r', 'l', 3, 0}, raw...)
}
