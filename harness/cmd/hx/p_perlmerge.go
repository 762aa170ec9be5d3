package main

import (
	"encoding/binary"
	"fmt"
	"strings"

	"verif/harness/spec"
)

func init() {
	register(&Prop{ID: "C29", Fn: c29, Quick: 100000, Thorough: 3000000,
		Rule:   "sequences of generated documents, of what the Go encoder writes and of damaged documents x settings of Perl's merger; non-trivial: two or more parts are accepted",
		Assume: []string{"the merger of this repository with the system's Perl"}})
}

// c29: what Perl's merger makes is the sequence of its parts.
func c29(c *Case) {
	t := c.T
	ver := spec.One(t, 3, 4, 2, 1)
	o := map[string]string{"e_protocol_version": fmt.Sprint(ver)}
	dedupe := spec.Bool(t)
	if dedupe {
		o["e_dedupe_strings"] = "1"
	}
	if spec.Chance(t, 3) {
		o["e_compress"] = "1"
	}
	scalar := spec.Chance(t, 6)
	if scalar {
		o["e_top_level_element"] = "0"
	} else if spec.Bool(t) {
		o["e_top_level_element"] = "1"
	}
	c.Descf("options %v", o)
	n := spec.Pick(t, 1, 2, 6, 4, 2, 2, 1)
	if spec.Chance(t, 30) {
		n = spec.N(t, 7, 20)
	}
	if scalar {
		n = 1
	}
	filler := spec.Chance(t, 20)
	type op struct {
		docs    []*spec.Doc // nil where damaged
		shifted bool
	}
	var ops []op
	var req []byte
	put := func(k byte, b []byte) {
		req = binary.BigEndian.AppendUint32(req, uint32(len(b)+1))
		req = append(append(req, k), b...)
	}
	var parts []part
	all := false
	var cur op
	for i := 0; i < n; i++ {
		var p part
		if filler && i == 0 {
			p = drawFiller(t)
		} else {
			p = c29part(c, parts, dedupe)
		}
		doc, err := spec.ParseLong(p.b)
		if err != nil {
			panic(err)
		}
		b := p.b
		parts = append(parts, p)
		shifted := false
		if spec.Chance(t, 6) && !scalar {
			switch spec.Pick(t, 2, 1, 1, 1) {
			case 3:
				if x, _ := beyond(t, 2*spec.N(t, 0, 1)); x != nil {
					b = x
				}
			case 0:
				b = b[:spec.N(t, 0, len(b)-1)]
			case 1:
				b = b[:len(b)-min(len(b), spec.N(t, 1, 4))]
			case 2: // an array of two, with something impossible at the end
				if shifted = p.version > 1; shifted { // offsets in it no longer fit
					b = append([]byte{'=', 0xf3, 'r', 'l', 3, 0, spec.TArrayRef + 2}, p.raw...)
					b = append(b, spec.One[byte](t, 0x3d, spec.TArray, spec.TObject), byte(spec.N(t, 0, 100)))
				}
			}
			if d, err := spec.ParseLong(b); err != nil {
				doc = nil
			} else {
				doc = d
			}
		}
		c.Key(b)
		cur.docs = append(cur.docs, doc)
		cur.shifted = cur.shifted || shifted
		all = i < n-1 && spec.Chance(t, 4)
		k := byte('a')
		if all {
			k = 'b'
		} else if len(cur.docs) > 1 {
			k = 'A'
		}
		c.Describe(func() string {
			return fmt.Sprintf("part %d (%c, valid %v): % x (raw body % x)", i, k, doc != nil, cut(b), cut(p.raw))
		})
		put(k, b)
		if k == 'b' {
			continue
		}
		ops = append(ops, cur)
		cur = op{}
	}
	var header *spec.Doc
	if ver > 1 && spec.Chance(t, 4) {
		h := spec.Gen(t, spec.DocOpts{MinVer: ver, MaxVer: ver, NoCompress: true, NoHeader: true, NoTrailing: true, NoNonCanon: true, MaxItems: 20, NoBig: true})
		if len(h.Bytes) < 900 && h.Bytes[5] == 0 {
			d, err := spec.Parse(h.Bytes)
			if err != nil {
				panic(err)
			}
			header = d
			c.Descf("header % x", cut(h.Bytes))
			put('h', h.Bytes)
			c.Class("header")
		}
	}
	chunks, e := perl(c, 'M', o, req)
	if e != "" {
		c.Fail("merging fails: %s", e)
	}
	said := strings.Split(chunks[0], "\x00")
	if len(said) != len(ops)+1 {
		c.Fail("%d answers to %d calls", len(said)-1, len(ops))
	}
	want := &spec.Node{K: spec.KArray}
	for i, op := range ops {
		var k byte
		var n int
		fmt.Sscanf(said[i], "%c%d", &k, &n)
		bad := -1
		for j, d := range op.docs {
			if d == nil {
				bad = j
				break
			}
		}
		switch {
		case strings.Contains(said[i], "SRL_HDR_PAD (3f) while expecting stringish"):
			c.Class("PAD before a string")
			return
		case bad < 0 && (k != 'k' || n != len(op.docs)):
			c.Fail("call %d of valid documents: %s", i, said[i])
		case bad >= 0 && op.shifted && n > bad:
			c.Class("other references")
			return
		case bad >= 0 && k == 'k':
			c.Fail("call %d is of a malformed document and succeeds: %s", i, said[i])
		case bad >= 0 && n != bad:
			c.Fail("call %d merges %d documents, before a malformed one there are %d", i, n, bad)
		}
		for _, d := range op.docs[:n] {
			want.Items = append(want.Items, d.Body)
		}
		c.ClassIf(k == 'e', "refused")
	}
	if chunks[1] != fmt.Sprint(len(want.Items)) {
		c.Fail("elements_merged is %s, want %d", chunks[1], len(want.Items))
	}
	out := []byte(chunks[2])
	c.Describe(func() string { return fmt.Sprintf("merged % x", cut(out)) })
	top := &spec.Node{K: spec.KRef, Items: []*spec.Node{want}}
	if scalar {
		if len(want.Items) == 0 {
			return
		}
		top = want.Items[0]
	}
	doc, err := spec.ParseLong(out)
	if err != nil {
		c.Fail("the merged document is malformed: %v", err)
	}
	if doc.Version != ver || doc.HasHeader != (header != nil) {
		c.Fail("the merged document has version %d, header %v", doc.Version, doc.HasHeader)
	}
	if d := spec.Equal(top, doc.Body, spec.EqOpts{Iso: true}); d != "" {
		c.Fail("the merged document: %s", d)
	}
	if header != nil {
		if d := spec.Equal(header.Body, doc.Header, spec.EqOpts{Iso: true}); d != "" {
			c.Fail("the header of the merged document: %s", d)
		}
	}
	c.KeyStr(fmt.Sprint(o))
	c.NonTrivial(len(want.Items) > 1)
	c.Class(fmt.Sprintf("version %d type %d", doc.Version, doc.Type))
	c.ClassIf(dedupe, "dedupe_strings")
}

func c29part(c *Case, prev []part, dedupe bool) part {
	t := c.T
	if spec.Chance(t, 60) {
		return c29bulk(c)
	}
	switch spec.Pick(t, 8, 3, 1) {
	case 1:
		cfg := spec.Enc(t)
		g := spec.NewGoGen(t)
		g.Budget = min(g.Budget, 30)
		g.Ptrs, g.Typed, g.Perl = spec.Bool(t), spec.Bool(t), spec.Bool(t)
		g.Extra = frozenLeaf
		b := encode(c, cfg, g.Value())
		doc, err := spec.Parse(b)
		if err != nil {
			c.Fail("malformed document % x: %v", cut(b), err)
		}
		return part{b, doc.RawBody, doc.Type, doc.Version}
	case 2:
		if len(prev) > 0 {
			return prev[spec.N(t, 0, len(prev)-1)]
		}
	}
	d := spec.Gen(t, spec.DocOpts{NoPad: spec.Chance(t, 2), ShortMods: true, Long: true, MaxItems: 30, NoZstd: true, NoTrailing: true})
	if dedupe && d.Feat["copy-container"] > 0 {
		// what is copied must not become a COPY, which the merger does not know
		return part{[]byte{'=', 0xf3, 'r', 'l', 3, 0, spec.TUndef}, []byte{spec.TUndef}, spec.DRaw, 3}
	}
	return part{d.Bytes, d.RawBody, d.Type, d.Version}
}

// c29bulk draws an array of many small items.
func c29bulk(c *Case) part {
	t := c.T
	k := spec.One(t, 130, 600, 3000)
	if spec.Chance(t, 4) {
		k = 12000
	}
	kind, from, mod := spec.N(t, 0, 4), spec.N(t, 0, 3)*k/2, spec.One(t, 1<<30, 100, 1000)
	raw := binary.AppendUvarint([]byte{spec.TRefN, spec.TArray}, uint64(k))
	short := func(s string) { raw = append(append(raw, spec.TShort+byte(len(s))), s...) }
	for i := 0; i < k; i++ {
		s := fmt.Sprint("str", (from+i)%mod)
		switch kind {
		case 0:
			short(s)
		case 1:
			raw = append(binary.AppendUvarint(append(raw, spec.TStr), uint64(len(s))), s...)
		case 2:
			raw = append(raw, spec.THashRef+1)
			short(s)
			raw = append(raw, byte(i&15))
		case 3:
			raw = append(raw, spec.TRefN, byte(i&15))
		case 4:
			raw = append(raw, spec.TObject)
			short(s)
			raw = append(raw, spec.TArrayRef)
		}
	}
	c.Class("bulk")
	return part{spec.Assemble(3, spec.DRaw, []byte{0}, nil, raw, 6), raw, spec.DRaw, 3}
}
