package main

import (
	"fmt"

	"github.com/Sereal/Sereal/Go/sereal"
	"verif/harness/spec"
)

const docRule = "documents generated from the specification (all tags, versions 1 to 4, all compressions, headers, PADs, redundant varints, COPY, REFP, ALIAS)"

func init() {
	register(&Prop{ID: "C04", Fn: c04, Quick: 1000000, Thorough: 20000000,
		Rule: docRule + ", decoded with and without DisableReferentialIntegrity; non-trivial: more than one item",
		Assume: []string{"COPY of items holding targets of REFP is outside of the domain (its meaning is ambiguous)",
			"nesting beyond 100000 levels is rejected by design"}})
	register(&Prop{ID: "C05", Fn: c05, Quick: 1000000, Thorough: 20000000,
		Rule:   docRule + ", decoded with PerlCompat; non-trivial: a reference, object, weak reference, regexp, frozen object or canonical undef occurs",
		Assume: []string{"COPY of items holding targets of REFP is outside of the domain (its meaning is ambiguous)"}})
	register(&Prop{ID: "SELF", Fn: cSelf, Quick: 400000, Thorough: 4000000, Rule: "generator against parser (not a property of the library)"})
}

func docClasses(c *Case, d *spec.GenDoc) {
	for k := range d.Feat {
		c.Class("has " + k)
	}
	c.Class(fmt.Sprintf("v%d type %d", d.Version, d.Type))
	if d.Body.Count() > 1 {
		c.Class("not a scalar")
	}
	c.ClassIf(len(d.RawBody) > 16384, "over 16 KB")
}

func cSelf(c *Case) {
	d := spec.Gen(c.T, spec.DocOpts{})
	c.Describe(func() string { return "document " + d.String() })
	doc, err := spec.Parse(d.Bytes)
	if err != nil {
		c.Fail("Parse: %v", err)
	}
	if r := spec.Equal(d.Body, doc.Body, spec.EqOpts{Iso: true}); r != "" {
		c.Fail("body: %s", r)
	}
	if d.HasHeader != doc.HasHeader || d.Version != doc.Version || d.Type != doc.Type || string(d.RawBody) != string(doc.RawBody) || doc.BodyStart != d.BodyStart {
		c.Fail("header")
	}
	if d.HasHeader {
		if r := spec.Equal(d.Header, doc.Header, spec.EqOpts{Iso: true}); r != "" {
			c.Fail("header: %s", r)
		}
	}
	docClasses(c, d)
	c.Key(d.Bytes)
	c.NonTrivial(d.Body.Count() > 1)
}

// decodeAny decodes with the package function, a decoder, or via UnmarshalHeaderBody.
func decodeAny(c *Case, dec *sereal.Decoder, b []byte, allowPkg bool) (any, error) {
	var v interface{}
	var err error
	switch spec.Pick(c.T, 3, 3, 1) {
	case 0:
		if allowPkg {
			err = sereal.Unmarshal(b, &v)
			break
		}
		err = dec.Unmarshal(b, &v)
	case 1:
		err = dec.Unmarshal(b, &v)
	case 2:
		var h interface{}
		err = dec.UnmarshalHeaderBody(b, &h, &v)
	}
	return v, err
}

func c04(c *Case) {
	t := c.T
	noRI := spec.Chance(t, 3)
	d := spec.Gen(t, spec.DocOpts{})
	c.Describe(func() string { return "document " + d.String() })
	c.Descf("DisableReferentialIntegrity %v", noRI)
	m := &spec.Matcher{NoRI: noRI, Sharing: !noRI}
	v, err := decodeAny(c, &sereal.Decoder{DisableReferentialIntegrity: noRI}, d.Bytes, !noRI)
	if err != nil {
		c.Fail("valid document refused: %v", err)
	}
	if r := m.Match(d.Body, v); r != "" {
		c.Fail("%s", r)
	}
	if d.HasHeader {
		var h interface{}
		dec := sereal.NewDecoder()
		dec.DisableReferentialIntegrity = noRI
		if err := dec.UnmarshalHeader(d.Bytes, &h); err != nil {
			c.Fail("valid header refused: %v", err)
		}
		if r := m.Match(d.Header, h); r != "" {
			c.Fail("header: %s", r)
		}
	}
	docClasses(c, d)
	c.Key(d.Bytes)
	c.NonTrivial(d.Body.Count() > 1)
	c.ClassIf(noRI, "DisableReferentialIntegrity")
}

func c05(c *Case) {
	t := c.T
	noRI := spec.Chance(t, 6)
	d := spec.Gen(t, spec.DocOpts{NoSelf: noRI}) // a reference to itself has no copy
	c.Describe(func() string { return "document " + d.String() })
	c.Descf("DisableReferentialIntegrity %v", noRI)
	m := &spec.Matcher{Perl: true, NoRI: noRI, Sharing: !noRI}
	dec := &sereal.Decoder{PerlCompat: true, DisableReferentialIntegrity: noRI}
	v, err := decodeAny(c, dec, d.Bytes, false)
	if err != nil {
		c.Fail("valid document refused: %v", err)
	}
	if r := m.Match(d.Body, v); r != "" {
		c.Fail("%s", r)
	}
	if d.HasHeader {
		var h interface{}
		if err := dec.UnmarshalHeader(d.Bytes, &h); err != nil {
			c.Fail("valid header refused: %v", err)
		}
		if r := m.Match(d.Header, h); r != "" {
			c.Fail("header: %s", r)
		}
	}
	docClasses(c, d)
	special := false
	d.Body.Walk(func(n *spec.Node) {
		switch n.K {
		case spec.KRef, spec.KWeak, spec.KObject, spec.KRegexp, spec.KFreeze, spec.KCanonUndef:
			special = true
		}
	})
	c.Key(d.Bytes)
	c.NonTrivial(special)
}
