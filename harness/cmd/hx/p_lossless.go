package main

import (
	"fmt"

	"github.com/Sereal/Sereal/Go/sereal"
	"verif/harness/spec"
)

func init() {
	register(&Prop{ID: "C24", Fn: c24, Quick: 300000, Thorough: 10000000,
		Rule: "documents of versions 1 to 4 generated from the specification, without frozen objects, decoded with PerlCompat, encoded with PerlCompat by encoders of versions 1 to 3 and both again; " +
			"non-trivial: there are references, objects, weak references, regular expressions or undefs",
		Assume: []string{"an array or hash where Perl needs a reference counts as a reference to it", "whether hash keys are UTF-8 is not kept", "canonical undef becomes undef before version 3"}})
}

// wrapBare puts references before arrays and hashes where Perl has them. Shared items
// stay shared.
func wrapBare(n *spec.Node) *spec.Node {
	memo := map[*spec.Node]*spec.Node{}
	var conv func(n *spec.Node) *spec.Node
	child := func(n *spec.Node) *spec.Node {
		x := conv(n)
		if n.K == spec.KArray || n.K == spec.KHash {
			return &spec.Node{K: spec.KRef, Items: []*spec.Node{x}}
		}
		return x
	}
	conv = func(n *spec.Node) *spec.Node {
		if x := memo[n]; x != nil {
			return x
		}
		x := new(spec.Node)
		*x = *n
		memo[n] = x
		x.Items = make([]*spec.Node, len(n.Items))
		for i, y := range n.Items {
			if n.K == spec.KRef {
				x.Items[i] = conv(y)
			} else {
				x.Items[i] = child(y)
			}
		}
		return x
	}
	return child(n)
}

func c24(c *Case) {
	t := c.T
	d := spec.Gen(t, spec.DocOpts{NoFreeze: true})
	c.Describe(func() string { return "document " + d.String() })
	cfg := spec.Enc(t, 1, 2, 3, 3, 3)
	cfg.Perl, cfg.MaxDepth = true, 0
	c.Descf("settings %+v", cfg)
	o := spec.EqOpts{IgnoreKeyUTF: true, IgnoreCanon: cfg.Effective() < 3}
	dec := &sereal.Decoder{PerlCompat: true}
	enc := cfg.New()

	var v interface{}
	if err := dec.Unmarshal(d.Bytes, &v); err != nil {
		c.Fail("decoding failed: %v", err)
	}
	withHeader := d.HasHeader && cfg.Effective() > 1
	var h interface{}
	if withHeader {
		if err := dec.UnmarshalHeader(d.Bytes, &h); err != nil {
			c.Fail("decoding the header failed: %v", err)
		}
	}
	want, wantH := wrapBare(d.Body), (*spec.Node)(nil)
	if withHeader {
		wantH = wrapBare(d.Header)
	}
	rounds := 2
	for i := 1; i <= rounds; i++ {
		var b []byte
		var err error
		if withHeader {
			b, err = enc.MarshalWithHeader(h, v)
		} else {
			b, err = enc.Marshal(v)
		}
		if err != nil {
			c.Fail("round %d: encoding what was decoded failed: %v", i, err)
		}
		doc, err := spec.Parse(b)
		if err != nil {
			c.Fail("round %d: malformed document % x: %v", i, cut(b), err)
		}
		if r := spec.Equal(want, doc.Body, o); r != "" {
			c.Fail("round %d: the meaning changed: %s\nafter: % x = %s", i, r, cut(b), doc.Body)
		}
		if withHeader {
			if !doc.HasHeader {
				c.Fail("round %d: the header is lost", i)
			}
			if r := spec.Equal(wantH, doc.Header, o); r != "" {
				c.Fail("round %d: the meaning of the header changed: %s", i, r)
			}
			wantH = doc.Header
		}
		if i == rounds {
			break
		}
		// from now on, everything is alike
		want, o = doc.Body, spec.EqOpts{}
		var v2, h2 interface{}
		if err := dec.Unmarshal(b, &v2); err != nil {
			c.Fail("round %d: decoding what was encoded failed: %v", i, err)
		}
		if withHeader {
			if err := dec.UnmarshalHeader(b, &h2); err != nil {
				c.Fail("round %d: decoding the header failed: %v", i, err)
			}
		}
		v, h = v2, h2
	}
	special := false
	d.Body.Walk(func(n *spec.Node) {
		switch n.K {
		case spec.KRef, spec.KWeak, spec.KObject, spec.KRegexp, spec.KCanonUndef, spec.KUndef:
			special = true
		}
	})
	docClasses(c, d)
	c.ClassIf(withHeader, "with header")
	c.Class(fmt.Sprintf("encoder v%d", cfg.Effective()))
	c.Key(d.Bytes)
	c.NonTrivial(special)
}
