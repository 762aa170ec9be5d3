package main

import (
	"encoding/binary"
	"fmt"
	"reflect"

	"github.com/Sereal/Sereal/Go/sereal"
	"verif/harness/spec"
)

func init() {
	register(&Prop{ID: "C28", Fn: c28, Quick: 400000, Thorough: 8000000, Batch: 15000,
		Rule: "one to three documents decoded into one variable of a drawn type with content of its own, against a model of what is stored in place, added and left alone; non-trivial: something is stored in place, and something left alone"})
}

// c28 decodes documents into a variable that has content.
func c28(c *Case) {
	t := c.T
	typ := spec.DeepType(t, spec.N(t, 1, 3))
	c.Descf("type %s", typ)
	c.KeyStr(typ.String())
	v := reflect.New(typ).Elem()
	dec := sereal.NewDecoder()
	n := 1 + spec.Pick(t, 4, 2, 1)
	inplace, kept := 0, 0
	for i := 0; i < n; i++ {
		d := spec.StructDoc(t, typ, false)
		if i == 0 {
			g := spec.NewGoGen(t)
			g.Budget, g.Bytes = 30, 2000
			g.FillUp(v, d.Body)
		}
		before := spec.Snapshot(v)
		c.Describe(func() string { return "variable " + spec.Show(before.V.Interface()) })
		c.Describe(func() string { return fmt.Sprintf("document %s: % x", d, cut(d.Bytes)) })
		c.Key(d.Bytes)
		decode := func() error { return dec.Unmarshal(d.Bytes, v.Addr().Interface()) }
		if d.Version > 1 && spec.Chance(t, 6) {
			// offsets are the same in header metadata
			suffix := append([]byte{1}, d.RawBody...)
			b := spec.Assemble(d.Version, 0, binary.AppendUvarint(nil, uint64(len(suffix))), suffix, []byte{0x25}, 0)
			c.Describe(func() string { return "as header metadata" })
			c.Class("header metadata")
			decode = func() error { return dec.UnmarshalHeader(b, v.Addr().Interface()) }
		}
		err := decode()
		blocked := before.Blocked(d.Body)
		if blocked {
			c.Class("an interface in the way")
			return
		}
		if err != nil {
			c.Fail("decoding failed: %v", err)
		}
		s, f := before.Check(d.Body, v)
		if s != "" {
			c.Fail("%s\ndecoded: %s", s, spec.Show(v.Interface()))
		}
		inplace += f.InPlace
		kept += f.Kept
		c.ClassIf(i > 0, "decoded into again")
	}
	c.Class(typ.Kind().String())
	c.ClassIf(inplace > 0, "in place")
	c.ClassIf(kept > 0, "left alone")
	c.NonTrivial(inplace > 0 && kept > 0)
}
