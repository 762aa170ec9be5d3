package main

import (
	"fmt"
	"reflect"

	"github.com/Sereal/Sereal/Go/sereal"
	"verif/harness/spec"
)

func init() {
	register(&Prop{ID: "C22", Fn: c22, Quick: 350000, Thorough: 6000000, Batch: 15000,
		Rule: "struct types made at run time with fields tagged, untagged, tagged \"-\" and unexported, nested in structs, pointers, slices and maps x hashes (HASH, HASHREF, references, objects) with keys of their fields, " +
			"the same in lower case, keys of fields that are left out, near misses and others with arbitrary contents, in any order, decoded into variables that hold something already, up to four types with one encoder and decoder, also types that are printed alike; and their encodings; " +
			"non-trivial: a field is set and another key is not that of a field, or a value with two fields is encoded",
		Assume: []string{"two fields with the same key, unexported fields with a tag and keys of several words that need a change of case are left out", "a field that occurs twice in a hash may get either value",
			"fields the document sets to arrays, hashes and byte strings are empty before"}})
}

func c22(c *Case) {
	t := c.T
	n := 1
	if spec.Chance(t, 3) {
		n = spec.N(t, 2, 4)
	}
	family := -1
	if spec.Chance(t, 3) {
		family = spec.N(t, 0, spec.TwinFamilies-1)
	}
	dec := sereal.NewDecoder()
	cfg := spec.Enc(t)
	enc := cfg.New()
	good := false
	for i := 0; i < n; i++ {
		var typ reflect.Type
		if family >= 0 {
			typ = spec.Twin(t, family)
			if n > 1 {
				c.Class("types printed alike")
			}
		} else {
			typ = spec.TaggedStruct(t, 2)
		}
		target := typ
		switch spec.Pick(t, 4, 2, 1, 1, 1, 1) {
		case 1:
			target = reflect.SliceOf(typ)
		case 2:
			target = reflect.MapOf(reflect.TypeOf(""), typ)
		case 3:
			target = reflect.PointerTo(typ)
		case 4:
			target = reflect.ArrayOf(spec.N(t, 0, 3), typ)
		case 5:
			target = reflect.SliceOf(reflect.PointerTo(typ))
		}
		c.Descf("type %s", target)
		c.KeyStr(target.String())
		if spec.Chance(t, 4) {
			good = c22encode(c, cfg, enc, target) || good
		} else {
			good = c22decode(c, dec, target) || good
		}
	}
	c.NonTrivial(good)
}

func c22decode(c *Case, dec *sereal.Decoder, target reflect.Type) bool {
	t := c.T
	d := spec.StructDoc(t, target, false)
	c.Describe(func() string { return "document " + d.String() })
	g := spec.NewGoGen(t)
	g.Budget, g.Bytes = 20, 2000
	v, before := reflect.New(target).Elem(), reflect.New(target).Elem()
	filled := spec.Bool(t)
	if filled {
		g.Prefill(v, d.Body)
		before.Set(deepCopy(v))
		c.Describe(func() string { return "variable " + spec.Show(before.Interface()) })
	}
	if err := dec.Unmarshal(d.Bytes, v.Addr().Interface()); err != nil {
		c.Fail("decoding failed: %v", err)
	}
	if s := spec.Decoded(d.Body, before, v); s != "" {
		c.Fail("%s\ndecoded: %s", s, spec.Show(v.Interface()))
	}
	c.Key(d.Bytes)
	c.Class("decode")
	c.Class("decode into " + target.Kind().String())
	c.ClassIf(filled, "prefilled")
	for _, f := range []string{"lower", "unknown", "unknown container", "field twice", "copy-key", "object", "cycle", "refp"} {
		c.ClassIf(d.Feat[f] > 0, f)
	}
	n := 0
	d.Body.Walk(func(x *spec.Node) {
		if x.K == spec.KHash {
			n += len(x.Keys)
		}
	})
	return n > d.Feat["unknown"] && d.Feat["unknown"] > 0
}

func c22encode(c *Case, cfg spec.EncCfg, enc *sereal.Encoder, target reflect.Type) bool {
	t := c.T
	g := spec.NewGoGen(t)
	v := g.OfType(target)
	c.Descf("settings %+v", cfg)
	c.Describe(func() string { return "value " + spec.Show(v.Interface()) })
	b, err := []byte(nil), error(nil)
	if cfg.Version == 0 {
		b, err = cfg.Marshal(v.Interface())
	} else {
		b, err = enc.Marshal(v.Interface())
	}
	if err != nil {
		c.Fail("encoding failed: %v", err)
	}
	c.Describe(func() string { return fmt.Sprintf("document % x", cut(b)) })
	doc := checkDoc(c, b, v.Interface(), cfg)
	n, keys := 0, 0
	doc.Body.Walk(func(x *spec.Node) {
		if x.K == spec.KHash {
			n++
			keys += len(x.Keys)
		}
	})
	c.Key(b)
	c.Class("encode")
	return n > 0 && keys > 1
}

// deepCopy copies what Prefill makes.
func deepCopy(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		p := reflect.New(v.Type().Elem())
		p.Elem().Set(deepCopy(v.Elem()))
		return p
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < n.NumField(); i++ {
			if n.Field(i).CanSet() {
				n.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopy(v.Index(i)))
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, deepCopy(v.MapIndex(k)))
		}
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(deepCopy(v.Elem()))
		return n
	}
	return v
}
