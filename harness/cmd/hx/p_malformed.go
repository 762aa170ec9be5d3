package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"reflect"

	"github.com/Sereal/Sereal/Go/sereal"
	"verif/harness/spec"
)

func init() {
	register(&Prop{ID: "C27", Fn: c27, Pure: true, Quick: 500000, Thorough: 15000000,
		Rule: "generated documents with damage of the kinds listed, at the places where it matters (keys, class names, offsets, track marks, lengths, numbers) or anywhere, and sequences of random tags; " +
			"the independent parser says whether there is something wrong before anything else it would not be sure about; non-trivial: something is wrong with the document",
		Assume: []string{"offsets into the middle of an item, hash keys that occur twice, frozen contents other than one string, the ALIAS of an enclosing item and bytes after the document are not judged", "the parser is right about what is wrong"}})
}

// places collects where the tags of a certain kind are.
func strTags(st spec.ParseStats, roles bool) []int {
	var l []int
	for _, x := range st.Literals {
		if (x.Role != "") == roles {
			l = append(l, x.Pos)
		}
	}
	return l
}

// damage breaks a body that is valid.
func damage(c *Case, body []byte, st spec.ParseStats) ([]byte, string) {
	t := c.T
	x := append([]byte(nil), body...)
	insert := func(at, drop int, y ...byte) {
		x = append(append(append([]byte(nil), x[:at]...), y...), x[min(len(x), at+drop):]...)
	}
	any := func() int { return spec.N(t, 0, len(x)-1) }
	switch spec.Pick(t, 3, 3, 3, 3, 2, 2, 2, 3) {
	case 0: // something else as a key, class name, pattern or modifiers
		if l := strTags(st, true); len(l) > 0 {
			at := spec.One(t, l...)
			switch spec.N(t, 0, 2) {
			case 0:
				x[at] = x[at]&spec.Track | spec.One[byte](t, 0, 5, 31, spec.TVarint, spec.TZigzag, spec.TUndef, spec.TTrue, spec.TRefN, spec.TArray, spec.THash, spec.TArrayRef+1, spec.THashRef, spec.TWeaken, spec.TRefP, spec.TAlias, spec.TObject, spec.TObjectV, spec.TFloat, spec.TRegexp, spec.TCanonUndef)
			case 1: // a whole item in its place
				insert(at, 0, spec.One(t, []byte{spec.TUndef}, []byte{1}, []byte{spec.TRefN, spec.TUndef}, []byte{spec.TArrayRef}, []byte{spec.TVarint, 5}, []byte{spec.TTrue}, []byte{spec.TArray, 0}, []byte{spec.THashRef})...)
			case 2: // before it
				insert(at, 0, spec.One[byte](t, spec.TRefN, spec.TWeaken, spec.TExtend, spec.TMany, 0x34, 0x38))
			}
			return x, "key or class name"
		}
	case 1: // an undefined tag
		i := any()
		x[i] = x[i]&spec.Track | spec.One[byte](t, 0x34, 0x35, 0x36, 0x37, 0x38, spec.TMany, spec.TPacketStart, spec.TExtend)
		return x, "undefined tag"
	case 2: // an offset
		i := any()
		if spec.Bool(t) && i+1 < len(x) {
			x[i] = spec.One[byte](t, spec.TRefP, spec.TAlias, spec.TCopy, spec.TObjectV, spec.TObjVFreeze)
			insert(i+1, spec.N(t, 0, 1), binary.AppendUvarint(nil, uint64(spec.One(t, spec.N(t, 0, i+3), 0, i, i+1, i+2, i+8, len(x)+5, 1<<32)))...)
			return x, "another tag with an offset"
		}
		for j := i; j < len(x)-1; j++ {
			switch x[j] &^ spec.Track {
			case spec.TRefP, spec.TAlias, spec.TCopy, spec.TObjectV, spec.TObjVFreeze:
				insert(j+1, 1, binary.AppendUvarint(nil, uint64(spec.One(t, spec.N(t, 0, j+3), 0, j, j+1, j+2, j+8, len(x)+5, 1<<32)))...)
				return x, "offset"
			}
		}
	case 3: // track marks
		for k := spec.N(t, 1, 3); k > 0; k-- {
			i := any()
			for j := i; j < len(x); j++ {
				if x[j] >= spec.Track {
					x[j] &^= spec.Track
					break
				}
			}
		}
		return x, "track mark"
	case 4: // numbers
		i := any()
		for j := i; j < len(x)-1; j++ {
			switch x[j] &^ spec.Track {
			case spec.TVarint, spec.TZigzag, spec.TBinary, spec.TStr, spec.TArray, spec.THash:
				n := 0
				for j+1+n < len(x)-1 && x[j+1+n] >= 0x80 {
					n++
				}
				if spec.Bool(t) {
					insert(j+1, n+1, spec.BadVarint(t)...)
				} else {
					insert(j+1, n+1, binary.AppendUvarint(nil, uint64(spec.N(t, 0, 2*len(x))))...)
				}
				return x, "number"
			}
		}
	case 5: // a string's length
		if l := strTags(st, spec.Bool(t)); len(l) > 0 {
			at := spec.One(t, l...)
			if x[at]&^spec.Track >= spec.TShort {
				x[at] = x[at]&spec.Track | spec.TShort | byte(spec.N(t, 0, 31))
			} else {
				x[at+1] = byte(spec.N(t, 0, 127))
			}
			return x, "string length"
		}
	case 6: // a string that is something else
		if l := strTags(st, false); len(l) > 0 {
			at := spec.One(t, l...)
			insert(at, 1, spec.TagSoup(t, 1, false)...)
			return x, "string"
		}
	}
	return spec.Mutate(t, x), "anything"
}

// copyInCopy makes a document with a COPY of something that contains a COPY.
func copyInCopy(c *Case, based bool) []byte {
	t := c.T
	base := 6
	if based {
		base = 1
	}
	x := []byte{spec.TArray, 3, spec.TShort + 2, 'a', 'b'}
	at := len(x)
	for k := spec.N(t, 1, 5); k > 0; k-- {
		x = append(x, spec.One(t, []byte{spec.TRefN}, []byte{spec.TArray, 1}, []byte{spec.TArrayRef + 2, 5}, []byte{spec.THash, 1, spec.TShort + 1, 'k'}, []byte{spec.THashRef + 1, spec.TShort},
			[]byte{spec.TWeaken, spec.TRefN}, []byte{spec.TObject, spec.TShort + 1, 'C', spec.TRefN}, []byte{spec.TPad}, []byte{spec.THashRef + 1, spec.TCopy, byte(2 + base)})...)
	}
	inner := len(x)
	x = append(x, spec.TCopy, byte(spec.One(t, 2, 2, at, spec.N(t, 2, inner))+base))
	return append(x, spec.TCopy, byte(spec.One(t, at, spec.N(t, at, inner))+base))
}

func c27(c *Case) {
	t := c.T
	var body []byte
	what := "tags"
	ver := spec.N(t, 1, 4)
	if spec.Chance(t, 8) {
		body = append(spec.One(t, nil, []byte{spec.TArray, byte(spec.N(t, 0, 12))}, []byte{spec.THash, byte(spec.N(t, 0, 6))}), spec.TagSoup(t, spec.N(t, 1, 12), false)...)
	} else if spec.Chance(t, 12) {
		body, what = copyInCopy(c, ver > 1), "copy in copy"
	} else {
		d := spec.Gen(t, spec.DocOpts{MaxItems: spec.One(t, 5, 20, 20, 60)})
		doc, err := spec.Parse(d.Bytes)
		if err != nil {
			c.Fail("malformed document generated: %v", err)
		}
		ver = d.Version
		body, what = damage(c, d.RawBody, doc.Stats)
		if ver == 1 && spec.N(t, 0, 3) > 0 { // its offsets are for another place
			ver = spec.One(t, 1, 1, 2)
		}
	}
	if len(body) == 0 {
		body = []byte{spec.TPad}
	}
	inHeader := ver > 1 && spec.Chance(t, 4)
	typ := spec.One(t, spec.Types(ver)...)
	if pureGo && typ == spec.DZstd || spec.Bool(t) {
		typ = spec.DRaw
	}
	var b []byte
	if inHeader {
		suffix := append([]byte{1}, body...)
		b = spec.Assemble(ver, typ, binary.AppendUvarint(nil, uint64(len(suffix))), suffix, []byte{1}, 1)
	} else {
		b = spec.Assemble(ver, typ, []byte{0}, nil, body, 1)
	}
	c.Descf("%s, header %v, body % x, document % x", what, inHeader, cut(body), cut(b))
	_, err := spec.Parse(b)
	var bad *spec.Malformed
	c.Key(b)
	if !errors.As(err, &bad) {
		c.ClassIf(err == nil, "all right")
		c.ClassIf(err != nil, "not judged")
		return
	}
	c.NonTrivial(true)
	c.Class(bad.What)
	c.Descf("%v", bad)
	dec := &sereal.Decoder{PerlCompat: spec.Chance(t, 3), DisableReferentialIntegrity: spec.Chance(t, 4)}
	refuses := func(how string, err error, x interface{}) {
		if err == nil {
			c.Fail("%s accepts a document with %s: %s", how, bad.What, spec.Show(reflect.ValueOf(x).Elem().Interface()))
		}
	}
	decode := dec.Unmarshal
	if inHeader {
		decode = dec.UnmarshalHeader
	}
	var v interface{}
	refuses("the decoder", decode(b, &v), &v)
	v = nil
	if inHeader {
		var w interface{}
		refuses("UnmarshalHeaderBody", dec.UnmarshalHeaderBody(b, &v, &w), &v)
	}
	// typed variables don't look away
	dst := targets[spec.N(t, 0, len(targets)-1)]()
	if spec.Chance(t, 4) {
		dst = reflect.New(spec.NewGoGen(t).Type(3)).Interface()
	}
	c.Descf("into %T", dst)
	refuses(fmt.Sprintf("decoding into %T", dst), decode(b, dst), dst)
	if !inHeader && bad.Plain {
		cfg := drawMerger(c)
		m := cfg.New()
		c.Descf("merger %+v", cfg)
		if spec.Bool(t) {
			if _, err := m.Append(drawPart(c, cfg, nil).b); err != nil {
				c.Class("merger: first refused")
			}
		}
		if n, err := m.Append(b); err == nil {
			out, _ := m.Finish()
			c.Fail("the merger accepts a document with %s: %d, % x", bad.What, n, cut(out))
		}
		c.Class("merger")
	}
}
