package main

import (
	"fmt"

	"github.com/Sereal/Sereal/Go/sereal"
	"verif/harness/spec"
)

func init() {
	register(&Prop{ID: "C26", Fn: c26, Quick: 400000, Thorough: 8000000,
		Rule: "values with keys and struct types that occur again x encoder settings, and sequences of documents x merger settings; the strings written out are counted by the independent parser; " +
			"non-trivial: a string was left out (or, with DisableDedup, could have been)",
		Assume: []string{"strings of a single byte, and strings others refer to, may be written again",
			"parts that have copies of other things than strings keep their values"}})
}

type lit struct {
	role, s string
	utf     bool
}

func c26(c *Case) {
	if spec.Chance(c.T, 2) {
		c26encoder(c)
	} else {
		c26merger(c)
	}
}

// c26row is a struct as they come in numbers.
type c26row struct {
	Name  string
	Count int `sereal:"count"`
	Next  *c26row
	Tags  map[string]interface{}
}

var c26keys = []string{"Name", "count", "key", "", "k", "Text", "a key that is longer than thirty-one bytes", "\u00e9t\u00e9", "c26row"}

type c26cell struct{ Name, Text string }

func c26encoder(c *Case) {
	t := c.T
	cfg := spec.Enc(t)
	g := spec.NewGoGen(t)
	g.Budget = min(g.Budget, 40)
	g.Ptrs, g.Typed, g.Perl = spec.Chance(t, 3), spec.Bool(t), spec.Chance(t, 3)
	g.Extra = frozenLeaf
	l := []interface{}{}
	far := spec.Chance(t, 40)
	if far { // offsets need more bytes
		l = append(l, spec.Expand(1, max(0, varintStep(t)-spec.N(t, 0, 80)), true))
	}
	for i := spec.N(t, 1, 6); i > 0; i-- {
		l = append(l, c26value(c, g))
	}
	var v any = l
	c.Descf("settings %+v", cfg)
	c.Describe(func() string { return "value " + spec.Show(v) })
	var b []byte
	if cfg.Effective() > 1 && spec.Chance(t, 6) {
		var err error
		if b, err = cfg.New().MarshalWithHeader([]interface{}{c26value(c, g), c26value(c, g)}, v); err != nil {
			c.Fail("encoding failed: %v", err)
		}
	} else {
		b = encode(c, cfg, v)
	}
	c.Describe(func() string { return fmt.Sprintf("document % x", cut(b)) })
	doc := checkDoc(c, b, v, cfg)
	again := false
	for i, st := range []spec.ParseStats{doc.Stats, doc.HeadStats} {
		where := [...]string{"body", "header"}[i]
		seen := map[lit]bool{}
		for _, x := range st.Literals {
			if x.Role == "" || x.Role == "pattern" || x.Role == "modifiers" {
				continue
			}
			k := lit{x.Role, x.S, x.UTF}
			if seen[k] {
				again = true
				if !cfg.NoDedup && len(x.S) > 1 {
					c.Fail("the %s %q is written out once more in the %s at %d", x.Role, x.S, where, x.Pos)
				}
			}
			seen[k] = true
		}
		if cfg.NoDedup && st.Copy+st.ObjectV > 0 {
			c.Fail("there are %d copies in the %s although deduplication is disabled", st.Copy+st.ObjectV, where)
		}
		again = again || st.Copy > 0
	}
	c.Key(b)
	c.NonTrivial(again)
	c.Class("encoder")
	c.ClassIf(again, "encoder, something again")
	c.ClassIf(far, "encoder, far offsets")
	cfgClasses(c, cfg)
}

func c26value(c *Case, g *spec.GoGen) any {
	t := c.T
	tags := map[string]interface{}{}
	for i := spec.N(t, 0, 3); i > 0; i-- {
		tags[spec.One(t, c26keys...)] = g.Scalar()
	}
	row := c26row{Name: spec.One(t, c26keys...), Count: spec.N(t, 0, 9), Tags: tags}
	switch spec.Pick(t, 4, 3, 2, 2, 2, 3) {
	case 0:
		return tags
	case 1:
		return row
	case 2:
		row.Next = &c26row{}
		return &row
	case 3:
		return []c26cell{{}, {Text: spec.One(t, c26keys...)}}
	case 4:
		return map[string]c26cell{spec.One(t, c26keys...): {}}
	}
	return g.Value()
}

func c26merger(c *Case) {
	t := c.T
	cfg := drawMerger(c)
	m := cfg.New()
	c.Descf("merger %+v", cfg)
	n := spec.N(t, 1, 6)
	var parts []part
	sum, copies := 0, 0
	for i := 0; i < n; i++ {
		var p part
		kind := spec.Pick(t, 2, 4, 3, 3)
		if i == 0 && spec.Chance(t, 40) {
			kind = 4
		}
		switch kind {
		case 4: // offsets need more bytes
			p = drawFiller(t)
		case 0:
			p = drawPart(c, cfg, parts)
		case 1:
			g := spec.NewGoGen(t)
			g.Budget = min(g.Budget, 20)
			g.Extra = frozenLeaf
			b := encode(c, spec.Enc(t), []interface{}{c26value(c, g), c26value(c, g)})
			doc, err := spec.Parse(b)
			if err != nil {
				c.Fail("malformed document % x: %v", cut(b), err)
			}
			p = part{b, doc.RawBody, doc.Type, doc.Version}
		case 2:
			if len(parts) > 0 {
				p = parts[spec.N(t, 0, len(parts)-1)]
				break
			}
			fallthrough
		default:
			d := spec.Gen(t, spec.DocOpts{NoStrPad: true, NoCopy: spec.Bool(t), NoCanon: cfg.version() == 2, MaxItems: 30})
			p = part{d.Bytes, d.RawBody, d.Type, d.Version}
		}
		parts = append(parts, p)
		c.Describe(func() string { return fmt.Sprintf("part %d: % x (raw body % x)", i, cut(p.b), cut(p.raw)) })
		doc, err := spec.ParseLong(p.b)
		if err != nil {
			c.Fail("part %d is malformed: %v", i, err)
		}
		if _, err := m.Append(p.b); err != nil {
			if cfg.Flat {
				c.Class("refused")
				continue
			}
			c.Fail("part %d: %v", i, err)
		}
		sum += len(doc.Stats.Literals)
		copies += doc.Stats.CopyItems
		c.Key(p.b)
	}
	out, err := m.Finish()
	if err != nil {
		c.Fail("Finish: %v", err)
	}
	c.Describe(func() string { return fmt.Sprintf("merged %d bytes % x", len(out), cut(out)) })
	doc, err := spec.ParseLong(out)
	if err != nil {
		c.Fail("the merged document is malformed: %v", err)
	}
	seen := map[lit]bool{}
	for _, x := range doc.Stats.Literals {
		k := lit{x.Role, x.S, x.UTF}
		switch {
		case x.Tracked && x.Role != "class name", x.Role == "pattern", x.Role == "modifiers", len(x.S) < 2:
			continue
		case x.Role == "class name":
		case !cfg.Dedupe && x.Role == "":
			continue
		case cfg.Dedupe && copies > 0:
			if x.Role == "" {
				continue
			}
		case cfg.Dedupe:
			k.role = "string"
		}
		if seen[k] {
			c.Fail("the %s %q is written out once more at %d", k.role, x.S, x.Pos)
		}
		seen[k] = true
	}
	var v interface{}
	if err := sereal.Unmarshal(out, &v); err != nil && doc.Stats.Long == 0 {
		c.Fail("decoding the merged document: %v", err)
	}
	c.KeyStr(fmt.Sprint(cfg))
	c.NonTrivial(len(doc.Stats.Literals) < sum)
	c.Class("merger")
	c.ClassIf(len(doc.Stats.Literals) < sum, "merger, something again")
	c.ClassIf(cfg.Dedupe && copies == 0, "all strings")
}
