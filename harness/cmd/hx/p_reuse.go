package main

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"runtime"

	"github.com/Sereal/Sereal/Go/sereal"
	"verif/harness/spec"
)

func init() {
	register(&Prop{ID: "C09", Fn: c09, Quick: 250000, Thorough: 6000000,
		Rule: "sequences of decodes (valid, damaged, too deep, failing and panicking user methods) on one decoder against a fresh decoder for every call; non-trivial: some call fails or panics before another one"})
	register(&Prop{ID: "C10", Fn: c10, Quick: 600000, Thorough: 12000000,
		Rule: "sequences of values (also unencodable, too deep, failing and panicking user methods) on one encoder against a fresh encoder for every call; non-trivial: three or more calls"})
	register(&Prop{ID: "C11", Fn: c11, Quick: 400000, Thorough: 6000000,
		Rule: "documents decoded, decompressed and merged, with the memory of results compared with that of the input and of each other, and the input overwritten; non-trivial: the document holds a string of some length"})
}

// Rude fails in the ways its data asks for.
type Rude struct{ Data string }

var errRude = errors.New("rude")

// MarshalBinary does what Data says.
func (r Rude) MarshalBinary() ([]byte, error) { return []byte(r.Data), rude([]byte(r.Data)) }

// UnmarshalBinary does what the data says.
func (r *Rude) UnmarshalBinary(b []byte) error {
	r.Data = string(b)
	return rude(b)
}

func rude(b []byte) error {
	switch string(b) {
	case "error":
		return errRude
	case "panic string":
		panic("rude string")
	case "panic error":
		panic(errRude)
	case "panic nil map":
		var m map[string]int
		m["x"] = 1
	case "panic index":
		_ = b[len(b)]
	}
	return nil
}

var rudeWords = []string{"error", "panic string", "panic error", "panic nil map", "panic index", "polite", ""}

// rudeDoc has frozen objects of class R somewhere.
func rudeDoc(c *Case) []byte {
	t := c.T
	frozen := func(w string, objv int) []byte {
		b := []byte{spec.TObjFreeze, 0x61, 'R'}
		if objv > 0 {
			b = []byte{spec.TObjVFreeze, byte(objv)}
		}
		b = append(b, spec.TRefN, spec.TArray, 1, 0x60|byte(len(w)))
		return append(b, w...)
	}
	n := spec.N(t, 1, 4)
	b := []byte{spec.TArray, byte(n + 1)}
	b = append(b, 0x80|spec.TRefN, 0x61, 'x') // something tracked
	first := 0
	for i := 0; i < n; i++ {
		w := rudeWords[spec.N(t, 0, len(rudeWords)-1)]
		if i < n-1 && spec.Bool(t) {
			w = "polite"
		}
		o := 0
		if first > 0 && spec.Bool(t) {
			o = first
		} else if first == 0 {
			first = len(b) + 2
		}
		pre := len(b)
		switch spec.N(t, 0, 3) {
		case 1:
			b = append(b, spec.TRefN)
		case 2:
			b = append(b, spec.TArrayRef+1)
		case 3:
			b = append(b, spec.THashRef+1, 0x61, 'k')
		}
		if first == pre+2 {
			first += len(b) - pre
		}
		b = append(b, frozen(w, o)...)
	}
	return spec.Assemble(spec.N(t, 2, 4), spec.DRaw, []byte{0}, nil, b, 0)
}

// attempt runs f, and tells how it ended.
func attempt(f func() error) (res string) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(runtime.Error); ok {
				res = "panic: " + e.Error()
				return
			}
			res = fmt.Sprintf("panic: %v", r)
		}
	}()
	if err := f(); err != nil {
		return "error: " + err.Error()
	}
	return "ok"
}

type regEntry struct {
	name string
	v    any
}

// c09deep lets one decoder fail deep inside of documents, repeatedly.
func c09deep(c *Case) {
	t := c.T
	dec := &sereal.Decoder{PerlCompat: spec.Chance(t, 3)}
	deep := func(n int, valid bool) []byte {
		level := spec.One(t, "\x28", "\x2b\x01", "\x28\x2b\x01", "\x41", "\x51\x61k", "\x2a\x01\x60", "\x2c\x61C", "\x30")
		b := bytes.Repeat([]byte(level), n)
		if valid {
			b = append(b, 1)
		} else if spec.Bool(t) {
			b = append(b, 0x33)
		}
		return spec.Assemble(spec.One(t, 2, 3, 4), 0, []byte{0}, nil, b, 0)
	}
	total := 0
	for i := 0; i < 6; i++ {
		n := spec.One(t, 20000, 40000, 70000)
		valid := total > 100000 && spec.Bool(t)
		total += n
		b := deep(n, valid)
		mk := func() any { return new(interface{}) }
		if spec.Chance(t, 3) {
			mk = func() any { return new([]interface{}) }
		}
		v, w := mk(), mk()
		err := dec.Unmarshal(b, v)
		want := (&sereal.Decoder{PerlCompat: dec.PerlCompat}).Unmarshal(b, w)
		if fmt.Sprint(err) != fmt.Sprint(want) {
			c.Fail("step %d, % x: %v, with a new decoder: %v", i, cut(b), err, want)
		}
		c.ClassIf(want == nil, "deep and valid")
	}
	c.Class("deep")
	c.NonTrivial(true)
	c.KeyStr(fmt.Sprint(total))
}

func c09(c *Case) {
	t := c.T
	if spec.N(t, 0, 400) == 217 {
		c09deep(c)
		return
	}
	perl, noRI := spec.Chance(t, 3), spec.Chance(t, 4)
	dec := &sereal.Decoder{PerlCompat: perl, DisableReferentialIntegrity: noRI}
	if spec.Chance(t, 4) {
		dec = sereal.NewDecoder()
		perl, noRI = false, false
	}
	c.Descf("PerlCompat %v DisableReferentialIntegrity %v", perl, noRI)
	var regs []regEntry
	register := func() {
		r := regEntry{spec.One(t, "R", "C", "a", "foo", "x"), nil}
		r.v = spec.One[any](t, &Rude{}, &Frozen{}, new(FrozenInt), new(FrozenSlice))
		regs = append(regs, r)
		dec.RegisterName(r.name, r.v)
		c.Descf("register %s as %T", r.name, r.v)
	}
	if spec.Bool(t) {
		regs = append(regs, regEntry{"R", &Rude{}})
		dec.RegisterName("R", &Rude{})
	}
	type kept struct {
		v    any
		dump string
		i    int
	}
	var keep []kept
	var docs [][]byte
	failedBefore, bad := false, false
	n := spec.N(t, 2, 7)
	for i := 0; i < n; i++ {
		var b []byte
		kind := spec.Pick(t, 5, 4, 3, 2, 2, 4)
		if kind >= 4 && len(docs) == 0 {
			kind = 0
		}
		switch kind {
		case 0:
			b = spec.Gen(t, spec.DocOpts{MaxItems: 25, NoBig: true}).Bytes
		case 1:
			b = spec.Mutate(t, spec.Gen(t, spec.DocOpts{MaxItems: 25, NoBig: true, NoCompress: spec.Bool(t)}).Bytes)
		case 2:
			b = rudeDoc(c)
		case 3:
			o := spec.HostileOpts{Deep: 300}
			if spec.Chance(t, 40) {
				o.Deep = 120000
			}
			b = spec.GenHostile(t, o).Bytes
		case 4:
			b = docs[spec.N(t, 0, len(docs)-1)]
		case 5:
			b = docs[spec.N(t, 0, len(docs)-1)]
			if s := spec.Sibling(t, b); s != nil && !spec.Chance(t, 5) {
				b = s
				c.Class("sibling")
			} else {
				b = spec.Mutate(t, b)
			}
		}
		docs = append(docs, b)
		if spec.Chance(t, 6) {
			register()
		}
		op := spec.Pick(t, 6, 4, 1, 2)
		mk := func() any { return new(interface{}) }
		if op == 1 || op == 3 && spec.Bool(t) {
			k := spec.N(t, 0, len(targets))
			if k == len(targets) {
				mk = func() any { return new(Rude) }
			} else {
				mk = targets[k]
			}
		}
		run := func(d *sereal.Decoder) (string, any, any) {
			v, h := mk(), any(nil)
			res := attempt(func() error {
				switch op {
				case 2:
					return d.UnmarshalHeader(b, v)
				case 3:
					h = new(interface{})
					return d.UnmarshalHeaderBody(b, h, v)
				}
				return d.Unmarshal(b, v)
			})
			return res, v, h
		}
		c.Describe(func() string { return fmt.Sprintf("operation %d into %T: % x", op, mk(), cut(b)) })
		fresh := &sereal.Decoder{PerlCompat: perl, DisableReferentialIntegrity: noRI}
		for _, r := range regs {
			fresh.RegisterName(r.name, r.v)
		}
		r1, v1, h1 := run(dec)
		r2, v2, h2 := run(fresh)
		if r1 != r2 {
			c.Fail("call %d on the reused decoder: %s; on a fresh one: %s", i, r1, r2)
		}
		d1, d2 := spec.Dump(v1), spec.Dump(v2)
		if d1 != d2 {
			c.Fail("call %d on the reused decoder: %s %s; on a fresh one: %s", i, r1, spec.Show(v1), spec.Show(v2))
		}
		if h1 != nil && spec.Dump(h1) != spec.Dump(h2) {
			c.Fail("call %d: header on the reused decoder: %s; on a fresh one: %s", i, spec.Show(h1), spec.Show(h2))
		}
		if r1 == "ok" {
			keep = append(keep, kept{v1, d1, i})
			if h1 != nil {
				keep = append(keep, kept{h1, spec.Dump(h1), i})
			}
			bad = bad || failedBefore
		} else {
			failedBefore = true
		}
		c.Class("call " + r1[:2])
		c.Key(b)
	}
	for _, k := range keep {
		if spec.Dump(k.v) != k.dump {
			c.Fail("the value of call %d changed later: now %s", k.i, spec.Show(k.v))
		}
	}
	c.NonTrivial(bad)
}

// c10: encoders.
func c10(c *Case) {
	t := c.T
	cfg := spec.Enc(t, 3, 2, 1, -1)
	if spec.Chance(t, 4) {
		cfg.MaxDepth = spec.N(t, 1, 6)
	}
	enc := cfg.New()
	c.Descf("settings %+v", cfg)
	type kept struct {
		b, cp []byte
		i     int
	}
	var keep []kept
	n := spec.N(t, 2, 6)
	var vals []any
	oks, bads := 0, 0
	for i := 0; i < n; i++ {
		if spec.Chance(t, 8) { // other settings from now on
			cfg.Perl = spec.Bool(t)
			cfg.NoDedup = spec.Bool(t)
			enc.PerlCompat, enc.DisableDedup = cfg.Perl, cfg.NoDedup
			c.Descf("now %+v", cfg)
		}
		g := spec.NewGoGen(t)
		g.Budget = min(g.Budget, 40)
		g.Ptrs, g.Typed, g.Perl, g.JSON = spec.Bool(t), spec.Chance(t, 3), spec.Chance(t, 3), true
		g.Extra = frozenLeaf
		var v any
		switch kind := spec.Pick(t, 6, 2, 2, 2); {
		case kind == 1:
			v = unencodable(c, g)
		case kind == 2 && len(vals) > 0:
			v = vals[spec.N(t, 0, len(vals)-1)]
		case kind == 3:
			w := Rude{rudeWords[spec.N(t, 0, len(rudeWords)-1)]}
			v = spec.One[any](t, w, []interface{}{"a", map[string]interface{}{"k": 1}, w}, &w, map[string]interface{}{"x": w}, []Rude{{"fine"}, w})
		default:
			v = g.Value()
		}
		vals = append(vals, v)
		var hdr any
		if spec.Chance(t, 5) {
			g.Budget = 6
			hdr = g.Value()
		}
		c.Describe(func() string { return fmt.Sprintf("value %s header %s", spec.Show(v), spec.Show(hdr)) })
		before, hbefore := spec.Dump(v), spec.Dump(hdr)
		var b1, b2 []byte
		run := func(e *sereal.Encoder, b *[]byte) string {
			return attempt(func() (err error) {
				if hdr != nil {
					*b, err = e.MarshalWithHeader(hdr, v)
				} else {
					*b, err = e.Marshal(v)
				}
				return err
			})
		}
		r1 := run(enc, &b1)
		r2 := run(cfg.New(), &b2)
		if spec.Dump(v) != before || spec.Dump(hdr) != hbefore {
			c.Fail("call %d modified its input: now %s header %s", i, spec.Show(v), spec.Show(hdr))
		}
		if r1 != r2 && cfg.MaxDepth > 0 && (unordered(reflect.ValueOf(v)) || unordered(reflect.ValueOf(hdr))) {
			// what counts as deep may depend on the order in which shared items are met
			c.Class("order matters")
			continue
		}
		if r1 != r2 {
			c.Fail("call %d on the reused encoder: %s; on a fresh one: %s", i, r1, r2)
		}
		if r1 != "ok" {
			bads++
			if b1 != nil {
				c.Fail("call %d: a document and %s", i, r1)
			}
			continue
		}
		oks++
		if !bytes.Equal(b1, b2) {
			if !unordered(reflect.ValueOf(v)) && !unordered(reflect.ValueOf(hdr)) {
				c.Fail("call %d on the reused encoder: % x; on a fresh one: % x", i, cut(b1), cut(b2))
			}
			p1, err := spec.Parse(b1)
			if err != nil {
				c.Fail("call %d: malformed document % x: %v", i, cut(b1), err)
			}
			p2, err := spec.Parse(b2)
			if err != nil {
				c.Fail("call %d: malformed document % x: %v", i, cut(b2), err)
			}
			if d := spec.Equal(p1.Body, p2.Body, spec.EqOpts{Sharing: true}); d != "" {
				c.Fail("call %d: the reused encoder's document differs: %s", i, d)
			}
			if p1.HasHeader != p2.HasHeader {
				c.Fail("call %d: headers", i)
			}
			if p1.HasHeader {
				if d := spec.Equal(p1.Header, p2.Header, spec.EqOpts{Sharing: true}); d != "" {
					c.Fail("call %d: the reused encoder's header differs: %s", i, d)
				}
			}
			c.Class("equivalent")
		} else {
			c.Class("identical")
		}
		if d := spec.Within(append(spec.Regions(v), spec.Regions(hdr)...), b1); d != "" {
			c.Fail("call %d: the document shares memory with the input: %s", i, d)
		}
		keep = append(keep, kept{b1, append([]byte(nil), b1...), i})
		if spec.Chance(t, 4) { // the caller does with it as he pleases
			k := &keep[len(keep)-1]
			b1 = b1[:cap(b1)]
			for j := range b1 {
				b1[j] ^= 0xa5
			}
			k.cp = append([]byte(nil), k.b...)
			if spec.Dump(v) != before {
				c.Fail("call %d: changing the document changes the input: now %s", i, spec.Show(v))
			}
		}
		c.Key(b2)
	}
	for i, k := range keep {
		if !bytes.Equal(k.b, k.cp) {
			c.Fail("the document of call %d changed later: % x", k.i, cut(k.b))
		}
		for _, l := range keep[:i] {
			if x := spec.Within([]spec.Region{spec.BytesRegion(l.b)}, k.b); x != "" {
				c.Fail("the documents of calls %d and %d share memory", l.i, k.i)
			}
		}
	}
	c.ClassIf(oks > 0 && bads > 0, "both good and bad")
	c.KeyStr(fmt.Sprint(cfg, oks, bads))
	c.NonTrivial(n >= 3 && oks > 0)
}

// unordered tells whether an encoding of v depends on map iteration.
func unordered(v reflect.Value) bool {
	return unord(v, map[any]bool{})
}

func unord(v reflect.Value, seen map[any]bool) bool {
	if !v.IsValid() {
		return false
	}
	switch v.Kind() {
	case reflect.Interface:
		return unord(v.Elem(), seen)
	case reflect.Ptr:
		k := [2]any{v.Pointer(), v.Type()}
		if v.IsNil() || seen[k] {
			return false
		}
		seen[k] = true
		return unord(v.Elem(), seen)
	case reflect.Map:
		if v.Len() > 1 || seen[v.Pointer()] {
			return v.Len() > 1
		}
		seen[v.Pointer()] = true
		it := v.MapRange()
		for it.Next() {
			if unord(it.Value(), seen) {
				return true
			}
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return false
		}
		for i := 0; i < v.Len(); i++ {
			if unord(v.Index(i), seen) {
				return true
			}
		}
	case reflect.Struct:
		if v.NumField() > 1 { // fields are kept in a map
			switch v.Type() {
			case reflect.TypeOf(sereal.PerlObject{}), reflect.TypeOf(sereal.PerlRegexp{}), reflect.TypeOf(sereal.PerlFreeze{}), reflect.TypeOf(sereal.PerlUndef{}):
			default:
				return true
			}
		}
		for i := 0; i < v.NumField(); i++ {
			if unord(v.Field(i), seen) {
				return true
			}
		}
	}
	return false
}

// unencodable draws a value that has something in it that can't be encoded.
func unencodable(c *Case, g *spec.GoGen) any {
	t := c.T
	var x any
	switch spec.N(t, 0, 9) {
	case 0:
		x = make(chan int)
	case 1:
		x = func() {}
	case 2:
		x = complex(1, 2)
	case 3:
		x = uintptr(7)
	case 4:
		x = map[int]string{1: "a"}
	case 5:
		x = map[interface{}]interface{}{spec.One[any](t, 1, 2.5, true, struct{}{}): 1}
	case 6:
		x = map[[2]string]int{{"a", "b"}: 1}
	case 7:
		x = struct {
			A string
			C chan int
		}{"x", nil}
	case 8:
		x = []complex64{1}
	case 9:
		x = map[bool]int{true: 1}
	}
	for i := spec.N(t, 0, 3); i > 0; i-- {
		switch spec.N(t, 0, 4) {
		case 0:
			x = []interface{}{g.Scalar(), x, g.Scalar()}
		case 1:
			x = map[string]interface{}{"k": x}
		case 2:
			y := x
			x = &y
		case 3:
			x = &sereal.PerlObject{Class: "K", Reference: x}
		case 4:
			x = struct{ X interface{} }{x}
		}
	}
	return x
}

// c11: memory of inputs and results.
func c11(c *Case) {
	t := c.T
	o := spec.DocOpts{}
	strict := spec.Chance(t, 2) || spec.Chance(t, 2)
	if strict { // nothing is shared on purpose
		o.NoRefp, o.NoAlias = true, true
	}
	op := spec.Pick(t, 5, 4, 2, 2, 3, 2)
	perl := spec.Chance(t, 3)
	dec := &sereal.Decoder{PerlCompat: perl, DisableReferentialIntegrity: spec.Chance(t, 5)}
	o.NoSelf = dec.DisableReferentialIntegrity
	if op == 4 {
		o.NoStrPad, o.NoFreeze = true, false
	}
	var orig []byte
	var d *spec.GenDoc
	var goVal reflect.Value
	if op == 5 { // a typed round trip
		g := spec.NewGoGen(t)
		goVal = g.OfType(g.Type(3))
		b, err := spec.Enc(t).Marshal(goVal.Interface())
		if err != nil {
			c.Fail("encoding failed: %v", err)
		}
		orig = b
	} else {
		d = spec.Gen(t, o)
		orig = d.Bytes
		c.Describe(func() string { return "document " + d.String() })
	}
	// with some room behind it
	buf := make([]byte, len(orig), len(orig)+spec.N(t, 0, 40))
	copy(buf, orig)
	var results []any
	damaged := false
	if d != nil && spec.Chance(t, 5) {
		buf = spec.Mutate(t, buf)
		orig = append([]byte(nil), buf...)
		damaged = true
	}
	var err error
	switch op {
	case 0:
		v := new(interface{})
		err = dec.Unmarshal(buf, v)
		results = append(results, v)
	case 1:
		v := targets[spec.N(t, 0, len(targets)-1)]()
		c.Descf("into %T", v)
		dec.PerlCompat = false
		dec.RegisterName("a", &Frozen{})
		err = dec.Unmarshal(buf, v)
		results = append(results, v)
		damaged = damaged || err != nil
		strict = strict && err == nil
	case 2:
		v, h := new(interface{}), new(interface{})
		err = dec.UnmarshalHeaderBody(buf, h, v)
		results = append(results, v, h)
	case 3:
		var out []byte
		if spec.Bool(t) {
			dst := make([]byte, spec.N(t, 0, 2*len(buf)))
			out, err = sereal.DecompressDocument(dst, buf)
		} else {
			out, err = sereal.DecompressDocument(nil, buf)
		}
		results = append(results, &out)
	case 4:
		m := newMerger(c)
		twin := *m
		pre := spec.Gen(t, spec.DocOpts{NoStrPad: true, MaxItems: 10, NoBig: true}).Bytes
		for _, x := range []*sereal.Merger{m, &twin} {
			x.Append(append([]byte(nil), pre...))
		}
		_, err1 := twin.Append(append([]byte(nil), orig...))
		_, err = m.Append(buf)
		if !bytes.Equal(buf, orig) {
			c.Fail("Append modifies its input")
		}
		for i := range buf {
			buf[i] ^= 0xff
		}
		tail := spec.Gen(t, spec.DocOpts{NoStrPad: true, MaxItems: 10, NoBig: true}).Bytes
		m.Append(append([]byte(nil), tail...))
		twin.Append(append([]byte(nil), tail...))
		o1, e1 := m.Finish()
		o2, e2 := twin.Finish()
		if (err == nil) != (err1 == nil) || (e1 == nil) != (e2 == nil) {
			c.Fail("the merger's results depend on overwritten input: %v, %v, %v, %v", err, err1, e1, e2)
		}
		if !bytes.Equal(o1, o2) {
			c.Fail("the merged document depends on overwritten input: % x, want % x", cut(o1), cut(o2))
		}
		copy(buf, orig)
		results = append(results, &o1)
	case 5:
		v := reflect.New(goVal.Type())
		err = sereal.Unmarshal(buf, v.Interface())
		results = append(results, v.Interface())
	}
	if err != nil && !damaged && op != 4 {
		c.Fail("valid document refused: %v", err)
	}
	if !bytes.Equal(buf, orig) {
		c.Fail("the input was modified: % x", cut(buf))
	}
	var regions []spec.Region
	for i, r := range results {
		l := spec.Regions(r)
		regions = append(regions, l...)
		if x := spec.Within(l, buf); x != "" {
			c.Fail("result %d shares memory with the input: %s", i, x)
		}
	}
	if strict {
		if x := spec.Overlap(regions); x != "" {
			c.Fail("independent parts of the result share memory: %s", x)
		}
	}
	var dumps []string
	for _, r := range results {
		dumps = append(dumps, spec.Dump(r))
	}
	for i := range buf[:cap(buf)] {
		buf[:cap(buf)][i] ^= 0x5a
	}
	for i, r := range results {
		if spec.Dump(r) != dumps[i] {
			c.Fail("result %d changes when the input is overwritten: %s", i, spec.Show(r))
		}
	}
	// nor does anything written to the result reach the input
	copy(buf, orig)
	for _, r := range results {
		scribble(reflect.ValueOf(r), map[any]bool{})
	}
	if !bytes.Equal(buf, orig) {
		c.Fail("writing to the result changes the input")
	}
	// the next decoding is not disturbed either
	if op == 0 && err == nil && !damaged {
		v := new(interface{})
		if err := dec.Unmarshal(buf, v); err != nil {
			c.Fail("after writing to the first result: %v", err)
		}
		m := &spec.Matcher{Perl: perl, NoRI: dec.DisableReferentialIntegrity}
		if x := m.Match(d.Body, *v); x != "" && (!perl || !dec.DisableReferentialIntegrity) {
			c.Fail("after writing to the first result: %s", x)
		}
	}
	long := false
	for _, r := range regions {
		long = long || r.What != "slice" && r.Hi-r.Lo > 3
	}
	c.Key(orig)
	c.KeyStr(fmt.Sprint(op))
	c.NonTrivial(long)
	c.Class(fmt.Sprintf("operation %d", op))
	c.ClassIf(damaged, "damaged")
	c.ClassIf(strict, "strict")
}

// scribble overwrites the byte slices of a value.
func scribble(v reflect.Value, seen map[any]bool) {
	if !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		scribble(v.Elem(), seen)
	case reflect.Ptr:
		k := [2]any{v.Pointer(), v.Type()}
		if v.IsNil() || seen[k] || v.Type() == reflect.TypeOf(sereal.PerlCanonicalUndef()) {
			return
		}
		seen[k] = true
		scribble(v.Elem(), seen)
	case reflect.Map:
		if seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		it := v.MapRange()
		for it.Next() {
			scribble(it.Value(), seen)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := v.Bytes()
			b = b[:cap(b)]
			for i := range b {
				b[i] = ^b[i]
			}
			return
		}
		if v.Len() > 0 && seen[dumpKey{v.Pointer(), v.Len()}] {
			return
		}
		seen[dumpKey{v.Pointer(), v.Len()}] = true
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i), seen)
		}
	}
}

type dumpKey struct {
	p uintptr
	n int
}
