package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"verif/harness/spec"
)

func init() {
	register(&Prop{ID: "C31", Fn: c31, Quick: 60000, Thorough: 1500000,
		Rule:   "data of generated documents of Perl's kinds, with things Sereal cannot represent in some, nested and tied containers, strings used as numbers x options of Sereal::Encoder x ways to call it; non-trivial: an option matters to the data",
		Assume: []string{"the encoder and decoder of this repository with the system's Perl", "documents as in C23"}})
}

var (
	anyClass   = regexp.MustCompile(`B[0-9a-f]*;`)
	binString  = regexp.MustCompile(`b((?:[0-9a-f][0-9a-f])*);`)
	textString = regexp.MustCompile(`u((?:[0-9a-f][0-9a-f])*;)`)
)

// looser: strings are equal if they are for Perl.
func looser(s string) string {
	s = binString.ReplaceAllStringFunc(boolean.Replace(frozenClass.ReplaceAllString(s, "Z")), func(m string) string {
		var sb strings.Builder
		for i := 1; i+1 < len(m); i += 2 {
			n, _ := strconv.ParseUint(m[i:i+2], 16, 8)
			fmt.Fprintf(&sb, "%x", string(rune(n)))
		}
		return "s" + sb.String() + ";"
	})
	return textString.ReplaceAllString(s, "s$1")
}

// encOpts draws options of the encoder.
func encOpts(c *Case, freeze bool) (o map[string]string, ver int) {
	t := c.T
	o = map[string]string{"ways": spec.One(t, "m", "mm", "fm", "si", "Fm", "nm", "dnm", "mdf", "mifsFnd")}
	ver = spec.One(t, 5, 4, 3, 2, 1)
	if spec.Bool(t) {
		o["reuse"] = "1"
	}
	if ver < 5 || spec.Bool(t) {
		o["e_protocol_version"] = fmt.Sprint(ver)
		if ver == 1 && spec.Bool(t) {
			delete(o, "e_protocol_version")
			o["e_use_protocol_v1"] = "1"
		}
	}
	if freeze || spec.Chance(t, 2) {
		o["e_freeze_callbacks"] = "1"
	} else if spec.Chance(t, 3) {
		o["e_no_bless_objects"] = "1"
	}
	if spec.Chance(t, 8) {
		o["e_croak_on_bless"] = "1"
	}
	if spec.Chance(t, 2) {
		o["e_dedupe_strings"] = "1"
	}
	if spec.Chance(t, 3) {
		o["e_no_shared_hashkeys"] = "1"
	}
	if spec.Chance(t, 2) {
		o["e_sort_keys"] = fmt.Sprint(spec.N(t, 0, 3))
	}
	if spec.Chance(t, 4) {
		o["e_canonical"] = "1"
	}
	if spec.Chance(t, 4) {
		o["e_canonical_refs"] = fmt.Sprint(spec.N(t, 0, 1))
	}
	if spec.Chance(t, 2) {
		typ := spec.N(t, 1, 3)
		if ver < 3 {
			typ = 1
		} else if ver < 4 {
			typ = min(typ, 2)
		}
		o["e_compress"] = fmt.Sprint(typ)
		if typ > 1 && spec.Bool(t) {
			o["e_compress_level"] = fmt.Sprint(spec.N(t, 1, 9))
		}
		if typ == 1 && spec.Chance(t, 3) {
			delete(o, "e_compress")
			o[spec.One(t, "e_snappy", "e_snappy_incr")] = "1"
		}
		if !spec.Chance(t, 5) {
			name := "e_compress_threshold"
			if typ == 1 && spec.Bool(t) {
				name = "e_snappy_threshold"
			}
			o[name] = fmt.Sprint(spec.One(t, 0, 1, 20, 60, 100, 500))
		}
	}
	return
}

// compressed tells which type documents that are worth it have, and the threshold.
func compressed(o map[string]string, ver int) (typ, threshold int) {
	switch {
	case o["e_compress"] != "":
		n, _ := strconv.Atoi(o["e_compress"])
		typ = []int{spec.DRaw, spec.DSnappyIncr, spec.DZlib, spec.DZstd}[n]
	case o["e_snappy_incr"] != "":
		typ = spec.DSnappyIncr
	case o["e_snappy"] != "":
		typ = spec.DSnappyIncr
		if ver == 1 {
			typ = spec.DSnappy
		}
	}
	threshold = 1024
	for _, k := range []string{"e_snappy_threshold", "e_compress_threshold"} {
		if s := o[k]; s != "" {
			threshold, _ = strconv.Atoi(s)
		}
	}
	return
}

// encoded checks the form of what was written with the options.
func encoded(c *Case, b []byte, o map[string]string, ver int, sorted bool) *spec.Doc {
	doc, err := spec.ParseFive(b)
	if err != nil && strings.Contains(err.Error(), "ALIAS refers to an unfinished item") {
		c.Class("ALIAS to what it is part of")
		return nil
	}
	if err != nil {
		c.Fail("Perl wrote a document that is malformed: %v\n  % x", err, cut(b))
	}
	if doc.Version != ver {
		c.Fail("version %d instead of %d", doc.Version, ver)
	}
	typ, threshold := compressed(o, ver)
	body := len(doc.RawBody)
	switch {
	case doc.Type != 0 && (doc.Type != typ || body < threshold):
		c.Fail("%d bytes have become a document of type %d", body, doc.Type)
	case doc.Type == 0 && typ != 0 && body >= threshold && len(spec.Compress(typ, doc.RawBody, 1)) < body*8/10-20:
		c.Fail("%d bytes are not compressed", body)
	case doc.Type != 0 && len(b)-doc.BodyStart > body+10: // the lengths, which precede the compressed data, do not count
		c.Fail("%d bytes are compressed to %d", body, len(b)-doc.BodyStart)
	}
	c.Class(fmt.Sprintf("v%d type %d", ver, doc.Type))
	mode := o["e_sort_keys"]
	if mode == "" {
		mode = o["e_canonical"]
	}
	refs := o["e_canonical_refs"]
	if refs == "" {
		refs = o["e_canonical"]
	}
	if mode != "" && mode != "0" && sorted {
		for _, n := range []*spec.Node{doc.Body, doc.Header} {
			if n != nil {
				n.Walk(func(n *spec.Node) {
					if n.K == spec.KHash {
						inOrder(c, n, mode)
					}
				})
			}
		}
	}
	if refs == "1" && doc.Stats.ShortRefs+doc.HeadStats.ShortRefs > 0 {
		c.Fail("%d ARRAYREF or HASHREF tags", doc.Stats.ShortRefs+doc.HeadStats.ShortRefs)
	}
	dedupe, slow := o["e_dedupe_strings"] != "", mode == "2" || mode == "3"
	for _, st := range []spec.ParseStats{doc.Stats, doc.HeadStats} {
		if !dedupe && (o["e_no_shared_hashkeys"] != "" || slow) && st.Copy > 0 {
			c.Fail("%d strings are copied", st.Copy)
		}
		keys, values := map[string]bool{}, map[string]bool{}
		for _, l := range st.Literals {
			s := l.S
			if !l.UTF {
				s = perlChars(s)
			}
			switch l.Role {
			case "hash key":
				k := fmt.Sprint(l.UTF, l.S)
				if keys[k] && o["e_no_shared_hashkeys"] == "" && !slow && sorted {
					c.Fail("the key %q is written out again", l.S)
				}
				keys[k] = true
			case "":
				if len(l.S) > 3 && dedupe && values[s] && o["as"] == "" {
					c.Fail("the string %q is written out again", l.S)
				}
				values[s] = true
			}
		}
	}
	return doc
}

// perlChars is the text of a byte string in UTF-8.
func perlChars(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		sb.WriteRune(rune(s[i]))
	}
	return sb.String()
}

// inOrder checks the order of a hash's keys.
func inOrder(c *Case, n *spec.Node, mode string) {
	for i := 1; i < len(n.Keys); i++ {
		a, b, au, bu := n.Keys[i-1], n.Keys[i], n.KUTF[i-1], n.KUTF[i]
		ok := false
		if mode == "1" {
			switch {
			case len(a) != len(b):
				ok = len(a) < len(b)
			case a != b:
				ok = a < b
			default:
				ok = !au && bu
			}
		} else {
			if !au {
				a = perlChars(a)
			}
			if !bu {
				b = perlChars(b)
			}
			if mode == "3" {
				a, b = b, a
			}
			ok = a < b
		}
		if !ok {
			c.Fail("keys not in order (sort_keys %s): %q (text %v), %q (text %v)", mode, n.Keys[i-1], au, n.Keys[i], bu)
		}
	}
	if len(n.Keys) > 1 {
		c.Class("sorted " + mode)
		c.NonTrivial(true)
	}
}

func c31(c *Case) {
	t := c.T
	switch spec.N(t, 0, 10) {
	case 7:
		c31depth(c)
		return
	case 8:
		c31tied(c)
		return
	case 9:
		c31used(c)
		return
	case 10:
		if spec.Chance(t, 4) {
			c31refused(c)
			return
		}
	}
	d := spec.Gen(t, spec.DocOpts{Perl: true})
	c.Describe(func() string { return "document " + d.String() })
	frozen := false
	for _, n := range []*spec.Node{d.Body, d.Header} {
		if n != nil {
			if _, err := spec.PerlOf(n, false); err != nil {
				c.Class("not for Perl")
				return
			}
			n.Walk(func(n *spec.Node) { frozen = frozen || n.K == spec.KFreeze })
		}
	}
	o, ver := encOpts(c, frozen)
	header := d.HasHeader && ver > 1 && d.Header.K != spec.KUndef && d.Header.K != spec.KCanonUndef // no header is undef
	if header {
		o["header"] = "1"
	}
	unknown, shared6 := false, false
	if ver > 1 && d.Body.K != spec.KUndef && d.Body.K != spec.KCanonUndef && spec.Chance(t, 6) {
		header = true // the body again
		o["header"], o["mirror"] = "1", "1"
	} else if spec.Chance(t, 3) {
		unknown = true
		o["unknown"] = fmt.Sprint(spec.N(t, 1, 5))
		for n := spec.N(t, 1, 3); n > 0; n-- {
			k := spec.N(t, 0, 7)
			shared6 = shared6 || k == 6
			o["kinds"] += fmt.Sprint(k)
		}
		switch spec.N(t, 0, 3) {
		case 0:
		case 1:
			o["e_stringify_unknown"] = "1"
			o["as"] = "string"
		default:
			o["e_undef_unknown"] = "1"
		}
		if spec.Bool(t) {
			o["e_warn_unknown"] = fmt.Sprint(spec.One(t, 1, -1))
		}
	}
	c.Descf("options %v", o)
	c.Key(append([]byte(fmt.Sprint(o)), d.Bytes...))
	chunks, e := perl(c, 'X', o, d.Bytes)
	if e != "" {
		c.Fail("Perl: %s", e)
	}
	first, warned, bad := chunks[2], chunks[3], chunks[5]
	count, _ := strconv.Atoi(chunks[4])
	if bad != "" {
		c.Fail("ways to encode the same disagree\n  first %x\n  %s", cut([]byte(first)), printable(bad))
	}
	// what is expected
	blessed := anyClass.MatchString(chunks[0]) || strings.Contains(chunks[0], "Z") ||
		header && (anyClass.MatchString(chunks[1]) || strings.Contains(chunks[1], "Z"))
	refused := map[string]bool{}
	if o["e_croak_on_bless"] != "" && (blessed || count > 0 && strings.ContainsAny(o["kinds"], "237")) {
		refused["croak_on_bless"] = true
		c.NonTrivial(true)
	}
	maybe := o["e_croak_on_bless"] != "" && count > 0 && !blessed // not all kinds need be there
	if count > 0 && o["e_undef_unknown"] == "" && o["e_stringify_unknown"] == "" {
		refused["not representable"] = true
		maybe = maybe && false
		c.NonTrivial(true)
	}
	if first[0] == 'E' {
		c.Class("refused")
		for why := range refused {
			if strings.Contains(first, why) {
				c.Class(why)
				return
			}
		}
		c.Fail("refused: %s", first)
	}
	if len(refused) > 0 && !(maybe && refused["croak_on_bless"] && len(refused) == 1) {
		c.Fail("encoded in spite of %v", refused)
	}
	b := []byte(first[1:])
	doc := encoded(c, b, o, ver, true)
	if doc == nil {
		return
	}
	if doc.HasHeader != header {
		c.Fail("header: %v", doc.HasHeader)
	}
	canon := false
	d.Body.Walk(func(n *spec.Node) { canon = canon || n.K == spec.KCanonUndef })
	if d.Header != nil {
		d.Header.Walk(func(n *spec.Node) { canon = canon || n.K == spec.KCanonUndef })
	}
	for i, n := range []*spec.Node{doc.Body, doc.Header} {
		if i == 1 && !header {
			break
		}
		p, err := spec.PerlOf(n, true)
		if err != nil {
			c.Fail("Perl wrote a document that is not for Perl: %v\n  % x", err, cut(b))
		}
		want, got := chunks[i], p.Dump(n)
		if o["e_no_bless_objects"] != "" {
			bl := anyClass.MatchString(want)
			n.Walk(func(n *spec.Node) {
				if n.K == spec.KObject || n.K == spec.KFreeze {
					c.Fail("there is an object")
				}
			})
			want, got = anyClass.ReplaceAllString(want, ""), anyClass.ReplaceAllString(got, "")
			if bl {
				c.Class("objects unblessed")
				c.NonTrivial(true)
			}
		}
		if i == 1 && o["mirror"] != "" { // what refers to the body itself is the only reference to it there
			want, got = strings.ReplaceAll(want, "W", "R"), strings.ReplaceAll(got, "W", "R")
		}
		want, got = looser(spec.TrimDump(want)), looser(spec.TrimDump(got))
		if shared6 && count > 0 && strings.Contains(want, "*") {
			c.Class("references to globs")
			return
		}
		if want != got && !(ver < 3 && canon) {
			c.Fail("Perl wrote something else (%s)\n  want %s\n  got  %s\n  % x", [...]string{"body", "header"}[i], around(want, got), around(got, want), cut(b))
		}
	}
	if unknown && count > 0 {
		c.NonTrivial(true)
		c.Class("unknown things encoded")
		want := 0
		if o["e_warn_unknown"] != "" {
			want = count
			if o["e_warn_unknown"] == "-1" && o["e_stringify_unknown"] != "" {
				for i := 0; i < count; i++ {
					if o["kinds"][i%len(o["kinds"])] == '7' {
						want--
					}
				}
			}
		}
		if warned != fmt.Sprint(want) {
			c.Fail("%s warnings about %d unknown things instead of %d", warned, count, want)
		}
	}
	if doc.Type != 0 || o["e_dedupe_strings"] != "" && doc.Stats.Copy > 0 {
		c.NonTrivial(true)
	}
	if typ, _ := compressed(o, ver); typ != 0 && len(doc.RawBody) > 1 && spec.Chance(t, 3) {
		// the same with the threshold right there
		o["ways"] = "m"
		delete(o, "e_snappy_threshold")
		size := len(doc.RawBody)
		for _, th := range []int{size, size + 1} {
			o["e_compress_threshold"] = fmt.Sprint(th)
			chunks, e := perl(c, 'X', o, d.Bytes)
			if e != "" || chunks[2][0] != 'K' || chunks[5] != "" {
				c.Fail("Perl with another threshold: %s %q", e, chunks)
			}
			again, err := spec.ParseFive([]byte(chunks[2][1:]))
			if err != nil && strings.Contains(err.Error(), "ALIAS refers to an unfinished item") {
				continue // hashes have another order this time
			}
			if err != nil {
				c.Fail("Perl wrote a document that is malformed: %v", err)
			}
			// order of hashes and addresses may have changed its size
			if len(again.RawBody) == size && th == size && again.Type == 0 && len(spec.Compress(typ, again.RawBody, 1)) < size*8/10-20 {
				c.Fail("%d bytes are not compressed", size)
			}
			if len(again.RawBody) == size && th > size && again.Type != 0 {
				c.Fail("%d bytes are compressed, the threshold is %d", size, th)
			}
		}
		c.Class("threshold at its size")
	}
	if ver < 5 {
		inPerl(c, "Perl's own", b, doc.Body, map[bool]*spec.Node{true: doc.Header}[header], decoderOpts(c), 'D')
	}
}

func printable(s string) string {
	if len(s) > 600 {
		s = s[:600]
	}
	return fmt.Sprintf("%q", s)
}

// c31depth: containers in one another up to the limit.
func c31depth(c *Case) {
	t := c.T
	depth := spec.N(t, 1, 60)
	if spec.Chance(t, 10) {
		depth = spec.N(t, 60, 3000)
	}
	limit := max(1, depth+spec.N(t, -9, 9))
	o, ver := encOpts(c, false)
	delete(o, "e_croak_on_bless")
	o["e_max_recursion_depth"] = fmt.Sprint(limit)
	if spec.Chance(t, 8) {
		delete(o, "e_max_recursion_depth")
		limit = 10000
	}
	o["d_max_recursion_depth"] = "100000"
	var b []byte
	shared := -1
	if spec.Chance(t, 2) { // what precedes is not as deep: an array, and references to it
		shared = spec.One(t, 0, 0, 1, 5, 12)
		b = append(b, byte(0x40+3+shared), 0x28, 0x2b|0x80, 2, 0x41, 2, 0x40)
		for i := 0; i < shared; i++ {
			b = append(b, 0x29, 3)
		}
	}
	kind := spec.N(t, 0, 2)
	for i := 0; i < depth; i++ {
		switch {
		case kind == 0 || kind == 2 && i%2 == 0:
			b = append(b, 0x41)
		default:
			b = append(b, 0x51, 0x61, 'k')
		}
	}
	b = append(b, 5)
	d := depth
	if shared >= 0 {
		d++
		b = append(b, spec.One(t, byte(7), 0x40)) // the last one
	}
	b = spec.Assemble(3, 0, []byte{0}, nil, b, 0)
	c.Descf("options %v\ndepth %d", o, d)
	c.Key(append([]byte(fmt.Sprint(o)), b...))
	if d > 9000 {
		panic("depth")
	}
	// FREEZE methods that encode work on something that is less deep than the limit may be
	if limit < 12 {
		o["ways"] = strings.NewReplacer("n", "", "d", "").Replace(o["ways"])
	}
	chunks, e := perl(c, 'X', o, b)
	if e != "" {
		c.Fail("Perl: %s", e)
	}
	if chunks[5] != "" {
		c.Fail("ways to encode the same disagree\n  first %x\n  %s", cut([]byte(chunks[2])), printable(chunks[5]))
	}
	ok := chunks[2][0] == 'K'
	c.NonTrivial(true)
	c.Class(fmt.Sprintf("depth ok %v", ok))
	if !ok && !strings.Contains(chunks[2], "maximum recursion depth") {
		c.Fail("refused: %s", chunks[2])
	}
	if ok && d > limit+4 || !ok && d < limit-4 {
		c.Fail("depth %d with limit %d: %v", d, limit, ok)
	}
	if ok {
		encoded(c, []byte(chunks[2][1:]), o, ver, true)
	}
}

// c31tied: containers whose contents come from methods.
func c31tied(c *Case) {
	t := c.T
	o, ver := encOpts(c, false)
	delete(o, "e_croak_on_bless")
	array := spec.Chance(t, 4)
	if array {
		o["array"] = "1"
	} else if spec.Chance(t, 3) {
		o["twice"] = "1"
	}
	if !array && spec.Chance(t, 2) {
		o["plain"] = "1" // as tied ones are
	}
	type key struct{ kind, text string }
	var keys []key
	seen := map[string]bool{}
	n := spec.N(t, 0, 20)
	for i := 0; i < n; i++ {
		k := key{spec.One(t, "i", "b", "n", "u", "d"), ""}
		text := ""
		switch k.kind {
		case "i", "d":
			k.text = fmt.Sprint(spec.N(t, -30, 300))
			if spec.Chance(t, 4) {
				k.text += fmt.Sprint(spec.N(t, 0, 1<<30))
			}
			if k.kind == "d" && spec.Bool(t) {
				k.text = spec.One(t, "0", "00", " ", "1e", "+") + k.text
			}
			n, _ := strconv.Atoi(k.text)
			text = k.text
			if k.kind == "i" {
				text = fmt.Sprint(n)
			}
		case "n":
			n := spec.N(t, -100, 1000)
			k.text = fmt.Sprint(n)
			text = strconv.FormatFloat(float64(n)/4, 'f', -1, 64)
		case "b":
			k.text = string(junk(t, spec.N(t, 0, 8)))
			text = perlChars(k.text)
		case "u":
			k.text = spec.One(t, "é", "ab", "日本", "zz", "a", "ÿÿ") + spec.One(t, "", "x", "é", "ab")
			text = k.text
		}
		if seen[text] {
			continue
		}
		seen[text] = true
		keys = append(keys, k)
	}
	var req []byte
	var texts []string
	for _, k := range keys {
		req = binary.BigEndian.AppendUint32(req, uint32(len(k.text)+1))
		req = append(append(req, k.kind...), k.text...)
		s := k.text
		switch k.kind {
		case "i":
			n, _ := strconv.Atoi(s)
			s = fmt.Sprint(n)
		case "n":
			n, _ := strconv.Atoi(s)
			s = strconv.FormatFloat(float64(n)/4, 'f', -1, 64)
		case "b":
			s = perlChars(s)
		}
		texts = append(texts, s)
	}
	delete(o, "ways")
	c.Descf("options %v\nkeys %q", o, texts)
	c.Key(append([]byte(fmt.Sprint(o)), req...))
	chunks, e := perl(c, 'Y', o, req)
	if e != "" {
		c.Fail("Perl: %s", e)
	}
	doc := encoded(c, []byte(chunks[0]), o, ver, false)
	if doc == nil {
		return
	}
	c.NonTrivial(len(keys) > 0)
	content := func(n *spec.Node) (string, bool) {
		switch n.K {
		case spec.KStr:
			return n.S, true
		case spec.KBytes:
			return perlChars(n.S), true
		}
		return "", false
	}
	value := func(n *spec.Node, k string) {
		want := "v" + k
		if len([]rune(want))%2 == 1 {
			if n.K != spec.KRef || n.Items[0].K != spec.KArray || len(n.Items[0].Items) != 1 {
				c.Fail("the value of %q is %v", k, n)
			}
			n = n.Items[0].Items[0]
		}
		if s, ok := content(n); !ok || s != want {
			c.Fail("the value of %q is %v", k, n)
		}
	}
	root := doc.Body
	if root.K != spec.KRef {
		c.Fail("no reference: %v", root)
	}
	root = root.Items[0]
	if array {
		c.Class("tied array")
		if root.K != spec.KArray || len(root.Items) != len(texts) {
			c.Fail("%d elements have become %v", len(texts), root)
		}
		for i, s := range texts {
			value(root.Items[i], s)
		}
		return
	}
	c.Class("tied hash" + o["plain"])
	hashes := []*spec.Node{root}
	if o["twice"] != "" {
		if root.K != spec.KArray || len(root.Items) != 2 || root.Items[0].K != spec.KRef || root.Items[1].K != spec.KRef || root.Items[0].Items[0] != root.Items[1].Items[0] {
			c.Fail("the same hash twice has become %v", root)
		}
		hashes = []*spec.Node{root.Items[0].Items[0]}
	}
	for _, h := range hashes {
		if h.K != spec.KHash || len(h.Keys) != len(texts) {
			c.Fail("%d entries have become %v", len(texts), h)
		}
		var got []string
		for i, k := range h.Keys {
			if !h.KUTF[i] {
				k = perlChars(k)
			}
			got = append(got, k)
			value(h.Items[i], k)
		}
		want := append([]string(nil), texts...)
		mode := o["e_sort_keys"]
		if mode == "" {
			mode = o["e_canonical"]
		}
		if mode != "" && mode != "0" {
			inOrder(c, h, mode)
		}
		if mode != "" && mode != "0" || o["plain"] != "" {
			sort.Strings(want)
			sort.Strings(got)
		}
		if fmt.Sprintf("%q", want) != fmt.Sprintf("%q", got) {
			c.Fail("keys\n  want %q\n  got  %q", want, got)
		}
	}
}

// c31refused: options that exclude one another or that there are not.
func c31refused(c *Case) {
	t := c.T
	c.NonTrivial(true)
	o := map[string]string{"ways": ""}
	why := ""
	switch spec.N(t, 0, 6) {
	case 0:
		o["e_no_bless_objects"], o["e_freeze_callbacks"], why = "1", "1", "mutually exclusive"
	case 1:
		o["e_undef_unknown"], o["e_stringify_unknown"], why = "1", "1", "mutually exclusive"
	case 2:
		o["e_protocol_version"], why = spec.One(t, "6", "0", "-1", "100"), "protocol"
	case 3:
		o["e_compress"], o["e_protocol_version"], why = "2", spec.One(t, "1", "2"), "introduced in protocol version 3"
		if spec.Bool(t) {
			o["e_compress"], o["e_protocol_version"], why = "3", spec.One(t, "1", "2", "3"), "introduced in protocol version 4"
		}
	case 4:
		o["e_compress"], o["e_compress_level"], why = "2", spec.One(t, "11", "-1", "100"), "compress_level"
	case 5:
		o["e_compress"], o["e_compress_level"], why = "3", spec.One(t, "23", "-1", "100"), "compress_level"
	case 6:
		o["e_compress"], why = spec.One(t, "4", "-1", "17"), "compression format"
	}
	c.Descf("options %v", o)
	c.Key([]byte(fmt.Sprint(o)))
	_, e := perl(c, 'X', o, []byte("=\xf3rl\x03\x00\x01"))
	if !strings.Contains(strings.ToLower(e), why) {
		c.Fail("options %v: %q", o, e)
	}
	c.Class("options refused: " + why)
}

// c31used: texts that have been used as numbers stay what they are, or become
// numbers that read the same, and numbers stay numbers of the same value.
func c31used(c *Case) {
	t := c.T
	o, ver := encOpts(c, false)
	delete(o, "ways")
	delete(o, "e_dedupe_strings")
	if spec.Chance(t, 4) {
		o["copy"] = "1"
	}
	if spec.Chance(t, 4) {
		o["deep"] = "1"
	}
	digits := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + spec.N(t, 0, 9))
		}
		return string(b)
	}
	var req []byte
	var items []string
	n := spec.N(t, 1, 12)
	for i := 0; i < n; i++ {
		how := spec.One(t, "s", "+", "i", "|", "*", "=", "&", "%", "N", "S", "I")
		var x string
		switch spec.N(t, 0, 7) {
		case 0:
			x = digits(spec.N(t, 1, 24))
		case 1, 2:
			x = digits(spec.N(t, 0, 12)) + "." + digits(spec.N(t, 0, 18))
		case 3:
			x = digits(spec.N(t, 1, 9)) + spec.One(t, "", ".", "."+digits(spec.N(t, 1, 9))) + spec.One(t, "e", "E") + spec.One(t, "", "-", "+") + fmt.Sprint(spec.N(t, 0, 30))
		case 4:
			x = spec.One(t, "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "9007199254740993", "4294967296", "0.1", "1e15", "1e16", "123456789012345", "1234567890123456", "0.0001", "0.00001", "1e308", "1.7976931348623157e308", "4.9406564584124654e-324", "99999999999999999")
		default:
			x = strconv.FormatFloat(float64(spec.N(t, -1<<40, 1<<40))/float64(spec.N(t, 1, 1<<20)), 'g', spec.N(t, 1, 17), 64)
		}
		if spec.Chance(t, 4) {
			x = spec.One(t, "-", "+", "0", " ", "-0", "00", ".") + x
		}
		if spec.Chance(t, 6) {
			x += spec.One(t, " ", "0", "00", ".0", ".", "x", "e", "e0", "\n", " but true", "1")
		}
		if _, err := strconv.ParseFloat(x, 64); err != nil && how >= "A" && how <= "Z" {
			how = "+"
		}
		items = append(items, how+x)
		req = binary.BigEndian.AppendUint32(req, uint32(len(x)+1))
		req = append(append(req, how...), x...)
	}
	c.Descf("options %v\nscalars %q", o, items)
	c.Key(append([]byte(fmt.Sprint(o)), req...))
	chunks, e := perl(c, 'U', o, req)
	if e != "" || len(chunks) != len(items)+1 {
		c.Fail("Perl: %s %q", e, chunks)
	}
	doc := encoded(c, []byte(chunks[0]), o, ver, false)
	if doc == nil {
		return
	}
	if doc.Body.K != spec.KRef || doc.Body.Items[0].K != spec.KArray || len(doc.Body.Items[0].Items) != len(items) {
		c.Fail("%d scalars have become %v", len(items), doc.Body)
	}
	for i, n := range doc.Body.Items[0].Items {
		if o["deep"] != "" {
			if n.K != spec.KRef {
				c.Fail("a reference has become %v", n)
			}
			n = n.Items[0]
		}
		want := chunks[i+1]
		number := want[0] == 'n'
		want = want[1:]
		var value float64
		if number {
			value, want = math.Float64frombits(binary.BigEndian.Uint64([]byte(want))), want[8:]
		}
		var got string
		same := !number
		switch n.K {
		case spec.KStr, spec.KBytes:
			got = n.S
		case spec.KInt:
			got = fmt.Sprint(n.U)
			f := float64(n.U)
			if n.Neg {
				got, f = "-"+got, -f
			}
			same = same || f == value
		case spec.KF64:
			got = perlNumber(math.Float64frombits(n.U))
			same = same || math.Float64frombits(n.U) == value
		case spec.KF32:
			f := float64(math.Float32frombits(uint32(n.U)))
			got = perlNumber(f)
			same = same || f == value
		default:
			c.Fail("%q has become %v", items[i], n)
		}
		if items[i][0] != 's' && !number {
			c.NonTrivial(true)
		}
		if number && same && n.K != spec.KStr && n.K != spec.KBytes {
			continue // as for how it reads, 1e15 may be an integer
		}
		if number {
			same = n.K == spec.KStr || n.K == spec.KBytes // that reads the same
		}
		if got != want || !same {
			c.Fail("%q is encoded as %v, which reads %q instead of %q", items[i], n, got, want)
		}
	}
	c.Class("texts used as numbers")
}

// perlNumber is how Perl writes a number.
func perlNumber(f float64) string {
	switch {
	case math.IsInf(f, 1):
		return "Inf"
	case math.IsInf(f, -1):
		return "-Inf"
	case f == 0 && math.Signbit(f):
		return "-0"
	}
	return strconv.FormatFloat(f, 'g', 15, 64)
}
