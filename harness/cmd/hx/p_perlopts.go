package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
	"verif/harness/spec"
)

func init() {
	register(&Prop{ID: "C30", Fn: c30, Quick: 60000, Thorough: 2000000,
		Rule:   "generated documents of Perl's kinds, one or several in a buffer with other bytes before or after them x ways to call Sereal::Decoder x its options, limits around what the document holds; non-trivial: an option or an offset matters to the document",
		Assume: []string{"the decoder of this repository with the system's Perl", "documents as in C23; limits are those of the strings and containers of the data, hash keys and names of classes are left open"}})
}

// held is what the decoder's limits are about.
type held struct {
	arr, hash   int // entries of the biggest one
	chars       int // of the longest string
	bytes       int // of the longest string, key, pattern or name
	depth       int // of references
	obj         bool
	loose       bool // has something that may count or not
	smallShared bool // small integers that are blessed or referred to weakly
}

func (h *held) add(root *spec.Node) {
	seen := map[*spec.Node]bool{}
	var walk func(n *spec.Node, d int)
	walk = func(n *spec.Node, d int) {
		if seen[n] {
			return
		}
		seen[n] = true
		switch n.K {
		case spec.KObject, spec.KFreeze:
			h.obj = true
		}
		switch n.K {
		case spec.KArray:
			h.arr = max(h.arr, len(n.Items))
		case spec.KHash:
			h.hash = max(h.hash, len(n.Items))
			for _, k := range n.Keys {
				h.bytes = max(h.bytes, len(k))
			}
		case spec.KBytes:
			h.chars = max(h.chars, len(n.S))
		case spec.KStr:
			h.chars = max(h.chars, utf8.RuneCountInString(n.S))
		case spec.KFreeze, spec.KThawed:
			h.arr = max(h.arr, 1)
			h.depth = max(h.depth, d+1)
			if n.SUTF {
				h.chars = max(h.chars, utf8.RuneCountInString(n.S2))
			} else {
				h.chars = max(h.chars, len(n.S2))
			}
		case spec.KRef:
			d++
			h.depth = max(h.depth, d)
		}
		h.bytes = max(h.bytes, len(n.S), len(n.S2))
		for _, x := range n.Items {
			walk(x, d)
		}
	}
	walk(root, 0)
}

var (
	smallInt = regexp.MustCompile(`@([0-9a-f]+);(i-?[0-9]+;)`)
	sharedIt = regexp.MustCompile(`\*[0-9a-f]+;`)
	anUndef  = regexp.MustCompile(`@[0-9a-f]+;U;`)
)

// sharedInts lists the integers that something refers to and that are not below the limit.
func sharedInts(s string, below int64) string {
	ints := map[string]string{}
	for _, m := range smallInt.FindAllStringSubmatch(s, -1) {
		ints["*"+m[1]+";"] = m[2]
	}
	var l []string
	for _, r := range sharedIt.FindAllString(s, -1) {
		if i, ok := ints[r]; ok {
			n, err := strconv.ParseInt(i[1:len(i)-1], 10, 64)
			if err != nil || n < -16 || n >= below {
				l = append(l, i)
			}
		}
	}
	sort.Strings(l)
	return strings.Join(l, "")
}

// expandInts writes integers out wherever something refers to them.
func expandInts(s string) string {
	ints := map[string]string{}
	for _, m := range smallInt.FindAllStringSubmatch(s, -1) {
		ints["*"+m[1]+";"] = m[2]
	}
	s = smallInt.ReplaceAllString(s, "$2")
	s = sharedIt.ReplaceAllStringFunc(s, func(r string) string {
		if i, ok := ints[r]; ok {
			return i
		}
		return r
	})
	return spec.TrimDump(s)
}

func around1(t *rapid.T, n int) int {
	if n > 1 && spec.Chance(t, 4) {
		return spec.N(t, 1, n)
	}
	return max(1, n+spec.One(t, 0, -1, 1, -2, 2, -5, 5, 1000))
}

func junk(t *rapid.T, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(spec.N(t, 0, 255))
	}
	return b
}

// sized is a document where a limit matters.
func sized(t *rapid.T) *spec.GenDoc {
	n := spec.N(t, 0, 40)
	var b []byte
	switch spec.Pick(t, 3, 1, 1, 1, 1, 2) {
	case 5: // integers that may be aliased
		b = []byte{spec.TRefN, spec.TArray, byte(n)}
		for i := 0; i < n; i++ {
			v := int64(spec.One(t, -17, -16, -1, 0, 15, 16, 17, 99, 100, 101, 999, 1000, 1001, spec.N(t, 16, 200)))
			switch {
			case v < 0 || spec.Chance(t, 4):
				b = binary.AppendVarint(append(b, spec.TZigzag), v)
			case v < 16 && spec.Bool(t):
				b = append(b, byte(v))
			default:
				b = binary.AppendUvarint(append(b, spec.TVarint), uint64(v))
			}
		}
	case 0: // deep
		if spec.Chance(t, 40) {
			n = 10000 + spec.One(t, -4, 4, 30)
		}
		kinds := [][]byte{{spec.TRefN}, {spec.TArrayRef + 1}, {spec.THashRef + 1, spec.TShort + 1, 'k'}, {spec.TRefN, spec.TArray, 1},
			{spec.TRefN, spec.THash, 1, spec.TShort}, {spec.TArrayRef + 2, 7}, {spec.TObject, spec.TShort + 1, 'C', spec.TArrayRef + 1},
			{spec.TArrayRef + 2, spec.TArrayRef}}
		kinds = kinds[spec.N(t, 0, len(kinds)-1):]
		for i := 0; i < n; i++ {
			b = append(b, kinds[i%len(kinds)]...)
		}
		b = append(b, 1)
	case 1, 2: // wide
		one := []byte{spec.TRefN, spec.TArray, byte(n)}
		if n < 16 && spec.Bool(t) {
			one = []byte{spec.TArrayRef + byte(n)}
		}
		b = append([]byte{spec.TArrayRef + 2}, one...)
		for i := 0; i < n; i++ {
			b = append(b, byte(i%16))
		}
		b = append(b, 5)
	case 3:
		one := []byte{spec.TRefN, spec.THash, byte(n)}
		if n < 16 && spec.Bool(t) {
			one = []byte{spec.THashRef + byte(n)}
		}
		b = append([]byte{spec.TArrayRef + 2}, one...)
		for i := 0; i < n; i++ {
			b = append(b, spec.TShort+1, byte(i), byte(i%16))
		}
		b = append(b, 5)
	case 4:
		one := []byte{spec.One[byte](t, spec.TBinary, spec.TStr), byte(n)}
		if n < 32 && spec.Bool(t) {
			one = []byte{spec.TShort + byte(n)}
		}
		b = append([]byte{spec.TArrayRef + 2}, one...)
		b = append(b, strings.Repeat("x", n)...)
		b = append(b, 5)
	}
	ver := spec.One(t, 3, 4, 2, 1)
	doc := spec.Assemble(ver, spec.One(t, spec.Types(ver)...), []byte{0}, nil, b, 3)
	p, err := spec.Parse(doc)
	if err != nil {
		panic(err)
	}
	return &spec.GenDoc{Bytes: doc, Version: p.Version, Type: p.Type, Body: p.Body, RawBody: p.RawBody}
}

// c30: Perl's decoder reads what it is told to read and refuses what it is told to refuse.
func c30(c *Case) {
	t := c.T
	if spec.Chance(t, 12) {
		c30utf8(c)
		return
	}
	if spec.Chance(t, 12) {
		c30beyond(c)
		return
	}
	if spec.Chance(t, 8) {
		c30nested(c)
		return
	}
	if spec.Chance(t, 5) {
		c30hostile(c)
		return
	}
	o := map[string]string{"style": spec.One(t, "into", "ret"), "count": "1"}
	if spec.Bool(t) {
		o["reuse"] = "1"
	}
	api := spec.One(t, "decode", "with_header", "with_offset", "with_header_and_offset", "decode", "only_header", "only_header_with_offset", "from_file")
	o["api"] = api
	if spec.Bool(t) {
		o["func"] = "1"
	}
	inc := (api == "decode" || api == "with_header" || api == "from_file") && spec.Chance(t, 2)
	n := 1
	if inc {
		o["d_incremental"] = "1"
		n = spec.N(t, 1, 4)
		o["count"] = fmt.Sprint(n)
	}
	var docs []*spec.GenDoc
	var parsed []*spec.Doc
	var buf []byte
	if strings.Contains(api, "offset") {
		buf = junk(t, spec.One(t, 0, 1, 5, 20, 200))
	}
	off := len(buf)
	if off > 0 {
		c.Class("something before the document")
	}
	o["offset"] = fmt.Sprint(off)
	for i := 0; i < n; i++ {
		var d *spec.GenDoc
		if spec.Chance(t, 8) {
			d = sized(t)
		} else {
			d = spec.Gen(t, spec.DocOpts{Perl: true, NoTrailing: true})
		}
		for _, n := range []*spec.Node{d.Body, d.Header} {
			if n != nil {
				if _, err := spec.PerlOf(n, false); err != nil {
					c.Class("not for Perl")
					return
				}
			}
		}
		p, err := spec.Parse(d.Bytes)
		if err != nil {
			panic(err)
		}
		docs, parsed = append(docs, d), append(parsed, p)
		if p.Type == 1 && (i < n-1 || n > 1) {
			c.Class("its size is not known")
			return
		}
		buf = append(buf, d.Bytes...)
		c.Describe(func() string { return "document " + d.String() })
	}
	c.Key(buf)
	docClasses(c, docs[0])
	garbage := 0
	if !inc && parsed[0].Type != 1 && spec.Bool(t) {
		g := junk(t, spec.One(t, 1, 5, 50))
		garbage = len(g)
		buf = append(buf, g...)
		c.Class("something after the document")
	}
	if api != "from_file" && spec.Chance(t, 3) {
		o["utf8"] = "1"
	}
	if api != "from_file" && !inc && spec.Chance(t, 6) {
		o["magic"] = "1"
	}
	readHeader, readBody := strings.Contains(api, "header"), !strings.Contains(api, "only")

	// what is there, and the options
	var in, out held // what is read, what may be
	var packed, snappy, zlib, zstd bool
	raw, maxRaw := 0, 0
	for i, p := range parsed {
		if readBody {
			in.add(docs[i].Body)
		} else {
			out.add(docs[i].Body)
		}
		if docs[i].HasHeader && docs[i].Header != nil {
			if readHeader {
				in.add(docs[i].Header)
			} else {
				out.add(docs[i].Header)
			}
		}
		switch p.Type {
		case 1, 2:
			snappy = true
		case 3:
			zlib = true
		case 4:
			zstd = true
		}
		if p.Type > 0 {
			packed = true
			raw = max(raw, len(p.RawBody))
		}
		maxRaw = max(maxRaw, len(p.RawBody))
	}
	must, may := "", "" // why it is refused
	refuse := func(m, y bool, why string) {
		if m {
			must = why
		}
		if y {
			may = why
		}
	}
	matters := off > 0 || garbage > 0 || n > 1
	opt := func(k string) bool {
		if !spec.Chance(t, 9) {
			return false
		}
		o["d_"+k] = "1"
		c.Class("option " + k)
		return true
	}
	for _, x := range []struct {
		k  string
		is bool
	}{{"refuse_snappy", snappy}, {"refuse_zlib", zlib}, {"refuse_zstd", zstd}} {
		if opt(x.k) {
			refuse(x.is && readBody, x.is, x.k)
			matters = matters || packed
		}
	}
	if opt("refuse_objects") {
		refuse(in.obj, in.obj || out.obj, "refuse_objects")
		matters = matters || in.obj
	}
	noBless := opt("no_bless_objects")
	noThaw := opt("no_thaw_objects")
	if noBless && !noThaw && spec.Bool(t) {
		o["d_no_thaw_objects"] = "0"
	} else if noBless {
		noThaw = true
	}
	matters = matters || noBless && in.obj
	limit := func(k string, n int, must, may func(l int) bool) {
		if !spec.Chance(t, 7) {
			return
		}
		l := around1(t, n)
		if spec.Chance(t, 6) {
			l = 0 // none
		}
		o["d_"+k] = fmt.Sprint(l)
		if l > 0 {
			refuse(must(l), may(l), k)
			c.Class(fmt.Sprintf("%s: refuses %v", k, must(l)))
			matters = true
		}
	}
	limit("max_num_array_entries", in.arr, func(l int) bool { return in.arr > l }, func(l int) bool { return max(in.arr, out.arr) > l })
	limit("max_num_hash_entries", in.hash, func(l int) bool { return in.hash > l }, func(l int) bool { return max(in.hash, out.hash) > l })
	limit("max_string_length", in.chars, func(l int) bool { return in.chars > l }, func(l int) bool { return max(in.chars, in.bytes, out.chars, out.bytes) > l })
	limit("max_recursion_depth", in.depth, func(l int) bool { return in.depth > l+3 }, func(l int) bool { return max(in.depth, out.depth) > l-4 })
	limit("max_uncompressed_size", raw, func(l int) bool { return readBody && raw > l }, func(l int) bool { return maxRaw > l })
	if l := o["d_max_recursion_depth"]; l == "" || l == "0" { // the default
		refuse(in.depth > 10003, max(in.depth, out.depth) >= 9997, "the default max_recursion_depth")
		c.ClassIf(in.depth > 10003, "too deep")
	}
	opt("validate_utf8")
	alias, aliasBelow := false, int64(16)
	if opt("alias_smallint") {
		alias = true
	}
	if spec.Chance(t, 9) {
		alias = true
		under := spec.One(t, 1, 16, 17, 100, 1000, spec.N(t, 16, 200))
		o["d_alias_varint_under"] = fmt.Sprint(under)
		aliasBelow = max(16, int64(under))
		c.Class("option alias_varint_under")
	}
	useUndef := opt("use_undef")
	ro := opt("set_readonly")
	roScalars := opt("set_readonly_scalars")

	var want [][2]string
	shared := make([][2]string, len(parsed))
	frozen := false
	for i, p := range parsed {
		var w [2]string
		for j, n := range []*spec.Node{docs[i].Body, p.Header} {
			if j == 0 && !readBody || j == 1 && !readHeader {
				continue
			}
			if n == nil || j == 1 && !docs[i].HasHeader {
				w[j] = "U;"
				continue
			}
			q, err := spec.PerlOf(n, true)
			if err != nil {
				panic(err)
			}
			if alias && (q.Blessed(spec.KInt) || q.HasWeak()) {
				c.Class("what is shared matters")
				return
			}
			n.Walk(func(n *spec.Node) { frozen = frozen || n.K == spec.KFreeze })
			q.NoBless, q.NoThaw = noBless, noThaw
			w[j] = spec.TrimDump(q.Dump(n))
			if o["style"] == "ret" && strings.HasPrefix(w[j], "@") || strings.HasPrefix(w[j], "W") && (o["style"] == "ret" || inc && api == "from_file") ||
				inc && api == "from_file" && strings.HasPrefix(w[j], "@") {
				c.Class("copying the result would change it")
				return
			}
			if alias {
				shared[i][j] = sharedInts(w[j], aliasBelow)
				w[j] = expandInts(w[j])
			}
			if useUndef && anUndef.MatchString(w[j]) {
				c.Class("what is shared matters")
				return
			}
		}
		want = append(want, w)
	}
	if frozen && !noThaw && (ro || roScalars) {
		c.Class("thawed is not read-only")
		return
	}
	c.Descf("options %v, %d bytes, document at %d", o, len(buf), off)
	c.Describe(func() string { return fmt.Sprintf("buffer % x", cut(buf)) })
	c.Class("api " + api)
	c.ClassIf(inc, "incremental")
	c.NonTrivial(matters)
	chunks, e := perl(c, 'O', o, buf)
	if e != "" {
		if must == "" && may == "" {
			c.Fail("refused: %s\n  % x", e, cut(buf))
		}
		c.Class("refused")
		return
	}
	if must != "" {
		c.Fail("not refused in spite of %s\n  % x", must, cut(buf))
	}
	if w := fmt.Sprintf("<%d>", parsed[0].Version); !strings.HasPrefix(chunks[0], w) {
		c.Fail("it looks like %s, the version is %s\n  % x", chunks[0], w, cut(buf))
	} else if off == 0 && chunks[0] != w+" "+w {
		c.Fail("it looks like %s, the version is %s\n  % x", chunks[0], w, cut(buf))
	}
	chunks = chunks[1:]
	check := func(i, j int, got string) {
		got = spec.TrimDump(got)
		if alias {
			if w, s := shared[i][j], sharedInts(got, aliasBelow); w != s {
				c.Fail("document %d: integers that are shared and not to be aliased: want %s, got %s\n  % x", i, w, s, cut(buf))
			}
			got = expandInts(got)
		}
		if w := want[i][j]; w != got {
			c.Fail("document %d: Perl sees something else (%s)\n  want %s\n  got  %s\n  % x", i, [...]string{"body", "header"}[j], around(w, got), around(got, w), cut(buf))
		}
	}
	if api == "from_file" {
		if len(chunks) != n {
			c.Fail("%d documents in the file, decoded %d", n, len(chunks))
		}
		for i := range chunks {
			check(i, 0, chunks[i])
		}
		return
	}
	rest := len(buf)
	for i := range parsed {
		if readBody {
			check(i, 0, chunks[3*i])
		}
		if readHeader {
			check(i, 1, chunks[3*i+1])
		}
		var consumed, left int
		var same string
		if k, _ := fmt.Sscanf(chunks[3*i+2], "%d %d %s", &consumed, &left, &same); k != 3 {
			panic(chunks[3*i+2])
		}
		size := len(docs[i].Bytes)
		if !readBody {
			size = 0
		}
		if inc {
			rest -= size
		}
		if consumed != size {
			c.Fail("document %d: bytes_consumed is %d, the document has %d bytes\n  % x", i, consumed, size, cut(buf))
		}
		if left != rest || same != "same" {
			c.Fail("document %d: %d bytes (%s) are left of the buffer, not %d\n  % x", i, left, same, rest, cut(buf))
		}
		writable := strings.Fields(chunks[3*i+2])[3:]
		for _, k := range writable {
			if k == "fixed-reference" || k == "fixed-container" {
				if roScalars && !ro {
					c.Fail("document %d: a %s cannot be written to\n  % x", i, k[6:], cut(buf))
				}
				continue
			}
			if k != "fixed-scalar" && (ro || roScalars && k == "writable-scalar") {
				if o["style"] == "ret" || frozen || readHeader && !docs[i].HasHeader {
					continue // a copy of the result, and what says that there is no header
				}
				c.Fail("document %d: a %s can be written to\n  % x", i, k[9:], cut(buf))
			}
		}
	}
}

// c30utf8: with validate_utf8 text that is not UTF-8 is refused.
func c30utf8(c *Case) {
	t := c.T
	text := func() string {
		var sb strings.Builder
		for i := spec.N(t, 0, 5); i > 0; i-- {
			sb.WriteString(spec.One(t, "a", "é", "日", "😀", "\x00", "\u00a0", "z"))
		}
		return sb.String()
	}
	before, after := text(), text()
	bad := spec.Bool(t)
	s := before + after
	if bad {
		s = before + spec.One(t, "\x80", "\xbf", "\xc3", "\xe2", "\xf0", "\xa0\x80", "\xc3a", "\xe2\x82", "\xf0\x9f\x98") + after
	}
	str := append([]byte{spec.TStr, byte(len(s))}, s...)
	other := func() []byte {
		x := text()
		return append([]byte{spec.TStr, byte(len(x))}, x...)
	}
	var item []byte
	where := spec.One(t, "value", "key", "element", "copy", "class", "pattern", "in a reference")
	switch where {
	case "value":
		item = append([]byte{spec.THashRef + 1, spec.TShort + 1, 'k'}, str...)
	case "key":
		item = append(append([]byte{spec.THashRef + 1}, str...), 5)
	case "element":
		item = append(append([]byte{spec.TArrayRef + 2}, other()...), str...)
	case "copy":
		item = append(append([]byte{spec.TArrayRef + 2}, str...), spec.TCopy, 2)
	case "class":
		if s == "" {
			s = "x"
			str = []byte{spec.TStr, 1, 'x'}
			bad = false
		}
		item = append(append([]byte{spec.TObject}, str...), spec.TArrayRef)
	case "pattern":
		item = append(append([]byte{spec.TRefN, spec.TRegexp}, str...), spec.TShort)
	default:
		item = append([]byte{spec.TRefN}, str...)
	}
	ver := spec.One(t, 3, 2, 4)
	head := spec.Chance(t, 4)
	var suffix, body []byte
	if head {
		suffix, body = append([]byte{1}, item...), []byte{1}
	} else {
		body = item
	}
	doc := append([]byte("=\xf3rl"), byte(ver), byte(len(suffix)))
	if ver == 2 {
		doc[1] = 's'
		copy(doc, "=srl")
	}
	doc = append(append(doc, suffix...), body...)
	o := map[string]string{"style": "into", "count": "1", "offset": "0", "api": "with_header", "d_validate_utf8": "1", "d_no_bless_objects": "1"}
	if spec.Bool(t) {
		o["reuse"] = "1"
	}
	c.Key(doc)
	c.NonTrivial(bad)
	c.Class("validate_utf8: " + where)
	c.Descf("%s, bad %v: % x", where, bad, doc)
	if bytes.ContainsRune([]byte(s), 0) && where != "value" && where != "element" && where != "copy" && where != "in a reference" {
		return
	}
	_, e := perl(c, 'O', o, doc)
	if bad && e == "" {
		c.Fail("text that is not UTF-8 (%s) is not refused\n  % x", where, doc)
	}
	if !bad && e != "" {
		c.Fail("refused: %s\n  % x", e, doc)
	}
}

// c30hostile: no document ends the process, and the decoder is as good as new afterwards.
func c30hostile(c *Case) {
	t := c.T
	h := spec.GenHostile(t, spec.HostileOpts{Deep: 3000})
	b := h.Bytes
	if len(h.Body) > 0 && spec.Chance(t, 3) {
		ver := spec.One(t, 3, 4, 2, 1)
		b = spec.Assemble(ver, 0, []byte{0}, nil, h.Body, 3)
	}
	o := map[string]string{"style": "into", "count": "1", "offset": "0", "d_max_uncompressed_size": "10000000", "reuse": "1",
		"api": spec.One(t, "decode", "with_header", "only_header")}
	for _, k := range []string{"no_bless_objects", "no_thaw_objects", "validate_utf8", "alias_smallint", "use_undef", "set_readonly", "set_readonly_scalars", "refuse_objects"} {
		if spec.Chance(t, 6) {
			o["d_"+k] = "1"
		}
	}
	c.Key(b)
	c.NonTrivial(true)
	c.Class("hostile: " + h.Kind)
	c.Descf("options %v, hostile document % x", o, cut(b))
	_, e := perl(c, 'O', o, b)
	c.ClassIf(e == "", "hostile but decoded")
	d := spec.Gen(t, spec.DocOpts{Perl: true, NoFreeze: true, NoTrailing: true, NoHeader: true, NoObject: true, NoWeak: true, NoRegexp: true})
	if _, err := spec.PerlOf(d.Body, false); err != nil {
		return
	}
	c.Describe(func() string { return "then document " + d.String() })
	if o["d_alias_smallint"] != "" || o["d_use_undef"] != "" {
		return
	}
	o["api"] = "decode"
	chunks, e := perl(c, 'O', o, d.Bytes)
	if e != "" {
		c.Fail("afterwards, a valid document is refused: %s", e)
	}
	p, _ := spec.PerlOf(d.Body, true)
	if w, got := spec.TrimDump(p.Dump(d.Body)), spec.TrimDump(chunks[1]); w != got {
		c.Fail("afterwards, Perl sees something else\n  want %s\n  got  %s", around(w, got), around(got, w))
	}
}

// c30nested: a THAW method may use the decoder that called it.
func c30nested(c *Case) {
	t := c.T
	in := spec.Gen(t, spec.DocOpts{Perl: true, NoTrailing: true, NoFreeze: spec.Bool(t)})
	pin, err := spec.Parse(in.Bytes)
	if err != nil {
		panic(err)
	}
	q, err := spec.PerlOf(in.Body, false)
	if err != nil {
		c.Class("not for Perl")
		return
	}
	q, _ = spec.PerlOf(in.Body, true)
	var h held
	h.add(in.Body)
	if h.depth > 9000 {
		return
	}

	// a document with frozen objects
	var frozen func(d int) []byte
	frozen = func(d int) []byte {
		cl := spec.One(t, "C", "Some::Class", "D")
		b := append([]byte{spec.TObjFreeze, spec.TShort + byte(len(cl))}, cl...)
		return append(b, spec.TRefN, spec.TArray, 1, spec.TShort+2, 'p', byte('a'+d))
	}
	body := []byte{spec.TRefN, spec.TArray, 0}
	for n := spec.N(t, 1, 6); n > 0; n-- {
		body[2]++
		switch spec.Pick(t, 2, 1, 1, 1) {
		case 0:
			body = append(body, frozen(n)...)
		case 1:
			body = append(body, byte(n))
		case 2:
			body = append(body, spec.TShort+3, 'a', 'b', byte('0'+n))
		case 3:
			body = append(body, spec.TUndef)
		}
	}
	body[2]++
	body = append(body, frozen(0)...)
	if spec.Chance(t, 4) {
		body = frozen(9)
	}
	ver := spec.One(t, 3, 4)
	var suffix []byte
	header := spec.Chance(t, 3)
	if header {
		suffix = append([]byte{1}, frozen(8)...)
	}
	b := spec.Assemble(ver, spec.One(t, spec.Types(ver)...), []byte{byte(len(suffix))}, suffix, body, 3)
	p, err := spec.Parse(b)
	if err != nil {
		panic(err)
	}
	if p.Type == 1 {
		return
	}
	o := map[string]string{"style": spec.One(t, "into", "ret"), "count": "1", "api": "decode", "offset": "0", "nested": fmt.Sprint(len(in.Bytes))}
	if header {
		o["api"] = spec.One(t, "decode", "with_header")
	}
	opt := func(k string) bool {
		if !spec.Chance(t, 7) {
			return false
		}
		o["d_"+k] = "1"
		return true
	}
	inc := spec.Chance(t, 3)
	if inc {
		o["d_incremental"] = "1"
	}
	if spec.Bool(t) {
		o["reuse"] = "1"
	}
	must, may := "", ""
	if opt("refuse_snappy") {
		if p.Type == 1 || p.Type == 2 {
			return
		}
		if pin.Type == 1 || pin.Type == 2 {
			must, may = "refuse_snappy", "refuse_snappy"
		}
	}
	if opt("refuse_zlib") {
		if p.Type == 3 {
			return
		}
		if pin.Type == 3 {
			must, may = "refuse_zlib", "refuse_zlib"
		}
	}
	limit := func(k string, least, n int, must1, may1 func(l int) bool) {
		if spec.Chance(t, 7) {
			if l := around1(t, n); l > least {
				o["d_"+k] = fmt.Sprint(l)
				if must1(l) {
					must = k
				}
				if may1(l) {
					may = k
				}
			}
		}
	}
	limit("max_num_array_entries", 7, h.arr, func(l int) bool { return h.arr > l }, func(l int) bool { return h.arr > l })
	limit("max_num_hash_entries", 0, h.hash, func(l int) bool { return h.hash > l }, func(l int) bool { return h.hash > l })
	limit("max_string_length", 20, h.chars, func(l int) bool { return h.chars > l }, func(l int) bool { return max(h.chars, h.bytes) > l })
	limit("max_recursion_depth", 10, h.depth, func(l int) bool { return h.depth > l+3 }, func(l int) bool { return h.depth > l-4 })
	if pin.Type > 0 {
		raw := len(pin.RawBody)
		limit("max_uncompressed_size", len(body)+10, raw, func(l int) bool { return raw > l }, func(l int) bool { return raw > l })
	}
	alias := opt("alias_smallint")
	if spec.Chance(t, 7) {
		alias = true
		o["d_alias_varint_under"] = fmt.Sprint(spec.One(t, 1, 16, 17, 100, 1000))
	}
	useUndef := opt("use_undef")
	ro := opt("set_readonly")
	roScalars := opt("set_readonly_scalars")
	noThaw := opt("no_thaw_objects")
	if spec.Chance(t, 6) {
		o["dies"] = "1"
	}
	if alias && (q.Blessed(spec.KInt) || q.HasWeak()) {
		return
	}
	q.NoThaw = noThaw
	want := spec.TrimDump(q.Dump(in.Body))
	if alias {
		want = expandInts(want)
	}
	if useUndef && anUndef.MatchString(want) {
		return
	}
	c.Key(append(append([]byte(nil), in.Bytes...), b...))
	c.NonTrivial(!noThaw)
	c.Class("decoding from within THAW")
	c.ClassIf(must != "", "refused within THAW")
	c.Descf("options %v, document % x", o, b)
	c.Describe(func() string { return "decoded by its THAW methods: " + in.String() })
	chunks, e := perl(c, 'O', o, append(append([]byte(nil), b...), in.Bytes...))
	if dies := o["dies"] != "" && !noThaw; dies != (e != "") {
		c.Fail("a THAW method dies: %v, decoding said %q\n  % x", dies, e, b)
	} else if dies {
		// the decoder can be used again
		delete(o, "dies")
		if chunks, e = perl(c, 'O', o, append(append([]byte(nil), b...), in.Bytes...)); e != "" {
			c.Fail("after a THAW method died, decoding said %q\n  % x", e, b)
		}
	}
	po, _ := spec.PerlOf(p.Body, true)
	po.NoThaw = noThaw
	w, got := spec.TrimDump(po.Dump(p.Body)), spec.TrimDump(chunks[1])
	if alias {
		w, got = expandInts(w), expandInts(got)
	}
	if w != got {
		c.Fail("Perl sees something else\n  want %s\n  got  %s\n  % x", around(w, got), around(got, w), b)
	}
	var consumed, left int
	fmt.Sscanf(chunks[3], "%d %d", &consumed, &left)
	rest := len(b)
	if inc {
		rest = 0
	}
	if consumed != len(b) || left != rest {
		c.Fail("bytes_consumed is %d, %d left, the document has %d bytes\n  % x", consumed, left, len(b), b)
	}
	inner := chunks[4:]
	if noThaw != (len(inner) == 0) {
		c.Fail("%d results of THAW methods, no_thaw_objects is %v\n  % x", len(inner)/3, noThaw, b)
	}
	plain := true
	in.Body.Walk(func(n *spec.Node) { plain = plain && n.K != spec.KFreeze })
	for ; len(inner) > 0; inner = inner[3:] {
		if inner[0] != "K" {
			if must == "" && may == "" {
				c.Fail("refused in a THAW method: %s\n  % x", inner[0], cut(in.Bytes))
			}
			continue
		}
		if must != "" {
			c.Fail("not refused in a THAW method in spite of %s\n  % x", must, cut(in.Bytes))
		}
		got := spec.TrimDump(inner[1])
		if alias {
			got = expandInts(got)
		}
		if want != got {
			c.Fail("in a THAW method, Perl sees something else\n  want %s\n  got  %s\n  % x", around(want, got), around(got, want), cut(in.Bytes))
		}
		fmt.Sscanf(inner[2], "%d %d", &consumed, &left)
		rest := len(in.Bytes)
		if inc {
			rest = 0
		}
		if consumed != len(in.Bytes) || left != rest {
			c.Fail("in a THAW method, bytes_consumed is %d, %d left, the document has %d bytes\n  % x", consumed, left, len(in.Bytes), cut(in.Bytes))
		}
		for _, k := range strings.Fields(inner[2])[2:] {
			if plain && (ro && strings.HasPrefix(k, "writable") || !ro && roScalars && (k == "writable-scalar" || k == "fixed-reference" || k == "fixed-container")) {
				c.Fail("in a THAW method, a %s with set_readonly %v, set_readonly_scalars %v\n  % x", k, ro, roScalars, cut(in.Bytes))
			}
		}
	}
}

// c30beyond: documents that end early, or refer to what is not in them, are refused.
func c30beyond(c *Case) {
	t := c.T
	o := map[string]string{"style": "into", "count": "1", "offset": "0", "api": spec.One(t, "decode", "with_header")}
	if spec.Bool(t) {
		o["reuse"] = "1"
	}
	doc, what := beyond(t, spec.Pick(t, 2, 2, 1))
	if doc == nil {
		return
	}
	c.Key(doc)
	c.NonTrivial(true)
	c.ClassIf(strings.HasPrefix(what, "ends"), "ends early")
	c.ClassIf(!strings.HasPrefix(what, "ends"), what)
	c.Descf("%s: % x", what, cut(doc))
	if _, e := perl(c, 'O', o, doc); e == "" {
		c.Fail("not refused: %s\n  % x", what, cut(doc))
	}
}

// beyond draws a document that ends early (0), copies a string that ends beyond it (1) or has an offset that leads out of it (2).
func beyond(t *rapid.T, kind int) (doc []byte, what string) {
	ver := spec.One(t, 3, 4, 2)
	switch kind {
	case 0:
		d := spec.Gen(t, spec.DocOpts{Perl: true, NoTrailing: true})
		if len(d.RawBody) == 0 || d.Type == spec.DZstd {
			return
		}
		cut := d.RawBody[:len(d.RawBody)-1-min(len(d.RawBody)-1, spec.One(t, 0, 1, 2, 5, 20, spec.N(t, 0, len(d.RawBody)-1)))]
		typ := d.Type
		if d.Version > 2 && spec.Bool(t) {
			typ = 3
		}
		body := spec.Compress(typ, cut, 3)
		what = fmt.Sprintf("ends after %d of %d bytes", len(cut), len(d.RawBody))
		if typ == 3 && spec.Bool(t) {
			_, k := binary.Uvarint(body)
			body = append(binary.AppendUvarint(nil, uint64(len(d.RawBody)+spec.One(t, 0, 1, 100))), body[k:]...)
			what += ", which it announces"
		}
		doc = append(append([]byte(nil), d.Bytes[:d.BodyStart]...), body...)
		doc[4] = doc[4]&15 | byte(typ)<<4
	case 1:
		n := spec.N(t, 0, 9)
		str := bytes.Repeat([]byte{'x'}, n)
		body := append([]byte{spec.TArrayRef + 2, spec.TShort + byte(n+2)}, str...)
		at := len(body) // of the tag
		body = append(body, 0, 0)
		ofs := byte(at + 1)
		switch what = spec.One(t, "key", "class", "value"); what {
		case "key":
			body = append(body, spec.THashRef+1, spec.TCopy, ofs, 5)
		case "class":
			body = append(body, spec.TObject, spec.TCopy, ofs, spec.TArrayRef)
		case "value":
			body = append(body, spec.TCopy, ofs)
		}
		left := len(body) - at - 1
		if spec.Bool(t) {
			body[at] = spec.TShort + byte(min(31, left+spec.One(t, 1, 2, 31)))
			body[at+1] = 'y'
		} else {
			body[at] = spec.One[byte](t, spec.TBinary, spec.TStr)
			body[at+1] = byte(min(127, left-1+spec.One(t, 1, 2, 127)))
		}
		doc = spec.Assemble(ver, spec.One(t, spec.Types(ver)...), []byte{0}, nil, body, 3)
		what = "COPY of a " + what + " beyond the end"
	case 2:
		k := spec.One(t, 1, 2, spec.N(t, 1, 1000), 1<<20, 1<<30, 1<<40, 1<<47, 1<<62)
		ofs := binary.AppendUvarint(nil, -uint64(k))
		if spec.Chance(t, 4) {
			ofs = binary.AppendUvarint(nil, uint64(k)+100)
		}
		var body []byte
		switch what = spec.One(t, "COPY", "COPY of a key", "COPY of a class", "REFP", "ALIAS", "OBJECTV"); what {
		case "COPY":
			body = append([]byte{spec.TCopy}, ofs...)
		case "COPY of a key":
			body = append(append([]byte{spec.THashRef + 1, spec.TCopy}, ofs...), 5)
		case "COPY of a class":
			body = append(append([]byte{spec.TObject, spec.TCopy}, ofs...), spec.TArrayRef)
		case "REFP":
			body = append([]byte{spec.TRefP}, ofs...)
		case "ALIAS":
			body = append([]byte{spec.TAlias}, ofs...)
		case "OBJECTV":
			body = append(append([]byte{spec.TObjectV}, ofs...), spec.TArrayRef)
		}
		if spec.Bool(t) {
			body = append([]byte{spec.TArrayRef + 2, spec.TObject, spec.TShort + 1, 'C', spec.TArrayRef}, body...)
		} else {
			body = append([]byte{spec.TArrayRef + 1}, body...)
		}
		if spec.Chance(t, 3) {
			ver = 1
		}
		doc = spec.Assemble(ver, 0, []byte{0}, nil, body, 3)
		what += " out of the document"
	}
	return
}
