package spec

import (
	"pgregory.net/rapid"
	"sort"

	"bytes"
	"compress/zlib"
	"encoding/binary"
	"errors"
	"fmt"
	"io"

	"github.com/DataDog/zstd"
	"github.com/golang/snappy"
)

// Tags.
const (
	TVarint      = 0x20
	TZigzag      = 0x21
	TFloat       = 0x22
	TDouble      = 0x23
	TLongDouble  = 0x24
	TUndef       = 0x25
	TBinary      = 0x26
	TStr         = 0x27
	TRefN        = 0x28
	TRefP        = 0x29
	THash        = 0x2a
	TArray       = 0x2b
	TObject      = 0x2c
	TObjectV     = 0x2d
	TAlias       = 0x2e
	TCopy        = 0x2f
	TWeaken      = 0x30
	TRegexp      = 0x31
	TObjFreeze   = 0x32
	TObjVFreeze  = 0x33
	TCanonUndef  = 0x39
	TFalse       = 0x3a
	TTrue        = 0x3b
	TMany        = 0x3c
	TPacketStart = 0x3d
	TExtend      = 0x3e
	TPad         = 0x3f
	TArrayRef    = 0x40
	THashRef     = 0x50
	TShort       = 0x60
	Track        = 0x80
)

// Document types.
const (
	DRaw = iota
	DSnappy
	DSnappyIncr
	DZlib
	DZstd
)

// Doc is a parsed document.
type Doc struct {
	Version   int
	Type      int
	HasHeader bool // user metadata
	Header    *Node
	Body      *Node
	RawBody   []byte // uncompressed body
	BodyStart int
	Stats     ParseStats
	HeadStats ParseStats
}

// ParseStats counts what was met in the body.
type ParseStats struct {
	Items, Copy, RefP, Alias, Pads, Tracked, ObjectV int
	PadRefs                                          int // REFP to tracked padding
	MaxOffset                                        int
	Long                                             int
	CopyItems                                        int    // COPY tags that refer to other things than strings
	Spots                                            []Spot // strings and small integers in order
	Literals                                         []Literal
	ShortRefs                                        int // ARRAYREF and HASHREF tags
}

// Literal is a string that is written out.
type Literal struct {
	Pos     int // of its tag
	S       string
	UTF     bool
	Role    string // "" for a value
	Tracked bool
}

// Spot is a part of a document that can be replaced without affecting others.
type Spot struct {
	Pos, Len int // payload
	Str, UTF bool
}

func (p *parser) spots() {
	for pos, it := range p.strs {
		sp := Spot{Pos: pos + 1, Len: len(it.s), Str: true, UTF: it.utf}
		if p.buf[pos]&^Track < TShort {
			_, n, _ := Uvarint(p.buf[pos+1:])
			sp.Pos += n
		}
		p.st.Spots = append(p.st.Spots, sp)
		p.st.Literals = append(p.st.Literals, Literal{pos, it.s, it.utf, p.roles[pos], p.buf[pos]&Track != 0})
	}
	sort.Slice(p.st.Literals, func(i, j int) bool { return p.st.Literals[i].Pos < p.st.Literals[j].Pos })
	for pos, tag := range p.tags {
		if tag&^Track >= 0x40 && tag&^Track < 0x60 {
			p.st.ShortRefs++
		}
		if tag < 32 && p.items[pos] != nil {
			p.st.Spots = append(p.st.Spots, Spot{Pos: pos, Len: 1})
		}
	}
	sort.Slice(p.st.Spots, func(i, j int) bool { return p.st.Spots[i].Pos < p.st.Spots[j].Pos })
}

// Sibling draws a document of the same layout as the valid document b with other
// strings and small integers, uncompressed: nil if there is nothing to change.
func Sibling(t *rapid.T, b []byte) []byte {
	d, err := Parse(b)
	if err != nil || len(d.Stats.Spots) == 0 {
		return nil
	}
	r := append([]byte(nil), b[:d.BodyStart]...)
	r[4] &= 15
	r = append(r, d.RawBody...)
	body := r[d.BodyStart:]
	letters := One(t, "abc", "R", "AB", "\x00\x7f")
	all := Chance(t, 3)
	for n := N(t, 1, 4); n > 0; n-- {
		sp := d.Stats.Spots[N(t, 0, len(d.Stats.Spots)-1)]
		change := func(sp Spot) {
			if !sp.Str {
				body[sp.Pos] = body[sp.Pos]&Track | byte(N(t, 0, 31))
				return
			}
			for i := 0; i < min(sp.Len, 8); i++ {
				body[sp.Pos+i] = letters[(i+n)%len(letters)]
			}
			for i := 8; i < sp.Len; i++ {
				body[sp.Pos+i] = 'x'
			}
		}
		if !all {
			change(sp)
			continue
		}
		n = 0
		for _, sp := range d.Stats.Spots {
			change(sp)
		}
	}
	return r
}

type parser struct {
	buf     []byte
	base    int // offset value of buf[0]
	pos     int
	version int
	items   map[int]*Node // by position
	padded  map[int]int   // the item after tracked padding
	done    map[int]bool
	strs    map[int]strItem // string items (values, keys, classes) by position
	tags    map[int]byte
	classes map[int]string // class name strings by position
	roles   map[int]string // what strings other than values are for, by position
	inCopy  bool
	long    bool // LONG_DOUBLE is fine
	depth   int
	st      ParseStats
}

type strItem struct {
	s   string
	utf bool
}

type perr struct{ error }

// A Malformed error is about something that no reading of the specification allows.
type Malformed struct {
	error
	What  string
	Plain bool // visible without following references
}

// bad fails for something that must not be tolerated.
func (p *parser) bad(plain bool, what string) {
	panic(perr{&Malformed{fmt.Errorf("at body byte %d: %s", p.pos, what), what, plain}})
}

func (p *parser) fail(f string, a ...any) {
	panic(perr{fmt.Errorf("at body byte %d: "+f, append([]any{p.pos}, a...)...)})
}

func (p *parser) byte() byte {
	if p.pos >= len(p.buf) {
		p.bad(true, "document ends")
	}
	b := p.buf[p.pos]
	p.pos++
	return b
}

// varint reads at most 64 bits.
func (p *parser) varint() uint64 {
	var v uint64
	for i := 0; ; i++ {
		b := p.byte()
		if i == 9 && b > 1 {
			p.bad(true, "varint too long")
		}
		v |= uint64(b&0x7f) << (7 * i)
		if b < 0x80 {
			return v
		}
	}
}

func (p *parser) take(n uint64) string {
	if n > uint64(len(p.buf)-p.pos) {
		p.bad(true, "string exceeds document")
	}
	s := string(p.buf[p.pos : p.pos+int(n)])
	p.pos += int(n)
	return s
}

func (p *parser) count() int {
	n := p.varint()
	if n > uint64(len(p.buf)-p.pos) {
		p.bad(true, "count exceeds document")
	}
	return int(n)
}

// target reads an offset and returns the position it refers to.
func (p *parser) target(tagpos int) int {
	o := p.varint()
	if o > uint64(tagpos+p.base) {
		p.bad(true, "offset is not before its tag")
	}
	if int(o) > p.st.MaxOffset {
		p.st.MaxOffset = int(o)
	}
	t := int(o) - p.base
	// a reference to itself is REFP with its own offset
	if t < 0 || t >= tagpos && p.tags[tagpos] != TRefP {
		if t < 0 {
			p.bad(true, "offset before the body")
		}
		p.fail("offset %d outside of body", o)
	}
	return t
}

func (p *parser) pads() {
	for p.pos < len(p.buf) && p.buf[p.pos]&0x7f == TPad {
		p.pos++
		p.st.Pads++
	}
}

// stringish reads a string item or COPY of one.
func (p *parser) stringish(allowCopy bool, what string) (strItem, int) {
	p.pads()
	pos := p.pos
	tag := p.byte() &^ Track
	p.tags[pos] = tag
	var it strItem
	switch {
	case tag == TBinary:
		it.s = p.take(p.varint())
	case tag == TStr:
		it = strItem{p.take(p.varint()), true}
	case tag >= TShort:
		it.s = p.take(uint64(tag & 31))
	case tag == TCopy && allowCopy:
		t := p.target(pos)
		x, ok := p.strs[t]
		if !ok {
			p.fail("COPY as %s refers to %d, which is no string", what, t)
		}
		p.st.Copy++
		return x, t
	default:
		p.bad(true, "tag as "+what)
	}
	p.strs[pos] = it
	p.roles[pos] = what
	return it, pos
}

func (p *parser) class() string {
	it, at := p.stringish(true, "class name")
	p.classes[at] = it.s
	return it.s
}

func (p *parser) classV(tagpos int) string {
	t := p.target(tagpos)
	c, ok := p.classes[t]
	if !ok {
		p.fail("OBJECTV refers to %d, which is no class name", t)
	}
	p.st.ObjectV++
	return c
}

// behindPad returns the position of the item if t is that of tracked padding.
func (p *parser) behindPad(t int) (int, bool) {
	q, pad := p.padded[t]
	if !pad {
		return t, false
	}
	if tag := p.tags[q]; tag == TAlias || tag == TObjFreeze || tag == TObjVFreeze {
		p.fail("offset of padding before %#x", tag)
	}
	p.st.PadRefs++
	return q, true
}

func (p *parser) item() *Node {
	p.depth++
	if p.depth > 200000 {
		p.fail("too deep")
	}
	defer func() { p.depth-- }()
	first := p.pos
	p.pads()
	pos := p.pos
	raw := p.byte()
	tag := raw &^ Track
	p.st.Items++
	if raw&Track != 0 {
		p.st.Tracked++
	}
	n := &Node{}
	if !p.inCopy {
		p.tags[pos] = tag
		p.items[pos] = n
		for q := first; q < pos; q++ {
			if p.buf[q]&Track != 0 { // WEAKEN that the Perl encoder has made PAD
				p.padded[q] = pos
			}
		}
		if tag == TAlias {
			t := p.target(pos)
			t, pad := p.behindPad(t)
			x, ok := p.items[t]
			if !ok {
				p.bad(false, "ALIAS refers to no item")
			}
			if p.buf[t]&Track == 0 && !pad {
				p.bad(false, "ALIAS refers to an item without the track bit")
			}
			if !p.done[t] {
				p.fail("ALIAS refers to an unfinished item")
			}
			p.st.Alias++
			p.items[pos] = x
			p.done[pos] = true
			return x
		}
		if tag == TCopy {
			t := p.target(pos)
			if _, ok := p.items[t]; !ok {
				if _, ok := p.strs[t]; !ok {
					p.fail("COPY refers to %d, which is no item", t)
				}
			}
			if !p.done[t] && p.items[t] != nil {
				p.bad(false, "COPY of an unfinished item")
			}
			p.st.Copy++
			if _, ok := p.strs[t]; !ok {
				p.st.CopyItems++
			}
			save := p.pos
			p.pos = t
			p.inCopy = true
			c := p.item()
			p.inCopy = false
			p.pos = save
			*n = *c
			p.done[pos] = true
			return n
		}
	} else if tag == TCopy {
		p.bad(false, "COPY within COPY")
	}

	switch {
	case tag < 16:
		n.K, n.U = KInt, uint64(tag)
	case tag < 32:
		*n = *Int(int64(tag) - 32)
	case tag == TVarint:
		n.K, n.U = KInt, p.varint()
	case tag == TZigzag:
		u := p.varint()
		*n = *Int(int64(u>>1) ^ -int64(u&1))
	case tag == TFloat:
		n.K, n.U = KF32, uint64(binary.LittleEndian.Uint32([]byte(p.take(4))))
	case tag == TDouble:
		n.K, n.U = KF64, binary.LittleEndian.Uint64([]byte(p.take(8)))
	case tag == TLongDouble && p.long:
		n.K, n.S = KLong, p.take(16)
		p.st.Long++
	case tag == TUndef:
		n.K = KUndef
	case tag == TCanonUndef:
		n.K = KCanonUndef
	case p.version == 5 && (tag == 0x34 || tag == 0x35): // NO and YES
		n.K, n.B = KBool, tag == 0x35
	case tag == TTrue:
		n.K, n.B = KBool, true
	case tag == TFalse:
		n.K = KBool
	case tag == TBinary:
		n.K, n.S = KBytes, p.take(p.varint())
		p.strs[pos] = strItem{n.S, false}
	case tag == TStr:
		n.K, n.S = KStr, p.take(p.varint())
		p.strs[pos] = strItem{n.S, true}
	case tag >= TShort:
		n.K, n.S = KBytes, p.take(uint64(tag&31))
		p.strs[pos] = strItem{n.S, false}
	case tag == TRefN:
		n.K = KRef
		n.Items = []*Node{p.item()}
	case tag == TWeaken:
		n.K = KWeak
		n.Items = []*Node{p.item()}
	case tag == TRefP:
		t := p.target(pos)
		t, pad := p.behindPad(t)
		x, ok := p.items[t]
		if !ok {
			p.bad(false, "REFP refers to no item")
		}
		if p.buf[t]&Track == 0 && !pad {
			p.bad(false, "REFP refers to an item without the track bit")
		}
		p.st.RefP++
		n.K, n.REFP, n.Items, n.Ancestor = KRef, true, []*Node{x}, !p.done[t]
	case tag == TArray:
		p.array(n, p.count())
	case tag == THash:
		p.hash(n, p.count())
	case tag >= TArrayRef && tag < TArrayRef+16:
		n.K = KRef
		n.Items = []*Node{{}}
		p.array(n.Items[0], int(tag&15))
	case tag >= THashRef && tag < THashRef+16:
		n.K = KRef
		n.Items = []*Node{{}}
		p.hash(n.Items[0], int(tag&15))
	case tag == TObject:
		n.K = KObject
		n.S = p.class()
		n.Items = []*Node{p.item()}
	case tag == TObjectV:
		n.K = KObject
		n.S = p.classV(pos)
		n.Items = []*Node{p.item()}
	case tag == TObjFreeze, tag == TObjVFreeze:
		n.K = KFreeze
		if tag == TObjFreeze {
			n.S = p.class()
		} else {
			n.S = p.classV(pos)
		}
		c := p.item()
		if c.K != KRef || c.REFP || c.Items[0].K != KArray {
			p.fail("frozen content is not a reference to an array")
		}
		body := c.Items[0]
		a := body.Items
		if len(a) != 1 || a[0].K != KBytes && a[0].K != KStr {
			p.fail("frozen content is not one string")
		}
		n.S2, n.SUTF = a[0].S, a[0].K == KStr
		n.Body = body
		*body = Node{K: KThawed, S: n.S, S2: n.S2, SUTF: n.SUTF}
	case tag == TRegexp:
		n.K = KRegexp
		pat, _ := p.stringish(true, "pattern")
		mod, _ := p.stringish(true, "modifiers")
		n.S, n.S2, n.SUTF = pat.s, mod.s, pat.utf
	default:
		if tag == TLongDouble || tag == TAlias {
			p.fail("tag %#x", tag)
		}
		p.bad(true, "undefined tag")
	}
	if !p.inCopy {
		p.done[pos] = true
	}
	return n
}

func (p *parser) array(n *Node, ln int) {
	n.K = KArray
	n.Items = make([]*Node, ln)
	for i := range n.Items {
		n.Items[i] = p.item()
	}
}

func (p *parser) hash(n *Node, ln int) {
	n.K = KHash
	n.Items = make([]*Node, 0, ln)
	seen := map[string]bool{}
	for i := 0; i < ln; i++ {
		k, _ := p.stringish(true, "hash key")
		if seen[k.s] {
			p.fail("repeated hash key %s", short(k.s))
		}
		seen[k.s] = true
		n.Keys = append(n.Keys, k.s)
		n.KUTF = append(n.KUTF, k.utf)
		n.Items = append(n.Items, p.item())
	}
}

func parseItem(buf []byte, start, base, version int, trailing, long bool) (n *Node, st ParseStats, err error) {
	p := &parser{buf: buf, base: base, pos: start, version: version, long: long,
		items: map[int]*Node{}, padded: map[int]int{}, done: map[int]bool{}, strs: map[int]strItem{}, tags: map[int]byte{}, classes: map[int]string{}, roles: map[int]string{}}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(perr)
			if !ok {
				panic(r)
			}
			err = e.error
		}
	}()
	n = p.item()
	p.pads()
	if p.pos != len(buf) && !trailing {
		p.fail("%d bytes follow the top level item", len(buf)-p.pos)
	}
	p.spots()
	return n, p.st, nil
}

// Uvarint reads a varint of at most 64 bits.
func Uvarint(b []byte) (uint64, int, error) {
	var v uint64
	for i := 0; i < len(b) && i < 10; i++ {
		if i == 9 && b[i] > 1 {
			break
		}
		v |= uint64(b[i]&0x7f) << (7 * i)
		if b[i] < 0x80 {
			return v, i + 1, nil
		}
	}
	return 0, 0, errors.New("bad varint")
}

// SplitHeader checks magic, version and type and locates the body.
func SplitHeader(b []byte) (version, typ, suffixStart, bodyStart int, err error) {
	if len(b) < 6 {
		return 0, 0, 0, 0, errors.New("too short")
	}
	version, typ = int(b[4]&15), int(b[4]>>4)
	switch string(b[:4]) {
	case "=srl":
		if version != 1 && version != 2 {
			err = fmt.Errorf("magic =srl with version %d", version)
		}
	case "=\xf3rl":
		if version != 3 && version != 4 {
			err = fmt.Errorf("magic =\\xf3rl with version %d", version)
		}
	default:
		err = fmt.Errorf("bad magic %q", b[:4])
	}
	if err != nil {
		return
	}
	if !TypeOK(version, typ) {
		err = fmt.Errorf("document type %d in version %d", typ, version)
		return
	}
	ln, sz, e := Uvarint(b[5:])
	if e != nil || ln > uint64(len(b)-5-sz) {
		err = errors.New("bad header suffix length")
		return
	}
	suffixStart = 5 + sz
	bodyStart = suffixStart + int(ln)
	return
}

// TypeOK tells whether a document type may be used in a version.
func TypeOK(version, typ int) bool {
	switch typ {
	case DRaw, DSnappyIncr:
		return true
	case DSnappy:
		return version == 1
	case DZlib:
		return version >= 3
	case DZstd:
		return version >= 4
	}
	return false
}

// Decompress undoes the compression of a body.
func Decompress(typ int, body []byte) ([]byte, error) {
	chunk := func(b []byte) ([]byte, error) {
		ln, sz, err := Uvarint(b)
		if err != nil {
			return nil, err
		}
		if ln != uint64(len(b)-sz) {
			return nil, fmt.Errorf("compressed length %d of %d bytes", ln, len(b)-sz)
		}
		return b[sz:], nil
	}
	switch typ {
	case DRaw:
		return body, nil
	case DSnappy:
		return unsnappy(body)
	case DSnappyIncr:
		c, err := chunk(body)
		if err != nil {
			return nil, err
		}
		return unsnappy(c)
	case DZlib:
		uln, sz, err := Uvarint(body)
		if err != nil {
			return nil, err
		}
		c, err := chunk(body[sz:])
		if err != nil {
			return nil, err
		}
		zr, err := zlib.NewReader(bytes.NewReader(c))
		if err != nil {
			return nil, err
		}
		res, err := io.ReadAll(zr)
		if err == nil && uint64(len(res)) != uln {
			err = fmt.Errorf("uncompressed length stated %d, is %d", uln, len(res))
		}
		return res, err
	case DZstd:
		c, err := chunk(body)
		if err != nil {
			return nil, err
		}
		return unzstd(c)
	}
	return nil, errors.New("unknown document type")
}

// unsnappy decompresses snappy; the library allocates whatever length is
// claimed, but snappy can't compress by more than 64/3.
func unsnappy(b []byte) ([]byte, error) {
	if n, err := snappy.DecodedLen(b); err != nil {
		return nil, err
	} else if n > 22*len(b)+100 {
		return nil, errors.New("snappy: impossible length")
	}
	return snappy.Decode(nil, b)
}

// unzstd decompresses zstd; the library panics on some damaged frames.
func unzstd(c []byte) (b []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			b, err = nil, fmt.Errorf("zstd: %v", r)
		}
	}()
	return zstd.Decompress(nil, c)
}

// Parse reads a whole document strictly.
func Parse(b []byte) (*Doc, error) { return parse(b, false, false) }

// ParseLong takes LONG_DOUBLE as well, which the decoders do not.
func ParseLong(b []byte) (*Doc, error) { return parse(b, true, false) }

// ParseFive takes documents of protocol version 5, which has more booleans.
func ParseFive(b []byte) (*Doc, error) {
	if len(b) < 5 || b[4]&15 != 5 {
		return Parse(b)
	}
	b = append([]byte(nil), b...)
	b[4]--
	return parse(b, false, true)
}

func parse(b []byte, long, five bool) (*Doc, error) {
	version, typ, ss, bs, err := SplitHeader(b)
	if err != nil {
		return nil, err
	}
	if five {
		version = 5
	}
	d := &Doc{Version: version, Type: typ, BodyStart: bs}
	if bs > ss && b[ss]&1 == 1 && version >= 2 {
		d.HasHeader = true
		if d.Header, d.HeadStats, err = parseItem(b[ss:bs], 1, 0, version, false, long); err != nil {
			return d, fmt.Errorf("header metadata: %w", err)
		}
	}
	if d.RawBody, err = Decompress(typ, b[bs:]); err != nil {
		return d, fmt.Errorf("decompressing: %w", err)
	}
	base := 1
	if version == 1 {
		base = bs
	}
	d.Body, d.Stats, err = parseItem(d.RawBody, 0, base, version, false, long)
	return d, err
}
