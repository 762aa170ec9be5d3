package spec

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"math"
	"sync"

	"github.com/DataDog/zstd"
	"github.com/golang/snappy"
	"pgregory.net/rapid"
)

// Drawing.

var (
	rangeMu  sync.Mutex
	rangeGen = map[[2]int]*rapid.Generator[int]{}
	u64Gen   = rapid.Uint64()
	boolGen  = rapid.Bool()
)

// N draws an integer in [lo, hi].
func N(t *rapid.T, lo, hi int) int {
	if lo == hi {
		return lo
	}
	k := [2]int{lo, hi}
	rangeMu.Lock()
	g := rangeGen[k]
	if g == nil {
		g = rapid.IntRange(lo, hi)
		if len(rangeGen) < 100000 {
			rangeGen[k] = g
		}
	}
	rangeMu.Unlock()
	return g.Draw(t, "n")
}

// Bool draws a boolean.
func Bool(t *rapid.T) bool { return boolGen.Draw(t, "b") }

// Chance is true about once in n draws (it shrinks to false).
func Chance(t *rapid.T, n int) bool { return N(t, 0, n*3-1)%n == n-1 }

// U64 draws any 64-bit number.
func U64(t *rapid.T) uint64 { return u64Gen.Draw(t, "u") }

// Pick draws an index according to weights; index 0 is what it shrinks to.
func Pick(t *rapid.T, w ...int) int {
	s := 0
	for _, x := range w {
		s += x
	}
	r := N(t, 0, s-1)
	for i, x := range w {
		if r < x {
			return i
		}
		r -= x
	}
	panic("unreachable")
}

// One draws an element.
func One[E any](t *rapid.T, l ...E) E { return l[N(t, 0, len(l)-1)] }

var ints = []uint64{0, 1, 2, 14, 15, 16, 17, 31, 32, 63, 64, 127, 128, 129, 255, 256, 8191, 8192, 16383, 16384, 32767, 32768, 65535, 65536,
	1<<21 - 1, 1 << 21, 1<<24 - 1, 1 << 24, 1<<24 + 1, 1<<28 - 1, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<35 - 1, 1 << 35, 1 << 42, 1 << 49,
	1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<56 - 1, 1 << 56, 1<<62 - 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 1, math.MaxUint64 - 1, math.MaxUint64}

// AnyUint draws a number, preferably near a boundary.
func AnyUint(t *rapid.T) uint64 {
	switch Pick(t, 3, 4, 3) {
	case 0:
		return uint64(N(t, 0, 40))
	case 1:
		return ints[N(t, 0, len(ints)-1)]
	}
	return U64(t)
}

// AnyInt draws a number, preferably near a boundary.
func AnyInt(t *rapid.T) int64 {
	u := AnyUint(t)
	if Bool(t) {
		return int64(^u)
	}
	return int64(u)
}

var f64s = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 1.5, math.Pi, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32,
	math.SmallestNonzeroFloat32, math.Inf(1), math.Inf(-1), math.NaN(), 1e15, 1e16, 1 << 53, 1<<53 + 2, 1 << 63, -(1 << 63), 1 << 64, 0.1, 1e-320}

// AnyF64 draws the bits of a double.
func AnyF64(t *rapid.T) uint64 {
	switch Pick(t, 3, 4, 3) {
	case 0:
		return math.Float64bits(float64(N(t, -20, 20)) / 4)
	case 1:
		return math.Float64bits(f64s[N(t, 0, len(f64s)-1)])
	}
	return U64(t)
}

// AnyF32 draws the bits of a float.
func AnyF32(t *rapid.T) uint32 {
	switch Pick(t, 3, 4, 3) {
	case 0:
		return math.Float32bits(float32(N(t, -20, 20)) / 4)
	case 1:
		return math.Float32bits(float32(f64s[N(t, 0, len(f64s)-1)]))
	}
	return uint32(U64(t))
}

var words = []string{"", "a", "b", "c", "id", "key", "Name", "name", "foo", "bar", "value", "Foo::Bar", "My.Class", "x", "0", "1", "undef", "\x00", "\xff", "\xe9", "\u00e9", "\u20ac", "\U0001F600", "a\x00b", "=srl", "\xc3", " ", "\n", "'\"\\"}

// Lens are lengths near the boundaries of length encodings.
var Lens = []int{0, 1, 2, 30, 31, 32, 33, 63, 64, 126, 127, 128, 129, 255, 256, 1000, 16382, 16383, 16384, 16385, 40000}

// Expand makes a string of n bytes from a seed.
func Expand(seed, n int, utf bool) string {
	b := make([]byte, n)
	x := uint32(seed)*2654435761 + 12345
	for i := range b {
		switch seed & 3 {
		case 0:
			b[i] = 'a' + byte(seed>>2&15)
		case 1:
			b[i] = "abcdefghij"[i%10]
		default:
			x = x*1664525 + 1013904223
			b[i] = byte(x >> 24)
			if utf {
				b[i] = b[i]&63 + ' '
			}
		}
	}
	return string(b)
}

// AnyStr draws a string; max bounds its length. Strings for UTF-8 tags are valid UTF-8.
func AnyStr(t *rapid.T, utf bool, max int) string {
	s := ""
	if max < 0 {
		max = 0
	}
	switch Pick(t, 8, 3, 2, 2) {
	case 0:
		s = words[N(t, 0, len(words)-1)]
	case 1:
		n := N(t, 0, 12)
		var sb bytes.Buffer
		for i := 0; i < n; i++ {
			if utf {
				switch Pick(t, 5, 1, 1, 1) {
				case 0:
					sb.WriteByte(byte(N(t, 32, 126)))
				case 1:
					sb.WriteRune(rune(N(t, 0x80, 0x7ff)))
				case 2:
					sb.WriteRune(rune(N(t, 0x800, 0xd7ff)))
				case 3:
					sb.WriteRune(rune(N(t, 0x10000, 0x10ffff)))
				}
			} else {
				sb.WriteByte(byte(N(t, 0, 255)))
			}
		}
		s = sb.String()
	case 2:
		s = Expand(N(t, 0, 63), N(t, 0, 40), utf)
	case 3:
		k := N(t, 0, 21)
		n := 0
		if k < len(Lens) {
			n = Lens[k]
		} else {
			n = N(t, 0, 3000)
		}
		s = Expand(N(t, 0, 63), n, utf)
	}
	if len(s) > max {
		s = s[:max]
	}
	if utf {
		s = validUTF(s)
	}
	return s
}

func validUTF(s string) string {
	for i, r := range s {
		if r == 0xfffd && (i+3 > len(s) || s[i:i+3] != "\ufffd") {
			return string(bytes.ToValidUTF8([]byte(s), []byte("?")))
		}
	}
	return s
}

// DocOpts restricts generated documents.
type DocOpts struct {
	MinVer, MaxVer int // default 1..4
	NoCompress     bool
	NoZstd         bool
	NoHeader       bool // no user metadata
	NoPad          bool
	NoStrPad       bool // no PAD between a tag and the string it needs (OBJECT, REGEXP)
	NoFreeze       bool
	Frozen         bool // many of them
	NoAlias        bool
	NoCopy         bool
	NoRefp         bool
	NoCycle        bool // no REFP to unfinished items
	NoSelf         bool // no REFP to itself
	NoCanon        bool
	NoObject       bool
	NoWeak         bool
	NoRegexp       bool
	NoRef          bool // no references at all
	NoTrailing     bool // nothing after the top level item
	NoBig          bool
	NoNonCanon     bool // no redundant varints
	TopArray       int  // 1: ARRAY, 2: ARRAYREF or REFN ARRAY at top level
	MaxItems       int
	Perl           bool // what Perl can represent
	Long           bool // LONG_DOUBLE in place of some DOUBLE
	ShortMods      bool // modifiers of a REGEXP in SHORT_BINARY that nothing refers to
	Pure           bool // strings in UTF-8 tags valid, only plain data
}

// GenDoc is a generated document with its meaning.
type GenDoc struct {
	Bytes     []byte
	Version   int
	Type      int
	Body      *Node
	HasHeader bool
	Header    *Node
	BodyStart int
	RawBody   []byte
	Trailing  int // bytes of RawBody after the top level item
	HdrTail   int
	Feat      map[string]int
}

func (d *GenDoc) String() string {
	b := d.Bytes
	s := fmt.Sprintf("v%d type %d, %d bytes", d.Version, d.Type, len(b))
	if len(b) > 300 {
		b = b[:300]
	}
	s += fmt.Sprintf(" % x", b)
	if d.Type != DRaw && len(d.RawBody) < 300 {
		s += fmt.Sprintf(" (raw body % x)", d.RawBody)
	}
	if d.HasHeader {
		s += " header=" + d.Header.String()
	}
	return s + " body=" + d.Body.String()
}

type itemRec struct {
	pos    int
	n      *Node
	last   int // index after the last item of the subtree
	done   bool
	noRef  bool
	refd   bool
	opaque bool // COPY or ALIAS: can't be a target
	body   bool // array of a frozen object: only a target of REFP
	nocopy bool // with a COPY of a string
	pads   int  // bytes of padding before it
}

type strRec struct {
	pos  int
	s    string
	utf  bool
	item bool // not a key or class name
}

type docGen struct {
	typedRefs bool
	// Perl: what the next item, and the current one, may be
	next, cur struct{ referent, slot, blessed, refp bool }
	plainTag  bool // no track bits
	t         *rapid.T
	o         *DocOpts
	ver       int
	base      int
	buf       []byte
	items     []itemRec
	strs      []strRec
	classes   []strRec
	budget    int
	depth     int
	bytes     int // remaining bytes for long strings
	sloppy    int // 0: canonical encoding
	feat      map[string]int
}

func (g *docGen) varint(u uint64) {
	n := len(g.buf)
	for u >= 0x80 {
		g.buf = append(g.buf, byte(u)|0x80)
		u >>= 7
	}
	g.buf = append(g.buf, byte(u))
	if g.sloppy > 0 && !g.o.NoNonCanon && Chance(g.t, 12) {
		k := N(g.t, 1, 9)
		if l := len(g.buf) - n; l+k > 10 {
			k = 10 - l
		}
		for ; k > 0; k-- {
			g.buf[len(g.buf)-1] |= 0x80
			g.buf = append(g.buf, 0)
			g.feat["redundant-varint"]++
		}
	}
}

func (g *docGen) pad() {
	if g.sloppy > 0 && !g.o.NoPad {
		for i := 0; i < 4 && Chance(g.t, 14); i++ {
			p := byte(TPad)
			if Chance(g.t, 6) {
				p |= Track
			}
			g.buf = append(g.buf, p)
			g.feat["pad"]++
		}
	}
}

func (g *docGen) tag(b byte) {
	if g.sloppy > 0 && !g.plainTag && Chance(g.t, 20) {
		b |= Track
		g.feat["track"]++
	}
	g.buf = append(g.buf, b)
}

func (g *docGen) off(pos int) int { return pos + g.base }

// emitStr writes a string item.
func (g *docGen) emitStr(s string, utf bool) int {
	pos := len(g.buf)
	switch {
	case utf:
		g.tag(TStr)
		g.varint(uint64(len(s)))
	case len(s) < 32 && (g.sloppy == 0 || !Chance(g.t, 5)):
		g.tag(TShort + byte(len(s)))
	default:
		g.tag(TBinary)
		g.varint(uint64(len(s)))
	}
	g.buf = append(g.buf, s...)
	g.strs = append(g.strs, strRec{pos, s, utf, !g.plainTag})
	return pos
}

// stringish writes a key, class name or pattern. It returns where its bytes are.
func (g *docGen) stringish(avoid map[string]bool, asClass, pad bool) strRec {
	if g.o.Perl {
		g.plainTag = true
		defer func() { g.plainTag = false }()
	} else if pad {
		g.pad()
	}
	if !g.o.NoCopy && len(g.strs) > 0 && Chance(g.t, 3) {
		var c []strRec
		for _, r := range g.strs {
			if !avoid[g.keyID(r.s, r.utf)] && !avoid[r.s] && (!asClass || len(r.s) < 200) && !(g.o.Perl && r.item) {
				c = append(c, r)
			}
		}
		if len(c) > 0 {
			r := c[N(g.t, 0, len(c)-1)]
			g.tag(TCopy)
			g.varint(uint64(g.off(r.pos)))
			g.feat["copy-string"]++
			return r
		}
	}
	utf := Bool(g.t)
	s := AnyStr(g.t, utf, min(300, g.bytes))
	for i, base := 0, s; avoid[g.keyID(s, utf)] || avoid[s]; i++ {
		s = fmt.Sprintf("%.30q%d", base, i)
	}
	g.bytes -= len(s)
	pos := g.emitStr(s, utf)
	return strRec{pos: pos, s: s, utf: utf}
}

// keyID tells keys apart.
func (g *docGen) keyID(s string, utf bool) string {
	if g.o.Perl {
		return perlKey(s, utf)
	}
	return s
}

func (g *docGen) perlClass() string {
	g.plainTag = true
	defer func() { g.plainTag = false }()
	if !g.o.NoCopy && len(g.classes) > 0 && Chance(g.t, 3) {
		r := g.classes[N(g.t, 0, len(g.classes)-1)]
		g.tag(TCopy)
		g.varint(uint64(g.off(r.pos)))
		g.feat["copy-string"]++
		return r.s
	}
	s := One(g.t, "A", "Foo::Bar", "main", "Some::Long::Class::Name::With::Many::Parts", "Regexp", "x")
	utf := Chance(g.t, 6)
	g.classes = append(g.classes, strRec{pos: g.emitStr(s, utf), s: s, utf: utf})
	return s
}

func (g *docGen) class() string {
	if g.o.Perl {
		return g.perlClass()
	}
	r := g.stringish(nil, true, !g.o.NoStrPad)
	g.classes = append(g.classes, r)
	return r.s
}

const (
	gSmall = iota
	gNeg
	gVarint
	gZigzag
	gF32
	gF64
	gUndef
	gCanon
	gTrue
	gFalse
	gBytes
	gStr
	gArray
	gHash
	gArrayRef
	gHashRef
	gRefN
	gRefP
	gCopy
	gAlias
	gWeak
	gRegexp
	gObject
	gObjectV
	gFreeze
	gBulk
	gCount
)

var baseWeights = [gCount]int{gSmall: 6, gNeg: 2, gVarint: 4, gZigzag: 4, gF32: 2, gF64: 3, gUndef: 3, gCanon: 1, gTrue: 2, gFalse: 2,
	gBytes: 6, gStr: 6, gArray: 9, gHash: 9, gArrayRef: 6, gHashRef: 6, gRefN: 8, gRefP: 10, gCopy: 8, gAlias: 3, gWeak: 3, gRegexp: 3,
	gObject: 5, gObjectV: 4, gFreeze: 2, gBulk: 1}

func (g *docGen) kind(refOnly bool) int {
	w := baseWeights
	o := g.o
	if o.Frozen && !refOnly {
		w[gFreeze] = 25
	}
	off := func(ks ...int) {
		for _, k := range ks {
			w[k] = 0
		}
	}
	if refOnly {
		for k := range w {
			switch k {
			case gArrayRef, gHashRef, gRefN, gRefP, gObject, gObjectV:
			default:
				w[k] = 0
			}
		}
	}
	if o.Perl {
		if !g.cur.referent {
			off(gArray, gHash, gRegexp, gBulk)
		} else {
			w[gArray], w[gHash] = 25, 25
		}
		if !g.cur.slot {
			off(gAlias)
		}
		if g.cur.blessed {
			off(gUndef, gCanon, gTrue, gFalse, gCopy, gFreeze, gRefP, gObject, gObjectV)
		}
		if g.cur.refp {
			return gRefP
		}
	}
	if o.NoRef {
		off(gArrayRef, gHashRef, gRefN, gRefP, gWeak)
	}
	if o.NoRefp {
		off(gRefP)
	}
	if o.NoCopy {
		off(gCopy)
	}
	if o.NoAlias {
		off(gAlias)
	}
	if o.NoWeak {
		off(gWeak)
	}
	if o.NoRegexp {
		off(gRegexp)
	}
	if o.NoObject {
		off(gObject, gObjectV)
	}
	if o.NoFreeze || g.ver < 2 {
		off(gFreeze)
	}
	if o.NoCanon || g.ver < 3 {
		off(gCanon)
	}
	if len(g.classes) == 0 {
		off(gObjectV)
	}
	if len(g.items) == 0 {
		off(gRefP, gCopy, gAlias)
	}
	if g.budget < 20 || o.NoBig {
		off(gBulk)
	}
	if g.budget <= 0 || g.depth > 40 {
		off(gArray, gHash, gRefN, gWeak, gObject, gObjectV, gBulk)
	} else if g.depth == 1 && !refOnly { // mostly containers at the top
		for k := gSmall; k <= gStr; k++ {
			w[k] = 1
		}
	}
	k := Pick(g.t, w[:]...)
	return k
}

func (g *docGen) begin(n *Node, pos int) int {
	g.items = append(g.items, itemRec{pos: pos, n: n})
	return len(g.items) - 1
}

func (g *docGen) end(i int) {
	g.items[i].done = true
	g.items[i].last = len(g.items)
}

// sub writes an item in a group of its own, which helps shrinking.
func (g *docGen) sub(refOnly bool) (n *Node) {
	return g.item(refOnly)
}

// grouped runs f as one shrinkable group of draws.
func grouped(t *rapid.T, f func(t *rapid.T)) {
	rapid.Custom(func(t *rapid.T) int { f(t); return 0 }).Draw(t, "group")
}

func (g *docGen) size() int {
	switch Pick(g.t, 12, 2, 1) {
	case 0:
		return N(g.t, 0, 5)
	case 1:
		return N(g.t, 0, 20)
	}
	return One(g.t, 14, 15, 16, 17)
}

func (g *docGen) elems(n *Node, ln int) {
	n.K = KArray
	for i := 0; i < ln; i++ {
		g.next.slot = true
		n.Items = append(n.Items, g.item(false))
	}
}

func (g *docGen) pairs(n *Node, ln int) {
	n.K = KHash
	seen := map[string]bool{}
	for i := 0; i < ln; i++ {
		k := g.stringish(seen, false, true)
		seen[g.keyID(k.s, k.utf)], seen[k.s] = true, true
		n.Keys = append(n.Keys, k.s)
		n.KUTF = append(n.KUTF, k.utf)
		n.Items = append(n.Items, nil)
		g.next.slot = true
		n.Items[i] = g.item(false)
	}
}

// containers with many small elements
func (g *docGen) bulk(n *Node) {
	ln := One(g.t, 127, 128, 129, 300, 1000, 4000)
	g.bytes -= ln
	what := N(g.t, 0, 3)
	g.feat["bulk"]++
	hash := what == 3
	if hash {
		n.K = KHash
		g.buf = append(g.buf, THash)
	} else {
		n.K = KArray
		g.buf = append(g.buf, TArray)
	}
	g.varint(uint64(ln))
	for i := 0; i < ln; i++ {
		if hash {
			k := fmt.Sprintf("k%d", i)
			g.buf = append(g.buf, TShort+byte(len(k)))
			g.buf = append(g.buf, k...)
			n.Keys = append(n.Keys, k)
			n.KUTF = append(n.KUTF, false)
		}
		c := &Node{}
		switch what {
		case 0, 3:
			c.K, c.U = KInt, uint64(i&15)
			g.buf = append(g.buf, byte(i&15))
		case 1:
			c.K = KUndef
			g.buf = append(g.buf, TUndef)
		case 2:
			c.K, c.S = KBytes, string([]byte{byte(i)})
			g.buf = append(g.buf, TShort+1, byte(i))
		}
		n.Items = append(n.Items, c)
	}
}

func (g *docGen) refTargets(wantDone, refp bool) []int {
	var c []int
	for i := range g.items {
		r := &g.items[i]
		if !r.noRef && !r.opaque && (r.done || !wantDone) && (!r.body || refp) {
			if k := r.n.K; g.o.Perl && !refp && (k == KArray || k == KHash || k == KRegexp) {
				continue
			}
			c = append(c, i)
		}
	}
	return c
}

func (g *docGen) copyTargets() []int {
	var c []int
	for i := range g.items {
		r := &g.items[i]
		if !r.done || r.opaque || r.body {
			continue
		}
		ok := true
		for j := i; j < r.last; j++ {
			if g.items[j].refd || g.items[j].opaque || g.items[j].nocopy {
				ok = false
				break
			}
		}
		if g.o.Perl && !g.cur.referent && (r.n.K == KArray || r.n.K == KHash || r.n.K == KRegexp) {
			ok = false
		}
		if ok && r.last-i < 100 {
			c = append(c, i)
		}
	}
	return c
}

func (g *docGen) item(refOnly bool) *Node {
	g.budget--
	g.depth++
	defer func() { g.depth-- }()
	n := &Node{}
	pads := len(g.buf)
	g.pad()
	pads = len(g.buf) - pads
	g.cur, g.next = g.next, struct{ referent, slot, blessed, refp bool }{}
	k := g.kind(refOnly)
	var cand []int
	switch k { // those that need an earlier item
	case gRefP:
		cand = g.refTargets(g.o.NoCycle, true)
		if !g.o.NoCycle && !g.o.NoSelf && Chance(g.t, 12) {
			cand = []int{len(g.items)} // itself
		}
		if len(cand) == 0 {
			k = gArrayRef
		}
	case gWeak:
		if g.o.Perl && len(g.refTargets(g.o.NoCycle, true)) == 0 {
			k = gArrayRef
		}
	case gAlias:
		if cand = g.refTargets(true, false); len(cand) == 0 {
			k = gUndef
		}
	case gCopy:
		if cand = g.copyTargets(); len(cand) == 0 {
			k = gVarint
		}
	}
	pos := len(g.buf)
	self := g.begin(n, pos)
	g.items[self].pads = pads
	switch k {
	case gSmall:
		n.K, n.U = KInt, uint64(N(g.t, 0, 15))
		g.tag(byte(n.U))
	case gNeg:
		v := N(g.t, -16, -1)
		*n = *Int(int64(v))
		g.tag(byte(32 + v))
	case gVarint:
		n.K, n.U = KInt, AnyUint(g.t)
		g.tag(TVarint)
		g.varint(n.U)
	case gZigzag:
		v := AnyInt(g.t)
		*n = *Int(v)
		g.tag(TZigzag)
		g.varint(uint64(v<<1) ^ uint64(v>>63))
	case gF32:
		n.K, n.U = KF32, uint64(AnyF32(g.t))
		g.tag(TFloat)
		g.buf = binary.LittleEndian.AppendUint32(g.buf, uint32(n.U))
	case gF64:
		if g.o.Long && Chance(g.t, 10) {
			n.K, n.S = KLong, string(rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(g.t, "long"))
			g.tag(TLongDouble)
			g.buf = append(g.buf, n.S...)
			break
		}
		n.K, n.U = KF64, AnyF64(g.t)
		g.tag(TDouble)
		g.buf = binary.LittleEndian.AppendUint64(g.buf, n.U)
	case gUndef:
		n.K = KUndef
		g.tag(TUndef)
	case gCanon:
		n.K = KCanonUndef
		g.tag(TCanonUndef)
	case gTrue:
		n.K, n.B = KBool, true
		g.tag(TTrue)
	case gFalse:
		n.K = KBool
		g.tag(TFalse)
	case gBytes, gStr:
		n.K = KBytes
		if k == gStr {
			n.K = KStr
		}
		n.S = AnyStr(g.t, k == gStr, max(0, g.bytes))
		g.bytes -= len(n.S)
		g.emitStr(n.S, k == gStr)
	case gArray:
		ln := g.size()
		n.K = KArray
		g.tag(TArray)
		g.varint(uint64(ln))
		g.elems(n, ln)
	case gHash:
		ln := g.size()
		n.K = KHash
		g.tag(THash)
		g.varint(uint64(ln))
		g.pairs(n, ln)
	case gArrayRef, gHashRef:
		ln := min(g.size(), 15)
		if g.budget <= 0 || g.depth > 40 {
			ln = 0
		}
		n.K = KRef
		n.Items = []*Node{{}}
		if k == gArrayRef {
			g.tag(TArrayRef + byte(ln))
			g.elems(n.Items[0], ln)
		} else {
			g.tag(THashRef + byte(ln))
			g.pairs(n.Items[0], ln)
		}
	case gBulk:
		g.bulk(n)
	case gRefN:
		n.K = KRef
		n.Items = []*Node{nil}
		blessed := g.cur.blessed
		g.tag(TRefN)
		g.next.referent, g.next.blessed = true, blessed
		n.Items[0] = g.item(false)
	case gRefP:
		r := &g.items[cand[N(g.t, 0, len(cand)-1)]]
		r.refd = true
		if r.body {
			g.feat["refp-frozen"]++
		}
		g.tag(TRefP)
		at := r.pos
		if tag := g.buf[at] &^ Track; r.pads > 0 && tag != TAlias && tag != TObjFreeze && tag != TObjVFreeze && Chance(g.t, 2) {
			at -= N(g.t, 1, r.pads) // the padding before it stands for it
			g.feat["refp-pad"]++
		}
		g.buf[at] |= Track
		g.varint(uint64(g.off(at)))
		n.K, n.REFP, n.Items, n.Ancestor = KRef, true, []*Node{r.n}, !r.done
		if n.Ancestor {
			g.feat["cycle"]++
		} else {
			g.feat["refp"]++
		}
	case gAlias:
		r := &g.items[cand[N(g.t, 0, len(cand)-1)]]
		r.refd = true
		g.tag(TAlias)
		g.buf[r.pos] |= Track
		g.varint(uint64(g.off(r.pos)))
		g.items[self].opaque = true
		g.end(self)
		g.feat["alias"]++
		return r.n
	case gCopy:
		g.items[self].opaque = true
		if Chance(g.t, 4) && len(g.strs) > 0 { // keys and class names, too
			r := g.strs[N(g.t, 0, len(g.strs)-1)]
			refd := false
			for i := range g.items {
				if g.items[i].pos == r.pos {
					refd = g.items[i].refd
					g.items[i].noRef = true
				}
			}
			if !refd {
				g.tag(TCopy)
				g.varint(uint64(g.off(r.pos)))
				n.K, n.S = KBytes, r.s
				if r.utf {
					n.K = KStr
				}
				g.feat["copy-value"]++
				break
			}
		}
		ci := cand[N(g.t, 0, len(cand)-1)]
		r := &g.items[ci]
		g.tag(TCopy)
		g.varint(uint64(g.off(r.pos)))
		for j := ci; j < r.last; j++ {
			g.items[j].noRef = true
		}
		*n = *r.n.Clone()
		if n.K >= KRef && n.K != KRegexp {
			g.feat["copy-container"]++
		}
		g.feat["copy-value"]++
	case gWeak:
		n.K = KWeak
		n.Items = []*Node{nil}
		g.tag(TWeaken)
		g.next.refp = g.o.Perl
		n.Items[0] = g.item(true)
	case gRegexp:
		n.K = KRegexp
		g.tag(TRegexp)
		if g.o.Perl {
			n.S, n.SUTF = One(g.t, "", "a", "ab c", "\u00e9\u0100"), Bool(g.t)
			n.SUTF = n.SUTF || len(n.S) == 4 && n.S[0] > 127
			g.emitStr(n.S, n.SUTF)
			n.S2 = One(g.t, "", "i", "msix", "x", "p")
			g.buf = append(append(g.buf, TShort+byte(len(n.S2))), n.S2...)
			break
		}
		n.S = g.stringish(nil, false, !g.o.NoStrPad).s
		if g.o.ShortMods {
			n.S2 = One(g.t, "", "i", "msix", "x")
			g.buf = append(append(g.buf, TShort+byte(len(n.S2))), n.S2...)
		} else if Chance(g.t, 4) {
			n.S2 = g.stringish(nil, false, !g.o.NoStrPad).s
		} else {
			n.S2 = One(g.t, "", "i", "msix", "x")
			g.emitStr(n.S2, false)
		}
	case gObject, gObjectV:
		n.K = KObject
		n.Items = []*Node{nil}
		if k == gObject {
			g.tag(TObject)
			n.S = g.class()
		} else {
			c := g.classes[N(g.t, 0, len(g.classes)-1)]
			g.tag(TObjectV)
			g.varint(uint64(g.off(c.pos)))
			n.S = c.s
			g.feat["objectv"]++
		}
		if g.o.Perl {
			g.next.blessed = true
			n.Items[0] = g.item(true)
			break
		}
		n.Items[0] = g.item(!Chance(g.t, 5) && !g.o.NoRef)
	case gFreeze:
		n.K = KFreeze
		if len(g.classes) > 0 && Bool(g.t) {
			c := g.classes[N(g.t, 0, len(g.classes)-1)]
			g.tag(TObjVFreeze)
			g.varint(uint64(g.off(c.pos)))
			n.S = c.s
		} else {
			g.tag(TObjFreeze)
			n.S = g.class()
		}
		n.Body = &Node{}
		body := -1
		g.pad()
		if g.sloppy > 0 && Chance(g.t, 6) {
			g.tag(TArrayRef + 1)
			g.feat["freeze-arrayref"]++
		} else {
			g.tag(TRefN)
			g.pad()
			body = g.begin(n.Body, len(g.buf))
			g.items[body].body = true
			g.tag(TArray)
			g.varint(1)
		}
		g.pad()
		var copied []strRec
		if !g.o.NoCopy && Chance(g.t, 5) {
			for _, r := range g.strs {
				if !r.item || !g.o.Perl {
					copied = append(copied, r)
				}
			}
		}
		if len(copied) > 0 {
			r := copied[N(g.t, 0, len(copied)-1)]
			n.S2, n.SUTF = r.s, r.utf
			g.buf = append(g.buf, TCopy)
			g.varint(uint64(g.off(r.pos)))
			if body >= 0 {
				g.items[body].nocopy = true
			} else {
				g.items[self].nocopy = true
			}
			g.feat["copy-string"]++
		} else {
			n.SUTF = Chance(g.t, 5)
			n.S2 = AnyStr(g.t, n.SUTF, max(0, g.bytes))
			g.bytes -= len(n.S2)
			g.emitStr(n.S2, n.SUTF)
		}
		*n.Body = Node{K: KThawed, S: n.S, S2: n.S2, SUTF: n.SUTF}
		if body >= 0 {
			g.end(body)
		}
		g.feat["freeze"]++
	}
	g.end(self)
	return n
}

// Compress compresses a body.
func Compress(typ int, body []byte, level int) []byte {
	var out []byte
	switch typ {
	case DRaw:
		return body
	case DSnappy:
		return snappy.Encode(nil, body)
	case DSnappyIncr:
		c := snappy.Encode(nil, body)
		return append(binary.AppendUvarint(nil, uint64(len(c))), c...)
	case DZlib:
		var zb bytes.Buffer
		zw, err := zlib.NewWriterLevel(&zb, level)
		if err != nil {
			panic(err)
		}
		zw.Write(body)
		zw.Close()
		out = binary.AppendUvarint(nil, uint64(len(body)))
		out = binary.AppendUvarint(out, uint64(zb.Len()))
		return append(out, zb.Bytes()...)
	case DZstd:
		c, err := zstd.CompressLevel(nil, body, level)
		if err != nil {
			panic(err)
		}
		return append(binary.AppendUvarint(nil, uint64(len(c))), c...)
	}
	panic("type")
}

// Assemble puts a document together; suffix is the whole optional header suffix.
func Assemble(version, typ int, suffixLen, suffix, body []byte, level int) []byte {
	b := []byte("=\xf3rl")
	if version < 3 {
		b = []byte("=srl")
	}
	b = append(b, byte(version)|byte(typ)<<4)
	b = append(b, suffixLen...)
	b = append(b, suffix...)
	return append(b, Compress(typ, body, level)...)
}

// Types lists the document types a version allows.
func Types(version int) []int {
	var l []int
	for typ := DRaw; typ <= DZstd; typ++ {
		if TypeOK(version, typ) {
			l = append(l, typ)
		}
	}
	return l
}

func newGen(t *rapid.T, o *DocOpts, ver, base int, feat map[string]int) *docGen {
	g := &docGen{t: t, o: o, ver: ver, base: base, feat: feat}
	mi := o.MaxItems
	if mi == 0 {
		mi = 60
	}
	switch Pick(t, 6, 3, 1) {
	case 0:
		g.budget = min(12, mi)
	case 1:
		g.budget = min(40, mi)
	case 2:
		g.budget = min(150, mi)
	}
	g.sloppy = N(t, 0, 1)
	g.bytes = 60000
	if o.NoBig {
		g.bytes = 2000
	}
	return g
}

// Gen generates a valid document.
func Gen(t *rapid.T, o DocOpts) *GenDoc {
	if o.MinVer == 0 {
		o.MinVer = 1
	}
	if o.MaxVer == 0 {
		o.MaxVer = 4
	}
	d := &GenDoc{Feat: map[string]int{}}
	d.Version = o.MinVer + (N(t, 0, o.MaxVer-o.MinVer)+o.MaxVer-o.MinVer)%(o.MaxVer-o.MinVer+1)
	d.Type = DRaw
	if !o.NoCompress && Chance(t, 3) {
		d.Type = One(t, Types(d.Version)...)
		if d.Type == DZstd && o.NoZstd {
			d.Type = DRaw
		}
	}

	// header
	var suffix []byte
	switch {
	case d.Version >= 2 && !o.NoHeader && Chance(t, 3):
		g := newGen(t, &o, d.Version, 0, map[string]int{})
		g.budget = min(g.budget, 20)
		g.buf = []byte{1}
		d.HasHeader = true
		d.Header = g.item(false)
		suffix = g.buf
		d.Feat["header"]++
	case d.Version == 1 && Chance(t, 6): // reserved bytes
		suffix = []byte(Expand(4*N(t, 0, 20)+2, N(t, 1, 20), false))
		suffix[0] &^= 1
	case d.Version >= 2 && Chance(t, 12):
		suffix = []byte{0}
	}
	sl := binary.AppendUvarint(nil, uint64(len(suffix)))
	if !o.NoNonCanon && Chance(t, 15) {
		for k := N(t, 1, 10-len(sl)); k > 0; k-- {
			sl[len(sl)-1] |= 0x80
			sl = append(sl, 0)
		}
	}
	d.BodyStart = 5 + len(sl) + len(suffix)

	base := 1
	if d.Version == 1 {
		base = d.BodyStart
	}
	g := newGen(t, &o, d.Version, base, d.Feat)
	switch {
	case o.TopArray > 0:
		d.Body = g.topArray(o.TopArray)
	case !o.NoBig && Chance(t, 25): // offsets that need more bytes
		n := &Node{K: KArray}
		if o.Perl {
			g.buf = append(g.buf, TRefN)
		}
		i := g.begin(n, len(g.buf))
		g.buf = append(g.buf, TArray, 4)
		ln := One(t, 200, 16500, 70000)
		if Chance(t, 8) {
			ln = 1<<21 + 100
		}
		s := &Node{K: KBytes, S: Expand(4*N(t, 0, 15)+1, ln, false)}
		j := g.begin(s, len(g.buf))
		g.buf = append(g.buf, TBinary)
		g.varint(uint64(ln))
		g.buf = append(g.buf, s.S...)
		g.end(j)
		if ln > 100000 { // don't copy it
			g.items[j].opaque = true
		}
		n.Items = []*Node{s}
		for k := 0; k < 3; k++ {
			g.next.slot = true
			n.Items = append(n.Items, g.item(false))
		}
		g.end(i)
		d.Body = n
		if o.Perl {
			d.Body = &Node{K: KRef, Items: []*Node{n}}
		}
		d.Feat["far-offsets"]++
	default:
		d.Body = g.item(false)
	}
	if !o.NoTrailing && g.sloppy > 0 && Chance(t, 10) {
		for k := N(t, 1, 3); k > 0; k-- {
			g.buf = append(g.buf, TPad)
			d.Trailing++
		}
	}
	d.RawBody = g.buf
	level := 6
	if d.Type == DZlib {
		level = N(t, 1, 9)
	} else if d.Type == DZstd {
		level = One(t, 1, 3, 7)
	}
	d.Bytes = Assemble(d.Version, d.Type, sl, suffix, d.RawBody, level)
	return d
}

func (g *docGen) topArray(kind int) *Node {
	a := &Node{K: KArray}
	n := a
	ln := g.size()
	if kind == 1 {
		i := g.begin(a, 0)
		g.tag(TArray)
		g.varint(uint64(ln))
		g.elems(a, ln)
		g.end(i)
		return n
	}
	n = &Node{K: KRef, Items: []*Node{a}}
	i := g.begin(n, 0)
	if Bool(g.t) {
		ln = min(ln, 15)
		g.tag(TArrayRef + byte(ln))
		g.elems(a, ln)
	} else {
		g.tag(TRefN)
		j := g.begin(a, len(g.buf))
		g.tag(TArray)
		g.varint(uint64(ln))
		g.elems(a, ln)
		g.end(j)
	}
	g.end(i)
	return n
}
