package spec

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"io"
	"math"

	"github.com/DataDog/zstd"
	"github.com/golang/snappy"
	"pgregory.net/rapid"
)

// Hostile input: documents that are damaged, lie about sizes or are nested deeply, and plain noise.

// HostileOpts restricts hostile documents.
type HostileOpts struct {
	Deep   int  // greatest number of repetitions of a nesting pattern
	NoCopy bool // no COPY tags on purpose
}

// Hostile is a hostile document.
type Hostile struct {
	Bytes []byte
	Kind  string
	Body  []byte // the uncompressed body that was put in, if known
}

var claims = []uint64{0, 1, 15, 16, 17, 100, 127, 128, 1000, 16383, 16384, 65535, 65536, 1 << 20, 1<<21 - 1, 1 << 24, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1,
	1 << 34, 1 << 40, 1 << 47, 1 << 48, 1 << 56, 1 << 59, 1 << 60, 1<<61 - 1, 1 << 61, 1<<62 - 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 1, math.MaxUint64 - 16, math.MaxUint64 - 1, math.MaxUint64}

// Claim draws a number that might be used as a length or offset.
func Claim(t *rapid.T) uint64 {
	if Chance(t, 3) {
		return AnyUint(t)
	}
	return claims[N(t, 0, len(claims)-1)]
}

// BadVarint draws a varint, maybe an overlong or unfinished one.
func BadVarint(t *rapid.T) []byte {
	switch Pick(t, 6, 1, 1, 1) {
	case 1:
		n := N(t, 1, 12)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(0x80 | N(t, 0, 127))
		}
		if Bool(t) {
			b = append(b, byte(N(t, 0, 127)))
		}
		return b
	case 2:
		return []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, byte(N(t, 0, 255))}
	case 3:
		b := binary.AppendUvarint(nil, Claim(t))
		for i := N(t, 1, 4); i > 0; i-- {
			b[len(b)-1] |= 0x80
			b = append(b, 0)
		}
		return b
	}
	return binary.AppendUvarint(nil, Claim(t))
}

var tagBytes = []byte{TVarint, TZigzag, TFloat, TDouble, 0x24, TUndef, TBinary, TStr, TRefN, TRefP, THash, TArray, TObject, TObjectV, TAlias, TCopy, TWeaken, TRegexp,
	TObjFreeze, TObjVFreeze, 0x34, 0x35, 0x36, 0x37, 0x38, TCanonUndef, TFalse, TTrue, 0x3c, 0x3d, 0x3e, TPad, TArrayRef, TArrayRef + 1, TArrayRef + 15, THashRef, THashRef + 1, THashRef + 15,
	TShort, TShort + 1, TShort + 2, TShort + 31, 0, 1, 15, 16, 31}

// TagSoup draws a sequence of tags with more or less fitting operands.
func TagSoup(t *rapid.T, n int, noCopy bool) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		tag := tagBytes[N(t, 0, len(tagBytes)-1)]
		if Chance(t, 10) {
			tag = byte(N(t, 0, 127))
		}
		if noCopy && tag == TCopy {
			tag = TPad
		}
		raw := tag
		if Chance(t, 4) {
			tag |= Track
		}
		b = append(b, tag)
		switch raw {
		case TVarint, TZigzag:
			b = append(b, BadVarint(t)...)
		case TRefP, TAlias, TCopy, TObjectV, TObjVFreeze:
			if Chance(t, 5) {
				b = append(b, BadVarint(t)...)
			} else {
				b = binary.AppendUvarint(b, uint64(N(t, 0, len(b)+2)))
			}
		case TBinary, TStr, TArray, THash:
			if Chance(t, 4) {
				b = append(b, BadVarint(t)...)
			} else {
				b = append(b, byte(N(t, 0, 6)))
			}
			if raw == TBinary || raw == TStr {
				b = append(b, Expand(N(t, 0, 9), N(t, 0, 6), false)...)
			}
		case TFloat:
			b = append(b, 1, 2, 3, 4)
		case TDouble:
			b = append(b, 1, 2, 3, 4, 5, 6, 7, 8)
		default:
			if raw > TShort && !Chance(t, 4) {
				b = append(b, Expand(N(t, 0, 9), int(raw&31), false)...)
			}
		}
	}
	return b
}

// nesting patterns: each nests one level deeper.
var nests = [][]byte{{TRefN}, {TArray, 1}, {TArrayRef + 1}, {THash, 1, TShort + 1, 'k'}, {THashRef + 1, TShort}, {TWeaken}, {TWeaken, TRefN},
	{TObject, TShort + 1, 'C'}, {TObjectV, 1}, {TRefN | Track}, {TArray | Track, 1}, {TArray, 2, 0}, {THash, 2, TShort, 0, TShort + 1, 'x'}, {TPad, TRefN},
	{TObject, TShort + 1, 'C', TRefN, THash, 1, TShort + 1, 'n'}, {TRefN, THash, 1, TShort + 1, 'n'}, {TObjFreeze, TShort + 1, 'C'}, {THash, 1, TShort + 4, 'N', 'e', 'x', 't'}, {TRegexp}, {TPad}}

// Mutate damages a byte string.
func Mutate(t *rapid.T, b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := 1 + N(t, 0, 5); k > 0; k-- {
		if len(b) == 0 {
			return TagSoup(t, 2, true)
		}
		// most often near the start or at the end
		p := N(t, 0, len(b)-1)
		if Bool(t) {
			p = N(t, 0, min(len(b), 40)-1)
		}
		switch Pick(t, 4, 3, 3, 2, 2, 2, 3, 2, 1) {
		case 0:
			b[p] ^= 1 << N(t, 0, 7)
		case 1:
			b[p] = byte(N(t, 0, 255))
		case 2:
			b[p] = tagBytes[N(t, 0, len(tagBytes)-1)] | byte(N(t, 0, 1)<<7)
		case 3: // insert
			x := TagSoup(t, 1, false)
			b = append(b[:p:p], append(x, b[p:]...)...)
		case 4: // delete
			q := min(len(b), p+N(t, 1, 4))
			b = append(b[:p:p], b[q:]...)
		case 5: // cut
			b = b[:p]
		case 6: // another number
			x := BadVarint(t)
			q := min(len(b), p+N(t, 0, 2))
			b = append(b[:p:p], append(x, b[q:]...)...)
		case 7: // repeat a part
			q := min(len(b), p+N(t, 1, 20))
			b = append(b[:q:q], b[p:]...)
			if len(b) > 4<<20 {
				return b
			}
		case 8:
			q := N(t, 0, len(b)-1)
			b[p], b[q] = b[q], b[p]
		}
	}
	return b
}

// rehead damages the optional header.
func badHead(t *rapid.T) (b []byte, ver, typ int) {
	ver = N(t, 1, 4)
	typ = One(t, Types(ver)...)
	b = []byte("=\xf3rl")
	if ver < 3 {
		b = []byte("=srl")
	}
	v := byte(ver) | byte(typ)<<4
	if Chance(t, 8) {
		v = byte(N(t, 0, 255))
	}
	b = append(b, v)
	switch Pick(t, 4, 2, 2) {
	case 0:
		b = append(b, 0)
	case 1:
		s := append([]byte{1}, TagSoup(t, N(t, 0, 6), true)...)
		b = binary.AppendUvarint(b, uint64(max(0, len(s)+N(t, -2, 2))))
		b = append(b, s...)
	case 2:
		b = append(b, BadVarint(t)...)
	}
	return b, ver, typ
}

// LyingCompression writes a compressed body with wrong lengths.
func LyingCompression(t *rapid.T, typ int, body []byte) []byte {
	c := Compress(typ, body, 6)
	lie := func(u uint64) []byte {
		switch Pick(t, 2, 2, 1, 2) {
		case 0:
			return binary.AppendUvarint(nil, u)
		case 1:
			return BadVarint(t)
		case 2:
			return binary.AppendUvarint(nil, u+uint64(N(t, -3, 3)))
		}
		return binary.AppendUvarint(nil, u*uint64(One(t, 2, 10, 21, 22, 23, 100, 1031, 1032, 1033, 100000)))
	}
	if Chance(t, 3) {
		c = Mutate(t, c)
	}
	switch typ {
	case DSnappy:
		u, n, err := Uvarint(c)
		if err == nil {
			return append(lie(u), c[n:]...)
		}
	case DSnappyIncr:
		u, n, err := Uvarint(c)
		if err == nil {
			rest := c[n:]
			if v, m, err := Uvarint(rest); err == nil && Bool(t) {
				rest = append(lie(v), rest[m:]...)
				u = uint64(len(rest))
			}
			if Chance(t, 3) {
				return append(lie(u), rest...)
			}
			return append(binary.AppendUvarint(nil, u), rest...)
		}
	case DZlib:
		u, n, err := Uvarint(c)
		if err == nil {
			v, m, err := Uvarint(c[n:])
			if err == nil {
				o := lie(u)
				if Chance(t, 3) {
					o = append(o, lie(v)...)
				} else {
					o = binary.AppendUvarint(o, v)
				}
				return append(o, c[n+m:]...)
			}
		}
	case DZstd:
		u, n, err := Uvarint(c)
		if err == nil {
			rest := append([]byte(nil), c[n:]...)
			if Bool(t) && len(rest) > 14 { // frame header with a content size of its own
				h := []byte{0x28, 0xb5, 0x2f, 0xfd, 0xe0}
				h = binary.LittleEndian.AppendUint64(h, Claim(t))
				rest = append(h, rest[min(len(rest), 6):]...)
				u = uint64(len(rest))
			}
			if Chance(t, 3) {
				return append(lie(u), rest...)
			}
			return append(binary.AppendUvarint(nil, u), rest...)
		}
	}
	return c
}

// GenHostile draws a hostile document.
func GenHostile(t *rapid.T, o HostileOpts) Hostile {
	switch Pick(t, 6, 8, 6, 4, 4, 6, 4, 2, 4, 4, 2, 1) {
	case 0: // a valid body, damaged
		d := Gen(t, DocOpts{NoCompress: true, MaxItems: 60, NoCopy: o.NoCopy})
		body := Mutate(t, d.RawBody)
		ver := d.Version
		typ := DRaw
		if Chance(t, 3) {
			typ = One(t, Types(ver)...)
		}
		return Hostile{Assemble(ver, typ, []byte{0}, nil, body, 6), "damaged body", body}
	case 1: // a valid document, damaged
		d := Gen(t, DocOpts{MaxItems: 60, NoCopy: o.NoCopy})
		return Hostile{Bytes: Mutate(t, d.Bytes), Kind: "damaged document"}
	case 2:
		b, ver, typ := badHead(t)
		body := TagSoup(t, N(t, 1, 30), o.NoCopy)
		_ = ver
		return Hostile{append(b, Compress(typ, body, 6)...), "tags at random", body}
	case 3: // deep nesting
		ver := N(t, 1, 4)
		typ := DRaw
		if Chance(t, 3) {
			typ = One(t, Types(ver)...)
		}
		var pat []byte
		for i := N(t, 1, 3); i > 0; i-- {
			p := nests[N(t, 0, len(nests)-1)]
			pat = append(pat, p...)
		}
		k := N(t, 1, 50)
		if Chance(t, 3) {
			k = N(t, 1, o.Deep)
		}
		var body []byte
		if Bool(t) {
			body = append(body, TObject, TShort+1, 'C')
		}
		for i := 0; i < k; i++ {
			body = append(body, pat...)
		}
		if Bool(t) {
			body = append(body, TagSoup(t, 1, o.NoCopy)...)
		}
		return Hostile{Assemble(ver, typ, []byte{0}, nil, body, 6), "deep", body}
	case 4: // claims: containers that say they are as large as possible
		ver := N(t, 1, 4)
		k := N(t, 1, 60)
		if Chance(t, 3) {
			k = N(t, 1, 3000)
		}
		fill := N(t, 0, 3000)
		mode := N(t, 0, 4)
		fixed := Claim(t)
		total := k*5 + fill
		var body []byte
		for i := 0; i < k; i++ {
			switch mode {
			case 0, 1, 2:
				c := uint64(max(0, total-len(body)-8))
				if mode == 1 {
					c /= 2
				} else if mode == 2 {
					c = fixed
				}
				if mode == 1 || N(t, 0, 3) > 0 {
					body = append(body, TArray)
				} else {
					body = append(body, THash)
				}
				body = binary.AppendUvarint(body, c)
				if body[len(body)-1] == THash {
					body = append(body, TShort)
				}
			case 3:
				body = append(body, TRefN, THash)
				body = binary.AppendUvarint(body, uint64(max(0, (total-len(body)-8)/2)))
				body = append(body, TShort)
			case 4:
				body = append(body, TArrayRef+15)
			}
			if k > 1000 && mode == 0 && i%4 == 3 { // siblings
				body = append(body, 0, 0)
			}
		}
		for i := 0; i < fill; i++ {
			body = append(body, 0)
		}
		return Hostile{Assemble(ver, DRaw, []byte{0}, nil, body, 6), "claims", body}
	case 5: // lies about compression
		ver := N(t, 1, 4)
		l := Types(ver)
		typ := l[N(t, 1, len(l)-1)]
		var body []byte
		if Chance(t, 3) {
			body = append([]byte{TArray}, binary.AppendUvarint(nil, uint64(One(t, 100, 10000, 100000)))...)
			n := len(body) - 1
			u, _, _ := Uvarint(body[1:])
			body = body[:1+n]
			for i := 0; i < int(u); i++ {
				body = append(body, byte(N(t, 0, 0)))
			}
		} else {
			body = TagSoup(t, N(t, 0, 12), o.NoCopy)
		}
		b := Assemble(ver, DRaw, []byte{0}, nil, nil, 0)
		b[4] |= byte(typ) << 4
		return Hostile{append(b, LyingCompression(t, typ, body)...), "compression", body}
	case 6: // noise after a header
		b, _, _ := badHead(t)
		return Hostile{append(b, Expand(4*N(t, 0, 500)+2, N(t, 0, 40), false)...), "header and noise", nil}
	case 7:
		return Hostile{[]byte(Expand(4*N(t, 0, 5000)+2, N(t, 0, 60), false)), "noise", nil}
	case 8: // two documents spliced
		a := Gen(t, DocOpts{MaxItems: 20, NoCompress: Bool(t), NoCopy: o.NoCopy}).Bytes
		b := Gen(t, DocOpts{MaxItems: 20, NoCompress: Bool(t), NoCopy: o.NoCopy}).Bytes
		return Hostile{append(append([]byte(nil), a[:N(t, 0, len(a))]...), b[N(t, 0, len(b)):]...), "splice", nil}
	case 9: // a chain of references
		k := N(t, 1, 60)
		if Chance(t, 3) {
			k = N(t, 1, o.Deep)
		}
		mode := N(t, 0, 5)
		body := append([]byte{TArray}, binary.AppendUvarint(nil, uint64(k+1))...)
		prev := len(body) + 1
		body = append(body, One[byte](t, 0, TUndef, TArrayRef, TRefN)|Track)
		if body[len(body)-1] == TRefN|Track {
			body = append(body, 0)
		}
		for i := 0; i < k; i++ {
			switch mode {
			case 1:
				body = append(body, TRefN)
			case 2:
				body = append(body, TArrayRef+1)
			case 3:
				body = append(body, TWeaken)
			}
			here := len(body) + 1
			switch {
			case mode == 4:
				body = append(body, TAlias|Track)
			case mode == 5 && i%2 == 0:
				body = append(body, TRefN|Track, TRefP)
			default:
				body = append(body, TRefP|Track)
			}
			body = binary.AppendUvarint(body, uint64(prev))
			prev = here
		}
		return Hostile{Assemble(N(t, 2, 4), DRaw, []byte{0}, nil, body, 6), "chain", body}
	case 10: // every item has the one before several times
		return Hostile{Assemble(N(t, 2, 4), DRaw, []byte{0}, nil, bomb(t, o), 6), "bomb", nil}
	case 11:
		ver := N(t, 2, 4)
		body := many(t, o)
		typ := DRaw
		if Chance(t, 3) {
			typ = One(t, Types(ver)...)
		}
		return Hostile{Assemble(ver, typ, []byte{0}, nil, body, 6), "many", body}
	}
	panic("kind")
}

// many draws a body with a great number of small items. Work for each item that grows with the document
// makes itself felt here.
func many(t *rapid.T, o HostileOpts) []byte {
	k := 1 << N(t, 6, 14)
	k += N(t, 0, k)
	hash := Chance(t, 3)
	// the first element holds what others refer to
	first := []byte{TArrayRef + 3, TShort + 1 | Track, 'a', TObject, TShort + 1, 'C', TRefN | Track, THash | Track, 0, TArrayRef | Track}
	var body []byte
	if hash {
		body = binary.AppendUvarint([]byte{THash}, uint64(k+1))
		body = append(body, TShort)
	} else {
		body = binary.AppendUvarint([]byte{TArray}, uint64(k+1))
	}
	base := len(body) // offsets are 1-based
	body = append(body, first...)
	op := func(tag byte, at int) []byte { return binary.AppendUvarint([]byte{tag}, uint64(base+at)) }
	items := [][]byte{
		{TBinary, 1, 'x'}, {TStr, 1, 'y'}, {TShort}, {TShort + 2, 'x', 'y'}, {TBinary | Track, 0}, {TArray, 0}, {THash, 0}, {TArrayRef}, {THashRef},
		{TRefN, TArray, 0}, {TRefN | Track, THash | Track, 0}, {THashRef + 1, TShort + 1, 'X', 1}, {THash, 1, TShort + 4, 'N', 'e', 'x', 't', TUndef},
		{TObject, TShort + 1, 'C', THash, 0}, op(TObjectV, 5), {TObject, TShort + 1, 'C', TRefN, TArray, 0},
		{TRegexp, TShort + 1, 'r', TShort}, {TObjFreeze, TShort + 1, 'C', TRefN, TArray, 1, TBinary, 1, 'f'},
		op(TRefP, 2), op(TRefP, 8), op(TRefP, 10), op(TAlias, 2), op(TAlias, 10), {TWeaken, TRefN, TArray, 0}, {TWeaken, TUndef},
		{TPad, TPad, 3}, {TVarint, 0x80, 1}, {TDouble, 1, 2, 3, 4, 5, 6, 7, 8}, {TCanonUndef}, {TTrue}, {31}, {7},
	}
	// what follows OBJECTV
	for i := range items {
		if items[i][0] == TObjectV {
			items[i] = append(items[i], TArray, 0)
		}
	}
	if !o.NoCopy {
		items = append(items, op(TCopy, 2), op(TCopy, 4))
	}
	var use [][]byte
	for i := N(t, 1, 4); i > 0; i-- {
		use = append(use, items[N(t, 0, len(items)-1)])
	}
	for i := 0; i < k; i++ {
		if hash {
			body = append(body, TShort+4, 'a'+byte(i&15), 'a'+byte(i>>4&15), 'a'+byte(i>>8&15), 'a'+byte(i>>12))
		}
		body = append(body, use[i%len(use)]...)
	}
	return body
}

// bomb draws a body with items that refer to the one before more than once: were they all expanded, there
// would be exponentially many.
func bomb(t *rapid.T, o HostileOpts) []byte {
	levels := N(t, 1, 8)
	if !Chance(t, 3) {
		levels = N(t, 25, 60)
	}
	width := N(t, 2, 3)
	ref := One[byte](t, TCopy, TCopy, TCopy, TRefP, TAlias)
	if o.NoCopy && ref == TCopy {
		ref = One[byte](t, TRefP, TAlias)
	}
	keys := One(t, []string{"A", "B", "C"}, []string{"Next", "Next2", "C"}, []string{"1", "2", "3"}, []string{"X", "Y", "Z"})
	shape, refn, flip := N(t, 0, 3), Chance(t, 3), Chance(t, 4)
	var body []byte
	topHash := Chance(t, 4)
	if topHash {
		body = append(body, THash)
	} else {
		body = append(body, TArray)
	}
	body = binary.AppendUvarint(body, uint64(levels+1))
	flag := byte(0)
	if ref != TCopy {
		flag = Track
	}
	prev := 0
	for i := 0; i <= levels; i++ {
		if topHash {
			body = append(body, TShort+2, 'a'+byte(i/26), 'a'+byte(i%26))
		}
		here := len(body) + 1
		if refn {
			body = append(body, TRefN|flag)
		} else if Chance(t, 12) {
			body = append(body, TPad)
		}
		f := flag
		if refn {
			f = 0
		}
		w := width
		if i == 0 {
			w = 0
		}
		s := shape
		if flip {
			s = (shape + i) % 4
		}
		hash := s == 1 || s == 3
		switch s {
		case 0:
			body = append(body, TArray|f, byte(w))
		case 1:
			body = append(body, THash|f, byte(w))
		case 2:
			body = append(body, TArrayRef+byte(w)|f)
		case 3:
			body = append(body, THashRef+byte(w)|f)
		}
		for k := 0; k < w; k++ {
			if hash {
				body = append(append(body, TShort+byte(len(keys[k]))), keys[k]...)
			}
			body = append(body, ref)
			body = binary.AppendUvarint(body, uint64(prev))
		}
		prev = here
	}
	return body
}

// Inflate decompresses as much of a damaged document as there is.
func Inflate(b []byte) []byte {
	if len(b) < 6 {
		return nil
	}
	ln, sz, err := Uvarint(b[5:])
	if err != nil || ln > uint64(len(b)-5-sz) {
		return nil
	}
	body := b[5+sz+int(ln):]
	typ := int(b[4] >> 4)
	if typ == DZlib {
		_, n, err := Uvarint(body)
		if err != nil {
			return nil
		}
		body = body[n:]
	}
	if typ != DSnappy {
		_, n, err := Uvarint(body)
		if err != nil {
			return nil
		}
		body = body[n:]
	}
	var r io.Reader
	switch typ {
	case DSnappy, DSnappyIncr:
		if n, err := snappy.DecodedLen(body); err != nil || n > 30*len(body)+1000 {
			return nil
		}
		x, _ := snappy.Decode(nil, body)
		return x
	case DZlib:
		z, err := zlib.NewReader(bytes.NewReader(body))
		if err != nil {
			return nil
		}
		r = z
	case DZstd:
		z := zstd.NewReader(bytes.NewReader(body))
		defer z.Close()
		r = z
	default:
		return nil
	}
	x, _ := io.ReadAll(io.LimitReader(r, 1<<28))
	return x
}
