// Package spec is an independent model of the Sereal format, written from
// sereal_spec.pod. It shares no code with the Go library under test.
package spec

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// Kind of a node.
type Kind int

// Kinds of nodes.
const (
	KUndef Kind = iota
	KCanonUndef
	KBool
	KInt
	KF32
	KF64
	KBytes
	KStr
	KRef // REFN, REFP, or the reference part of ARRAYREF/HASHREF
	KWeak
	KArray
	KHash
	KObject
	KFreeze
	KRegexp
	KLong   // a LONG_DOUBLE: S is its bytes
	KThawed // the array of a frozen object: a reference to it is one to the object
)

var kindNames = []string{"undef", "canonundef", "bool", "int", "f32", "f64", "bytes", "str", "ref", "weak", "array", "hash", "object", "freeze", "regexp", "long", "thawed"}

func (k Kind) String() string { return kindNames[k] }

// Node is an item of a document. Items may be shared (REFP, ALIAS) and cyclic.
type Node struct {
	K    Kind
	B    bool
	Neg  bool   // KInt: the value is -U (U > 0)
	U    uint64 // KInt: magnitude; KF32, KF64: bits
	S    string // KBytes, KStr: content; KObject, KFreeze: class; KRegexp: pattern
	S2   string // KRegexp: modifiers; KFreeze: data
	Keys []string
	KUTF []bool // whether the key is STR_UTF8
	// elements, values of Keys, or the single content of KRef, KWeak, KObject
	Items []*Node

	REFP bool  // KRef: this is a REFP
	SUTF bool  // KRegexp, KFreeze, KThawed: the pattern or the data is STR_UTF8
	Body *Node // KFreeze: the KThawed

	Ancestor bool // KRef: REFP to an item that is not complete yet

	// identity of what a Go pointer's target refers to (FromGo only)
	ID2  any
	Hard bool // ID2 equality requires a shared item
}

// Int returns a KInt node.
func Int(i int64) *Node {
	if i < 0 {
		return &Node{K: KInt, Neg: true, U: -uint64(i)}
	}
	return &Node{K: KInt, U: uint64(i)}
}

// Uint returns a KInt node.
func Uint(u uint64) *Node { return &Node{K: KInt, U: u} }

// F64 returns a KF64 node.
func F64(f float64) *Node { return &Node{K: KF64, U: math.Float64bits(f)} }

// F32 returns a KF32 node.
func F32(f float32) *Node { return &Node{K: KF32, U: uint64(math.Float32bits(f))} }

// Clone copies a subtree the way a COPY tag does: nodes reached through REFP stay shared.
func (n *Node) Clone() *Node {
	c := *n
	c.Keys = append([]string(nil), n.Keys...)
	c.KUTF = append([]bool(nil), n.KUTF...)
	c.Items = append([]*Node(nil), n.Items...)
	if !n.REFP {
		for i := range c.Items {
			c.Items[i] = c.Items[i].Clone()
		}
	}
	if c.Body != nil {
		c.Body = c.Body.Clone()
	}
	return &c
}

// String renders a node, cutting cycles and long parts.
func (n *Node) String() string {
	var sb strings.Builder
	n.str(&sb, map[*Node]bool{}, 0)
	return sb.String()
}

func short(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%q...(%d bytes)", s[:24], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func (n *Node) str(sb *strings.Builder, onpath map[*Node]bool, depth int) {
	if n == nil {
		sb.WriteString("<nil>")
		return
	}
	if onpath[n] {
		sb.WriteString("<cycle>")
		return
	}
	if sb.Len() > 1500 || depth > 60 {
		sb.WriteString("...")
		return
	}
	onpath[n] = true
	defer delete(onpath, n)
	switch n.K {
	case KUndef, KCanonUndef:
		sb.WriteString(n.K.String())
	case KBool:
		fmt.Fprint(sb, n.B)
	case KInt:
		if n.Neg {
			sb.WriteByte('-')
		}
		fmt.Fprint(sb, n.U)
	case KF32:
		fmt.Fprintf(sb, "f32(%#x)", n.U)
	case KF64:
		fmt.Fprintf(sb, "f64(%#x)", n.U)
	case KLong:
		fmt.Fprintf(sb, "long(%x)", n.S)
	case KBytes:
		sb.WriteString("b" + short(n.S))
	case KStr:
		sb.WriteString(short(n.S))
	case KRef:
		if n.REFP {
			sb.WriteString("REFP->")
		} else {
			sb.WriteByte('\\')
		}
		n.Items[0].str(sb, onpath, depth+1)
	case KWeak:
		sb.WriteString("weak:")
		n.Items[0].str(sb, onpath, depth+1)
	case KArray:
		sb.WriteByte('[')
		for i, it := range n.Items {
			if i > 0 {
				sb.WriteByte(' ')
			}
			if i > 40 {
				fmt.Fprintf(sb, "...%d", len(n.Items))
				break
			}
			it.str(sb, onpath, depth+1)
		}
		sb.WriteByte(']')
	case KHash:
		sb.WriteByte('{')
		for i, it := range n.Items {
			if i > 0 {
				sb.WriteByte(' ')
			}
			if i > 40 {
				fmt.Fprintf(sb, "...%d", len(n.Items))
				break
			}
			sb.WriteString(short(n.Keys[i]) + ":")
			it.str(sb, onpath, depth+1)
		}
		sb.WriteByte('}')
	case KObject:
		sb.WriteString("bless<" + short(n.S) + ">")
		n.Items[0].str(sb, onpath, depth+1)
	case KFreeze, KThawed:
		sb.WriteString(n.K.String() + "<" + short(n.S) + ">" + short(n.S2))
	case KRegexp:
		sb.WriteString("qr/" + short(n.S) + "/" + short(n.S2))
	}
}

// Compare options.
type EqOpts struct {
	IgnoreKeyUTF bool // hash keys are compared by their bytes only
	BytesAsStr   bool // binary and UTF-8 strings are not distinguished
	IgnoreCanon  bool // UNDEF and CANONICAL_UNDEF are the same
	Sharing      bool // items reached by references must be shared alike
	Iso          bool // the graphs must be isomorphic: every item is shared alike
}

type eq struct {
	o     EqOpts
	seen  map[[2]*Node]bool
	a2b   map[*Node]*Node
	b2a   map[*Node]*Node
	idb   map[any]*Node
	path  []string
	steps int
}

// Equal compares two graphs as (possibly infinite) trees, and also as to which
// referenced items are shared if asked to. It returns "" or a description of the difference.
func Equal(a, b *Node, o EqOpts) string {
	e := &eq{o: o, seen: map[[2]*Node]bool{}, a2b: map[*Node]*Node{}, b2a: map[*Node]*Node{}, idb: map[any]*Node{}}
	return e.cmp(a, b)
}

func (e *eq) fail(f string, args ...any) string {
	return "at /" + strings.Join(e.path, "/") + ": " + fmt.Sprintf(f, args...)
}

func (e *eq) sub(p string, a, b *Node) string {
	e.path = append(e.path, p)
	r := e.cmp(a, b)
	e.path = e.path[:len(e.path)-1]
	return r
}

func (e *eq) ref(a, b *Node) string {
	if e.o.Sharing {
		if x, ok := e.a2b[a]; ok && x != b {
			return e.fail("one referenced item became several: %s", a)
		}
		if x, ok := e.b2a[b]; ok && x != a {
			if a.ID2 == nil || x.ID2 != a.ID2 {
				return e.fail("different referenced items were merged: %s and %s", x, a)
			}
		}
		if a.ID2 != nil && a.Hard {
			if x, ok := e.idb[a.ID2]; ok && x != b {
				return e.fail("the same map or slice became several items: %s", a)
			}
			e.idb[a.ID2] = b
		}
		e.a2b[a] = b
		e.b2a[b] = a
	}
	return e.sub("ref", a, b)
}

func (e *eq) cmp(a, b *Node) string {
	if a == nil || b == nil {
		return e.fail("nil node")
	}
	if e.o.Iso {
		if x, ok := e.a2b[a]; ok && x != b {
			return e.fail("one shared item became several: %s", a)
		}
		if x, ok := e.b2a[b]; ok && x != a {
			return e.fail("different items were merged: %s and %s", x, a)
		}
		e.a2b[a] = b
		e.b2a[b] = a
	}
	k := [2]*Node{a, b}
	if e.seen[k] {
		return ""
	}
	e.seen[k] = true

	ka, kb := a.K, b.K
	if e.o.IgnoreCanon {
		if ka == KCanonUndef {
			ka = KUndef
		}
		if kb == KCanonUndef {
			kb = KUndef
		}
	}
	if e.o.BytesAsStr {
		if ka == KBytes {
			ka = KStr
		}
		if kb == KBytes {
			kb = KStr
		}
	}
	if ka != kb {
		return e.fail("%s %s became %s %s", ka, a, kb, b)
	}
	switch ka {
	case KBool:
		if a.B != b.B {
			return e.fail("%s became %s", a, b)
		}
	case KInt:
		if a.U != b.U || a.Neg != b.Neg {
			return e.fail("%s became %s", a, b)
		}
	case KF32, KF64:
		if a.U != b.U {
			return e.fail("%s became %s", a, b)
		}
	case KBytes, KStr, KLong:
		if a.S != b.S {
			return e.fail("%s became %s", a, b)
		}
	case KRegexp, KFreeze, KThawed:
		if a.S != b.S || a.S2 != b.S2 {
			return e.fail("%s became %s", a, b)
		}
		if a.Body != nil && b.Body != nil {
			return e.sub("frozen", a.Body, b.Body)
		}
	case KRef:
		return e.ref(a.Items[0], b.Items[0])
	case KWeak:
		return e.sub("weak", a.Items[0], b.Items[0])
	case KObject:
		if a.S != b.S {
			return e.fail("class %q became %q", a.S, b.S)
		}
		return e.sub("obj", a.Items[0], b.Items[0])
	case KArray:
		if len(a.Items) != len(b.Items) {
			return e.fail("array of %d became array of %d: %s / %s", len(a.Items), len(b.Items), a, b)
		}
		for i := range a.Items {
			if r := e.sub(fmt.Sprint(i), a.Items[i], b.Items[i]); r != "" {
				return r
			}
		}
	case KHash:
		if len(a.Items) != len(b.Items) {
			return e.fail("hash of %d became hash of %d: %s / %s", len(a.Items), len(b.Items), a, b)
		}
		type kk struct {
			s string
			u bool
		}
		key := func(n *Node, i int) kk {
			if e.o.IgnoreKeyUTF || e.o.BytesAsStr || isASCII(n.Keys[i]) {
				return kk{s: n.Keys[i]}
			}
			return kk{n.Keys[i], n.KUTF[i]}
		}
		bm := make(map[kk]*Node, len(b.Items))
		for i := range b.Items {
			if _, dup := bm[key(b, i)]; dup {
				return e.fail("repeated key %s", short(b.Keys[i]))
			}
			bm[key(b, i)] = b.Items[i]
		}
		idx := make([]int, len(a.Keys))
		for i := range idx {
			idx[i] = i
		}
		sort.Slice(idx, func(x, y int) bool { return a.Keys[idx[x]] < a.Keys[idx[y]] })
		for _, i := range idx {
			v, ok := bm[key(a, i)]
			if !ok {
				return e.fail("key %s is missing in %s", short(a.Keys[i]), b)
			}
			if r := e.sub(short(a.Keys[i]), a.Items[i], v); r != "" {
				return r
			}
		}
	}
	return ""
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// Walk visits every node once.
func (n *Node) Walk(f func(*Node)) {
	seen := map[*Node]bool{}
	var w func(*Node)
	w = func(n *Node) {
		if seen[n] {
			return
		}
		seen[n] = true
		f(n)
		for _, c := range n.Items {
			w(c)
		}
	}
	w(n)
}

// Count returns the number of different nodes.
func (n *Node) Count() int {
	c := 0
	n.Walk(func(*Node) { c++ })
	return c
}

// Depth returns the nesting depth (cycles cut).
func (n *Node) Depth() int {
	memo := map[*Node]int{}
	var w func(*Node) int
	w = func(n *Node) int {
		if d, ok := memo[n]; ok {
			return d
		}
		memo[n] = 0
		d := 0
		for _, c := range n.Items {
			if x := w(c) + 1; x > d {
				d = x
			}
		}
		memo[n] = d
		return d
	}
	return w(n)
}

// Kinds returns the set of kinds that occur, as a sorted string.
func (n *Node) Kinds() string {
	m := map[string]bool{}
	n.Walk(func(x *Node) {
		s := x.K.String()
		if x.REFP {
			s = "refp"
		}
		m[s] = true
	})
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}
