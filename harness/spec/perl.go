package spec

import (
	"encoding/hex"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// What Perl makes of a document.

// perlItem skips OBJECT and WEAKEN, which say something about the item they precede.
func perlItem(n *Node) *Node {
	for n.K == KObject || n.K == KWeak {
		n = n.Items[0]
	}
	return n
}

func latin1(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		sb.WriteRune(rune(s[i]))
	}
	return sb.String()
}

// perlKey is the UTF-8 encoding of the characters of a hash key.
func perlKey(s string, utf bool) string {
	if utf {
		return s
	}
	return latin1(s)
}

func className(s string) bool {
	if s == "" {
		return false
	}
	for _, p := range strings.Split(s, "::") {
		if p == "" || p[0] >= '0' && p[0] <= '9' {
			return false
		}
		for _, c := range []byte(p) {
			if c != '_' && !(c >= '0' && c <= '9') && !(c >= 'a' && c <= 'z') && !(c >= 'A' && c <= 'Z') {
				return false
			}
		}
	}
	return true
}

// Perl is what is known about a document Perl can represent.
type Perl struct {
	bless map[*Node]string
	weak  map[*Node]bool // references

	NoBless, NoThaw bool // as the decoder's options
}

// PerlOf checks that Perl can represent a document, apart from where its ALIAS and PAD tags are.
func PerlOf(root *Node, relaxed bool) (p *Perl, err error) {
	p = &Perl{bless: map[*Node]string{}, weak: map[*Node]bool{}}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(perr)
			if !ok {
				panic(r)
			}
			p, err = nil, e.error
		}
	}()
	fail := func(f string, a ...any) { panic(perr{fmt.Errorf(f, a...)}) }
	seen := map[*Node]bool{}
	var weak []*Node
	var walk func(n *Node, slot bool)
	class := func(s string) {
		if !className(s) && !(relaxed && utf8.ValidString(s) && s != "" && !strings.ContainsAny(s, ":'\x00")) {
			fail("class name %q", s)
		}
	}
	walk = func(n *Node, slot bool) {
		for n.K == KObject || n.K == KWeak {
			if seen[n] {
				return
			}
			seen[n] = true
			x := perlItem(n)
			if x.K != KRef {
				fail("%s of %s", n.K, x.K)
			}
			to := perlItem(x.Items[0])
			if n.K == KWeak {
				weak = append(weak, to)
				p.weak[x] = true
				if to.K == KFreeze || to.K == KThawed {
					fail("weak reference to a frozen object")
				}
			} else {
				class(n.S)
				if c, ok := p.bless[to]; ok && c != n.S {
					fail("blessed twice")
				}
				switch to.K {
				case KUndef, KCanonUndef, KBool, KFreeze:
					fail("blessed %s", to.K)
				}
				p.bless[to] = n.S
			}
			n = n.Items[0]
		}
		if seen[n] {
			return
		}
		seen[n] = true
		switch n.K {
		case KArray, KHash, KRegexp:
			if slot {
				fail("%s that is not behind a reference", n.K)
			}
		}
		switch n.K {
		case KFreeze:
			class(n.S)
		case KRef:
			walk(n.Items[0], false)
		case KArray:
			for _, x := range n.Items {
				walk(x, true)
			}
		case KHash:
			keys := map[string]bool{}
			for i, x := range n.Items {
				if n.KUTF[i] && !utf8.ValidString(n.Keys[i]) {
					fail("key is not UTF-8")
				}
				k := perlKey(n.Keys[i], n.KUTF[i])
				if keys[k] {
					fail("key twice")
				}
				keys[k] = true
				walk(x, true)
			}
		case KStr:
			if !utf8.ValidString(n.S) {
				fail("string is not UTF-8")
			}
		case KRegexp:
			for _, c := range n.S2 {
				if !strings.ContainsRune("msixp", c) {
					fail("modifier %q", n.S2)
				}
			}
			if !plainPattern(perlKey(n.S, n.SUTF)) {
				fail("pattern %q", n.S)
			}
		}
	}
	walk(root, true)
	if len(weak) > 0 {
		strong := map[*Node]bool{}
		var mark func(n *Node)
		mark = func(n *Node) {
			n = perlItem(n)
			if strong[n] {
				return
			}
			strong[n] = true
			if p.weak[n] {
				return
			}
			for _, x := range n.Items {
				mark(x)
			}
		}
		mark(root)
		for _, n := range weak {
			if !strong[n] {
				fail("a weak reference is the only one")
			}
		}
	}
	return p, nil
}

func plainPattern(s string) bool {
	for _, c := range s {
		if c != ' ' && c != '_' && !(c >= '0' && c <= '9') && !(c >= 'a' && c <= 'z') && !(c >= 'A' && c <= 'Z') && c < 0xc0 {
			return false
		}
	}
	return utf8.ValidString(s)
}

func perlStr(sb *strings.Builder, s string, utf bool) {
	if utf {
		sb.WriteByte('u')
	} else {
		sb.WriteByte('b')
	}
	sb.WriteString(hex.EncodeToString([]byte(s)))
	sb.WriteByte(';')
}

// Dump describes what Perl makes of the document as perl/peer.pl does.
func (p *Perl) Dump(root *Node) string {
	var sb strings.Builder
	addr := map[*Node]int{}
	var walk func(n *Node)
	walk = func(n *Node) {
		n = perlItem(n)
		if a, ok := addr[n]; ok {
			fmt.Fprintf(&sb, "*%x;", a)
			return
		}
		addr[n] = len(addr)
		fmt.Fprintf(&sb, "@%x;", addr[n])
		if c, ok := p.bless[n]; ok && !p.NoBless {
			fmt.Fprintf(&sb, "B%x;", c)
		}
		switch n.K {
		case KUndef, KCanonUndef:
			sb.WriteString("U;")
		case KBool:
			sb.WriteString(map[bool]string{true: "t;", false: "f;"}[n.B])
		case KInt:
			sb.WriteByte('i')
			if n.Neg {
				sb.WriteByte('-')
			}
			sb.WriteString(strconv.FormatUint(n.U, 10))
			sb.WriteByte(';')
		case KF32, KF64:
			f := math.Float64frombits(n.U)
			if n.K == KF32 {
				f = float64(math.Float32frombits(uint32(n.U)))
			}
			if f != f {
				sb.WriteString("nnan;")
			} else {
				fmt.Fprintf(&sb, "n%016x;", math.Float64bits(f))
			}
		case KBytes, KStr:
			perlStr(&sb, n.S, n.K == KStr)
		case KRef:
			if p.weak[n] {
				sb.WriteByte('W')
			} else {
				sb.WriteByte('R')
			}
			walk(n.Items[0])
		case KArray:
			fmt.Fprintf(&sb, "A%d[", len(n.Items))
			for _, x := range n.Items {
				walk(x)
			}
			sb.WriteByte(']')
		case KHash:
			fmt.Fprintf(&sb, "H%d{", len(n.Items))
			keys := map[string]*Node{}
			var l []string
			for i, k := range n.Keys {
				k = perlKey(k, n.KUTF[i])
				keys[k] = n.Items[i]
				l = append(l, k)
			}
			sort.Strings(l)
			for _, k := range l {
				fmt.Fprintf(&sb, "%x=", k)
				walk(keys[k])
			}
			sb.WriteByte('}')
		case KRegexp:
			sb.WriteByte('X')
			perlStr(&sb, perlKey(n.S, n.SUTF), true)
			m := strings.Split(n.S2, "")
			sort.Strings(m)
			last := ""
			for _, c := range m {
				if c != last {
					sb.WriteString(c)
				}
				last = c
			}
			sb.WriteByte(';')
		case KFreeze:
			sb.WriteByte('R')
			f := n
			if n.Body != nil {
				if a, ok := addr[n.Body]; ok {
					fmt.Fprintf(&sb, "*%x;", a)
					return
				}
				addr[n.Body] = len(addr)
				fmt.Fprintf(&sb, "@%x;", addr[n.Body])
			}
			p.thawed(&sb, f)
		case KThawed:
			p.thawed(&sb, n)
		}
	}
	walk(root)
	return sb.String()
}

// Blessed tells whether something of a kind is blessed.
func (p *Perl) Blessed(k Kind) bool {
	for n := range p.bless {
		if n.K == k {
			return true
		}
	}
	return false
}

func (p *Perl) thawed(sb *strings.Builder, n *Node) {
	if p.NoThaw {
		fmt.Fprintf(sb, "B%x;A2[", "Sereal::Decoder::THAW_args")
		perlStr(sb, n.S2, n.SUTF)
		perlStr(sb, n.S, false)
		sb.WriteByte(']')
		return
	}
	sb.WriteByte('Z')
	perlStr(sb, n.S, false)
	perlStr(sb, n.S2, n.SUTF)
}

// TrimDump drops the addresses nothing refers to and numbers the others. Those
// of scalars are dropped altogether if only containers matter.
func TrimDump(s string) string {
	used := map[string]int{}
	for i := 0; i < len(s); i++ {
		if s[i] == '*' {
			j := i + strings.IndexByte(s[i:], ';')
			used[s[i+1:j]] = 0
			i = j
		}
	}
	var sb strings.Builder
	k := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '@' && s[i] != '*' {
			sb.WriteByte(s[i])
			continue
		}
		j := i + strings.IndexByte(s[i:], ';')
		a := s[i+1 : j]
		if _, ok := used[a]; ok {
			if s[i] == '@' {
				k++
				used[a] = k
			}
			fmt.Fprintf(&sb, "%c%d;", s[i], used[a])
		}
		i = j
	}
	return sb.String()
}

// HasWeak tells whether there are weak references.
func (p *Perl) HasWeak() bool { return len(p.weak) > 0 }
