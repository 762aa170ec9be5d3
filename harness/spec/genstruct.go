package spec

import (
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"
)

var (
	fieldNames = []string{"Name", "Id", "ID", "Value", "X", "Y2", "A_b", "Éa", "Ωmega", "Foo", "Len", "Type"}
	hidden     = []string{"name", "id", "value", "x", "private", "éa", "foo"}
	fieldTags  = []string{"name", "Name", "id", "value", "x", "X", "Foo", "foo", "Éa", "éa", "a b", "A b", "\xff\xfe", "-x", "0", "x,omitempty", "=srl",
		"a very long tag name that does not fit in a short string", "naMe", "ID", "y2"}
	fieldTypes = []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(false), reflect.TypeOf(0.5), reflect.TypeOf([]byte(nil)),
		reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf(int8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(float32(0)),
		reflect.TypeOf(MyInt(0)), reflect.TypeOf(MyStr("")), reflect.TypeOf([]interface{}(nil)), reflect.TypeOf(map[string]interface{}(nil)),
		reflect.TypeOf([]int(nil)), reflect.TypeOf(map[string]string(nil)), reflect.TypeOf([2]int{}), reflect.TypeOf(Leaf{}), reflect.TypeOf((*Leaf)(nil)), reflect.TypeOf(Empty{})}
)

// TaggedStruct draws a struct type with fields of all sorts of names and tags. No two
// fields share a key.
func TaggedStruct(t *rapid.T, depth int) reflect.Type {
	n := N(t, 0, 7)
	if Chance(t, 20) {
		n = 30
	}
	names, keys := map[string]bool{}, map[string]bool{}
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		f := reflect.StructField{}
		if depth > 0 && Chance(t, 3) {
			f.Type = TaggedStruct(t, depth-1)
			switch Pick(t, 4, 3, 1, 1) {
			case 1:
				f.Type = reflect.PointerTo(f.Type)
			case 2:
				f.Type = reflect.SliceOf(f.Type)
			case 3:
				f.Type = reflect.MapOf(reflect.TypeOf(""), f.Type)
			}
		} else {
			f.Type = fieldTypes[N(t, 0, len(fieldTypes)-1)]
		}
		f.Name = fieldNames[N(t, 0, len(fieldNames)-1)]
		key := ""
		switch Pick(t, 5, 5, 2, 1, 2) {
		case 0:
			key = f.Name
		case 1:
			key = fieldTags[N(t, 0, len(fieldTags)-1)]
			f.Tag = reflect.StructTag(`json:"other" sereal:` + strconv.Quote(key) + ` xml:"z"`)
		case 2:
			f.Tag = `sereal:"-"`
		case 3:
			key = f.Name
			f.Tag = One[reflect.StructTag](t, `json:"j"`, `sereal:""`, `Sereal:"s" sereal2:"t"`, `xml:"-"`)
		case 4:
			f.Name = hidden[N(t, 0, len(hidden)-1)]
			f.PkgPath = "verif/harness/spec"
			if Chance(t, 3) {
				f.Tag = `sereal:"-"`
			}
		}
		for k := 0; names[f.Name]; k++ {
			f.Name = fmt.Sprintf("%s%d", strings.TrimRight(f.Name, "0123456789"), k)
		}
		names[f.Name] = true
		if key != "" && f.Tag.Get("sereal") == "" {
			key = f.Name
		}
		if key != "" {
			if keys[key] {
				f.Tag = `sereal:"-"`
			} else {
				keys[key] = true
			}
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

// StructDoc draws a document that decodes into a variable of a type. With refs,
// there may be references from untyped parts to typed ones.
func StructDoc(t *rapid.T, typ reflect.Type, refs bool) *GenDoc {
	d := &GenDoc{Feat: map[string]int{}}
	d.Version = 1 + (N(t, 0, 3)+3)%4
	o := DocOpts{NoBig: Chance(t, 2), MaxItems: 40}
	base := 1
	if d.Version == 1 {
		base = 6
	}
	g := newGen(t, &o, d.Version, base, d.Feat)
	g.typedRefs = refs
	d.Body = g.typed(typ)
	d.RawBody = g.buf
	d.BodyStart = 6
	if Chance(t, 6) {
		d.Type = One(t, Types(d.Version)...)
	}
	d.Bytes = Assemble(d.Version, d.Type, []byte{0}, nil, d.RawBody, 6)
	return d
}

// typed writes an item that fits a type.
func (g *docGen) typed(typ reflect.Type) *Node {
	if typ.Kind() == reflect.Interface {
		return g.item(false)
	}
	g.depth++
	defer func() { g.depth-- }()
	g.budget--
	g.pad()
	n := &Node{}
	self := g.begin(n, len(g.buf))
	g.items[self].noRef = !g.typedRefs
	if g.depth > 1 && (Chance(g.t, 15) || typ.Kind() == reflect.Ptr && g.budget <= 0) {
		n.K = KUndef
		g.tag(TUndef)
		g.end(self)
		return n
	}
	switch typ.Kind() {
	case reflect.Bool:
		n.K, n.B = KBool, Bool(g.t)
		if n.B {
			g.tag(TTrue)
		} else {
			g.tag(TFalse)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := AnyInt(g.t)
		x = x << (64 - typ.Bits()) >> (64 - typ.Bits())
		g.number(n, x < 0, uint64(x))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x := AnyUint(g.t)
		x = x << (64 - typ.Bits()) >> (64 - typ.Bits())
		g.number(n, false, x)
	case reflect.Float32:
		n.K, n.U = KF32, uint64(AnyF32(g.t))
		if f := math.Float32frombits(uint32(n.U)); f != f {
			n.U = uint64(math.Float32bits(float32(math.NaN())))
		}
		g.tag(TFloat)
		g.buf = binary.LittleEndian.AppendUint32(g.buf, uint32(n.U))
	case reflect.Float64:
		if Chance(g.t, 3) {
			n.K, n.U = KF32, uint64(math.Float32bits(float32(N(g.t, -100, 100))/8))
			g.tag(TFloat)
			g.buf = binary.LittleEndian.AppendUint32(g.buf, uint32(n.U))
		} else {
			n.K, n.U = KF64, AnyF64(g.t)
			g.tag(TDouble)
			g.buf = binary.LittleEndian.AppendUint64(g.buf, n.U)
		}
	case reflect.String:
		if !g.copied(n, self, false) {
			utf := Bool(g.t)
			n.K = KBytes
			if utf {
				n.K = KStr
			}
			n.S = AnyStr(g.t, utf, max(0, g.bytes))
			g.bytes -= len(n.S)
			g.emitStr(n.S, utf)
		}
	case reflect.Slice, reflect.Array:
		if typ.Elem().Kind() == reflect.Uint8 {
			if !g.copied(n, self, true) {
				n.K, n.S = KBytes, AnyStr(g.t, false, max(0, g.bytes))
				g.bytes -= len(n.S)
				g.emitStr(n.S, false)
			}
			break
		}
		ln := N(g.t, 0, 4)
		if g.budget <= 0 {
			ln = 0
		}
		a := g.arrayHead(n, ln)
		for i := 0; i < ln; i++ {
			if typ.Kind() == reflect.Array && i >= typ.Len() {
				a.Items = append(a.Items, g.item(false)) // left out
			} else {
				a.Items = append(a.Items, g.typed(typ.Elem()))
			}
		}
	case reflect.Map:
		seen := map[string]bool{}
		ln := N(g.t, 0, 4)
		if g.budget <= 0 {
			ln = 0
		}
		h := g.hashHead(n, ln)
		for i := 0; i < ln; i++ {
			k := g.stringish(seen, false, true)
			seen[k.s] = true
			h.Keys = append(h.Keys, k.s)
			h.KUTF = append(h.KUTF, k.utf)
			h.Items = append(h.Items, g.typed(typ.Elem()))
		}
	case reflect.Ptr:
		g.items = g.items[:self]
		return g.typed(typ.Elem())
	case reflect.Struct:
		g.structure(n, typ)
	default:
		panic("typed " + typ.String())
	}
	g.end(self)
	return n
}

func (g *docGen) number(n *Node, neg bool, x uint64) {
	if neg {
		*n = *Int(int64(x))
	} else {
		n.K, n.U = KInt, x
	}
	i := int64(x)
	switch {
	case i >= 0 && i < 16 && !neg && Bool(g.t):
		g.tag(byte(i))
	case neg && i >= -16 && Bool(g.t):
		g.tag(byte(32 + i))
	case neg || x <= math.MaxInt64 && Chance(g.t, 3):
		g.tag(TZigzag)
		g.varint(uint64(i<<1) ^ uint64(i>>63))
	default:
		g.tag(TVarint)
		g.varint(x)
	}
}

// copied writes a COPY of an earlier string, sometimes.
func (g *docGen) copied(n *Node, self int, binary bool) bool {
	if len(g.strs) == 0 || !Chance(g.t, 5) {
		return false
	}
	r := g.strs[N(g.t, 0, len(g.strs)-1)]
	if binary && r.utf {
		return false
	}
	for i := range g.items {
		if g.items[i].pos == r.pos {
			if g.items[i].refd {
				return false
			}
			g.items[i].noRef = true
		}
	}
	g.items[self].opaque = true
	g.tag(TCopy)
	g.varint(uint64(g.off(r.pos)))
	n.K, n.S = KBytes, r.s
	if r.utf {
		n.K = KStr
	}
	g.feat["copy-value"]++
	return true
}

func (g *docGen) arrayHead(n *Node, ln int) *Node {
	a := n
	switch Pick(g.t, 2, 1, 1) {
	case 0:
		g.tag(TArray)
		g.varint(uint64(ln))
	case 1:
		g.tag(TArrayRef + byte(ln))
		n.K = KRef
		a = &Node{}
		n.Items = []*Node{a}
	case 2:
		g.tag(TRefN)
		n.K = KRef
		a = &Node{}
		n.Items = []*Node{a}
		g.pad()
		g.tag(TArray)
		g.varint(uint64(ln))
	}
	a.K = KArray
	return a
}

func (g *docGen) hashHead(n *Node, ln int) *Node {
	h := n
	for Chance(g.t, 4) {
		h.K = KObject
		if len(g.classes) > 0 && Bool(g.t) {
			c := g.classes[N(g.t, 0, len(g.classes)-1)]
			g.tag(TObjectV)
			g.varint(uint64(g.off(c.pos)))
			h.S = c.s
		} else {
			g.tag(TObject)
			h.S = g.class()
		}
		g.feat["object"]++
		h.Items = []*Node{{}}
		h = h.Items[0]
		g.pad()
	}
	switch f := Pick(g.t, 3, 2, 1); {
	case f == 0 || f == 1 && ln > 15:
		g.tag(THash)
		g.varint(uint64(ln))
	case f == 1:
		g.tag(THashRef + byte(ln))
		h.K = KRef
		h.Items = []*Node{{}}
		h = h.Items[0]
	case f == 2:
		g.tag(TRefN)
		h.K = KRef
		h.Items = []*Node{{}}
		h = h.Items[0]
		g.pad()
		g.tag(THash)
		g.varint(uint64(ln))
	}
	h.K = KHash
	return h
}

func firstUpper(s string) string {
	r, n := utf8.DecodeRuneInString(s)
	if r == utf8.RuneError {
		return s
	}
	return string(unicode.ToUpper(r)) + s[n:]
}

func firstLower(s string) string {
	r, n := utf8.DecodeRuneInString(s)
	if r == utf8.RuneError {
		return s
	}
	return string(unicode.ToLower(r)) + s[n:]
}

// clear tells whether it is beyond doubt which field a key belongs to: the library
// changes the first letter of every word.
func clear(typ reflect.Type, key string) bool {
	a, b := titleCase(key), firstUpper(key)
	if a == b {
		return true
	}
	for _, f := range Fields(typ) {
		if f.Key == key {
			return true
		}
	}
	for _, f := range Fields(typ) {
		if f.Key == a || f.Key == b {
			return false
		}
	}
	return true
}

// structure writes a hash for a struct: keys that have a field, in their own or in
// lower case, keys that almost have one, and others, in any order.
func (g *docGen) structure(n *Node, typ reflect.Type) {
	t := g.t
	var keys []string
	used := map[string]bool{}
	fields := map[int]bool{}
	add := func(k string) {
		if !used[k] && clear(typ, k) {
			used[k] = true
			keys = append(keys, k)
			if i := FieldFor(typ, k); i >= 0 {
				if fields[i] {
					g.feat["field twice"]++
				}
				fields[i] = true
			}
		}
	}
	for _, f := range Fields(typ) {
		switch Pick(t, 5, 3, 2) {
		case 0:
			add(f.Key)
		case 1:
			if k := firstLower(f.Key); FieldFor(typ, k) == f.Index {
				add(k)
				if k != f.Key {
					g.feat["lower"]++
				}
				ft := typ.Field(f.Index).Type.Kind()
				if !g.typedRefs && Chance(t, 8) && (ft == reflect.Int || ft == reflect.String || ft == reflect.Bool) {
					add(f.Key)
				}
			}
		}
	}
	for i := N(t, 0, 4); i > 0; i-- {
		k := ""
		switch Pick(t, 3, 2, 2, 1, 2) {
		case 0: // the name of some field
			if typ.NumField() > 0 {
				k = typ.Field(N(t, 0, typ.NumField()-1)).Name
			}
		case 1:
			k = One(t, "-", "", "sereal", "F0", " ", "other", "j", "s")
		case 2: // another case
			if typ.NumField() > 0 {
				f := typ.Field(N(t, 0, typ.NumField()-1))
				k = f.Tag.Get("sereal")
				if k == "" {
					k = f.Name
				}
				k = One(t, strings.ToUpper, strings.ToLower, firstLower, firstUpper, func(s string) string { return s + " " }, func(s string) string { return " " + s },
					func(s string) string { return s + "\x00" }, func(s string) string { return strings.TrimSuffix(s, ",omitempty") })(k)
			}
		case 3:
			k = fieldTags[N(t, 0, len(fieldTags)-1)]
		case 4:
			k = AnyStr(t, Bool(t), min(300, g.bytes))
		}
		if FieldFor(typ, k) >= 0 && fields[FieldFor(typ, k)] {
			continue
		}
		add(k)
	}
	for i := len(keys) - 1; i > 0; i-- {
		j := N(t, 0, i)
		keys[i], keys[j] = keys[j], keys[i]
	}
	h := g.hashHead(n, len(keys))
	for _, k := range keys {
		g.pad()
		kutf, done := utf8.ValidString(k) && Bool(t), false
		for _, r := range g.strs {
			if r.s == k && Chance(t, 2) {
				g.tag(TCopy)
				g.varint(uint64(g.off(r.pos)))
				kutf, done = r.utf, true
				g.feat["copy-key"]++
				break
			}
		}
		if !done {
			g.emitStr(k, kutf)
		}
		h.Keys = append(h.Keys, k)
		h.KUTF = append(h.KUTF, kutf)
		h.Items = append(h.Items, nil)
		var x *Node
		if fi := FieldFor(typ, k); fi >= 0 {
			x = g.typed(typ.Field(fi).Type)
		} else {
			x = g.item(false)
			g.feat["unknown"]++
			if x.K >= KRef || x.K == KArray || x.K == KHash {
				g.feat["unknown container"]++
			}
		}
		h.Items[len(h.Items)-1] = x
	}
}

// Hash skips references and classes.
func Hash(n *Node) *Node {
	for n.K == KRef && !n.REFP || n.K == KObject || n.K == KWeak {
		n = n.Items[0]
	}
	return n
}

// Prefill sets a variable to something, where decoding n into it leaves or replaces that.
func (g *GoGen) Prefill(v reflect.Value, n *Node) {
	if n != nil {
		n = Hash(n)
		if n.K == KUndef {
			n = nil
		}
	}
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			var x *Node
			if n != nil {
				for j, k := range n.Keys {
					if FieldFor(v.Type(), k) == i {
						x = n.Items[j]
					}
				}
			}
			if x == nil && n != nil && v.Field(i).CanSet() {
				g.fill(v.Field(i))
				continue
			}
			g.Prefill(v.Field(i), x)
		}
	case reflect.Ptr:
		if g.Budget > 0 && v.Type().Elem().Kind() == reflect.Struct && Bool(g.T) {
			g.Budget--
			v.Set(reflect.New(v.Type().Elem()))
			g.Prefill(v.Elem(), n)
		}
	case reflect.Slice, reflect.Map, reflect.Interface, reflect.Array:
	default:
		g.fill(v)
	}
}

// Decoded tells what is wrong with v, which was before when n was decoded into it.
func Decoded(n *Node, before, v reflect.Value) string {
	m := Hash(n)
	undef := m.K == KUndef || m.K == KCanonUndef
	switch {
	case undef && (v.IsZero() || Dump(before.Interface()) == Dump(v.Interface())):
		return ""
	case undef:
		return fmt.Sprintf("undef changed %s to %s", Show(before.Interface()), Show(v.Interface()))
	case v.Kind() == reflect.Struct && m.K == KHash:
		set := map[int][]*Node{}
		for i, k := range m.Keys {
			fi := FieldFor(v.Type(), k)
			set[fi] = append(set[fi], m.Items[i])
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			switch {
			case f.PkgPath != "":
				if !v.Field(i).IsZero() {
					return fmt.Sprintf("unexported field %s was set", f.Name)
				}
			case set[i] == nil:
				if Dump(before.Field(i).Interface()) != Dump(v.Field(i).Interface()) {
					return fmt.Sprintf("field %s was changed from %s to %s", f.Name, Show(before.Field(i).Interface()), Show(v.Field(i).Interface()))
				}
			default:
				d := ""
				for _, x := range set[i] {
					if d = Decoded(x, before.Field(i), v.Field(i)); d == "" {
						break
					}
				}
				if d != "" {
					return f.Name + ": " + d
				}
			}
		}
		return ""
	case v.Kind() == reflect.Ptr && v.Type().Elem().Kind() == reflect.Struct && m.K == KHash:
		if v.IsNil() {
			return "the pointer is nil"
		}
		b := reflect.New(v.Type().Elem()).Elem()
		if before.Kind() == reflect.Ptr && !before.IsNil() {
			b = before.Elem()
		}
		return Decoded(n, b, v.Elem())
	case (v.Kind() == reflect.Slice || v.Kind() == reflect.Array) && m.K == KArray:
		if v.Kind() == reflect.Slice && v.Len() != len(m.Items) {
			return fmt.Sprintf("%d elements, want %d", v.Len(), len(m.Items))
		}
		for i := 0; i < v.Len(); i++ {
			z := reflect.Zero(v.Type().Elem())
			if i >= len(m.Items) {
				if !v.Index(i).IsZero() {
					return fmt.Sprintf("element %d was set", i)
				}
			} else if d := Decoded(m.Items[i], z, v.Index(i)); d != "" {
				return fmt.Sprintf("%d: %s", i, d)
			}
		}
		return ""
	case v.Kind() == reflect.Map && m.K == KHash:
		if v.Len() != len(m.Items) {
			return fmt.Sprintf("%d keys, want %d", v.Len(), len(m.Items))
		}
		for i, k := range m.Keys {
			x := v.MapIndex(reflect.ValueOf(k))
			if !x.IsValid() {
				return fmt.Sprintf("key %q is missing", k)
			}
			if d := Decoded(m.Items[i], reflect.Zero(x.Type()), x); d != "" {
				return fmt.Sprintf("%q: %s", k, d)
			}
		}
		return ""
	}
	return Faithful(n, v)
}
