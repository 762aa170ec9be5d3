package spec

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"

	"github.com/Sereal/Sereal/Go/sereal"
	"pgregory.net/rapid"
)

// Named types.
type (
	MyBool  bool
	MyInt   int
	MyI8    int8
	MyI16   int16
	MyI32   int32
	MyI64   int64
	MyUint  uint
	MyU8    uint8
	MyU16   uint16
	MyU32   uint32
	MyU64   uint64
	MyF32   float32
	MyF64   float64
	MyStr   string
	MyBytes []byte
	MyInts  []int
	MyAnys  []interface{}
	MyMap   map[string]interface{}
	MyArr   [3]int16
)

// Rec is a recursive struct.
type Rec struct {
	Val  int
	Name string `sereal:"n"`
	Next *Rec
	Kids []*Rec          `sereal:"kids"`
	M    map[string]*Rec `sereal:"by name"`
}

// Pair has a field that is a struct.
type Pair struct {
	A, B   interface{}
	Inner  Leaf `sereal:"inner"`
	hidden int
	Skip   string `sereal:"-"`
}

// Leaf is a struct of scalars.
type Leaf struct {
	B   bool
	I   MyI16
	U   uint64
	F   float32
	D   float64
	S   MyStr
	Bin []byte
}

// Emb embeds another struct.
type Emb struct {
	Leaf
	X int `json:"y"`
}

// Empty has no fields.
type Empty struct{}

// Wide has many fields.
type Wide struct {
	A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q int
	Arr                                               [4]string
	PE                                                *Empty
	PL                                                *Leaf
}

// GoGen generates Go values.
type GoGen struct {
	T        *rapid.T
	Budget   int
	Bytes    int
	Perl     bool // Perl wrappers
	Ptrs     bool // pointers, shared and cyclic
	Typed    bool // values of other types within interfaces
	JSON     bool // json.Number
	PerlOnly bool // Perl's wrappers as Perl can have them
	Bare     bool // containers also where Perl has references to them (for PerlCompat)
	Far      bool // sometimes a long string first
	// OnlyUTF makes all strings valid UTF-8
	OnlyUTF bool
	Extra   func(g *GoGen) any // more leaves
	pool    []any
	recs    []*Rec
	depth   int
}

// NewGoGen starts a generator.
func NewGoGen(t *rapid.T) *GoGen {
	g := &GoGen{T: t, Bytes: 60000}
	switch Pick(t, 6, 3, 1) {
	case 0:
		g.Budget = 10
	case 1:
		g.Budget = 40
	case 2:
		g.Budget = 150
	}
	return g
}

// Str draws a string.
func (g *GoGen) Str() string {
	s := AnyStr(g.T, g.OnlyUTF || !Chance(g.T, 4), max(0, g.Bytes))
	g.Bytes -= len(s)
	return s
}

// Key draws a map key.
func (g *GoGen) Key() string {
	s := AnyStr(g.T, g.OnlyUTF || !Chance(g.T, 5), min(300, max(0, g.Bytes)))
	g.Bytes -= len(s)
	return s
}

// Blob draws a byte slice.
func (g *GoGen) Blob() []byte {
	s := AnyStr(g.T, false, max(0, g.Bytes))
	g.Bytes -= len(s)
	return []byte(s)
}

// Scalar draws any scalar of a built-in type.
func (g *GoGen) Scalar() any {
	t := g.T
	switch Pick(t, 6, 2, 3, 1, 1, 1, 1, 1, 2, 1, 1, 1, 2, 2, 4, 6, 4) {
	case 0:
		return N(t, -40, 40)
	case 1:
		return nil
	case 2:
		return Bool(t)
	case 3:
		return int8(AnyInt(t))
	case 4:
		return int16(AnyInt(t))
	case 5:
		return int32(AnyInt(t))
	case 6:
		return AnyInt(t)
	case 7:
		return uint(AnyUint(t))
	case 8:
		return uint64(AnyUint(t))
	case 9:
		return uint8(AnyUint(t))
	case 10:
		return uint16(AnyUint(t))
	case 11:
		return uint32(AnyUint(t))
	case 12:
		return math.Float32frombits(AnyF32(t))
	case 13:
		return math.Float64frombits(AnyF64(t))
	case 14:
		return int(AnyInt(t))
	case 15:
		return g.Str()
	}
	return g.Blob()
}

// Number draws a json.Number.
func (g *GoGen) Number() json.Number {
	t := g.T
	switch Pick(t, 4, 3, 3, 3, 1) {
	case 0:
		return json.Number(strconv.FormatInt(AnyInt(t), 10))
	case 1:
		return json.Number(strconv.FormatUint(AnyUint(t), 10))
	case 2:
		return json.Number(strconv.FormatFloat(math.Float64frombits(AnyF64(t)), One(t, byte('g'), 'e', 'f'), One(t, -1, 3, 17), 64))
	case 3:
		s := ""
		for n := N(t, 1, 40); n > 0; n-- {
			s += strconv.Itoa(N(t, 0, 9))
		}
		if Bool(t) {
			s = "-" + s
		}
		if Chance(t, 3) {
			s += ".5"
		}
		if Chance(t, 4) {
			s += "e" + strconv.Itoa(N(t, -400, 400))
		}
		return json.Number(s)
	}
	return json.Number(One(t, "", "0", "-0", "abc", "1e999", "-1e999", "0x10", "1_000", " 1", "+1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1.", ".5", "inf", "nan", "\u0663"))
}

// Value draws any value.
func (g *GoGen) Value() any {
	t := g.T
	g.Budget--
	g.depth++
	defer func() { g.depth-- }()
	if g.Far && g.depth == 1 && Chance(t, 30) { // far offsets
		ln := One(t, 120, 128, 16380, 16500, 70000)
		if Chance(t, 10) {
			ln = 1<<21 + 5
		}
		return append([]interface{}{Expand(1, ln, true)}, g.Value(), g.Value(), g.Value())
	}
	w := []int{10, 8, 8, 0, 0, 0, 0, 0}
	if g.depth == 1 {
		w[0] = 3
	}
	if g.Ptrs {
		w[3] = 10
	}
	if g.Perl {
		w[4] = 8
	}
	if g.Typed {
		w[5] = 6
	}
	if g.JSON {
		w[6] = 2
	}
	if g.Extra != nil {
		w[7] = 5
	}
	if g.Budget <= 0 || g.depth > 40 {
		w[1], w[2], w[3], w[5] = 0, 0, 0, 0
	}
	switch Pick(t, w...) {
	case 0:
		return g.Scalar()
	case 1:
		n := g.size()
		a := make([]interface{}, n, n+N(t, 0, 1))
		for i := range a {
			a[i] = g.Value()
		}
		if g.Ptrs && Chance(t, 4) {
			g.pool = append(g.pool, &a)
		}
		return a
	case 2:
		n := g.size()
		m := make(map[string]interface{}, n)
		for i := 0; i < n; i++ {
			m[g.Key()] = g.Value()
		}
		if g.Ptrs && Chance(t, 4) {
			g.pool = append(g.pool, &m)
		}
		return m
	case 3:
		return g.pointer()
	case 4:
		return g.perl()
	case 5:
		return g.typedAny()
	case 6:
		return g.Number()
	}
	return g.Extra(g)
}

func (g *GoGen) size() int {
	switch Pick(g.T, 12, 2, 1) {
	case 0:
		return N(g.T, 0, 5)
	case 1:
		return N(g.T, 0, 20)
	}
	return One(g.T, 14, 15, 16, 17)
}

func (g *GoGen) pointer() any {
	t := g.T
	if len(g.pool) > 0 && Chance(t, 2) {
		return g.pool[N(t, 0, len(g.pool)-1)]
	}
	add := func(p any) any {
		g.pool = append(g.pool, p)
		return p
	}
	switch Pick(t, 3, 3, 3, 1, 1, 1, 1, 1, 1, 3, 2, 2, 2) {
	case 0: // pointers that may refer to themselves
		p := new(interface{})
		add(p)
		*p = g.Value()
		return p
	case 1:
		n := g.size()
		s := make([]interface{}, n)
		add(&s)
		for i := range s {
			s[i] = g.Value()
		}
		return &s
	case 2:
		m := map[string]interface{}{}
		add(&m)
		for i := g.size(); i > 0; i-- {
			m[g.Key()] = g.Value()
		}
		return &m
	case 3:
		x := int(AnyInt(t))
		return add(&x)
	case 4:
		x := g.Str()
		return add(&x)
	case 5:
		x := g.Blob()
		return add(&x)
	case 6:
		x := math.Float64frombits(AnyF64(t))
		return add(&x)
	case 7:
		x := Bool(t)
		return add(&x)
	case 8:
		return One[any](t, (*int)(nil), (*string)(nil), (*interface{})(nil), (*[]interface{})(nil), (*Rec)(nil), (**int)(nil))
	case 9: // several pointers into one variable
		st := &struct {
			First  Leaf
			Second [2]Leaf
			S      []int
		}{S: []int{1, 2, 3, 4}}
		st.First.I = MyI16(N(t, 0, 3))
		l := []any{st, &st.First, &st.First.B, &st.Second, &st.Second[0], &st.Second[1], &st.Second[0].B, &st.S}
		for i := N(t, 1, 4); i > 0; i-- {
			add(l[N(t, 0, len(l)-1)])
		}
		return g.pool[len(g.pool)-1]
	case 10: // slices of one array
		base := []interface{}{1, "x", nil, 2.5}
		full := base
		a, b, c := base[:N(t, 0, 4)], base[N(t, 0, 4):], base[N(t, 0, 2):N(t, 2, 4)]
		l := []any{&full, &a, &b, &c, (*[4]interface{})(base)}
		for i := N(t, 1, 4); i > 0; i-- {
			add(l[N(t, 0, len(l)-1)])
		}
		return g.pool[len(g.pool)-1]
	case 11: // pointers to one map or slice
		m := map[string]interface{}{"k": N(t, 0, 3)}
		m2, x := m, interface{}(m)
		p1, p2, p3 := &m, &m2, &x
		pp := &p1
		l := []any{p1, p2, p3, pp}
		for i := N(t, 1, 4); i > 0; i-- {
			add(l[N(t, 0, len(l)-1)])
		}
		return g.pool[len(g.pool)-1]
	}
	return add(g.RecGraph())
}

// RecGraph draws a graph of structs.
func (g *GoGen) RecGraph() *Rec {
	t := g.T
	if len(g.recs) > 0 && Chance(t, 3) {
		return g.recs[N(t, 0, len(g.recs)-1)]
	}
	g.Budget--
	g.depth++
	defer func() { g.depth-- }()
	r := &Rec{Val: int(AnyInt(t)), Name: words[N(t, 0, len(words)-1)]}
	g.recs = append(g.recs, r)
	if g.Budget > 0 && g.depth < 30 {
		if Bool(t) {
			r.Next = g.RecGraph()
		}
		for i := N(t, 0, 3) - 1; i > 0; i-- {
			r.Kids = append(r.Kids, g.RecGraph())
		}
		if Chance(t, 3) {
			r.M = map[string]*Rec{}
			for i := N(t, 0, 2); i > 0; i-- {
				r.M[g.Key()] = g.RecGraph()
			}
		}
	}
	return r
}

func (g *GoGen) perl() any {
	t := g.T
	class := One(t, "", "A", "B", "Foo::Bar", "key", "\u00e9", "a class name that is longer than thirty-one bytes")
	inner := func() any {
		if g.Budget <= 0 {
			return nil
		}
		return g.Value()
	}
	ref := func() any {
		if g.Budget <= 0 {
			return nil
		}
		if g.Bare && Chance(t, 2) {
			return One[any](t, []interface{}{g.Value()}, map[string]interface{}{g.Key(): g.Value()}, []int{1}, map[string]string{})
		}
		switch N(t, 0, 2) {
		case 0:
			s := []interface{}{g.Value()}
			return &s
		case 1:
			m := map[string]interface{}{g.Key(): g.Value()}
			return &m
		}
		x := g.Value()
		return &x
	}
	if g.PerlOnly {
		class = One(t, "A", "B", "Foo::Bar", "key", "Regexp", "Some::Class::With::A::Name::That::Is::Longer::Than::Thirty::One::Bytes")
		switch Pick(t, 2, 2, 2, 3, 2) {
		case 0:
			return One[any](t, &sereal.PerlUndef{}, sereal.PerlUndef{})
		case 1:
			return One[any](t, sereal.PerlCanonicalUndef(), *sereal.PerlCanonicalUndef())
		case 2:
			var x any = &sereal.PerlRegexp{Pattern: []byte(One(t, "", "abc", "a b")), Modifiers: []byte(One(t, "", "i", "msix"))}
			if Bool(t) {
				return &x
			}
			return &sereal.PerlObject{Class: class, Reference: &x}
		case 3:
			if r := ref(); r != nil {
				return One[any](t, &sereal.PerlObject{Class: class, Reference: r}, sereal.PerlObject{Class: class, Reference: r})
			}
			return nil
		}
		r := ref()
		if r == nil {
			return nil
		}
		var w any = &sereal.PerlWeakRef{Reference: r}
		if Bool(t) {
			w = sereal.PerlWeakRef{Reference: r}
		}
		if Bool(t) {
			return []any{w, r}
		}
		return []any{r, w}
	}
	switch Pick(t, 2, 2, 2, 1, 1, 3, 2, 2, 1) {
	case 0:
		return &sereal.PerlUndef{}
	case 1:
		return sereal.PerlCanonicalUndef()
	case 2:
		return &sereal.PerlRegexp{Pattern: g.Blob(), Modifiers: []byte(One(t, "", "i", "msix"))}
	case 3:
		return sereal.PerlRegexp{Pattern: []byte(One(t, "", "a.b")), Modifiers: []byte(One(t, "", "x"))}
	case 4:
		return One[any](t, sereal.PerlUndef{}, *sereal.PerlCanonicalUndef())
	case 5:
		return &sereal.PerlObject{Class: class, Reference: ref()}
	case 6:
		return sereal.PerlObject{Class: class, Reference: inner()}
	case 7:
		return &sereal.PerlWeakRef{Reference: ref()}
	}
	return sereal.PerlWeakRef{Reference: ref()}
}

func (g *GoGen) typedAny() any {
	typ := g.Type(2)
	return g.OfType(typ).Interface()
}

var scalarTypes = []reflect.Type{
	reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(false), reflect.TypeOf([]byte(nil)), reflect.TypeOf((*interface{})(nil)).Elem(),
	reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)),
	reflect.TypeOf(MyBool(false)), reflect.TypeOf(MyInt(0)), reflect.TypeOf(MyI8(0)), reflect.TypeOf(MyI16(0)), reflect.TypeOf(MyI32(0)), reflect.TypeOf(MyI64(0)),
	reflect.TypeOf(MyUint(0)), reflect.TypeOf(MyU8(0)), reflect.TypeOf(MyU16(0)), reflect.TypeOf(MyU32(0)), reflect.TypeOf(MyU64(0)),
	reflect.TypeOf(MyF32(0)), reflect.TypeOf(MyF64(0)), reflect.TypeOf(MyStr("")),
}

var namedTypes = []reflect.Type{
	reflect.TypeOf(Leaf{}), reflect.TypeOf(Pair{}), reflect.TypeOf(Emb{}), reflect.TypeOf(Rec{}), reflect.TypeOf(Empty{}), reflect.TypeOf(Wide{}),
	reflect.TypeOf(MyBytes(nil)), reflect.TypeOf(MyInts(nil)), reflect.TypeOf(MyMap(nil)), reflect.TypeOf(MyArr{}), reflect.TypeOf(MyAnys(nil)),
}

// Type draws a type that can be encoded and decoded.
func (g *GoGen) Type(depth int) reflect.Type {
	t := g.T
	w := []int{6, 3, 3, 4, 2, 4, 2}
	if depth <= 0 {
		w = []int{6, 1, 0, 0, 0, 0, 0}
	}
	switch Pick(t, w...) {
	case 0:
		return scalarTypes[N(t, 0, len(scalarTypes)-1)]
	case 1:
		return namedTypes[N(t, 0, len(namedTypes)-1)]
	case 2:
		return reflect.MapOf(reflect.TypeOf(""), g.Type(depth-1))
	case 3:
		return reflect.SliceOf(g.Type(depth - 1))
	case 4:
		return reflect.ArrayOf(N(t, 0, 4), g.Type(depth-1))
	case 5:
		return g.StructType(depth - 1)
	}
	if Chance(t, 3) {
		return reflect.PointerTo(namedTypes[N(t, 0, 5)])
	}
	return reflect.PointerTo(g.StructType(depth - 1))
}

var tagNames = []string{"a", "b", "name", "Name", "id", "F0", "f1", "F2", "with space", "\u00e9t\u00e9", "\xff\xfe", "x,omitempty", "a very long tag name that does not fit in a short string", "=srl", "\"q\""}

// StructType draws a struct type.
func (g *GoGen) StructType(depth int) reflect.Type {
	t := g.T
	n := N(t, 0, 6)
	used := map[string]bool{}
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: g.Type(depth)}
		key := f.Name
		switch Pick(t, 5, 4, 1, 1, 1) {
		case 1:
			key = tagNames[N(t, 0, len(tagNames)-1)]
			f.Tag = reflect.StructTag(`json:"other" sereal:` + strconv.Quote(key) + ` xml:"z"`)
		case 2:
			f.Tag = `sereal:"-"`
			key = "-"
		case 3:
			f.Tag = `json:"j"`
		case 4:
			f.Name = fmt.Sprintf("f%d", i)
			f.PkgPath = "verif/harness/spec"
			key = "-"
		}
		if key != "-" {
			if used[key] {
				f.Tag = `sereal:"-"`
			}
			used[key] = true
		}
		fs = append(fs, f)
	}
	// a later field may have the name of an earlier one's tag
	keys := map[string]bool{}
	for i := range fs {
		k := fs[i].Tag.Get("sereal")
		if k == "-" || fs[i].PkgPath != "" {
			continue
		}
		if k == "" {
			k = fs[i].Name
		}
		if keys[k] {
			fs[i].Tag = `sereal:"-"`
		}
		keys[k] = true
	}
	return reflect.StructOf(fs)
}

// OfType draws a value of a type.
func (g *GoGen) OfType(typ reflect.Type) reflect.Value {
	t := g.T
	v := reflect.New(typ).Elem()
	g.fill(v)
	_ = t
	return v
}

func (g *GoGen) fill(v reflect.Value) {
	t := g.T
	g.Budget--
	g.depth++
	defer func() { g.depth-- }()
	typ := v.Type()
	switch typ {
	case reflect.TypeOf(Rec{}):
		g.recs = nil
		v.Set(reflect.ValueOf(*g.RecGraph()))
		return
	case reflect.TypeOf((*Rec)(nil)):
		if Chance(t, 5) {
			return
		}
		v.Set(reflect.ValueOf(g.RecGraph()))
		return
	}
	small := g.Budget <= 0 || g.depth > 30
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(Bool(t))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := AnyInt(t)
		if v.OverflowInt(x) {
			x = x << (64 - typ.Bits()) >> (64 - typ.Bits())
		}
		v.SetInt(x)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x := AnyUint(t)
		if v.OverflowUint(x) {
			x = x << (64 - typ.Bits()) >> (64 - typ.Bits())
		}
		v.SetUint(x)
	case reflect.Float32:
		f := math.Float32frombits(AnyF32(t))
		if f != f {
			f = float32(math.NaN()) // signalling NaNs don't survive reflection
		}
		v.SetFloat(float64(f))
	case reflect.Float64:
		v.SetFloat(math.Float64frombits(AnyF64(t)))
	case reflect.String:
		v.SetString(g.Str())
	case reflect.Slice:
		if Chance(t, 8) {
			return
		}
		if typ.Elem().Kind() == reflect.Uint8 {
			b := g.Blob()
			s := reflect.MakeSlice(typ, len(b), len(b))
			for i := range b {
				s.Index(i).SetUint(uint64(b[i]))
			}
			v.Set(s)
			return
		}
		n := g.size()
		if small {
			n = 0
		}
		s := reflect.MakeSlice(typ, n, n)
		for i := 0; i < n; i++ {
			g.fill(s.Index(i))
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.fill(v.Index(i))
		}
	case reflect.Map:
		if Chance(t, 8) {
			return
		}
		n := g.size()
		if small {
			n = 0
		}
		m := reflect.MakeMap(typ)
		for i := 0; i < n; i++ {
			e := reflect.New(typ.Elem()).Elem()
			g.fill(e)
			m.SetMapIndex(reflect.ValueOf(g.Key()).Convert(typ.Key()), e)
		}
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				g.fill(v.Field(i))
			}
		}
	case reflect.Ptr:
		if small || Chance(t, 4) {
			return
		}
		p := reflect.New(typ.Elem())
		g.fill(p.Elem())
		v.Set(p)
	case reflect.Interface:
		typed := g.Typed
		g.Typed = false
		x := g.Value()
		g.Typed = typed
		if x != nil {
			v.Set(reflect.ValueOf(x))
		}
	default:
		panic("fill " + typ.String())
	}
}

// SameTyped compares a value with the result of its typed round trip. What
// interfaces hold has been decoded untyped.
func SameTyped(a, b reflect.Value) string {
	s := &sameT{seen: map[[2]any]bool{}}
	return s.cmp(a, b)
}

type sameT struct {
	seen map[[2]any]bool
	path []string
}

func (s *sameT) fail(a, b reflect.Value) string {
	return fmt.Sprintf("at /%v: %s became %s", s.path, Show(a.Interface()), Show(b.Interface()))
}

func (s *sameT) sub(p string, a, b reflect.Value) string {
	s.path = append(s.path, p)
	r := s.cmp(a, b)
	s.path = s.path[:len(s.path)-1]
	return r
}

func (s *sameT) cmp(a, b reflect.Value) string {
	switch a.Kind() {
	case reflect.Interface:
		n, err := FromGo(a.Interface(), GoOpts{})
		if err != nil {
			return "harness: " + err.Error()
		}
		if r := (&Matcher{}).Match(n, b.Interface()); r != "" {
			return fmt.Sprintf("at /%v: %s", s.path, r)
		}
		return ""
	case reflect.Float32:
		x, y := float32(a.Float()), float32(b.Float())
		if math.Float32bits(x) == math.Float32bits(y) || x != x && y != y {
			return ""
		}
	case reflect.Float64:
		if math.Float64bits(a.Float()) == math.Float64bits(b.Float()) {
			return ""
		}
	case reflect.Slice:
		if a.Len() != b.Len() {
			break
		}
		for i := 0; i < a.Len(); i++ {
			if r := s.sub(strconv.Itoa(i), a.Index(i), b.Index(i)); r != "" {
				return r
			}
		}
		return ""
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if r := s.sub(strconv.Itoa(i), a.Index(i), b.Index(i)); r != "" {
				return r
			}
		}
		return ""
	case reflect.Map:
		if a.Len() != b.Len() {
			break
		}
		for _, k := range a.MapKeys() {
			x := b.MapIndex(k)
			if !x.IsValid() {
				return s.fail(a, b)
			}
			if r := s.sub(short(k.String()), a.MapIndex(k), x); r != "" {
				return r
			}
		}
		return ""
	case reflect.Struct:
		enc := map[int]bool{}
		for _, f := range Fields(a.Type()) {
			enc[f.Index] = true
			if r := s.sub(a.Type().Field(f.Index).Name, a.Field(f.Index), b.Field(f.Index)); r != "" {
				return r
			}
		}
		for i := 0; i < b.NumField(); i++ {
			if !enc[i] && !b.Field(i).IsZero() {
				return fmt.Sprintf("at /%v: field %s was set", s.path, b.Type().Field(i).Name)
			}
		}
		return ""
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			break
		}
		if a.IsNil() {
			return ""
		}
		k := [2]any{a.Pointer(), b.Pointer()}
		if s.seen[k] && a.Type().Elem().Size() > 0 {
			return ""
		}
		s.seen[k] = true
		return s.sub("*", a.Elem(), b.Elem())
	default:
		if a.Equal(b) {
			return ""
		}
	}
	return s.fail(a, b)
}

// EncCfg are the settings of an encoder.
type EncCfg struct {
	Version  int // 0: the package-level Marshal; -1: Encoder{}
	Perl     bool
	NoDedup  bool
	NoFreeze bool
	Size     uint
	Comp     int // 0 none, 1 snappy, 2 incremental snappy, 3 zlib
	Level    int
	Thresh   int
	MaxDepth int
}

// Enc draws settings that work together.
func Enc(t *rapid.T, versions ...int) EncCfg {
	if len(versions) == 0 {
		versions = []int{3, 2, 1, 3, 2, 1, 0, -1}
	}
	c := EncCfg{Version: One(t, versions...)}
	if c.Version == 0 {
		return c
	}
	c.Perl = Chance(t, 3)
	c.NoDedup = Chance(t, 4)
	c.NoFreeze = Chance(t, 4)
	if Chance(t, 5) {
		c.Size = uint(One(t, 1, 5, 100, 1000))
	}
	if Chance(t, 3) {
		switch c.Version {
		case 1:
			c.Comp = N(t, 1, 2)
		case 2:
			c.Comp = 2
		default:
			c.Comp = N(t, 2, 3)
		}
		c.Level = N(t, 0, 9)
		c.Thresh = One(t, 0, 1, 20, 100, 1024)
	}
	return c
}

// Effective is the version of the documents.
func (c EncCfg) Effective() int {
	if c.Version <= 0 {
		return 3
	}
	return c.Version
}

// New makes the encoder.
func (c EncCfg) New() *sereal.Encoder {
	var e *sereal.Encoder
	switch c.Version {
	case 1:
		e = sereal.NewEncoder()
	case 2:
		e = sereal.NewEncoderV2()
	case -1:
		e = &sereal.Encoder{}
	default:
		e = sereal.NewEncoderV3()
	}
	e.PerlCompat, e.DisableDedup, e.DisableFREEZE, e.ExpectedSize, e.MaxRecursionDepth = c.Perl, c.NoDedup, c.NoFreeze, c.Size, c.MaxDepth
	switch c.Comp {
	case 1:
		e.Compression = sereal.SnappyCompressor{}
	case 2:
		e.Compression = sereal.SnappyCompressor{Incremental: true}
	case 3:
		e.Compression = sereal.ZlibCompressor{Level: c.Level}
	}
	if c.Comp != 0 {
		e.CompressionThreshold = c.Thresh
	}
	return e
}

// Marshal encodes.
func (c EncCfg) Marshal(v any) ([]byte, error) {
	if c.Version == 0 {
		return sereal.Marshal(v)
	}
	return c.New().Marshal(v)
}

// GoOpts are the matching options for FromGo.
func (c EncCfg) GoOpts() GoOpts { return GoOpts{Perl: c.Perl, NoFreeze: c.NoFreeze} }
