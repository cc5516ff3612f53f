package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
	"unsafe"
)

// ---- named types that reflect cannot build ----

type (
	NBool   bool
	NInt    int
	NInt8   int8
	NUint16 uint16
	NFloat  float64
	NString string
	NSlice  []NInt
	NMap    map[NString]NInt
	NIface  interface{}
	NArr    [3]NString
	RecS    []RecS
	RecM    map[string]RecM
)

type Rec struct {
	Name string          `json:"name"`
	Next *Rec            `json:"next,omitempty"`
	Kids []Rec           `json:"kids,omitempty"`
	By   map[string]*Rec `json:"by"`
	Any  interface{}     `json:"any,omitempty"`
}

type MutA struct {
	B   *MutB
	Bs  []MutB `json:",omitempty"`
	Val int8
}

type MutB struct {
	A *MutA `json:"a"`
	S string
}

type EmbBase struct {
	EID  int `json:"eid"`
	ETag NString
	Both string `json:"both,omitempty"`
}

type EmbMid struct {
	EmbBase `json:",omitempty"`
	*EmbPtr
	Both bool `json:"both"`
	Mid  []int
}

type EmbPtr struct {
	PX *int `json:"px"`
	PY map[string]int
}

type embHidden struct {
	HID  int64 `json:"hid"`
	skip int
	HMap map[string]string
}

type WithEmb struct {
	Before int
	EmbMid
	embHidden
	*NInt
	NString
	After string `json:"after"`
	Skip  string `json:"-"`
	priv  int
	privS EmbBase
	privT EmbBase `json:"private"`
	privP *EmbPtr
	privE embHidden
}

// Structs that embed pointers to unexported structs. Decoding does not allocate these.
type embDeep struct {
	DA int `json:",omitempty"`
	DS []string
	*EmbPtr
}

type embTop struct {
	*embDeep
	TM map[string]bool
}

type WithHidden struct {
	*embHidden
	*embDeep
	Own float64
}

type WithHidden2 struct {
	First bool
	*embTop
	EmbBase
}

var hiddenNamed = []reflect.Type{typeOf((*WithHidden)(nil)), typeOf((*WithHidden2)(nil))}

// EmbSelf embeds itself: the fields of the embedded one are hidden.
type EmbSelf struct {
	*EmbSelf
	SA int     `json:"sa"`
	SB *string `json:",omitempty"`
}

// EmbLoopA and EmbLoopB embed each other.
type EmbLoopA struct {
	LA int8
	*EmbLoopB
	LC []string
}

type EmbLoopB struct {
	LB   NString `json:"lb,omitempty"`
	LA   string
	Same bool
	*EmbLoopA
}

type Empty struct{}

func typeOf(x interface{}) reflect.Type { return reflect.TypeOf(x).Elem() }

var plainNamed = []reflect.Type{
	typeOf((*NBool)(nil)), typeOf((*NInt)(nil)), typeOf((*NInt8)(nil)), typeOf((*NUint16)(nil)), typeOf((*NFloat)(nil)), typeOf((*NString)(nil)),
	typeOf((*NSlice)(nil)), typeOf((*NMap)(nil)), typeOf((*NIface)(nil)), typeOf((*NArr)(nil)), typeOf((*RecS)(nil)), typeOf((*RecM)(nil)),
	typeOf((*Rec)(nil)), typeOf((*MutA)(nil)), typeOf((*MutB)(nil)), typeOf((*EmbBase)(nil)), typeOf((*EmbMid)(nil)), typeOf((*WithEmb)(nil)), typeOf((*Empty)(nil)),
	typeOf((*EmbSelf)(nil)), typeOf((*EmbLoopA)(nil)), typeOf((*EmbLoopB)(nil)),
}

var (
	typIface  = typeOf((*interface{})(nil))
	typString = reflect.TypeOf("")
	scalars   = []reflect.Type{
		reflect.TypeOf(false), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
		reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
		reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), typString, typString,
	}
)

// TypeGen makes random types.
type TypeGen struct {
	r         *Rng
	tag       string         // tag key, json by default
	named     []reflect.Type // named types to use
	bytes     bool           // allow slices of bytes
	omitAgg   bool           // allow omitempty on arrays and structs
	hints     bool           // html and 8bit tags
	keys      []reflect.Type // map key types
	noStructF bool           // no fields of struct or array types
	noMaps    bool           // no maps and interfaces
	n         int
	budget    int
}

func newTypeGen(r *Rng) *TypeGen {
	return &TypeGen{r: r, tag: "json", named: plainNamed, keys: []reflect.Type{typString, typString, typeOf((*NString)(nil))}, budget: r.Range(3, 25)}
}

func (g *TypeGen) typ(depth int) reflect.Type {
	g.budget--
	if depth <= 0 || g.budget <= 0 {
		if len(g.named) > 0 && g.r.P(1, 4) {
			return g.named[g.r.N(len(g.named))]
		}
		if g.r.P(1, 8) && !g.noMaps {
			return typIface
		}
		return scalars[g.r.N(len(scalars))]
	}
	pick := g.r.N(16)
	if g.noMaps && (pick == 5 || pick == 11 || pick == 12) {
		pick = 15
	}
	switch pick {
	case 0, 1:
		return scalars[g.r.N(len(scalars))]
	case 2, 3, 4:
		if len(g.named) > 0 {
			return g.named[g.r.N(len(g.named))]
		}
		return scalars[g.r.N(len(scalars))]
	case 5:
		return typIface
	case 6, 7:
		return reflect.PtrTo(g.typ(depth - 1))
	case 8, 9:
		el := g.typ(depth - 1)
		if el.Kind() == reflect.Uint8 && !g.bytes {
			return reflect.SliceOf(reflect.PtrTo(el))
		}
		return reflect.SliceOf(el)
	case 10:
		el := g.typ(depth - 1)
		if el.Kind() == reflect.Uint8 && !g.bytes {
			el = reflect.TypeOf(int16(0))
		}
		if n := g.r.bulkN(2, 700); n > 0 && leaves(el) < 12 {
			return reflect.ArrayOf(n, el)
		}
		return reflect.ArrayOf(g.r.N(5), el)
	case 11, 12:
		return reflect.MapOf(g.keys[g.r.N(len(g.keys))], g.typ(depth-1))
	default:
		return g.structType(depth)
	}
}

func (g *TypeGen) key() string {
	g.n++
	return g.r.Pick("a", "key.", "ключ", "x-", "KEY", "日本", "<&>", "id_", "$", "data@", "/", "omitempty", "ſ") + strconv.Itoa(g.n)
}

// structType makes a struct type. Keys are unique but for shadowed ones.
func (g *TypeGen) structType(depth int) reflect.Type {
	var fields []reflect.StructField
	var hidden []string
	n := g.r.N(7)
	many := g.r.bulkN(2, 300)
	if many > 0 {
		n = many
		g.budget = 0
	}
	nest := 0
	if many == 0 && g.r.bulk > 0 && g.r.P(1, 4) {
		// a chain of embedded structs
		g.r.bulk--
		nest = g.r.Range(3, 24)
		n++
	}
	for i := 0; i < n; i++ {
		if nest > 0 && i == n-1 || many == 0 && g.r.P(1, 6) && depth > 1 {
			// embedded struct
			t := g.structType(depth - 2)
			for ; nest > 0; nest-- {
				g.n += 2
				in := reflect.StructField{Name: fmt.Sprintf("E%d", g.n), Type: t, Anonymous: true}
				if g.r.P(1, 2) {
					in.Type = reflect.PtrTo(t)
				}
				fs := []reflect.StructField{in, {Name: fmt.Sprintf("F%d", g.n), Type: scalars[g.r.N(len(scalars))], Tag: reflect.StructTag(fmt.Sprintf(`%s:"%s"`, g.tag, g.key()))}}
				if g.r.P(1, 2) {
					fs[0], fs[1] = fs[1], fs[0]
				}
				t = reflect.StructOf(fs)
			}
			for _, f := range visible(t, g.tag) {
				hidden = append(hidden, f.key)
			}
			g.n++
			f := reflect.StructField{Name: fmt.Sprintf("E%d", g.n), Type: t, Anonymous: true}
			if g.r.P(1, 2) {
				f.Type = reflect.PtrTo(t)
			}
			if g.r.P(1, 8) {
				f.Tag = reflect.StructTag(fmt.Sprintf(`%s:",omitempty"`, g.tag))
			}
			fields = append(fields, f)
			continue
		}
		g.n++
		f := reflect.StructField{Name: fmt.Sprintf("F%d", g.n), Type: g.typ(depth - 1)}
		for g.noStructF && (f.Type.Kind() == reflect.Struct || f.Type.Kind() == reflect.Array) {
			f.Type = g.typ(depth - 1)
		}
		name := ""
		if g.r.P(2, 3) {
			name = g.key()
		}
		opts := ""
		if g.r.P(1, 3) && (g.omitAgg || f.Type.Kind() != reflect.Struct && f.Type.Kind() != reflect.Array) {
			opts += ",omitempty"
		}
		if g.hints && g.r.P(1, 3) {
			opts += g.r.Pick(",html", ",html", ",8bit", ",other,html")
		}
		if g.r.P(1, 20) && opts == "" {
			opts = g.r.Pick(",", ",unknown", ",omitempt")
		}
		if g.r.P(1, 20) {
			name, opts = "-", ""
		}
		if name != "" || opts != "" {
			f.Tag = reflect.StructTag(fmt.Sprintf(`%s:"%s%s"`, g.tag, name, opts))
		}
		if g.r.P(1, 6) {
			f.Tag += ` other:"zzz,omitempty"`
		}
		if g.r.P(1, 10) {
			f.Tag = `other:"yyy,omitempty" ` + f.Tag
		}
		fields = append(fields, f)
	}
	// Hide some of the embedded fields
	used := map[string]bool{}
	for i := range fields {
		f := &fields[i]
		if !f.Anonymous && len(hidden) > 0 && g.r.P(1, 3) {
			key := hidden[g.r.N(len(hidden))]
			if !used[key] {
				used[key] = true
				f.Tag = reflect.StructTag(fmt.Sprintf(`%s:"%s"`, g.tag, key))
			}
		}
	}
	// Hide some of the embedded fields by fields of another embedded struct, at another depth
	if len(hidden) > 0 && g.r.P(1, 3) {
		key := hidden[g.r.N(len(hidden))]
		if depths := keyDepths(reflect.StructOf(fields), g.tag, key); !depths[0] {
			nest := g.r.Range(1, 4)
			for depths[nest] {
				nest++
			}
			t := reflect.StructOf([]reflect.StructField{{Name: fmt.Sprintf("F%d", g.n+1), Type: g.typ(1), Tag: reflect.StructTag(fmt.Sprintf(`%s:"%s"`, g.tag, key))}})
			g.n++
			for ; nest > 0; nest-- {
				g.n++
				f := reflect.StructField{Name: fmt.Sprintf("E%d", g.n), Type: t, Anonymous: true}
				if g.r.P(1, 2) {
					f.Type = reflect.PtrTo(t)
				}
				if nest > 1 {
					t = reflect.StructOf([]reflect.StructField{f})
				} else {
					i := g.r.N(len(fields) + 1)
					fields = append(fields[:i:i], append([]reflect.StructField{f}, fields[i:]...)...)
				}
			}
		}
	}
	return reflect.StructOf(fields)
}

// keyDepths tells how deep the embedded structs with fields of a key are, hidden ones included.
func keyDepths(t reflect.Type, tag, key string) map[int]bool {
	found := map[int]bool{}
	var walk func(t reflect.Type, depth int)
	walk = func(t reflect.Type, depth int) {
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			name := strings.Split(f.Tag.Get(tag), ",")[0]
			et := f.Type
			if et.Kind() == reflect.Ptr {
				et = et.Elem()
			}
			if f.Anonymous && name == "" && et.Kind() == reflect.Struct {
				walk(et, depth+1)
				continue
			}
			if name == "" {
				name = f.Name
			}
			if name == key {
				found[depth] = true
			}
		}
	}
	walk(t, 0)
	return found
}

// leaves is about the number of values in a value of the type.
func leaves(t reflect.Type) int { return leavesIn(t, map[reflect.Type]bool{}) }

func leavesIn(t reflect.Type, within map[reflect.Type]bool) int {
	switch t.Kind() {
	case reflect.Array:
		return 1 + t.Len()*leavesIn(t.Elem(), within)
	case reflect.Struct:
		if within[t] {
			return 2
		}
		within[t] = true
		n := 1
		for i := 0; i < t.NumField(); i++ {
			n += leavesIn(t.Field(i).Type, within)
		}
		delete(within, t)
		return n
	case reflect.Ptr:
		if t.Elem() == t {
			return 1
		}
		return 1 + leavesIn(t.Elem(), within)
	case reflect.Slice, reflect.Map, reflect.Interface:
		return 2
	}
	return 1
}

// ---- model of the visible fields of a struct ----

type vfield struct {
	key   string
	index []int // fields to follow, through pointers
	typ   reflect.Type
	omit  bool
	html  bool
	raw   bool
}

// visible lists the visible fields of a struct: of the fields with the same key the least nested one.
func visible(t reflect.Type, tag string) []vfield {
	type level struct {
		t     reflect.Type
		index []int
	}
	var out []vfield
	seen := map[string]bool{}
	queue := []level{{t, nil}}
	done := map[reflect.Type]bool{}
	for len(queue) > 0 {
		var next []level
		var found []vfield
		for _, l := range queue {
			if done[l.t] {
				continue
			}
			done[l.t] = true
			for i := 0; i < l.t.NumField(); i++ {
				sf := l.t.Field(i)
				index := append(append([]int(nil), l.index...), i)
				opts := strings.Split(sf.Tag.Get(tag), ",")
				name := opts[0]
				if name == "-" {
					continue
				}
				if sf.Anonymous && name == "" {
					et := sf.Type
					if et.Kind() == reflect.Ptr && et.Elem().Kind() == reflect.Struct {
						et = et.Elem()
					}
					if et.Kind() == reflect.Struct {
						next = append(next, level{et, index})
						continue
					}
				}
				if sf.PkgPath != "" {
					continue
				}
				f := vfield{key: name, index: index, typ: sf.Type}
				if name == "" {
					f.key = sf.Name
				}
				for _, o := range opts[1:] {
					f.omit = f.omit || o == "omitempty"
					f.html = f.html || o == "html"
					f.raw = f.raw || o == "8bit"
				}
				found = append(found, f)
			}
		}
		for _, f := range found {
			if !seen[f.key] {
				out = append(out, f)
			}
		}
		for _, f := range found {
			seen[f.key] = true
		}
		queue = next
	}
	return out
}

// follow returns the field of a struct value, or an invalid value below a nil pointer.
func follow(v reflect.Value, index []int) reflect.Value {
	for i, x := range index {
		if i > 0 && v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return reflect.Value{}
			}
			v = v.Elem()
		}
		v = v.Field(x)
	}
	return v
}

// ---- values ----

// ValueGen fills values of any type made by TypeGen.
type ValueGen struct {
	r         *Rng
	nilSlices bool
	invalid   bool // invalid UTF-8 in strings
	safe      bool // strings without anything to escape
	negZero   bool
	iface     func(depth int) interface{}
	hook      func(v reflect.Value) bool // fills values of hook types
	budget    int
}

func newValueGen(r *Rng) *ValueGen { return &ValueGen{r: r, budget: r.Range(5, 120)} }

func (g *ValueGen) str() string {
	if g.safe {
		return g.r.Pick("", "plain", "two words", "ünï", "日本", "a.b-c") + strconv.Itoa(g.r.N(1000))
	}
	s := genString(g.r, 60)
	if g.r.P(1, 6) {
		s = hostileString(g.r)
	}
	if !g.invalid {
		s = toValidUTF8(s)
	}
	return s
}

func (g *ValueGen) len(max, elem int) int {
	if g.r.bulk > 0 && (elem < 1000 || g.budget > 0) {
		if n := g.r.bulkN(2, 40000); n > 0 {
			if elem > 4 && n > 20000/elem {
				n = 20000 / elem
			}
			return n
		}
	}
	if g.budget <= 0 {
		return 0
	}
	if g.r.P(1, 40) {
		max *= 8
	}
	return g.r.N(max + 1)
}

// fill sets v to a random value. Zero values are likely.
func (g *ValueGen) fill(v reflect.Value, depth int) {
	g.budget--
	if g.hook != nil && g.hook(v) {
		return
	}
	zero := g.r.P(1, 6)
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(g.r.P(1, 2))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if zero {
			v.SetInt(0)
			return
		}
		x := genInt(g.r)
		if g.r.P(1, 3) {
			bits := uint(v.Type().Bits())
			x = []int64{math.MinInt64 >> (64 - bits), math.MaxInt64 >> (64 - bits)}[g.r.N(2)]
		}
		for v.OverflowInt(x) {
			x >>= 8
		}
		v.SetInt(x)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if zero {
			v.SetUint(0)
			return
		}
		x := uint64(genInt(g.r))
		if g.r.P(1, 3) {
			x = math.MaxUint64 >> (64 - uint(v.Type().Bits()))
		}
		for v.OverflowUint(x) {
			x >>= 8
		}
		v.SetUint(x)
	case reflect.Float32:
		f := float64(float32(genFloat(g.r)))
		if zero || math.IsInf(f, 0) || f == 0 {
			f = 0
		}
		v.SetFloat(f)
	case reflect.Float64:
		f := genFloat(g.r)
		if zero || f == 0 {
			f = 0
			if g.negZero && g.r.P(1, 2) {
				f = math.Copysign(0, -1)
			}
		}
		v.SetFloat(f)
	case reflect.String:
		if zero {
			v.SetString("")
			return
		}
		v.SetString(g.str())
	case reflect.Interface:
		if zero || depth <= 0 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		var x interface{}
		if g.iface != nil {
			x = g.iface(depth - 1)
		} else {
			x = g.generic(depth - 1)
		}
		if x == nil {
			v.Set(reflect.Zero(v.Type()))
		} else {
			v.Set(reflect.ValueOf(x))
		}
	case reflect.Ptr:
		if zero || depth <= 0 || g.budget <= 0 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		p := reflect.New(v.Type().Elem())
		g.fill(p.Elem(), depth-1)
		v.Set(p)
	case reflect.Slice:
		if zero && g.nilSlices {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		n := 0
		if depth > 0 && !zero {
			n = g.len(4, leaves(v.Type().Elem()))
		}
		s := reflect.MakeSlice(v.Type(), n, n+g.r.N(3))
		for i := 0; i < n; i++ {
			g.fill(s.Index(i), depth-1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.fill(v.Index(i), depth-1)
		}
	case reflect.Map:
		if zero && g.r.P(1, 2) {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		m := reflect.MakeMap(v.Type())
		n := 0
		if depth > 0 && !zero {
			n = g.len(4, leaves(v.Type().Elem()))
		}
		for i := 0; i < n; i++ {
			k := reflect.New(v.Type().Key()).Elem()
			if g.hook == nil || !g.hook(k) {
				k.SetString(toValidUTF8(g.str()))
			}
			x := reflect.New(v.Type().Elem()).Elem()
			g.fill(x, depth-1)
			m.SetMapIndex(k, x)
		}
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if sf := v.Type().Field(i); sf.Anonymous && g.r.bulkMax > 0 && sf.Type.Name() == "" && v.Field(i).CanSet() {
				// All of a chain of embedded structs
				g.fill(v.Field(i), depth)
			} else if v.Field(i).CanSet() {
				g.fill(v.Field(i), depth-1)
			} else if sf.Anonymous && sf.Type.Kind() == reflect.Ptr && sf.Type.Elem().Kind() == reflect.Struct && v.CanAddr() {
				// A pointer to an unexported struct
				g.fill(reflect.NewAt(sf.Type, unsafe.Pointer(v.Field(i).UnsafeAddr())).Elem(), depth-1)
			} else if sf := v.Type().Field(i); sf.Anonymous && sf.Type.Kind() == reflect.Struct {
				for j := 0; j < sf.Type.NumField(); j++ {
					if v.Field(i).Field(j).CanSet() {
						g.fill(v.Field(i).Field(j), depth-1)
					}
				}
			}
		}
	default:
		panic(broken("cannot fill " + v.Type().String()))
	}
}

// generic makes a plain JSON value
func (g *ValueGen) generic(depth int) interface{} {
	g.budget--
	n := 7
	if depth <= 0 || g.budget <= 0 {
		n = 5
	}
	switch g.r.N(n) {
	case 0:
		return g.r.P(1, 2)
	case 1, 2:
		return g.str()
	case 3:
		f := genFloat(g.r)
		if f == 0 {
			f = 0
		}
		return f
	case 4:
		return nil
	case 5:
		s := make([]interface{}, g.len(4, 3))
		for i := range s {
			s[i] = g.generic(depth - 1)
		}
		return s
	default:
		m := map[string]interface{}{}
		for i := g.len(4, 3); i > 0; i-- {
			m[toValidUTF8(g.str())] = g.generic(depth - 1)
		}
		return m
	}
}

// ---- JSON texts that fit a type ----

// site is a place in a text and the type it is decoded to.
type site struct {
	node *Tree
	typ  reflect.Type
}

// genNum32 makes a number that fits a 32 bit float, often one next to the middle of two of them.
func genNum32(r *Rng) string {
	for {
		s := genNum(r)
		if r.P(1, 2) {
			s = middle32(r, math.Float32frombits(uint32(r.U64())))
		}
		if r.P(1, 16) {
			// The greatest numbers that do not overflow
			s = middle32(r, math.MaxFloat32)
		}
		if f, err := strconv.ParseFloat(s, 32); err == nil && !math.IsInf(f, 0) {
			return s
		}
	}
}

// middle32 writes a number at, just below or just above the middle of f and the next 32 bit float.
func middle32(r *Rng, f float32) string {
	a := math.Abs(float64(f))
	if math.IsNaN(a) || math.IsInf(a, 0) {
		a = 1
	}
	b := float64(math.Nextafter32(float32(a), float32(math.Inf(1))))
	if math.IsInf(b, 0) {
		b = 2 * 0x1p127
	}
	s := new(big.Float).SetFloat64(a/2+b/2).Text('e', 180)
	i := strings.IndexByte(s, 'e')
	digits, exp := strings.TrimRight(s[:i], "0"), s[i:]
	if last := len(digits) - 1; digits[last] == '.' {
		digits += "0"
	}
	switch last := len(digits) - 1; r.N(3) {
	case 0:
		if digits[last] > '0' {
			digits = digits[:last] + string(rune(digits[last]-1)) + strings.Repeat("9", r.Range(1, 12))
		}
	case 1:
		digits += strings.Repeat("0", r.N(12)) + "1"
	}
	if r.P(1, 4) {
		digits = "-" + digits
	}
	return digits + exp
}

// TextGen makes JSON that fits types.
type TextGen struct {
	r      *Rng
	tag    string
	nulls  bool // null may stand for any value
	nullOK func(t reflect.Type) bool
	full   bool // objects have all members of their types
	dups   bool // repeated members
	hook   func(t reflect.Type) *Tree
	budget int
	sites  []site
	Nulls  int
}

// rawOf escapes s to the contents of a JSON string in one of many ways.
func rawOf(r *Rng, s string) string {
	var b strings.Builder
	all := r.P(1, 8)
	none := r.P(1, 2)
	for _, c := range s {
		switch {
		case c == utf8.RuneError:
			b.WriteString("�")
		case c == '"' || c == '\\':
			if r.P(1, 4) {
				fmt.Fprintf(&b, `\u%04x`, c)
			} else {
				b.WriteByte('\\')
				b.WriteRune(c)
			}
		case c < 0x20:
			i := strings.IndexRune("\b\f\n\r\t", c)
			if i >= 0 && r.P(2, 3) {
				b.WriteByte('\\')
				b.WriteByte("bfnrt"[i])
			} else {
				fmt.Fprintf(&b, r.Pick(`\u%04x`, `\u%04X`), c)
			}
		case all || !none && r.P(1, 12):
			if c == '/' && r.P(1, 2) {
				b.WriteString(`\/`)
			} else if c > 0xFFFF {
				c -= 0x10000
				fmt.Fprintf(&b, r.Pick(`\u%04x\u%04x`, `\u%04X\u%04X`), 0xD800+(c>>10), 0xDC00+(c&0x3FF))
			} else {
				fmt.Fprintf(&b, r.Pick(`\u%04x`, `\u%04X`), c)
			}
		default:
			b.WriteRune(c)
		}
	}
	return b.String()
}

func (g *TextGen) str() string {
	s := toValidUTF8(genString(g.r, 60))
	if g.r.P(1, 10) {
		s = toValidUTF8(hostileString(g.r))
	}
	return s
}

func (g *TextGen) len(max, elem int) int {
	if g.r.bulk > 0 && (elem < 1000 || g.budget > 0) {
		if n := g.r.bulkN(2, 40000); n > 0 {
			if elem > 4 && n > 20000/elem {
				n = 20000 / elem
			}
			return n
		}
	}
	if g.budget <= 0 {
		return 0
	}
	if g.r.P(1, 40) {
		max *= 8
	}
	return g.r.N(max + 1)
}

func (g *TextGen) tree(t reflect.Type, depth int) *Tree {
	g.budget--
	tr := g.make(t, depth)
	g.sites = append(g.sites, site{tr, t})
	return tr
}

func (g *TextGen) make(t reflect.Type, depth int) *Tree {
	if g.hook != nil {
		if tr := g.hook(t); tr != nil {
			return tr
		}
	}
	if g.nulls && g.r.P(1, 12) && (g.nullOK == nil || g.nullOK(t)) {
		g.Nulls++
		return &Tree{Kind: 'n', Raw: "null"}
	}
	switch t.Kind() {
	case reflect.Bool:
		return &Tree{Kind: 'b', Raw: g.r.Pick("true", "false")}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
		reflect.Float32:
		if t.Kind() == reflect.Float32 && g.r.P(1, 2) {
			return &Tree{Kind: '0', Raw: genNum32(g.r)}
		}
		v := reflect.New(t).Elem()
		(&ValueGen{r: g.r}).fill(v, 0)
		b, _ := json.Marshal(v.Interface())
		return &Tree{Kind: '0', Raw: string(b)}
	case reflect.Float64:
		for {
			s := genNum(g.r)
			if f, err := strconv.ParseFloat(s, 64); err == nil && !math.IsInf(f, 0) {
				return &Tree{Kind: '0', Raw: s}
			}
		}
	case reflect.String:
		return &Tree{Kind: 's', Raw: rawOf(g.r, g.str())}
	case reflect.Interface:
		return g.any(depth)
	case reflect.Ptr:
		if depth <= -4 || g.full && g.budget <= 0 {
			return &Tree{Kind: 'n', Raw: "null"}
		}
		return g.make(t.Elem(), depth-1)
	case reflect.Slice, reflect.Array:
		tr := &Tree{Kind: 'a'}
		n := g.len(4, leaves(t.Elem()))
		if t.Kind() == reflect.Array && t.Len() > 60 && g.r.P(1, 2) {
			n = g.r.Range(t.Len()-1, t.Len()+2)
		}
		if depth <= 0 {
			n = 0
		}
		for i := 0; i < n; i++ {
			if t.Kind() == reflect.Array && i >= t.Len() {
				// More values than the array can hold are ignored
				tr.Kids = append(tr.Kids, genTree(g.r, GenOpt{Nodes: 3}))
				continue
			}
			tr.Kids = append(tr.Kids, g.tree(t.Elem(), depth-1))
		}
		return tr
	case reflect.Map:
		tr := &Tree{Kind: 'o'}
		n := g.len(4, leaves(t.Elem()))
		if depth <= 0 {
			n = 0
		}
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			var raw string
			if t.Key().Kind() == reflect.String {
				raw = rawOf(g.r, g.str())
			} else {
				raw = g.hook(t.Key()).Raw
			}
			if key := refUnescape(raw); !seen[key] {
				seen[key] = true
				tr.Keys = append(tr.Keys, raw)
				tr.Kids = append(tr.Kids, g.tree(t.Elem(), depth-1))
			}
		}
		return tr
	case reflect.Struct:
		tr := &Tree{Kind: 'o'}
		fields := visible(t, g.tag)
		for _, i := range g.perm(len(fields)) {
			f := fields[i]
			if !g.full && (g.r.P(1, 5) || depth <= -6) {
				continue
			}
			if g.r.P(1, 8) {
				// unknown member
				tr.Keys = append(tr.Keys, rawOf(g.r, fmt.Sprintf("~%s%d", g.str(), len(tr.Keys))))
				tr.Kids = append(tr.Kids, genTree(g.r, GenOpt{Nodes: 5}))
			}
			kid := g.tree(f.typ, depth-1)
			if k := f.typ.Kind(); g.dups && g.r.P(1, 12) && kid.Kind != 'n' && (k == reflect.String || k == reflect.Bool || k >= reflect.Int && k <= reflect.Float64) {
				tr.Keys = append(tr.Keys, f.key)
				tr.Kids = append(tr.Kids, g.make(f.typ, depth-1))
				// The keys are alike to the parser only when they are written alike
				tr.Keys = append(tr.Keys, f.key)
			} else {
				tr.Keys = append(tr.Keys, rawOf(g.r, f.key))
			}
			tr.Kids = append(tr.Kids, kid)
		}
		return tr
	}
	panic(broken("no text for " + t.String()))
}

func (g *TextGen) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if g.r.P(1, 2) {
		for i := n - 1; i > 0; i-- {
			j := g.r.N(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	}
	return p
}

func (g *TextGen) any(depth int) *Tree {
	t := genTree(g.r, GenOpt{Nodes: 8})
	fitFloats(t)
	return t
}

// fitFloats replaces the numbers that do not fit a float64 and makes repeated keys unique.
func fitFloats(t *Tree) {
	if t.Kind == '0' {
		if f, err := strconv.ParseFloat(t.Raw, 64); err != nil || math.IsInf(f, 0) {
			t.Raw = "1e300"
		}
	}
	seen := map[string]bool{}
	for i, k := range t.Kids {
		fitFloats(k)
		if t.Kind == 'o' {
			for seen[refUnescape(t.Keys[i])] {
				t.Keys[i] += strconv.Itoa(i)
			}
			seen[refUnescape(t.Keys[i])] = true
		}
	}
}

// ---- comparing ----

func nullish(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Invalid:
		return true
	case reflect.Ptr, reflect.Interface:
		return v.IsNil() || nullish(v.Elem())
	case reflect.Map:
		return v.IsNil()
	}
	return false
}

// eqOpt says what counts as equal.
type eqOpt struct {
	tag       string
	roundTrip bool // what encodes as null is equal to nil, and struct values are compared by their visible fields
	loose     bool // the value may have been omitted
	nilMaps   bool // nil and empty maps are equal
	nilSlices bool // nil and empty slices differ
	reused    bool // the maps of the first value may hold other keys too
}

// diffValues compares values of the same type.
func diffValues(a, b reflect.Value, o eqOpt) string {
	if a.Kind() != b.Kind() {
		return fmt.Sprintf("%v, want %v", a, b)
	}
	loose := o.loose
	o.loose = false
	if a.Kind() == reflect.Struct && a.CanInterface() && b.CanInterface() {
		if ta, ok := a.Interface().(time.Time); ok {
			if tb := b.Interface().(time.Time); !ta.Equal(tb) || ta.Format(time.RFC3339) != tb.Format(time.RFC3339) {
				return fmt.Sprintf("%v, want %v", ta, tb)
			}
			return ""
		}
	}
	switch a.Kind() {
	case reflect.Invalid:
		return ""
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf("%v, want %v", a.Bool(), b.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%v, want %v", a.Int(), b.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if a.Uint() != b.Uint() {
			return fmt.Sprintf("%v, want %v", a.Uint(), b.Uint())
		}
	case reflect.Float32, reflect.Float64:
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) {
			return fmt.Sprintf("%v, want %v", a.Float(), b.Float())
		}
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%q, want %q", clip(a.String(), 200), clip(b.String(), 200))
		}
	case reflect.Interface:
		if o.roundTrip && nullish(a) && nullish(b) {
			return ""
		}
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("nil: %v, want %v", a.IsNil(), b.IsNil())
		}
		if a.IsNil() {
			return ""
		}
		if a.Elem().Type() != b.Elem().Type() {
			return fmt.Sprintf("%s, want %s", a.Elem().Type(), b.Elem().Type())
		}
		return diffValues(a.Elem(), b.Elem(), o)
	case reflect.Ptr:
		if o.roundTrip && nullish(a) && nullish(b) {
			return ""
		}
		if loose && o.nilMaps && a.IsNil() && !b.IsNil() && b.Elem().IsZero() && b.Elem().Kind() == reflect.Struct {
			// omitted by a method of the value
			return ""
		}
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("nil: %v, want %v", a.IsNil(), b.IsNil())
		}
		if a.IsNil() {
			return ""
		}
		return diffValues(a.Elem(), b.Elem(), o)
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("length %d, want %d", a.Len(), b.Len())
		}
		if o.nilSlices && a.IsNil() != b.IsNil() {
			return fmt.Sprintf("nil: %v, want %v", a.IsNil(), b.IsNil())
		}
		for i := 0; i < a.Len(); i++ {
			if d := diffValues(a.Index(i), b.Index(i), o); d != "" {
				return fmt.Sprintf("[%d]: %s", i, d)
			}
		}
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			o.loose = loose
			if d := diffValues(a.Index(i), b.Index(i), o); d != "" {
				return fmt.Sprintf("[%d]: %s", i, d)
			}
		}
	case reflect.Map:
		if o.reused {
			for _, k := range b.MapKeys() {
				x := a.MapIndex(k)
				if !x.IsValid() {
					return fmt.Sprintf("no key %q", fmt.Sprint(k))
				}
				// Its values are not reused
				o.reused = false
				if d := diffValues(x, b.MapIndex(k), o); d != "" {
					return fmt.Sprintf("[%q]: %s", fmt.Sprint(k), d)
				}
			}
			return ""
		}
		if a.IsNil() != b.IsNil() && !((loose || o.nilMaps) && a.Len() == 0 && b.Len() == 0) {
			return fmt.Sprintf("nil: %v, want %v", a.IsNil(), b.IsNil())
		}
		if a.Len() != b.Len() {
			return fmt.Sprintf("%d keys, want %d", a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			x := b.MapIndex(k)
			if !x.IsValid() {
				return fmt.Sprintf("unexpected key %q", fmt.Sprint(k))
			}
			if d := diffValues(a.MapIndex(k), x, o); d != "" {
				return fmt.Sprintf("[%q]: %s", fmt.Sprint(k), d)
			}
		}
	case reflect.Struct:
		if !o.roundTrip {
			for i := 0; i < a.NumField(); i++ {
				if d := diffValues(a.Field(i), b.Field(i), o); d != "" {
					return a.Type().Field(i).Name + ": " + d
				}
			}
			return ""
		}
		for _, f := range visible(a.Type(), o.tag) {
			fa, fb := follow(a, f.index), follow(b, f.index)
			if !fa.IsValid() {
				fa = reflect.Zero(f.typ)
			}
			if !fb.IsValid() {
				fb = reflect.Zero(f.typ)
			}
			o.loose = f.omit || loose
			if d := diffValues(fa, fb, o); d != "" {
				return f.key + ": " + d
			}
		}
	default:
		panic(broken("cannot compare " + a.Type().String()))
	}
	return ""
}

// meaning compares two JSON values: members in any order, strings by what they denote, numbers by value.
func meaning(got, want *Tree) string {
	if got.Kind != want.Kind {
		return fmt.Sprintf("%s, want %s", clip(got.text(), 100), clip(want.text(), 100))
	}
	switch got.Kind {
	case 's':
		if a, b := refUnescape(got.Raw), refUnescape(want.Raw); a != b {
			return fmt.Sprintf("%q, want %q", clip(a, 200), clip(b, 200))
		}
	case '0':
		if !sameNumber(got.Raw, want.Raw) {
			return fmt.Sprintf("%s, want %s", got.Raw, want.Raw)
		}
	case 'a':
		if len(got.Kids) != len(want.Kids) {
			return fmt.Sprintf("%d elements, want %d", len(got.Kids), len(want.Kids))
		}
		for i := range got.Kids {
			if d := meaning(got.Kids[i], want.Kids[i]); d != "" {
				return fmt.Sprintf("[%d]: %s", i, d)
			}
		}
	case 'o':
		m := map[string]*Tree{}
		for i, k := range want.Keys {
			m[refUnescape(k)] = want.Kids[i]
		}
		for i, k := range got.Keys {
			key := refUnescape(k)
			w, ok := m[key]
			if !ok {
				return fmt.Sprintf("unexpected or repeated key %q", key)
			}
			delete(m, key)
			if d := meaning(got.Kids[i], w); d != "" {
				return fmt.Sprintf("%q: %s", key, d)
			}
		}
		for key := range m {
			return fmt.Sprintf("key %q is missing", key)
		}
	default:
		if got.Raw != want.Raw {
			return fmt.Sprintf("%s, want %s", got.Raw, want.Raw)
		}
	}
	return ""
}

func sameNumber(a, b string) bool {
	if a == b {
		return true
	}
	if !strings.ContainsAny(a+b, ".eE") {
		x, ok := new(big.Int).SetString(a, 10)
		y, ok2 := new(big.Int).SetString(b, 10)
		return ok && ok2 && x.Cmp(y) == 0 && (a[0] == '-') == (b[0] == '-')
	}
	x, err := strconv.ParseFloat(a, 64)
	y, err2 := strconv.ParseFloat(b, 64)
	return err == nil && err2 == nil && math.Float64bits(x) == math.Float64bits(y)
}

// ---- model of encoding ----

// EncModel computes what a value encodes to.
type EncModel struct {
	tag        string
	omitEmpty  bool
	omitMethod string
	dropNil    bool // the rules of generated code: nil pointers of fields are left out, pointers to pointers only if they are nil
	hook       func(v reflect.Value) (*Tree, bool)
	Omitted    int
	Kept       int
}

func strTree(s string) *Tree {
	b, _ := json.Marshal(s)
	return &Tree{Kind: 's', Raw: string(b[1 : len(b)-1])}
}

// encode returns the JSON value. html and raw are the options of the field the value belongs to.
func (m *EncModel) encode(v reflect.Value, html, raw bool) *Tree {
	if m.hook != nil {
		if t, ok := m.hook(v); ok {
			return t
		}
	}
	switch v.Kind() {
	case reflect.Bool:
		return &Tree{Kind: 'b', Raw: strconv.FormatBool(v.Bool())}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return &Tree{Kind: '0', Raw: strconv.FormatInt(v.Int(), 10)}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return &Tree{Kind: '0', Raw: strconv.FormatUint(v.Uint(), 10)}
	case reflect.Float32, reflect.Float64:
		return &Tree{Kind: '0', Raw: strconv.FormatFloat(v.Float(), 'g', -1, v.Type().Bits())}
	case reflect.String:
		if raw && !html {
			return &Tree{Kind: 's', Raw: v.String()}
		}
		return strTree(v.String())
	case reflect.Interface:
		if v.IsNil() {
			return &Tree{Kind: 'n', Raw: "null"}
		}
		plain := *m
		plain.tag, plain.omitEmpty, plain.omitMethod = "json", false, "Omit"
		return plain.encode(v.Elem(), false, false)
	case reflect.Ptr:
		if v.IsNil() {
			return &Tree{Kind: 'n', Raw: "null"}
		}
		return m.encode(v.Elem(), html, raw)
	case reflect.Slice, reflect.Array:
		t := &Tree{Kind: 'a'}
		for i := 0; i < v.Len(); i++ {
			t.Kids = append(t.Kids, m.encode(v.Index(i), html, raw))
		}
		return t
	case reflect.Map:
		if v.IsNil() {
			return &Tree{Kind: 'n', Raw: "null"}
		}
		t := &Tree{Kind: 'o'}
		for _, k := range v.MapKeys() {
			var key *Tree
			if k.Kind() == reflect.Ptr {
				if key = strTree(""); !k.IsNil() {
					key, _ = m.hook(k.Elem())
				}
			} else if m.hook != nil {
				key, _ = m.hook(k)
			}
			if key == nil {
				key = strTree(k.String())
			}
			t.Keys = append(t.Keys, key.Raw)
			t.Kids = append(t.Kids, m.encode(v.MapIndex(k), false, false))
		}
		return t
	case reflect.Struct:
		t := &Tree{Kind: 'o'}
		for _, f := range visible(v.Type(), m.tag) {
			fv := follow(v, f.index)
			if !fv.IsValid() {
				continue
			}
			if (f.omit || m.omitEmpty) && m.omitted(fv) || m.dropNil && fv.Kind() == reflect.Ptr && fv.IsNil() {
				m.Omitted++
				continue
			}
			m.Kept++
			t.Keys = append(t.Keys, strTree(f.key).Raw)
			t.Kids = append(t.Kids, m.encode(fv, f.html, f.raw))
		}
		return t
	}
	panic(broken("cannot encode " + v.Type().String()))
}

// omitted says if a value of a field with the omitempty option is left out.
func (m *EncModel) omitted(v reflect.Value) bool {
	method := m.omitMethod
	if method == "" {
		method = "Omit"
	}
	t := v.Type()
	et := t
	if t.Kind() == reflect.Ptr {
		et = t.Elem()
	}
	if et.Kind() == reflect.Ptr && !m.dropNil {
		base := et.Elem()
		for base.Kind() == reflect.Ptr {
			base = base.Elem()
		}
		if mt, ok := reflect.PtrTo(base).MethodByName(method); ok && mt.Type.NumIn() == 1 && mt.Type.NumOut() == 1 && mt.Type.Out(0).Kind() == reflect.Bool {
			return v.IsNil() || m.omitted(v.Elem())
		}
	}
	if et.Kind() != reflect.Interface && et.Kind() != reflect.Ptr {
		if mt, ok := reflect.PtrTo(et).MethodByName(method); ok && mt.Type.NumIn() == 1 && mt.Type.NumOut() == 1 && mt.Type.Out(0).Kind() == reflect.Bool {
			if t.Kind() == reflect.Ptr {
				if v.IsNil() {
					_, onValue := et.MethodByName(method)
					if onValue {
						return true
					}
				}
				return v.MethodByName(method).Call(nil)[0].Bool()
			}
			p := reflect.New(et)
			p.Elem().Set(v)
			return p.MethodByName(method).Call(nil)[0].Bool()
		}
	}
	if (t.Kind() == reflect.Interface || et.Kind() == reflect.Interface) && !m.dropNil {
		mt, ok := et.MethodByName(method)
		if ok = ok && mt.Type.NumIn() == 0 && mt.Type.NumOut() == 1 && mt.Type.Out(0).Kind() == reflect.Bool; ok {
			if t != et {
				return v.IsNil() || m.omitted(v.Elem())
			}
			return v.IsNil() || v.Elem().Kind() == reflect.Ptr && v.Elem().IsNil() || v.MethodByName(method).Call(nil)[0].Bool()
		}
	}
	switch v.Kind() {
	case reflect.Complex64, reflect.Complex128, reflect.Func, reflect.Chan, reflect.Uintptr:
		return v.IsZero()
	case reflect.Bool:
		return !v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int() == 0
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return v.Uint() == 0
	case reflect.Float32, reflect.Float64:
		return v.Float() == 0
	case reflect.String, reflect.Slice, reflect.Map:
		return v.Len() == 0
	case reflect.Ptr, reflect.Interface:
		return v.IsNil()
	case reflect.Array:
		// An array is empty if all of its elements are. Elements that are structs are not empty.
		for i := 0; i < v.Len(); i++ {
			if e := v.Index(i); e.Kind() == reflect.Struct && !m.hasMethod(e.Type()) || !m.omitted(e) {
				return false
			}
		}
		return true
	case reflect.Struct:
		if m.hook != nil {
			if _, ok := m.hook(v); ok {
				return false
			}
		}
		// A struct is empty if all of its fields are left out
		for _, f := range visible(t, m.tag) {
			if fv := follow(v, f.index); fv.IsValid() && !((f.omit || m.omitEmpty) && m.omitted(fv)) {
				return false
			}
		}
		return true
	}
	return false
}

func (m *EncModel) hasMethod(t reflect.Type) bool {
	method := m.omitMethod
	if method == "" {
		method = "Omit"
	}
	mt, ok := reflect.PtrTo(t).MethodByName(method)
	return ok && mt.Type.NumIn() == 1 && mt.Type.NumOut() == 1 && mt.Type.Out(0).Kind() == reflect.Bool
}
