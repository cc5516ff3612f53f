package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/alxarch/njson"
)

// Tree is the model of a JSON value. Scalars keep the literal text: Raw of a string is what
// stands between the quotes.
type Tree struct {
	Kind byte // 'n' null, 'b' boolean, '0' number, 's' string, 'a' array, 'o' object
	Raw  string
	Keys []string // raw keys of an object
	Kids []*Tree
}

var kindTypes = map[byte]njson.Type{'n': njson.TypeNull, 'b': njson.TypeBoolean, '0': njson.TypeNumber, 's': njson.TypeString, 'a': njson.TypeArray, 'o': njson.TypeObject}

func typeKind(t njson.Type) byte {
	for k, v := range kindTypes {
		if v == t {
			return k
		}
	}
	return '?'
}

func (t *Tree) count() int {
	n := 1
	for _, k := range t.Kids {
		n += k.count()
	}
	return n
}

func (t *Tree) depth() int {
	d := 0
	for _, k := range t.Kids {
		if kd := k.depth(); kd > d {
			d = kd
		}
	}
	return d + 1
}

// shape is a hash of the structure without the literals but with the sizes.
func (t *Tree) shape() uint64 {
	h := mix(uint64(t.Kind), uint64(lenClass(len(t.Raw))), uint64(len(t.Kids)))
	for i, k := range t.Kids {
		h = mix(h, k.shape())
		if t.Kind == 'o' {
			h = mix(h, uint64(lenClass(len(t.Keys[i]))))
		}
	}
	return h
}

func lenClass(n int) int {
	if n <= 20 {
		return n
	}
	return 20 + int(math.Log2(float64(n)))
}

func (t *Tree) hash() uint64 {
	h := mix(uint64(t.Kind), hashStr(t.Raw), uint64(len(t.Kids)))
	for i, k := range t.Kids {
		if t.Kind == 'o' {
			h = mix(h, hashStr(t.Keys[i]))
		}
		h = mix(h, k.hash())
	}
	return h
}

func (t *Tree) clone() *Tree {
	c := &Tree{Kind: t.Kind, Raw: t.Raw, Keys: append([]string(nil), t.Keys...)}
	for _, k := range t.Kids {
		c.Kids = append(c.Kids, k.clone())
	}
	return c
}

// text is the compact JSON text of the tree.
func (t *Tree) text() string {
	var b strings.Builder
	t.write(&b, nil, 0)
	return b.String()
}

// spaced is the text of the tree with random space around every token.
func (t *Tree) spaced(r *Rng, mode int) string {
	var b strings.Builder
	if mode > 0 {
		b.WriteString(space(r, mode))
	}
	t.write(&b, r, mode)
	return b.String()
}

var spaceAtoms = []string{" ", "\n", "\t", "\r", "\r\n", "  ", "\n\t"}

func space(r *Rng, mode int) string {
	switch mode {
	case 0:
		return ""
	case 1:
		if r.P(1, 2) {
			return ""
		}
		return spaceAtoms[r.N(len(spaceAtoms))]
	default:
		s := ""
		for i := r.N(5); i >= 0; i-- {
			s += spaceAtoms[r.N(len(spaceAtoms))]
		}
		if r.P(1, 50) {
			s += strings.Repeat(" ", r.N(200))
		}
		return s
	}
}

func (t *Tree) write(b *strings.Builder, r *Rng, mode int) {
	sp := func() {
		if mode > 0 {
			b.WriteString(space(r, mode))
		}
	}
	switch t.Kind {
	case 's':
		b.WriteByte('"')
		b.WriteString(t.Raw)
		b.WriteByte('"')
	case 'a':
		b.WriteByte('[')
		sp()
		for i, k := range t.Kids {
			if i > 0 {
				b.WriteByte(',')
				sp()
			}
			k.write(b, r, mode)
			sp()
		}
		b.WriteByte(']')
	case 'o':
		b.WriteByte('{')
		sp()
		for i, k := range t.Kids {
			if i > 0 {
				b.WriteByte(',')
				sp()
			}
			b.WriteByte('"')
			b.WriteString(t.Keys[i])
			b.WriteByte('"')
			sp()
			b.WriteByte(':')
			sp()
			k.write(b, r, mode)
			sp()
		}
		b.WriteByte('}')
	default:
		b.WriteString(t.Raw)
	}
}

// ---- generation ----

var thresholds = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 1023, 1025, 2049}

func size(r *Rng, max int) int {
	if r.P(2, 3) {
		return r.N(minInt(max, 6) + 1)
	}
	for i := 0; i < 20; i++ {
		if n := thresholds[r.N(len(thresholds))]; n <= max {
			return n
		}
	}
	return r.N(max + 1)
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

var strAtoms = []string{
	`\"`, `\\`, `\/`, `\b`, `\f`, `\n`, `\r`, `\t`,
	`\u0000`, `\u001f`, `\u0022`, `\u005c`, `\u0041`, `\u00e9`, `\u00E9`, `\u07ff`, `\u0800`, `\u2028`, `\u2029`, `\ud7ff`, `\ue000`, `\uffff`, `\uFFFD`, `\u0080`, `\u007f`,
	`\ud83d\ude00`, `\uD83D\uDE00`, `\ud800\udc00`, `\udbff\udfff`,
	"é", "世界", "😀", "\u2028", "\u2029", "\u007f", "\u0080", "ÿ", "\uffff", "\U0010FFFF", "߿", "ࠀ",
	"<", ">", "&", "'", "/", "{", "}", "[", "]", ":", ",", " ", "u", "u0041", "n", "0", "-", "e", "true", "null", "a", "b", "xyz", "hello world",
}

var loneSurrogates = []string{`\ud800`, `\udc00`, `\uDBFF`, `\udfff`, `\ud800\ud800`, `\ud83dx`, `\ud83d\u0041`, `\ud800\n`, `\udc00\ud800`, `\ud83d\ud83d\ude00`}

var endings = []string{`\\`, `\"`, `\\\"`, `\\\\`, `\\\\\"`, `\/`, `\u005c`, `a\\`, `\n`, `é`, `"`[:0], `{`, `}`, `,`, `\\u0041`, `\t\\`, `\\n`}

// genRaw makes valid JSON string contents.
func genRaw(r *Rng) string { return genRawMax(r, 2100, true) }

func genRawMax(r *Rng, max int, surrogates bool) string {
	var b strings.Builder
	if n := r.bulkN(4, 1<<21); n > 0 {
		return bulkRaw(r, n, surrogates)
	}
	switch r.N(10) {
	case 0:
		return ""
	case 1: // plain with an exact length
		n := size(r, max)
		for i := 0; i < n; i++ {
			b.WriteByte("abcdefghijklmnopqrstuvwxyz0123456789 _-"[r.N(39)])
		}
	case 2: // one atom after a run with an exact length
		n := size(r, max)
		b.WriteString(strings.Repeat(r.Pick("a", "x", " "), n))
		b.WriteString(strAtoms[r.N(len(strAtoms))])
		b.WriteString(strings.Repeat("z", r.N(12)))
	case 3:
		b.WriteString(strings.Repeat(`\\`, size(r, minInt(max/2, 40))))
	default:
		n := size(r, minInt(max/8, 60))
		for i := 0; i < n; i++ {
			switch {
			case surrogates && r.P(1, 40):
				b.WriteString(loneSurrogates[r.N(len(loneSurrogates))])
				b.WriteString(r.Pick("", "q"))
			case r.P(1, 3):
				b.WriteString(r.Pick("a", "key", "0", "word ", "lorem ipsum dolor"))
			case r.P(1, 4):
				fmt.Fprintf(&b, r.Pick(`\u%04x`, `\u%04X`), genBMP(r))
			default:
				b.WriteString(strAtoms[r.N(len(strAtoms))])
			}
		}
	}
	if r.P(1, 3) {
		b.WriteString(endings[r.N(len(endings))])
	}
	return b.String()
}

// bulkRaw makes the contents of a string of about n bytes: plain with something at the end,
// blocks with something between them, or nothing but escapes.
func bulkRaw(r *Rng, n int, surrogates bool) string {
	var b strings.Builder
	block := n
	switch r.N(3) {
	case 0:
		block = r.Range(1, minInt(n, 5000))
	case 1:
		block = r.N(3)
	}
	atom := func() string {
		if surrogates && r.P(1, 30) {
			return loneSurrogates[r.N(len(loneSurrogates))]
		}
		return strAtoms[r.N(len(strAtoms))]
	}
	fill := r.Pick("a", "x", " ", "é", "z")
	for b.Len() < n {
		k := minInt(block, n-b.Len())
		b.WriteString(strings.Repeat(fill, (k+len(fill)-1)/len(fill)))
		if b.Len() < n || r.P(1, 2) {
			b.WriteString(atom())
		}
	}
	for k := r.N(4); k > 0; k-- {
		b.WriteString(atom())
	}
	return b.String()
}

func genBMP(r *Rng) int {
	for {
		var c int
		switch r.N(4) {
		case 0:
			c = r.N(0x80)
		case 1:
			c = r.N(0x800)
		default:
			c = r.N(0x10000)
		}
		if c < 0xd800 || c > 0xdfff {
			return c
		}
	}
}

var numLits = []string{"0", "-0", "1", "-1", "9", "10", "42", "100", "-127", "128", "255", "256", "32768", "65535", "65536", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296",
	"9007199254740991", "9007199254740992", "9007199254740993", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "18446744073709551616",
	"0.1", "-0.5", "1.0", "1.5", "3.14159", "1e0", "1E5", "1e+5", "1e-5", "-1.5e10", "0.0", "0e0", "0E-1", "-0.0", "1e21", "1e-7", "123456789012345678901234567890", "0.000001", "1.7976931348623157e308", "5e-324", "2.2250738585072014e-308", "1e22", "1e23", "0.30000000000000004", "123456.789e3"}

// genNum makes a valid JSON number that does not overflow a float64.
func genNum(r *Rng) string {
	if n := r.bulkN(12, 70000); n > 0 {
		// Many digits, in a range that does not overflow
		sign := r.Pick("", "-")
		switch r.N(3) {
		case 0:
			return sign + "0." + digits(r, n)
		case 1:
			return sign + strconv.Itoa(1+r.N(99)) + "." + digits(r, n) + r.Pick("", "e5", "E-7", "e+12")
		}
		return sign + "1" + digits(r, n-1) + "e-" + strconv.Itoa(n-1)
	}
	if r.P(1, 3) {
		return numLits[r.N(len(numLits))]
	}
	var b strings.Builder
	if r.P(1, 3) {
		b.WriteByte('-')
	}
	n := r.Range(1, 6)
	if r.P(1, 8) {
		n = r.Range(1, 30)
	}
	if r.P(1, 30) {
		// Zero, in many ways
		b.WriteString("0")
		if r.P(2, 3) {
			b.WriteString("." + strings.Repeat("0", r.Range(1, 1+r.N(40))))
		}
		if r.P(1, 3) {
			b.WriteString(r.Pick("e", "E", "e+", "e-", "E-") + digits(r, r.Range(1, 4)))
		}
		return b.String()
	}
	d := digits(r, n)
	if d[0] == '0' {
		d = "0"
	}
	b.WriteString(d)
	if r.P(1, 3) {
		b.WriteByte('.')
		b.WriteString(digits(r, r.Range(1, 1+r.N(20))))
	}
	if r.P(1, 4) {
		b.WriteString(r.Pick("e", "E", "e+", "E+", "e-", "E-"))
		if r.P(1, 6) {
			b.WriteString("0")
		}
		if r.P(1, 2) {
			b.WriteString(strconv.Itoa(r.N(24)))
		} else {
			b.WriteString(strconv.Itoa(r.N(270)))
		}
	}
	return b.String()
}

func digits(r *Rng, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + r.N(10))
	}
	return string(b)
}

// GenOpt tunes genTree.
type GenOpt struct {
	Nodes      int  // bound of the number of nodes
	Unique     bool // keys are unique after unescaping
	PlainKeys  bool // keys need no unescaping
	NoSurr     bool // no unpaired surrogates
	MaxStr     int
	EmptyHeavy bool
}

// nearKey returns a key that differs from k in one place.
func nearKey(r *Rng, k string) string {
	if k == "" {
		return r.Pick("a", " ", "\x00")
	}
	i := r.N(len(k))
	switch r.N(4) {
	case 0:
		return k[:i] + k[i+1:]
	case 1:
		return k[:i] + string("aZ0_\x00"[r.N(5)]) + k[i:]
	default:
		b := []byte(k)
		b[i] ^= 1 << uint(r.N(8))
		return string(b)
	}
}

// genBefore returns bytes that stand in a buffer before something is appended to it.
func genBefore(r *Rng) string {
	n := 0
	switch {
	case r.P(1, 600):
		n = r.Pick2(65535, 65536, 65537, 70000, 200000)
	case r.P(1, 40):
		n = r.Pick2(255, 256, 257, 1000, 1023, 1024, 2048, 4095, 4096, 4097, 5000, 9000)
	case r.P(1, 8):
		n = r.N(200)
	default:
		return r.Pick("", "x", "[", "{", "\\", "\\u", "\"", "e-0", "1e-0", "prefix", "\x00prefix,{\"é", "\xff", ",")
	}
	// Every place looks different
	b := make([]byte, 0, n+8)
	for i := uint64(r.N(1000)); len(b) < n; i++ {
		x := (i + 1) * 0x9E3779B97F4A7C15
		b = append(b, byte(x>>56), byte(x>>48), byte(x>>40))
	}
	return string(b[:n])
}

func genKey(r *Rng, o *GenOpt) string {
	if n := r.bulkN(8, 1<<20); n > 0 {
		if o.PlainKeys {
			return strings.Repeat("k", n-1) + r.Pick("1", "2", "é", "z")
		}
		return bulkRaw(r, n, !o.NoSurr)
	}
	if r.P(1, 12) {
		// Keys of one length that differ in one byte
		k := []byte("key_of_the_member_number_zero"[:r.Pick2(2, 5, 8, 12, 16, 17, 24, 29)])
		k[r.N(len(k))] = "abcxyz"[r.N(6)]
		return string(k)
	}
	if o.PlainKeys || r.P(3, 5) {
		switch r.N(6) {
		case 0:
			return r.Pick("", "a", "b", "id", "name", "key", "0", "1", "10", "é", "世界")
		case 1:
			return strings.Repeat("k", size(r, 70)) + strconv.Itoa(r.N(1000))
		default:
			return "k" + strconv.Itoa(r.N(40))
		}
	}
	return genRawMax(r, minInt(o.MaxStr, 80), !o.NoSurr)
}

func genScalar(r *Rng, o *GenOpt) *Tree {
	switch r.N(10) {
	case 0:
		return &Tree{Kind: 'n', Raw: "null"}
	case 1:
		return &Tree{Kind: 'b', Raw: "true"}
	case 2:
		return &Tree{Kind: 'b', Raw: "false"}
	case 3, 4, 5:
		return &Tree{Kind: '0', Raw: genNum(r)}
	default:
		if r.P(1, 25) {
			// Strings that read like other values
			return &Tree{Kind: 's', Raw: r.Pick("true", "false", "null", "0", "-1", "1.5e3", "{}", "[]", "tru", "NaN", "Infinity", "[0]", "-", " ", "18446744073709551615", "1e999")}
		}
		return &Tree{Kind: 's', Raw: genRawMax(r, o.MaxStr, !o.NoSurr)}
	}
}

// genTree makes a tree with one of several profiles.
func genTree(r *Rng, o GenOpt) *Tree {
	if o.Nodes == 0 {
		o.Nodes = 60
	}
	if o.MaxStr == 0 {
		o.MaxStr = 2100
		if r.P(4, 5) {
			o.MaxStr = 60
		}
	}
	if r.bulk > 0 && r.P(1, 2) {
		return bulkTree(r, &o)
	}
	switch r.N(12) {
	case 0:
		return genScalar(r, &o)
	case 1: // wide and flat
		t := &Tree{Kind: "ao"[r.N(2)]}
		n := size(r, o.Nodes)
		same := genScalar(r, &o)
		for i := 0; i < n; i++ {
			k := same
			if r.P(1, 2) {
				k = &Tree{Kind: '0', Raw: strconv.Itoa(i)}
			}
			if r.P(1, 20) {
				k = genScalar(r, &o)
			}
			t.Kids = append(t.Kids, k.clone())
			if t.Kind == 'o' {
				t.Keys = append(t.Keys, "k"+strconv.Itoa(i))
			}
		}
		return t
	case 2: // deep chain
		t := genScalar(r, &o)
		for n := size(r, o.Nodes); n > 0; n-- {
			p := &Tree{Kind: "ao"[r.N(2)]}
			if r.P(1, 6) {
				p.add(r, &o, genScalar(r, &o))
			}
			p.add(r, &o, t)
			if r.P(1, 6) {
				p.add(r, &o, genScalar(r, &o))
			}
			t = p
		}
		return t
	case 3: // table: an array of objects with the same keys
		t := &Tree{Kind: 'a'}
		cols := []string{}
		for i := r.Range(1, 8); i > 0; i-- {
			cols = append(cols, "c"+strconv.Itoa(i))
		}
		for i := size(r, o.Nodes/(len(cols)+1)+1); i > 0; i-- {
			row := &Tree{Kind: 'o'}
			for _, k := range cols {
				if r.P(1, 10) {
					continue
				}
				row.Keys = append(row.Keys, k)
				row.Kids = append(row.Kids, genScalar(r, &o))
			}
			t.Kids = append(t.Kids, row)
		}
		return t
	default:
		budget := r.Range(1, o.Nodes)
		if r.P(1, 2) {
			budget = minInt(budget, 12)
		}
		return genNode(r, &o, &budget, 0)
	}
}

// bulkTree makes a tree with many values.
func bulkTree(r *Rng, o *GenOpt) *Tree {
	shape := r.N(7)
	max := 1 << 17
	if shape == 2 {
		max = 3000
	} else if shape > 2 {
		max /= 4
	}
	n := r.bulkSize(max)
	leaf := func(i int) *Tree {
		switch {
		case r.P(1, 50):
			return genScalar(r, o)
		case r.P(1, 8):
			return &Tree{Kind: "ao"[r.N(2)]}
		case r.P(1, 6):
			return &Tree{Kind: 'n', Raw: "null"}
		case r.P(1, 4):
			return &Tree{Kind: 's', Raw: "v" + strconv.Itoa(i)}
		}
		return &Tree{Kind: '0', Raw: strconv.Itoa(i)}
	}
	var t *Tree
	switch shape {
	case 0: // one array
		t = &Tree{Kind: 'a'}
		for i := 0; i < n; i++ {
			t.Kids = append(t.Kids, leaf(i))
		}
	case 1: // one object
		t = &Tree{Kind: 'o'}
		for i := 0; i < n; i++ {
			t.Keys = append(t.Keys, "k"+strconv.Itoa(i))
			t.Kids = append(t.Kids, leaf(i))
		}
		if !o.Unique && n > 0 && r.P(1, 4) {
			t.Keys[r.N(n)] = t.Keys[r.N(n)]
		}
	case 2: // deep
		t = leaf(0)
		for i := 0; i < n; i++ {
			p := &Tree{Kind: "ao"[r.N(2)]}
			for _, k := range []*Tree{nil, t, nil} {
				if k == nil && r.P(5, 6) {
					continue
				} else if k == nil {
					k = leaf(i)
				}
				if p.Kind == 'o' {
					p.Keys = append(p.Keys, "k"+strconv.Itoa(len(p.Keys)))
				}
				p.Kids = append(p.Kids, k)
			}
			t = p
		}
		return t
	case 3: // rows
		t = &Tree{Kind: 'a'}
		for i := 0; i < n; i++ {
			t.Kids = append(t.Kids, &Tree{Kind: 'o', Keys: []string{"id", "v"}, Kids: []*Tree{{Kind: '0', Raw: strconv.Itoa(i)}, leaf(i)}})
		}
	case 4: // empty containers and containers of one value
		t = &Tree{Kind: 'o'}
		for i := 0; i < n; i++ {
			k := &Tree{Kind: "ao"[r.N(2)]}
			if r.P(1, 3) {
				if k.Kind == 'o' {
					k.Keys = []string{"x"}
				}
				k.Kids = []*Tree{leaf(i)}
			}
			t.Keys = append(t.Keys, "c"+strconv.Itoa(i))
			t.Kids = append(t.Kids, k)
		}
	default: // a small tree with a large container inside
		in := &Tree{Kind: "ao"[r.N(2)]}
		for i := 0; i < n; i++ {
			if in.Kind == 'o' {
				in.Keys = append(in.Keys, "m"+strconv.Itoa(i))
			}
			in.Kids = append(in.Kids, leaf(i))
		}
		budget := r.Range(2, minInt(o.Nodes, 10))
		t = genNode(r, o, &budget, 0)
		if t.Kind != 'a' && t.Kind != 'o' {
			t = &Tree{Kind: 'a', Kids: []*Tree{t}}
		}
		for k := r.N(3); k >= 0; k-- {
			p := &Tree{Kind: t.Kind, Keys: t.Keys, Kids: t.Kids}
			if p.Kind == 'o' {
				p.Keys = append(p.Keys, "in"+strconv.Itoa(k))
			}
			p.Kids = append(p.Kids, in)
			t = &Tree{Kind: "ao"[r.N(2)]}
			if t.Kind == 'o' {
				t.Keys = []string{"p"}
			}
			t.Kids = []*Tree{p}
			if k > 0 {
				in = leaf(k)
			}
		}
	}
	return t
}

func (t *Tree) add(r *Rng, o *GenOpt, k *Tree) {
	if t.Kind == 'o' {
		key := genKey(r, o)
		if o.Unique {
			for try := 0; t.hasKey(key); try++ {
				key = genKey(r, o) + strconv.Itoa(try+len(t.Keys))
			}
		} else if len(t.Keys) > 0 && r.P(1, 30) {
			key = t.Keys[r.N(len(t.Keys))]
		}
		t.Keys = append(t.Keys, key)
	}
	t.Kids = append(t.Kids, k)
}

func (t *Tree) hasKey(key string) bool {
	u := refUnescape(key)
	for _, k := range t.Keys {
		if k == key || refUnescape(k) == u {
			return true
		}
	}
	return false
}

func genNode(r *Rng, o *GenOpt, budget *int, depth int) *Tree {
	*budget--
	if *budget <= 0 || depth > 0 && r.P(1, 2) {
		if r.P(1, 8) || o.EmptyHeavy && r.P(1, 3) {
			return &Tree{Kind: "ao"[r.N(2)]}
		}
		return genScalar(r, o)
	}
	t := &Tree{Kind: "aoo"[r.N(3)]}
	for n := r.N(7); n > 0 && *budget > 0; n-- {
		t.add(r, o, genNode(r, o, budget, depth+1))
	}
	return t
}

// refUnescape is the meaning of the contents of a valid JSON string by encoding/json.
func refUnescape(raw string) string {
	if strings.IndexByte(raw, '\\') < 0 {
		return raw
	}
	var s string
	if err := json.Unmarshal([]byte(`"`+raw+`"`), &s); err != nil {
		panic(broken(fmt.Sprintf("refUnescape(%q): %v", raw, err)))
	}
	return s
}

// ---- reference parser ----

// refParse parses strict JSON at the start of s and returns the tree and the offset after it.
// It is written from RFC 8259 and shares nothing with the code under test.
func refParse(s string, i int) (*Tree, int, error) {
	return refParseDepth(s, i, 0)
}

func refSpace(s string, i int) int {
	for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
		i++
	}
	return i
}

func refParseDepth(s string, i, depth int) (*Tree, int, error) {
	bad := func(what string) (*Tree, int, error) {
		return nil, i, fmt.Errorf("invalid JSON at %d: %s", i, what)
	}
	i = refSpace(s, i)
	if i >= len(s) {
		return bad("end of input")
	}
	switch c := s[i]; {
	case c == '{' || c == '[':
		t := &Tree{Kind: 'a'}
		end := byte(']')
		if c == '{' {
			t.Kind, end = 'o', '}'
		}
		i = refSpace(s, i+1)
		if i < len(s) && s[i] == end {
			return t, i + 1, nil
		}
		for {
			if c == '{' {
				i = refSpace(s, i)
				if i >= len(s) || s[i] != '"' {
					return bad("no key")
				}
				j, err := refString(s, i+1)
				if err != nil {
					return nil, i, err
				}
				t.Keys = append(t.Keys, s[i+1:j])
				i = refSpace(s, j+1)
				if i >= len(s) || s[i] != ':' {
					return bad("no colon")
				}
				i++
			}
			k, j, err := refParseDepth(s, i, depth+1)
			if err != nil {
				return nil, j, err
			}
			t.Kids = append(t.Kids, k)
			i = refSpace(s, j)
			if i >= len(s) {
				return bad("end of input")
			}
			if s[i] == end {
				return t, i + 1, nil
			}
			if s[i] != ',' {
				return bad("no comma")
			}
			i++
		}
	case c == '"':
		j, err := refString(s, i+1)
		if err != nil {
			return nil, i, err
		}
		return &Tree{Kind: 's', Raw: s[i+1 : j]}, j + 1, nil
	case strings.HasPrefix(s[i:], "true"):
		return &Tree{Kind: 'b', Raw: "true"}, i + 4, nil
	case strings.HasPrefix(s[i:], "false"):
		return &Tree{Kind: 'b', Raw: "false"}, i + 5, nil
	case strings.HasPrefix(s[i:], "null"):
		return &Tree{Kind: 'n', Raw: "null"}, i + 4, nil
	case c == '-' || '0' <= c && c <= '9':
		j := refNumber(s, i)
		if j < 0 {
			return bad("number")
		}
		return &Tree{Kind: '0', Raw: s[i:j]}, j, nil
	}
	return bad("unknown token")
}

// refString returns the offset of the closing quote of string contents starting at i.
func refString(s string, i int) (int, error) {
	for ; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"':
			return i, nil
		case c < ' ':
			return i, fmt.Errorf("control byte in string at %d", i)
		case c == '\\':
			if i++; i >= len(s) {
				return i, fmt.Errorf("end of input in string")
			}
			switch s[i] {
			case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
			case 'u':
				for k := 1; k <= 4; k++ {
					if i+k >= len(s) || !strings.ContainsRune("0123456789abcdefABCDEF", rune(s[i+k])) {
						return i, fmt.Errorf("invalid escape at %d", i)
					}
				}
				i += 4
			default:
				return i, fmt.Errorf("invalid escape at %d", i)
			}
		}
	}
	return i, fmt.Errorf("end of input in string")
}

func refNumber(s string, i int) int {
	dig := func() int {
		n := 0
		for i < len(s) && '0' <= s[i] && s[i] <= '9' {
			i++
			n++
		}
		return n
	}
	if i < len(s) && s[i] == '-' {
		i++
	}
	start := i
	if n := dig(); n == 0 || n > 1 && s[start] == '0' {
		return -1
	}
	if i < len(s) && s[i] == '.' {
		i++
		if dig() == 0 {
			return -1
		}
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			i++
		}
		if dig() == 0 {
			return -1
		}
	}
	return i
}

// refDoc parses a whole text.
func refDoc(s string) (*Tree, error) {
	t, i, err := refParse(s, 0)
	if err != nil {
		return nil, err
	}
	if i = refSpace(s, i); i != len(s) {
		return nil, fmt.Errorf("trailing data at %d", i)
	}
	return t, nil
}

// equalTree compares trees. Keys of objects are compared without order if unordered.
func equalTree(a, b *Tree, unordered bool) string {
	if a.Kind != b.Kind {
		return fmt.Sprintf("kind %c != %c", a.Kind, b.Kind)
	}
	if a.Raw != b.Raw {
		return fmt.Sprintf("literal %q != %q", clip(a.Raw, 200), clip(b.Raw, 200))
	}
	if len(a.Kids) != len(b.Kids) {
		return fmt.Sprintf("%d values != %d values", len(a.Kids), len(b.Kids))
	}
	if a.Kind == 'o' && unordered {
		m := map[string]int{}
		for i, k := range b.Keys {
			m[k] = i
		}
		for i, k := range a.Keys {
			j, ok := m[k]
			if !ok {
				return fmt.Sprintf("key %q is missing", k)
			}
			if d := equalTree(a.Kids[i], b.Kids[j], true); d != "" {
				return fmt.Sprintf("at key %q: %s", k, d)
			}
		}
		return ""
	}
	for i := range a.Kids {
		if a.Kind == 'o' && a.Keys[i] != b.Keys[i] {
			return fmt.Sprintf("key %d: %q != %q", i, a.Keys[i], b.Keys[i])
		}
		if d := equalTree(a.Kids[i], b.Kids[i], unordered); d != "" {
			return fmt.Sprintf("at value %d: %s", i, d)
		}
	}
	return ""
}

// ---- observation of nodes ----

// observe reads the tree of a node with nothing but its iterators.
// limit bounds the number of nodes so that a cycle is reported and not followed for ever.
func observe(n njson.Node, limit *int) (*Tree, error) {
	if *limit--; *limit < 0 {
		return nil, fmt.Errorf("more nodes than were ever created: the tree has a cycle or shares nodes")
	}
	raw, typ := n.Data()
	t := &Tree{Kind: typeKind(typ), Raw: raw}
	if t.Kind == '?' {
		return nil, fmt.Errorf("invalid node of type %d raw %q", typ, raw)
	}
	iter := n.Values()
	for iter.Next() {
		if t.Kind == 'o' {
			t.Keys = append(t.Keys, iter.Key())
		}
		k, err := observe(iter.Value(), limit)
		if err != nil {
			return nil, err
		}
		t.Kids = append(t.Kids, k)
	}
	return t, nil
}

// sameAs checks a node against its model with every reader of the node.
func sameAs(n njson.Node, t *Tree) string {
	if n.Type() != kindTypes[t.Kind] {
		return fmt.Sprintf("type %v, want %v", n.Type(), kindTypes[t.Kind])
	}
	if n.Raw() != t.Raw {
		return fmt.Sprintf("raw %q, want %q", clip(n.Raw(), 300), clip(t.Raw, 300))
	}
	if raw, typ := n.Data(); raw != t.Raw || typ != kindTypes[t.Kind] {
		return fmt.Sprintf("data %q %v, want %q", clip(raw, 300), typ, clip(t.Raw, 300))
	}
	iter := n.Values()
	if iter.Len() != len(t.Kids) {
		return fmt.Sprintf("%d values, want %d", iter.Len(), len(t.Kids))
	}
	for i, k := range t.Kids {
		if !iter.Next() {
			return fmt.Sprintf("iteration ended after %d of %d values", i, len(t.Kids))
		}
		if t.Kind == 'o' && iter.Key() != t.Keys[i] {
			return fmt.Sprintf("key %d is %q, want %q", i, clip(iter.Key(), 200), clip(t.Keys[i], 200))
		}
		if d := sameAs(iter.Value(), k); d != "" {
			if t.Kind == 'o' {
				return fmt.Sprintf("at %q: %s", clip(t.Keys[i], 60), d)
			}
			return fmt.Sprintf("at [%d]: %s", i, d)
		}
	}
	if iter.Next() {
		return fmt.Sprintf("more than %d values", len(t.Kids))
	}
	return ""
}
