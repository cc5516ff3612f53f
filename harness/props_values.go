package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/numjson"
	"github.com/alxarch/njson/strjson"
	"github.com/alxarch/njson/unjson"
)

func init() {
	register(&Prop{ID: "C12", MinSig: 1000,
		Rule: "a case is a generated tree converted to generic Go values and compared with what encoding/json makes of the same text; distinct by tree shape",
		Stages: []Stage{
			{Name: "numbers", Quick: 20000, Thorough: 800000, Fn: c12Numbers},
			{Name: "trees", Quick: 600000, Thorough: 24000000, Fn: c12Trees},
			{Name: "bulk", Quick: 6000, Thorough: 160000, Fn: bulk(c12Trees, 3, 1<<20)},
		}})
	register(&Prop{ID: "C13", MinSig: 1000,
		Rule: "a case is a block of number texts: enumerated short texts, random literals, exact midpoints of adjacent floats and their neighbours; distinct by text; the oracle is strconv and the number grammar of RFC 8259",
		Stages: []Stage{
			{Name: "short", Quick: 17 * 17, Thorough: 17 * 17, Fn: c13Short},
			{Name: "random", Quick: 200000, Thorough: 8000000, Fn: c13Random},
			{Name: "halfway", Quick: 60000, Thorough: 2000000, Fn: c13Halfway},
			{Name: "malformed", Quick: 100000, Thorough: 4000000, Fn: c13Malformed},
			{Name: "bulk", Quick: 4000, Thorough: 160000, Fn: bulk(c13Random, 3, 1<<17)},
			{Name: "bulk-malformed", Quick: 4000, Thorough: 160000, Fn: bulk(c13Malformed, 3, 1<<14)},
		}})
	register(&Prop{ID: "C14", MinSig: 1000,
		Rule: "a case is an integer in plain notation around the limits of the integer types or a number in another notation with a known exact value; distinct by text; the oracle is math/big",
		Stages: []Stage{
			{Name: "plain", Quick: 2400000, Thorough: 96000000, Fn: c14Plain},
			{Name: "small", Quick: 400, Thorough: 4000, Fn: c14Small},
			{Name: "notations", Quick: 1800000, Thorough: 72000000, Fn: c14Notations},
			{Name: "malformed", Quick: 720000, Thorough: 24000000, Fn: c14Malformed},
			{Name: "bulk", Quick: 6000, Thorough: 240000, Fn: bulk(c14Plain, 1, 1<<16)},
			{Name: "bulk-notations", Quick: 6000, Thorough: 240000, Fn: bulk(c14Notations, 1, 1<<12)},
		}})
	register(&Prop{ID: "C15", MinSig: 1000,
		Rule: "a case is a block of finite floats of random bits, boundary values and short decimals, in both precisions; distinct by bits; the oracles are encoding/json's format and reading the text back",
		Stages: []Stage{
			{Name: "floats", Quick: 720000, Thorough: 36000000, Fn: c15Floats},
			{Name: "powers", Quick: 700, Thorough: 700, Fn: c15Powers},
		}})
	register(&Prop{ID: "C16", MinSig: 1000,
		Rule: "a case is a block of strings: every rune, every pair of bytes, and random text with special runes and invalid bytes at every offset; distinct by string; the oracle is a strict JSON string scanner and encoding/json",
		Stages: []Stage{
			{Name: "runes", Quick: 0x110000 / 0x1000, Thorough: 0x110000 / 0x1000, Fn: c16Runes},
			{Name: "pairs", Quick: 256, Thorough: 256, Fn: c16Pairs},
			{Name: "random", Quick: 1200000, Thorough: 48000000, Fn: c16Random},
			{Name: "bulk", Quick: 4000, Thorough: 160000, Fn: bulk(c16Random, 1, 1<<21)},
		}})
	register(&Prop{ID: "C17", MinSig: 1000,
		Rule: "a case is a block of escaped texts: every \\u escape, pairs of surrogates, valid random contents and arbitrary bytes; distinct by text; the oracle is encoding/json for valid contents and agreement of the three forms for the rest",
		Stages: []Stage{
			{Name: "units", Quick: 256, Thorough: 256, Fn: c17Units},
			{Name: "pairs", Quick: 256, Thorough: 4096, Fn: c17Pairs},
			{Name: "valid", Quick: 1200000, Thorough: 48000000, Fn: c17Valid},
			{Name: "hostile", Quick: 1200000, Thorough: 48000000, Fn: c17Hostile},
			{Name: "short", Quick: 1331, Thorough: 1331, Fn: c17Short},
			{Name: "inverse", Quick: 600000, Thorough: 24000000, Fn: c17Inverse},
			{Name: "bulk", Quick: 4000, Thorough: 160000, Fn: bulk(c17Valid, 1, 1<<21)},
			{Name: "bulk-hostile", Quick: 4000, Thorough: 160000, Fn: bulk(c17Hostile, 1, 1<<15)},
			{Name: "bulk-inverse", Quick: 2000, Thorough: 80000, Fn: bulk(c17Inverse, 1, 1<<21)},
		}})
	register(&Prop{ID: "C33", MinSig: 200,
		Rule: "all 256 masks and all pairs of a node kind and a wanted mask are enumerated; and values of one type are decoded to Go types of another at any depth, where the error must name both; distinct by mask, or by type and texts",
		Stages: []Stage{
			{Name: "masks", Quick: 256, Thorough: 256, Fn: c33Masks},
			{Name: "decode", Quick: 20000, Thorough: 200000, Fn: c33Decode},
		}})
}

// ---- C12 ----

// c12Numbers puts a number that may not fit a float64 somewhere in a tree.
func c12Numbers(c *Case) {
	t := genTree(c.R, GenOpt{Nodes: 12})
	nums := 0
	var walk func(t *Tree)
	walk = func(t *Tree) {
		if t.Kind != 'o' && t.Kind != 'a' && c.R.P(1, 1+nums) {
			e := 300 + c.R.N(20)
			raw := c.R.Pick("", "-") + strconv.Itoa(1+c.R.N(9))
			switch c.R.N(4) {
			case 0:
				raw += strings.Repeat(strconv.Itoa(c.R.N(10)), e)
			case 1:
				raw += c.R.Pick("e", "E", "e+", ".5e", ".7976931348623157e", ".7976931348623159e") + strconv.Itoa(e)
			case 2:
				raw += strings.Repeat("0", c.R.N(400)) + c.R.Pick("e-", "e+", "e") + strconv.Itoa(c.R.N(700))
			default:
				raw += "." + strings.Repeat("0", c.R.N(300)) + "1" + "e" + strconv.Itoa(e+c.R.N(300))
			}
			if t.Kind == '0' {
				nums++
			}
			if nums == 1 || t.Kind != '0' {
				*t = Tree{Kind: '0', Raw: raw}
			}
		}
		for _, k := range t.Kids {
			walk(k)
		}
	}
	walk(t)
	s := t.spaced(c.R, c.R.N(2))
	if t.Kind == '0' {
		s = t.Raw
	}
	var want interface{}
	wantErr := json.Unmarshal([]byte(s), &want)
	d := freshDoc(c.R)
	defer d.Close()
	n, _, err := d.Parse(s)
	if err != nil {
		c.Failf("%v", err)
	}
	c.Eval(2)
	got, ok := n.ToInterface()
	if ok != (wantErr == nil) {
		c.Failf("generic value of %q: %v, encoding/json: %v", clip(s, 600), ok, wantErr)
	}
	var x interface{}
	if err := unjson.UnmarshalFromNode(n, &x); (err == nil) != ok {
		c.Failf("generic value of %q: %v, encoding/json: %v", clip(s, 600), err, wantErr)
	}
	c.Sig("numbers", uint64(boolInt(ok)), hashStr(s))
	if !ok {
		c.Count("numbers out of range", 1)
		return
	}
	if diff := deepDiff(got, want); diff != "" {
		c.Failf("generic value differs: %s\n%q", diff, clip(s, 600))
	}
	if diff := deepDiff(x, want); diff != "" {
		c.Failf("generic value differs: %s\n%q", diff, clip(s, 600))
	}
}

func c12Trees(c *Case) {
	t := genTree(c.R, GenOpt{Nodes: 80})
	s := t.spaced(c.R, c.R.N(2))
	if t.Kind == '0' {
		s = t.Raw
	}
	var want interface{}
	if err := json.Unmarshal([]byte(s), &want); err != nil {
		c.Broken("%v: %q", err, s)
	}
	d := freshDoc(c.R)
	n, _, err := d.Parse(s)
	if err != nil {
		c.Failf("%v", err)
	}
	got, ok := n.ToInterface()
	c.Eval(1)
	if !ok {
		c.Failf("no generic value of %q", clip(s, 600))
	}
	if diff := deepDiff(got, want); diff != "" {
		c.Failf("generic value differs: %s\n%q", diff, clip(s, 600))
	}
	var x interface{}
	switch c.R.N(4) {
	case 0:
		err = unjson.UnmarshalFromNode(n, &x)
	case 1:
		err = unjson.Unmarshal([]byte(s), &x)
	case 2:
		err = unjson.UnmarshalFromString(s, &x)
	default:
		x, ok = d.Root().ToInterface()
	}
	if err != nil || !ok {
		c.Failf("generic value: %v\n%q", err, clip(s, 600))
	}
	if diff := deepDiff(x, want); diff != "" {
		c.Failf("generic value differs: %s\n%q", diff, clip(s, 600))
	}
	// The value is a snapshot
	n.SetNull()
	d.Close()
	if diff := deepDiff(got, want); diff != "" {
		c.Failf("generic value changed with the document: %s\n%q", diff, clip(s, 600))
	}
	c.Sig("tree", t.shape())
	c.Sample("text", "%q", s)
}

// ---- C13 ----

// jsonNumber classifies s: 1 a JSON number, 0 malformed, -1 a number with more leading zeros
// than JSON allows, for which nothing is claimed.
func jsonNumber(s string) int {
	if refNumber(s, 0) == len(s) && len(s) > 0 {
		return 1
	}
	t := strings.TrimPrefix(s, "-")
	for len(t) > 1 && t[0] == '0' && '0' <= t[1] && t[1] <= '9' {
		t = t[1:]
	}
	if t != "" && t != strings.TrimPrefix(s, "-") && refNumber(t, 0) == len(t) {
		return -1
	}
	return 0
}

func checkFloat(c *Case, s string) {
	c.Eval(1)
	got := numjson.ParseFloat(s)
	switch jsonNumber(s) {
	case 1:
		want, err := strconv.ParseFloat(s, 64)
		if err != nil && !math.IsInf(want, 0) {
			c.Broken("%q: %v", s, err)
		}
		if math.Float64bits(got) != math.Float64bits(want) {
			c.Failf("float of %q is %v (%#x), want %v (%#x)", s, got, math.Float64bits(got), want, math.Float64bits(want))
		}
		n, tail, err := new(njson.Document).Parse(s)
		if err != nil || tail != "" {
			c.Failf("%q does not parse: %v", s, err)
		}
		f, ok := n.ToFloat()
		if !ok || math.Float64bits(f) != math.Float64bits(want) {
			c.Failf("node float of %q is %v %v, want %v", s, f, ok, want)
		}
		c.Count("numbers", 1)
	case 0:
		if got == got {
			c.Failf("float of malformed %q is %v, want NaN", s, got)
		}
		c.Count("malformed", 1)
	}
}

const numAlphabet = "0123456789+-.eE x"

func c13Short(c *Case) {
	a := numAlphabet
	pre := string([]byte{a[c.Idx%17], a[c.Idx/17]})
	if c.Idx < 17 {
		checkFloat(c, a[c.Idx:c.Idx+1])
		checkFloat(c, "")
	}
	depth := 3
	if c.Env.Tier == "thorough" {
		depth = 5
	}
	var rec func(s string, d int)
	rec = func(s string, d int) {
		checkFloat(c, s)
		if d == 0 {
			return
		}
		for i := range a {
			rec(s+a[i:i+1], d-1)
		}
	}
	rec(pre, depth)
	c.Sig("short " + pre)
}

// genNumWide makes JSON numbers of all magnitudes, with overflow and underflow.
func genNumWide(r *Rng) string {
	if n := r.bulkN(2, 1<<17); n > 0 {
		// Many digits in front of the point, after it or in the exponent
		sign, d := r.Pick("", "-"), strconv.Itoa(1+r.N(9))
		fill := func(n int) string {
			if r.P(1, 3) {
				return strings.Repeat(r.Pick("0", "9", "5"), n-1) + r.Pick("0", "1", "9")
			}
			return digits(r, n)
		}
		switch r.N(6) {
		case 0:
			return sign + d + fill(n)
		case 1:
			return sign + d + fill(n) + ".0"
		case 2:
			return sign + r.Pick("0", d) + "." + fill(n)
		case 3:
			return sign + d + fill(n) + r.Pick("e-", "E-") + strconv.Itoa(n-r.N(30))
		case 4:
			return sign + "0." + strings.Repeat("0", n) + d + r.Pick("e", "E+") + strconv.Itoa(n+r.N(30))
		default:
			return sign + d + r.Pick("e", "e-", "E+", "e0") + strings.Repeat("0", n) + strconv.Itoa(r.N(20))
		}
	}
	switch r.N(5) {
	case 0:
		return genNum(r)
	case 1: // digits with a point anywhere
		n := r.Range(1, 40)
		d := strings.TrimLeft(digits(r, n), "0")
		if d == "" {
			d = "0"
		}
		if p := r.N(len(d)); p > 0 {
			d = d[:p] + "." + d[p:]
		}
		if r.P(1, 2) {
			d += r.Pick("e", "E", "e+", "e-", "E-") + strconv.Itoa(r.N(400))
		}
		return r.Pick("", "-") + d
	case 2:
		return r.Pick("", "-") + "0." + strings.Repeat("0", r.N(30)) + digits(r, r.Range(1, 25)) + r.Pick("", "e5", "e-300", "E+20", "e308", "e-10")
	case 3: // 14 to 20 significant digits and a small exponent
		d := strconv.Itoa(r.Range(1, 9)) + digits(r, r.Range(12, 20))
		return r.Pick("", "-") + d[:1+r.N(len(d)-1)] + r.Pick("", "."+digits(r, r.Range(1, 5))) + r.Pick("", "e"+strconv.Itoa(r.N(60)-30))
	default:
		f := math.Float64frombits(r.U64())
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return "1"
		}
		return strconv.FormatFloat(f, "efg"[r.N(2)], r.Range(-1, 25), 64)
	}
}

func c13Random(c *Case) {
	for i := 0; i < 5; i++ {
		s := genNumWide(c.R)
		if jsonNumber(s) != 1 {
			continue
		}
		checkFloat(c, s)
		c.Sig("random " + s)
		c.Sample("number", "%s", s)
	}
}

// c13Halfway makes decimals at and around the exact midpoints of adjacent floats.
func c13Halfway(c *Case) {
	r := c.R
	var f float64
	switch r.N(4) {
	case 0:
		f = math.Float64frombits(r.U64() &^ (1 << 63))
	case 1:
		f = float64(r.U64() >> r.N(12)) // integers beyond 2^53
	case 2:
		f = float64(r.N(1000000)) / math.Pow10(r.N(12))
	default:
		f = math.Ldexp(1+r.float(), r.N(120)-60)
	}
	if math.IsNaN(f) || math.IsInf(f, 0) || f == math.MaxFloat64 {
		return
	}
	g := math.Nextafter(f, math.Inf(1))
	mid := new(big.Float).SetPrec(2000).SetFloat64(f)
	mid.Add(mid, new(big.Float).SetPrec(2000).SetFloat64(g))
	mid.Quo(mid, big.NewFloat(2).SetPrec(2000))
	for _, form := range []byte{'e', 'f'} {
		if form == 'f' && (f > 1e40 || f < 1e-30) {
			continue
		}
		s := mid.Text(form, -1)
		if form == 'e' {
			s = mid.Text('e', 800)
			i := strings.IndexByte(s, 'e')
			m := strings.TrimRight(s[:i], "0")
			s = strings.TrimSuffix(m, ".") + s[i:]
		}
		m, e := s, ""
		if i := strings.IndexByte(s, 'e'); i >= 0 {
			m, e = s[:i], s[i:]
		}
		dot := strings.IndexByte(m, '.') >= 0
		variants := []string{m + e}
		if dot {
			variants = append(variants, m+"1"+e, m+"000000000000000000000001"+e, m[:len(m)-1]+string(m[len(m)-1]-1)+"9"+e)
			for _, k := range []int{15, 16, 17, 18, 19, 20, 21} {
				if len(m) > k+1 {
					variants = append(variants, m[:k+1]+e)
				}
			}
		} else {
			variants = append(variants, m+".0"+e, m+".00000000001"+e)
			if len(m) < 300 {
				variants = append(variants, m+".5"+e)
			}
		}
		for _, v := range variants {
			if jsonNumber(v) == 1 {
				checkFloat(c, v)
				checkFloat(c, "-"+v)
			}
		}
	}
	c.Sig("halfway", math.Float64bits(f))
}

// float is in [0, 1)
func (r *Rng) float() float64 { return float64(r.U64()>>11) / (1 << 53) }

// spoil breaks a number.
func spoil(r *Rng, s string) string {
	b := []byte(s)
	for n := 1 + r.N(2); n > 0; n-- {
		x := "0123456789+-.eE xXp_,nNaIfi\x00\xff\""[r.N(30)]
		i := r.N(len(b) + 1)
		switch {
		case r.P(1, 3) && i < len(b):
			b[i] = x
		case r.P(1, 4) && len(b) > 1 && i < len(b):
			b = append(b[:i:i], b[i+1:]...)
		default:
			b = append(b[:i:i], append([]byte{x}, b[i:]...)...)
		}
	}
	return string(b)
}

var badNumbers = []string{"", "-", "+", "+1", ".", ".5", "-.5", "1.", "1.e5", "1e", "1e+", "1e-", "1E", "1.5e", "1.5e+", "e5", "-e5", "0x10", "0X1p-2", "1_000", "Inf", "-Inf", "+Inf", "Infinity", "infinity", "inf", "NaN", "nan", "-NaN", "1 ", " 1", "1\n", "1.5 ", "1e5 ", "1e5x", "1e5.5", "1e5e5", "1ee5", "1e+-5", "1e--5", "1e++5", "1e-+5", "1.2.3", "1..2", "--1", "-+1", "1-", "1+1", "1,5", "true", "null", "\"1\"", "１", "12345678901234567890x", "12345678901234567890.", "1234567890123456.5x", "0.12345678901234567890 ", "123456789012345678901234567890e", "1e400x", "1.7976931348623157e309e", "0b1", "0o7", "1p5", "1f", "1d"}

func c13Malformed(c *Case) {
	if c.Idx < len(badNumbers) {
		checkFloat(c, badNumbers[c.Idx])
		if jsonNumber(badNumbers[c.Idx]) != 0 {
			c.Broken("%q is not malformed", badNumbers[c.Idx])
		}
	}
	for i := 0; i < 4; i++ {
		s := spoil(c.R, genNumWide(c.R))
		checkFloat(c, s)
		c.Sig("malformed " + s)
	}
}

// ---- C14 ----

var bigLimits = []string{"127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740991", "9007199254740992", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1000000000000000000", "10000000000000000000", "100000000000000000000", "99999999999999999999", "340282366920938463463374607431768211456", "0", "10", "36893488147419103232", "27670116110564327424", "184467440737095516150", "184467440737095516160"}

// checkInteger checks both integer conversions against an exact value. v is nil when the text
// has no integer value.
func checkInteger(c *Case, s string, v *big.Int, negZero bool) {
	c.Eval(1)
	type result struct {
		i   int64
		iok bool
		u   uint64
		uok bool
	}
	var got [2]result
	got[0].i, got[0].iok = numjson.ParseInt(s)
	got[0].u, got[0].uok = numjson.ParseUint(s)
	n, _, err := new(njson.Document).Parse(s)
	if err == nil && n.Type() == njson.TypeNumber && n.Raw() == s {
		got[1].i, got[1].iok = n.ToInt()
		got[1].u, got[1].uok = n.ToUint()
	} else {
		got[1] = got[0]
	}
	for k, g := range got {
		what := []string{"text", "node"}[k]
		if v == nil {
			if g.iok || g.uok {
				c.Failf("%s %q without an integer value converts to int %d %v uint %d %v", what, s, g.i, g.iok, g.u, g.uok)
			}
			continue
		}
		if g.iok != v.IsInt64() || g.iok && g.i != v.Int64() {
			c.Failf("%s %q converts to int %d %v, want %v", what, s, g.i, g.iok, v)
		}
		if negZero {
			continue
		}
		if g.uok != v.IsUint64() || g.uok && g.u != v.Uint64() {
			c.Failf("%s %q converts to uint %d %v, want %v", what, s, g.u, g.uok, v)
		}
	}
}

func c14Plain(c *Case) {
	r := c.R
	v := new(big.Int)
	if n := r.bulkN(1, 3000); n > 0 {
		v.SetString("1"+digits(r, n), 10)
		s := v.String()
		checkInteger(c, s, v, false)
		checkInteger(c, "-"+s, v.Neg(v), false)
		c.Sig("long " + s)
		return
	}
	switch r.N(4) {
	case 0:
		v.SetString(bigLimits[r.N(len(bigLimits))], 10)
		v.Add(v, big.NewInt(int64(r.N(21)-10)))
	case 1:
		v.SetUint64(r.U64() >> r.N(64))
	case 2:
		v.SetString(digits(r, r.Range(1, 40)), 10)
	default: // near powers of two
		v.Lsh(big.NewInt(1), uint(r.N(70)))
		v.Add(v, big.NewInt(int64(r.N(7)-3)))
	}
	if r.P(1, 2) {
		v.Neg(v)
	}
	s := v.String()
	checkInteger(c, s, v, false)
	c.Sig("plain " + s)
	c.Sample("integer", "%s", s)
	if c.Idx == 0 {
		checkInteger(c, "-0", new(big.Int), true)
	}
}

func c14Small(c *Case) {
	for i := 0; i < 500; i++ {
		k := c.Idx*500 + i
		for _, v := range []int64{int64(k), -int64(k)} {
			checkInteger(c, strconv.FormatInt(v, 10), big.NewInt(v), false)
		}
	}
	c.Sig("small", uint64(c.Idx))
}

// c14Notations writes values with fractions and exponents.
func c14Notations(c *Case) {
	s := genNumWide(c.R)
	if c.R.P(2, 3) { // an integer written another way
		v := new(big.Int).SetUint64(c.R.U64() >> (11 + c.R.N(53)))
		if c.R.P(1, 3) { // at and around the limits of the integer types
			v.Lsh(big.NewInt(1), []uint{31, 32, 52, 53, 62, 63, 63, 63, 64, 64, 64, 65, 66, 70, 96, 127, 128}[c.R.N(17)])
			v.Add(v, big.NewInt([]int64{0, 0, 0, 1, -1, 512, -512, 1024, -1024, 2048, -2048, 4096, -4096}[c.R.N(13)]))
		}
		s = v.String()
		switch c.R.N(4) {
		case 0:
			s += ".0"
		case 1:
			s += "e" + c.R.Pick("0", "+0", "-0", "00")
		case 2:
			s += strings.Repeat("0", c.R.N(4)) + "e-0"
		default:
			if k := len(s); k > 1 && s[0] != '-' {
				s = s[:1] + "." + s[1:] + "E" + strconv.Itoa(k-1)
			}
		}
		if s[0] != '-' {
			s = c.R.Pick("", "-") + s
		}
	}
	if jsonNumber(s) != 1 || strings.IndexAny(s, ".eE") < 0 {
		return
	}
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		if e, err := strconv.Atoi(s[i+1:]); err != nil || e > 400 || e < -400 {
			return
		}
	}
	exact, ok := new(big.Rat).SetString(s)
	if !ok {
		c.Broken("big.Rat %q", s)
	}
	if exact.IsInt() {
		v := exact.Num()
		if v.BitLen() > 53 {
			// Beyond what is claimed to convert, but it must not be wrapped
			f, _ := exact.Float64()
			checkRange(c, s, f, v)
			c.Sig("limit " + s)
			c.Count("beyond 2^53", 1)
			return
		}
		checkInteger(c, s, v, v.Sign() == 0 && s[0] == '-')
		c.Count("integers", 1)
	} else {
		f, _ := exact.Float64()
		if f == math.Trunc(f) {
			return // rounds to an integer
		}
		checkInteger(c, s, nil, false)
		c.Count("fractions", 1)
	}
	c.Sig("notation " + s)
	c.Sample("notation", "%s", s)
}

// checkRange checks that a number whose nearest float64 f is out of range is refused, and that
// what is accepted has the value of the number if a float64 can have it.
func checkRange(c *Case, s string, f float64, v *big.Int) {
	c.Eval(2)
	exact := new(big.Int).Lsh(big.NewInt(1), 1024)
	if !math.IsInf(f, 0) {
		exact, _ = big.NewFloat(f).Int(nil)
	}
	same := exact.Cmp(v) == 0
	i, ok := numjson.ParseInt(s)
	if ok && (!exact.IsInt64() || same && i != v.Int64()) {
		c.Failf("%q converts to int %d", s, i)
	}
	u, ok := numjson.ParseUint(s)
	if ok && (!exact.IsUint64() || same && u != v.Uint64()) {
		c.Failf("%q converts to uint %d", s, u)
	}
	n, _, err := new(njson.Document).Parse(s)
	if err != nil {
		c.Failf("%q: %v", s, err)
	}
	if ni, nok := n.ToInt(); nok && (!exact.IsInt64() || same && ni != v.Int64()) {
		c.Failf("node %q converts to int %d", s, ni)
	}
	if nu, nok := n.ToUint(); nok && (!exact.IsUint64() || same && nu != v.Uint64()) {
		c.Failf("node %q converts to uint %d", s, nu)
	}
}

func c14Malformed(c *Case) {
	s := spoil(c.R, strings.TrimPrefix(strconv.FormatInt(genInt(c.R), 10), c.R.Pick("", "-")))
	if c.Idx < len(badNumbers) {
		s = badNumbers[c.Idx]
	}
	if jsonNumber(s) != 0 {
		return
	}
	c.Eval(1)
	if i, ok := numjson.ParseInt(s); ok {
		c.Failf("malformed %q converts to int %d", s, i)
	}
	if i, ok := numjson.ParseUint(s); ok {
		c.Failf("malformed %q converts to uint %d", s, i)
	}
	c.Sig("malformed " + s)
}

// ---- C15 ----

func checkFormat(c *Case, f float64) {
	c.Eval(1)
	want := refFloat(f)
	got := numjson.FormatFloat(f, 64)
	if got != want {
		c.Failf("format of %v (%#x) is %q, want %q", f, math.Float64bits(f), got, want)
	}
	if back := numjson.ParseFloat(got); math.Float64bits(back) != math.Float64bits(f) {
		c.Failf("%v (%#x) is formatted as %q and read back as %v", f, math.Float64bits(f), got, back)
	}
	for _, pre := range []string{"", "e-0", "1e-0", genBefore(c.R)} {
		buf := make([]byte, len(pre), len(pre)+c.R.N(40))
		copy(buf, pre)
		if out := numjson.AppendFloat(buf, f, 64); string(out) != pre+want || string(buf) != pre {
			c.Failf("format of %v appended to %q: %q, want %q", f, clip(pre, 100), clipEnd(string(out)), clipEnd(pre+want))
		}
	}
	d := new(njson.Document)
	if raw := d.Number(f).Raw(); raw != want {
		c.Failf("number node of %v has %q, want %q", f, raw, want)
	}
	f32 := float32(f)
	if math.IsInf(float64(f32), 0) {
		return
	}
	b, err := json.Marshal(f32)
	if err != nil {
		c.Broken("%v", err)
	}
	if got := numjson.FormatFloat(float64(f32), 32); got != string(b) {
		c.Failf("32 bit format of %v is %q, want %q", f32, got, b)
	}
	if back := float32(numjson.ParseFloat(string(b))); math.Float32bits(back) != math.Float32bits(f32) {
		// double rounding of 32 bit values is not claimed
		c.Count("double rounding", 1)
	}
}

func c15Floats(c *Case) {
	for i := 0; i < 5; i++ {
		f := genFloat(c.R)
		if c.R.P(1, 4) {
			f = float64(math.Float32frombits(uint32(c.R.U64())))
			if math.IsNaN(f) || math.IsInf(f, 0) {
				continue
			}
		}
		checkFormat(c, f)
		c.Sig("float", math.Float64bits(f))
		c.Sample("float", "%v", f)
	}
}

func c15Powers(c *Case) {
	for _, m := range []float64{1, 1.5, 9.999999999999999, 5, 0.3} {
		f := m * math.Pow(10, float64(c.Idx-350))
		for _, f := range []float64{f, math.Nextafter(f, 0), math.Nextafter(f, math.Inf(1)), -f, math.Ldexp(m, c.Idx*3-1074)} {
			if !math.IsInf(f, 0) {
				checkFormat(c, f)
				c.Sig("float", math.Float64bits(f))
			}
		}
	}
}

// ---- C16 ----

func checkEscape(c *Case, s string) {
	c.Eval(1)
	want := s
	if !utf8.ValidString(s) {
		want = toValidUTF8(s)
	}
	for _, html := range []bool{false, true} {
		esc := strjson.Escaped(s, html, false)
		checkEscapedRaw(c, esc, want, html)
		if q := strjson.Escaped(s, html, true); q != `"`+esc+`"` {
			c.Failf("quoted escaped form of %q is %q, want %q in quotes", s, q, esc)
		}
		if out := strjson.AppendEscaped(nil, s, html); string(out) != esc {
			c.Failf("appended escaped form of %q is %q, want %q", s, out, esc)
		}
		pre := genBefore(c.R)
		buf := make([]byte, len(pre), len(pre)+c.R.N(len(s)+8))
		copy(buf, pre)
		if out := strjson.AppendEscaped(buf, s, html); string(out) != pre+esc || string(buf) != pre {
			c.Failf("escaped form of %q appended to %q is %q, want %q", s, clip(pre, 100), clipEnd(string(out)), clipEnd(pre+esc))
		}
	}
}

func c16Runes(c *Case) {
	for i := 0; i < 0x1000; i++ {
		r := rune(c.Idx*0x1000 + i)
		if r >= 0xd800 && r <= 0xdfff {
			continue
		}
		s := string(r)
		switch i % 4 {
		case 1:
			s = "a" + s
		case 2:
			s = s + "b"
		case 3:
			s = s + s
		}
		checkEscape(c, s)
		if i%64 == 0 {
			c.Sig("rune", uint64(r))
		}
	}
}

func c16Pairs(c *Case) {
	for b := 0; b < 256; b++ {
		checkEscape(c, string([]byte{byte(c.Idx), byte(b)}))
		c.Sig("pair", uint64(c.Idx), uint64(b))
	}
	checkEscape(c, string([]byte{byte(c.Idx)}))
	checkEscape(c, "")
}

func c16Random(c *Case) {
	s := hostileString(c.R)
	if c.R.P(1, 3) {
		s = genString(c.R, 2000)
	}
	checkEscape(c, s)
	c.Sig("string " + s)
	c.Sample("string", "%q", s)
}

// ---- C17 ----

// unescapeAll returns the unescaped form if all of the ways to get it agree.
func unescapeAll(c *Case, s string) string {
	c.Eval(1)
	got := strjson.Unescaped(s)
	if len(got) > len(s) {
		c.Failf("unescaped form of %q is longer than it: %q", s, got)
	}
	buf := make([]byte, len(s)+8)
	for i := range buf {
		buf[i] = 0xAA
	}
	if n := strjson.Unescape(buf[:len(s)], s); n < 0 || n > len(s) || string(buf[:n]) != got {
		c.Failf("unescaping %q to a buffer gives %d bytes %q, want %q", s, n, buf[:clampInt(n, 0, len(buf))], got)
	}
	for _, b := range buf[len(s):] {
		if b != 0xAA {
			c.Failf("unescaping %q wrote beyond the buffer", s)
		}
	}
	// A buffer that just holds the result has sufficient size
	for i := range buf {
		buf[i] = 0xAA
	}
	if n := strjson.Unescape(buf[:len(got)], s); n != len(got) || string(buf[:n]) != got {
		c.Failf("unescaping %q to a buffer of %d bytes gives %d bytes %q, want %q", s, len(got), n, buf[:clampInt(n, 0, len(buf))], got)
	}
	if b := buf[len(got)]; b != 0xAA {
		c.Failf("unescaping %q wrote beyond the buffer", s)
	}
	pre := genBefore(c.R)
	for _, room := range []int{0, len(s), c.R.N(len(s) + 4), len(s) + 64} {
		dst := make([]byte, len(pre), len(pre)+room)
		copy(dst, pre)
		if out := strjson.AppendUnescaped(dst, s); string(out) != pre+got || string(dst) != pre {
			c.Failf("unescaping %q after %q gives %q, want %q", s, clip(pre, 100), clipEnd(string(out)), clipEnd(pre+got))
		}
	}
	return got
}

// clipEnd keeps the start and the end of a long string.
func clipEnd(s string) string {
	if len(s) > 400 {
		return s[:150] + "..." + s[len(s)-250:]
	}
	return s
}

func clampInt(n, a, b int) int {
	if n < a {
		return a
	}
	if n > b {
		return b
	}
	return n
}

func checkUnescape(c *Case, raw string) {
	got := unescapeAll(c, raw)
	var want string
	if err := json.Unmarshal([]byte(`"`+raw+`"`), &want); err != nil {
		c.Broken("%q: %v", raw, err)
	}
	if got != want {
		c.Failf("unescaped form of %q is %q, want %q", raw, got, want)
	}
}

func c17Units(c *Case) {
	for i := 0; i < 256; i++ {
		u := c.Idx*256 + i
		f := []string{`\u%04x`, `\u%04X`}[i%2]
		checkUnescape(c, fmt.Sprintf(f, u))
		checkUnescape(c, fmt.Sprintf("a"+f+"b", u))
		checkUnescape(c, fmt.Sprintf(`\n`+f+`\\`, u))
	}
	c.Sig("units", uint64(c.Idx))
}

func c17Pairs(c *Case) {
	for i := 0; i < 64; i++ {
		hi, lo := 0xd800+c.R.N(0x800), 0xd800+c.R.N(0x800)
		switch c.R.N(6) {
		case 0:
			hi = 0xd7ff + c.R.N(3)
		case 1:
			lo = []int{0xdbff, 0xdc00, 0xdfff, 0xe000, 0x41, 0xd800}[c.R.N(6)]
		}
		for _, f := range []string{`\u%04x\u%04x`, `x\u%04X\u%04xy`, `\u%04x\u%04x\u0041`, `\u%04x \u%04x`, `\u%04x\n\u%04x`, `\u%04x\\u%04x`, `\u%04x\u%04x\ud83d\ude00`} {
			checkUnescape(c, fmt.Sprintf(f, hi, lo))
		}
		c.Sig("pair", uint64(hi), uint64(lo))
	}
}

func c17Valid(c *Case) {
	raw := genRaw(c.R)
	checkUnescape(c, raw)
	// the readers of a node agree
	n, _, err := new(njson.Document).Parse(`"` + raw + `"`)
	if err != nil {
		c.Failf("%v", err)
	}
	if n.Unescaped() != refUnescape(raw) {
		c.Failf("node with %q reads %q", raw, n.Unescaped())
	}
	var rec recorder
	if err := n.WrapUnmarshalText(&rec); err != nil || rec.data != refUnescape(raw) {
		c.Failf("node with %q passes %q to UnmarshalText (%v)", raw, rec.data, err)
	}
	c.Sig("valid " + raw)
	c.Sample("valid", "%s", raw)
}

func c17Hostile(c *Case) {
	r := c.R
	var b strings.Builder
	if n := r.bulkN(1, 1<<21); n > 0 {
		b.WriteString(bulkRaw(r, n, true))
	}
	for n := r.N(16) + r.bulkN(1, 4000); n > 0; n-- {
		switch r.N(4) {
		case 0:
			b.WriteByte(byte(r.N(256)))
		case 1:
			b.WriteString(r.Pick(`\`, `\u`, `\u0`, `\u00`, `\u004`, `\ud83d`, `\ud83d\`, `\ud83d\u`, `\ud83d\ude0`, `\uzzzz`, `\u12g4`, `\x41`, `\'`, `\0`, `\U0041`, "\\é", "\\\xff"))
		case 2:
			b.WriteString(strAtoms[r.N(len(strAtoms))])
		default:
			b.WriteString(loneSurrogates[r.N(len(loneSurrogates))])
		}
	}
	s := b.String()
	if j, err := refString(s+`"`, 0); err == nil && j == len(s) && utf8.ValidString(s) {
		checkUnescape(c, s)
	} else {
		unescapeAll(c, s)
	}
	c.Sig("hostile " + s)
	c.Sample("hostile", "%q", s)
}

func c17Short(c *Case) {
	a := []string{`\`, "u", "n", "x", "0", "d", "8", "3", `"`, "é", "\xff"}
	pre := a[c.Idx%11] + a[c.Idx/11%11] + a[c.Idx/121]
	for _, x := range a {
		for _, y := range a {
			s := pre + x + y
			if j, err := refString(s+`"`, 0); err == nil && j == len(s) && utf8.ValidString(s) {
				checkUnescape(c, s)
			} else {
				unescapeAll(c, s)
			}
		}
	}
	for i := 0; i <= len(pre); i++ {
		unescapeAll(c, pre[:i])
	}
	c.Sig("short " + pre)
}

// c17Inverse unescapes what was escaped.
func c17Inverse(c *Case) {
	s := genString(c.R, 200)
	if c.R.P(1, 3) {
		s = hostileString(c.R)
	}
	for _, html := range []bool{false, true} {
		if got := unescapeAll(c, strjson.Escaped(s, html, false)); got != toValidUTF8(s) {
			c.Failf("%q escaped and unescaped is %q", s, got)
		}
	}
	c.Sig("inverse " + s)
}

// ---- C33 ----

var basicTypes = []njson.Type{njson.TypeString, njson.TypeObject, njson.TypeArray, njson.TypeNumber, njson.TypeBoolean, njson.TypeNull}

func c33Masks(c *Case) {
	t := njson.Type(c.Idx)
	c.Eval(1)
	if got, want := t.IsValue(), t&njson.TypeAnyValue != 0; got != want {
		c.Failf("mask %#x is a value: %v", c.Idx, got)
	}
	var union njson.Type
	seen := map[njson.Type]bool{}
	for _, e := range t.Types() {
		if e&(e-1) != 0 || e == 0 || seen[e] {
			c.Failf("types of mask %#x: %v has more than one bit, none, or is repeated", c.Idx, e)
		}
		seen[e] = true
		union |= e
	}
	if union != t {
		c.Failf("types of mask %#x make %#x", c.Idx, uint8(union))
	}
	all := njson.Type(0xff).Types()
	for _, e := range t.Types() {
		for len(all) > 0 && all[0] != e {
			all = all[1:]
		}
		if len(all) == 0 {
			c.Failf("types of mask %#x: %v are not in the order of all types", c.Idx, t.Types())
		}
	}
	if t.String() == "" {
		c.Failf("mask %#x has no text", c.Idx)
	}
	names := map[njson.Type]string{njson.TypeString: "String", njson.TypeObject: "Object", njson.TypeArray: "Array", njson.TypeNumber: "Number", njson.TypeBoolean: "Boolean", njson.TypeNull: "Null", njson.TypeInvalid: "InvalidToken", njson.TypeAnyValue: "AnyValue"}
	if want, ok := names[t]; ok && t.String() != want {
		c.Failf("mask %#x is called %q, want %q", c.Idx, t.String(), want)
	}
	if _, ok := names[t]; !ok && union&njson.TypeAnyValue == union && len(seen) > 1 {
		for b := range seen {
			if !strings.Contains(t.String(), names[b]) {
				c.Failf("mask %#x is called %q, without %s", c.Idx, t.String(), names[b])
			}
		}
	}
	// type errors of every kind of node
	d := new(njson.Document)
	for _, n := range []njson.Node{{}, d.Null(), d.True(), d.Number(1), d.Text("x"), d.Object(), d.Array()} {
		err := n.TypeError(t)
		if err == nil || err.Error() == "" {
			c.Failf("no type error of a %v for mask %#x", n.Type(), c.Idx)
		}
		if !strings.Contains(err.Error(), n.Type().String()) {
			c.Failf("type error of a %v: %v", n.Type(), err)
		}
		if t&n.Type() == 0 {
			rest := strings.Replace(err.Error(), n.Type().String(), "", 1)
			for b := range seen {
				if t&njson.TypeAnyValue == t && !strings.Contains(rest, names[b]) && !strings.Contains(rest, names[t]) {
					c.Failf("type error of a %v for %v does not name %v: %v", n.Type(), t, b, err)
				}
			}
		}
	}
	for _, b := range basicTypes {
		if t == b {
			c.Count("basic types", 1)
		}
	}
	c.Sig("mask", uint64(c.Idx))
	c.Sample("mask", "%#x %v", c.Idx, t)
}

// c33Decode decodes values of a wrong type: the error names the type found and the type that would fit.
func c33Decode(c *Case) {
	r := c.R
	targets := []struct {
		x    interface{}
		want njson.Type
	}{
		{struct{ A int }{}, njson.TypeObject}, {[]int{}, njson.TypeArray}, {[2]string{}, njson.TypeArray}, {"", njson.TypeString}, {NString(""), njson.TypeString},
		{int(0), njson.TypeNumber}, {int8(0), njson.TypeNumber}, {uint64(0), njson.TypeNumber}, {float32(0), njson.TypeNumber}, {float64(0), njson.TypeNumber},
		{false, njson.TypeBoolean}, {map[string]int{}, njson.TypeObject},
	}
	values := []struct {
		text string
		typ  njson.Type
	}{
		{`{}`, njson.TypeObject}, {`{"a":1}`, njson.TypeObject}, {`[]`, njson.TypeArray}, {`[1]`, njson.TypeArray}, {`"x"`, njson.TypeString}, {`""`, njson.TypeString},
		{`1`, njson.TypeNumber}, {`-2.5e3`, njson.TypeNumber}, {`true`, njson.TypeBoolean}, {`false`, njson.TypeBoolean},
	}
	t := targets[r.N(len(targets))]
	v := values[r.N(len(values))]
	if v.typ == t.want || v.text[0] == '"' && t.want&(njson.TypeNumber|njson.TypeBoolean) != 0 && v.text != `"x"` {
		return
	}
	inner := reflect.TypeOf(t.x)
	p := wrapTyped(r, reflect.ValueOf(t.x), r.N(4))
	text := textOf(p.Elem(), inner, v.text)
	c.Logf("%s to %s", text, p.Type().Elem())
	if json.Unmarshal([]byte(text), reflect.New(p.Type().Elem()).Interface()) == nil {
		// The struct was embedded
		return
	}
	c.Eval(1)
	err := unjson.UnmarshalFromString(text, reflect.New(p.Type().Elem()).Interface())
	if err == nil {
		c.Failf("no error decoding %s to %s", text, typeName(p.Type().Elem()))
	}
	msg := err.Error()
	i := strings.Index(msg, v.typ.String())
	if i < 0 {
		c.Failf("error %q decoding %s to %s does not name the type found", msg, text, typeName(p.Type().Elem()))
	}
	if !strings.Contains(msg[:i]+msg[i+len(v.typ.String()):], t.want.String()) {
		c.Failf("error %q decoding %s to %s does not name the type wanted", msg, text, typeName(p.Type().Elem()))
	}
	c.Sig("decode", hashStr(p.Type().String()), hashStr(text))
	c.Sample("decode", "%s: %s", text, msg)
}
