package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"github.com/alxarch/njson"
)

// freshDoc returns an empty document made in one of the ways a user can.
func freshDoc(r *Rng) *njson.Document {
	switch r.N(4) {
	case 0:
		return njson.Blank()
	case 1:
		var p njson.Pool
		return p.Get()
	case 2: // recycled
		d := new(njson.Document)
		d.Parse(recycled[r.N(len(recycled))])
		d.Reset()
		return d
	default:
		return new(njson.Document)
	}
}

var recycled = []string{
	`[1,2,3,4,5,6,7,8,9,10]`, `{"a":1,"b":{"c":[1,2,{"d":null}]},"e":"f"}`, `[[[[[[[[[[]]]]]]]]]]`, `[{"a":1,"b":2},{"a":3,"b":4},{"a":5,"b":6}]`,
	`{"x":{"x":{"x":{"x":{"y":1,"z":2}}}}}`, `"text"`, `[`, `{"a":[1,2,3`, `[{},{},{},[],[],[]]`,
}

func init() {
	register(&Prop{ID: "C01", MinSig: 1000,
		Rule: "a case is a generated JSON text (tree profile x literals x spacing x way of making the document); distinct by hash of tree shape, literal length classes and spacing mode; the oracle reads every node back and compares with the generating tree",
		Stages: []Stage{
			{Name: "trees", Quick: 900000, Thorough: 36000000, Fn: c01Trees},
			{Name: "strings", Quick: 1 + 7 + 49 + 343 + 2401, Thorough: 1 + 7 + 49 + 343 + 2401 + 16807 + 117649, Fn: c01Strings},
			{Name: "literals", Quick: 180000, Thorough: 7200000, Fn: c01Literals},
			{Name: "large", Quick: 200, Thorough: 4000, Fn: c01Large},
			{Name: "files", Quick: 8, Thorough: 8, Fn: c01Files},
			{Name: "bulk", Quick: 12000, Thorough: 240000, Fn: bulk(c01Trees, 3, 1<<21)},
			{Name: "bulk-literals", Quick: 6000, Thorough: 120000, Fn: bulk(c01Literals, 2, 1<<21)},
		}})
	register(&Prop{ID: "C02", MinSig: 1000,
		Rule: "a case is a block of token sequences or a generated text with one token or byte changed; distinct by (parser state at the defect, offending token or byte, nesting context); the oracle is a push-down automaton of the JSON grammar",
		Stages: []Stage{
			{Name: "tokens", Quick: 1000, Thorough: 1000, Fn: func(c *Case) { tokenBlock(c, false) }},
			{Name: "mutants", Quick: 900000, Thorough: 36000000, Fn: func(c *Case) { tokenMutant(c, false) }},
			{Name: "bytes", Quick: 256, Thorough: 256, Fn: func(c *Case) { badBytes(c, false) }},
			{Name: "literals", Quick: 256, Thorough: 256, Fn: func(c *Case) { badLiterals(c, false) }},
			{Name: "escapes", Quick: 300000, Thorough: 9000000, Fn: c02Escapes},
			{Name: "bulk", Quick: 9000, Thorough: 180000, Fn: bulk(func(c *Case) { tokenMutant(c, false) }, 2, 1<<18)},
		}})
	register(&Prop{ID: "C04", MinSig: 1000,
		Rule: "a case is a block of token sequences or a generated text with a defect; distinct by (state at the defect, offending token or byte, context); the oracle is the token offset and the kind of value the automaton was in",
		Stages: []Stage{
			{Name: "tokens", Quick: 1000, Thorough: 1000, Fn: func(c *Case) { tokenBlock(c, true) }},
			{Name: "mutants", Quick: 900000, Thorough: 36000000, Fn: func(c *Case) { tokenMutant(c, true) }},
			{Name: "bytes", Quick: 256, Thorough: 256, Fn: func(c *Case) { badBytes(c, true) }},
			{Name: "literals", Quick: 256, Thorough: 256, Fn: func(c *Case) { badLiterals(c, true) }},
			{Name: "bulk", Quick: 9000, Thorough: 180000, Fn: bulk(func(c *Case) { tokenMutant(c, true) }, 2, 1<<18)},
		}})
	register(&Prop{ID: "C03", MinSig: 1000,
		Rule: "a case is a generated text cut at its offsets, or a stream of values fed in chunks; distinct by (text shape, cut state) and (chunk plan)",
		Stages: []Stage{
			{Name: "prefixes", Quick: 60000, Thorough: 2400000, Fn: c03Prefixes},
			{Name: "streams", Quick: 200000, Thorough: 8000000, Fn: c03Streams},
			{Name: "chunks", Quick: 120000, Thorough: 4800000, Fn: c03Chunks},
			{Name: "bulk-prefixes", Quick: 300, Thorough: 12000, Fn: bulk(c03Prefixes, 2, 1<<18)},
			{Name: "bulk-streams", Quick: 1500, Thorough: 60000, Fn: bulk(c03Streams, 3, 1<<17)},
			{Name: "bulk-chunks", Quick: 500, Thorough: 20000, Fn: bulk(c03Chunks, 2, 1<<17)},
		}})
	register(&Prop{ID: "C05", MinSig: 1000,
		Rule: "a case is a byte string: random, assembled from JSON fragments, or a mutated valid text; distinct by hash of the input; non trivial when it was accepted with at least one value or rejected beyond its first byte",
		Stages: []Stage{
			{Name: "random", Quick: 400000, Thorough: 16000000, Fn: c05Random},
			{Name: "mutated", Quick: 600000, Thorough: 20000000, Fn: c05Mutated},
			{Name: "bulk", Quick: 6000, Thorough: 120000, Fn: bulk(c05Mutated, 2, 1<<18)},
			{Name: "short", Quick: 625, Thorough: 3125, Fn: c05Short},
			{Name: "depth", Quick: 12, Thorough: 40, Fn: c05Depth},
			{Name: "huge", Quick: 2 * len(hugeShapes), Thorough: 8 * len(hugeShapes), Fn: c05Huge, CPULimit: 15},
			{Name: "toodeep", Quick: 2, Thorough: 2, Fn: c05TooDeep},
		}})
	register(&Prop{ID: "C06", MinSig: 1000,
		Rule: "a case is a history of parses (accepted and rejected), additions, edits and resets on one document; distinct by hash of the operation sequence and tree shapes",
		Stages: []Stage{
			{Name: "histories", Quick: 300000, Thorough: 12000000, Fn: c06Histories},
			{Name: "bulk", Quick: 5000, Thorough: 120000, Fn: bulk(c06Histories, 3, 1<<16)},
		}})
	subprocesses["deepnest"] = deepNest
}

func checkParsed(c *Case, s string, d *njson.Document, t *Tree, wantTail string) njson.Node {
	n, tail, err := d.Parse(s)
	c.Eval(1)
	if err != nil {
		c.Failf("valid JSON rejected: %v\ninput %q", err, clip(s, 1000))
	}
	if tail != wantTail {
		c.Failf("tail %q, want %q\ninput %q", clip(tail, 200), clip(wantTail, 200), clip(s, 1000))
	}
	if n.Document() != d {
		c.Failf("the node of a parsed value has another document")
	}
	if diff := sameAs(n, t); diff != "" {
		c.Failf("parsed value differs: %s\ninput %q", diff, clip(s, 1000))
	}
	return n
}

// anyBytes returns a few bytes of any value: controls, spaces that JSON does not know, parts of runes.
func anyBytes(r *Rng) string {
	b := make([]byte, r.N(5))
	for i := range b {
		if b[i] = byte(r.N(256)); r.P(1, 3) {
			b[i] = "\v\f\x00\x1c\x85\xa0\xc2\xe2\x80\xef\x7f "[r.N(12)]
		}
	}
	return string(b)
}

func c01Trees(c *Case) {
	t := genTree(c.R, GenOpt{Nodes: 120})
	mode := c.R.N(3)
	s := t.spaced(c.R, mode)
	wantTail := ""
	if t.Kind == '0' && mode > 0 {
		// a number ends at the first space
		wantTail = strings.TrimLeft(s, " \n\t\r")[len(t.Raw):]
	} else if c.R.P(1, 3) {
		wantTail = space(c.R, 1)
		s += wantTail
	}
	if c.R.P(1, 4) {
		// Anything can follow a value, a number ends only at a space or the end of a container
		end := anyBytes(c.R)
		if t.Kind == '0' && wantTail == "" {
			end = c.R.Pick(" ", "\n", "\t", "\r", "]", "}", ",") + end
		}
		wantTail += end
		s += end
	}
	d := freshDoc(c.R)
	n := checkParsed(c, s, d, t, wantTail)
	if diff := sameAs(d.Root(), t); diff != "" {
		c.Failf("root differs: %s", diff)
	}
	_ = n
	c.Count("nodes", t.count())
	c.Sig("tree", t.shape(), uint64(mode))
	c.Sample("text", "%q", s)
	if c.R.P(1, 2) {
		d.Close()
	}
}

var strParts = []string{`\\`, `\"`, `a`, `\n`, `\u005c`, `é`, `,`}

// c01Strings enumerates string contents made of escapes as value, key and element.
func c01Strings(c *Case) {
	raw := ""
	i := c.Idx
	for l, n := 0, 1; ; l, n = l+1, n*len(strParts) {
		if i < n {
			for k := 0; k < l; k++ {
				raw += strParts[i%len(strParts)]
				i /= len(strParts)
			}
			break
		}
		i -= n
	}
	str := func(s string) *Tree { return &Tree{Kind: 's', Raw: s} }
	for _, t := range []*Tree{
		str(raw),
		{Kind: 'a', Kids: []*Tree{str(raw), str("x"), str(raw)}},
		{Kind: 'o', Keys: []string{raw, "k"}, Kids: []*Tree{str("v"), str(raw)}},
		{Kind: 'o', Keys: []string{"q"}, Kids: []*Tree{str(raw)}},
	} {
		checkParsed(c, t.text(), new(njson.Document), t, "")
		checkParsed(c, t.spaced(c.R, 1), new(njson.Document), t, "")
	}
	// What follows the closing quote of a string is the tail
	for _, tail := range []string{`"`, `\"`, ` "x"`, `,"`, `\`} {
		checkParsed(c, `"`+raw+`"`+tail, new(njson.Document), str(raw), tail)
	}
	c.Sig("string " + raw)
}

func c01Literals(c *Case) {
	lit := genScalar(c.R, &GenOpt{MaxStr: 3000})
	if c.R.P(1, 2) {
		lit = &Tree{Kind: '0', Raw: genNum(c.R)}
	}
	kids := []*Tree{lit, genScalar(c.R, &GenOpt{MaxStr: 30}), lit}
	arr := &Tree{Kind: 'a', Kids: kids}
	obj := &Tree{Kind: 'o', Keys: []string{genRawMax(c.R, 200, true), "b", "c"}, Kids: kids}
	for _, t := range []*Tree{lit, arr, obj} {
		checkParsed(c, t.text(), freshDoc(c.R), t, "")
	}
	for _, end := range []string{" ", "\n", "\t", "\r", "]", "}", ","} {
		checkParsed(c, lit.text()+end, freshDoc(c.R), lit, end)
		t := &Tree{Kind: 'a', Kids: []*Tree{lit}}
		checkParsed(c, "["+lit.text()+strings.TrimSpace(strings.Trim(end, "]},"))+"]"+end, freshDoc(c.R), t, end)
	}
	c.Sig("literal", uint64(lit.Kind), hashStr(lit.Raw))
	c.Sample("literal", "%q", lit.text())
}

func c01Large(c *Case) {
	t := genTree(c.R, GenOpt{Nodes: 6000, MaxStr: 70000})
	if c.R.P(1, 3) {
		// many values in one container
		t = &Tree{Kind: "ao"[c.R.N(2)]}
		for i := c.R.Range(1000, 20000); i > 0; i-- {
			t.Keys = append(t.Keys, fmt.Sprintf("key%d", i))
			t.Kids = append(t.Kids, &Tree{Kind: '0', Raw: fmt.Sprint(i)})
		}
		if t.Kind == 'a' {
			t.Keys = nil
		}
	}
	checkParsed(c, t.text(), freshDoc(c.R), t, "")
	c.Count("nodes", t.count())
	c.Sig("tree", t.shape())
}

func repoDir() string {
	if d := os.Getenv("VMON_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func c01Files(c *Case) {
	names, _ := filepath.Glob(filepath.Join(repoDir(), "testdata", "*.json"))
	if c.Idx >= len(names) {
		return
	}
	b, err := os.ReadFile(names[c.Idx])
	if err != nil {
		return
	}
	s := string(b)
	t, end, err := refParse(s, 0)
	if err != nil {
		c.Broken("%s: %v", names[c.Idx], err)
	}
	checkParsed(c, s, new(njson.Document), t, s[end:])
	c.Count("file bytes", len(s))
	c.Sig("file", hashStr(names[c.Idx]))
}

// ---- token automaton ----

type token struct {
	class byte // one of {}[],: or s for strings or v for other scalars
	text  string
}

type verdict struct {
	kind  byte // 'o' accepted, 'e' error, 'i' incomplete
	at    int  // index of the last token of the value or of the offending token
	types njson.Type
	state string
}

// judge runs the push-down automaton of JSON on the tokens.
func judge(toks []token) verdict {
	var stack []byte
	state := "value"
	for i, t := range toks {
		fail := func(types njson.Type) verdict { return verdict{'e', i, types, state} }
		done := false // a value ended here
		switch state {
		case "value", "first":
			switch t.class {
			case 's', 'v':
				done = true
			case '{':
				stack = append(stack, '{')
				state = "firstkey"
			case '[':
				stack = append(stack, '[')
				state = "first"
			case ']':
				if state == "first" {
					stack = stack[:len(stack)-1]
					done = true
					break
				}
				return fail(njson.TypeAnyValue)
			default:
				if state == "first" {
					return fail(njson.TypeAnyValue | njson.TypeArray)
				}
				return fail(njson.TypeAnyValue)
			}
		case "firstkey", "key":
			if t.class == 's' {
				state = "colon"
			} else if t.class == '}' && state == "firstkey" {
				stack = stack[:len(stack)-1]
				done = true
			} else {
				return fail(njson.TypeObject)
			}
		case "colon":
			if t.class != ':' {
				return fail(njson.TypeObject)
			}
			state = "value"
		case "inarray":
			switch t.class {
			case ',':
				state = "value"
			case ']':
				stack = stack[:len(stack)-1]
				done = true
			default:
				return fail(njson.TypeArray)
			}
		case "inobject":
			switch t.class {
			case ',':
				state = "key"
			case '}':
				stack = stack[:len(stack)-1]
				done = true
			default:
				return fail(njson.TypeObject)
			}
		}
		if done {
			if len(stack) == 0 {
				return verdict{'o', i, 0, state}
			}
			state = "inarray"
			if stack[len(stack)-1] == '{' {
				state = "inobject"
			}
		}
	}
	v := verdict{'i', len(toks), njson.TypeObject, state}
	switch state {
	case "value":
		v.types = njson.TypeAnyValue
	case "first", "inarray":
		v.types = njson.TypeArray
	}
	return v
}

var tokenAlphabet = []token{{'{', "{"}, {'}', "}"}, {'[', "["}, {']', "]"}, {',', ","}, {':', ":"}, {'s', `"k"`}, {'v', "7"}, {'v', "true"}, {'v', "null"}}

// joinTokens writes the tokens with space where they would run into each other and
// returns the offset of every token.
func joinTokens(toks []token, r *Rng, mode int, offs []int) (string, []int) {
	var b strings.Builder
	offs = offs[:0]
	for i, t := range toks {
		sp := ""
		if mode > 0 {
			sp = space(r, mode)
		}
		if sp == "" && i > 0 && toks[i-1].class == 'v' && strings.IndexByte("]},", t.text[0]) < 0 {
			// A number runs up to the next space or end of a value
			sp = " "
		}
		b.WriteString(sp)
		offs = append(offs, b.Len())
		b.WriteString(t.text)
	}
	return b.String(), offs
}

// victim is a document with content that a failing parse must leave alone.
type victim struct {
	d    *njson.Document
	n    njson.Node
	want string
	next uint
}

func newVictim(r *Rng, prefilled bool) *victim {
	v := &victim{d: new(njson.Document)}
	if prefilled {
		// Leave room for nodes after the content
		v.d.Parse(recycled[r.N(len(recycled))])
		v.d.Reset()
		v.want = r.Pick(`[1,{"a":"b"},[]]`, `{"k":7,"o":{"k":null}}`, `"text"`, `7`)
		n, _, err := v.d.Parse(v.want)
		if err != nil {
			panic(broken("victim: " + err.Error()))
		}
		v.n = n
		for v.d.Node(v.next).Type() != njson.TypeInvalid {
			v.next++
		}
	}
	return v
}

// intact checks that a failed parse changed nothing.
func (v *victim) intact() string {
	if t := v.d.Node(v.next).Type(); t != njson.TypeInvalid {
		return fmt.Sprintf("a failed parse added a node of type %v to the document", t)
	}
	if v.want != "" {
		b, err := v.n.AppendJSON(nil)
		if err != nil || string(b) != v.want {
			return fmt.Sprintf("a failed parse changed the document from %s to %s (%v)", v.want, b, err)
		}
		b, err = v.d.AppendJSON(nil)
		if err != nil || string(b) != v.want {
			return fmt.Sprintf("a failed parse changed the root of the document from %s to %s (%v)", v.want, b, err)
		}
	}
	return ""
}

// checkVerdict parses s and compares what happened with the verdict. pos checks positions too.
// tokenStart and tokenBad bound the position of the error.
func checkVerdict(c *Case, vic *victim, s string, v verdict, tail string, tokenStart, tokenBad int, pos bool) {
	n, gotTail, err := vic.d.Parse(s)
	c.Eval(1)
	if v.kind == 'o' {
		if err != nil {
			c.Failf("complete value rejected: %v\ninput %q", err, clip(s, 800))
		}
		if gotTail != tail {
			c.Failf("tail %q, want %q\ninput %q", clip(gotTail, 300), clip(tail, 300), clip(s, 800))
		}
		return
	}
	if err == nil {
		b, _ := n.AppendJSON(nil)
		c.Failf("malformed or incomplete text accepted as %s\ninput %q (%s)", clip(string(b), 300), clip(s, 800), v.state)
	}
	if n != (njson.Node{}) {
		c.Failf("a failed parse returned a node: type %v\ninput %q", n.Type(), clip(s, 800))
	}
	if d := vic.intact(); d != "" {
		c.Failf("%s\ninput %q", d, clip(s, 800))
	}
	if err.Error() == "" {
		c.Failf("empty error message\ninput %q", clip(s, 800))
	}
	switch e := err.(type) {
	case njson.UnexpectedEOF:
		if v.kind != 'i' {
			c.Failf("text that no continuation makes valid reported as incomplete: %v\ninput %q", err, clip(s, 800))
		}
		if gotTail != s {
			c.Failf("incomplete input is not returned: %q\ninput %q", clip(gotTail, 300), clip(s, 800))
		}
		if pos && (njson.Type(e)&v.types != njson.Type(e) || e == 0) {
			c.Failf("incomplete while scanning %v, want %v\ninput %q", njson.Type(e), v.types, clip(s, 800))
		}
	case *njson.ParseError:
		if v.kind != 'e' {
			c.Failf("incomplete text reported as malformed: %v\ninput %q", err, clip(s, 800))
		}
		if pos {
			if p := e.Pos(); p < tokenStart || p > tokenBad {
				c.Failf("error position %d, want %d..%d: %v\ninput %q", p, tokenStart, tokenBad, err, clip(s, 800))
			}
			if t := e.Type(); t == 0 || t&v.types != t {
				c.Failf("error while scanning %v, want %v: %v\ninput %q", t, v.types, err, clip(s, 800))
			}
		}
	default:
		c.Failf("unknown error %T: %v", err, err)
	}
}

// lexed splits a text at the quotes: a string runs to the next quote that is not escaped, whatever its
// escapes are. It reports if the last string has no end.
func lexed(s string) (toks []token, open bool) {
	for i := 0; i < len(s); {
		switch s[i] {
		case ' ', '\t', '\n', '\r':
			i++
		case '{', '}', '[', ']', ',', ':':
			toks = append(toks, token{s[i], s[i : i+1]})
			i++
		case '"':
			j := i + 1
			for ; j < len(s) && s[j] != '"'; j++ {
				if s[j] == '\\' {
					j++
				}
			}
			if j >= len(s) {
				return toks, true
			}
			toks = append(toks, token{'s', s[i : j+1]})
			i = j + 1
		default:
			class, j := byte('?'), i+1
			if '0' <= s[i] && s[i] <= '9' || s[i] == '-' {
				// What a number can hold is for its conversion to judge
				for class = 'v'; j < len(s) && strings.IndexByte(" \t\n\r}],", s[j]) < 0; j++ {
				}
			}
			for _, lit := range []string{"true", "false", "null"} {
				if strings.HasPrefix(s[i:], lit) {
					class, j = 'v', i+len(lit)
				}
			}
			toks = append(toks, token{class, s[i:j]})
			i = j
		}
	}
	return toks, false
}

// c02Escapes puts a quote where a malformed escape could swallow it. What the text then is by its quotes
// alone decides: when that is not a value, no reading of the escapes makes it one.
func c02Escapes(c *Case) {
	t := genTree(c.R, GenOpt{Nodes: 12, MaxStr: 12})
	toks := treeTokens(t, nil)
	if t.Kind != 'a' && t.Kind != 'o' {
		toks = append(append([]token{{'[', "["}}, toks...), token{']', "]"})
	}
	var at []int
	for i, tok := range toks {
		if tok.class == 's' {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return
	}
	for n := 1 + c.R.N(2); n > 0; n-- {
		i := at[c.R.N(len(at))]
		esc := c.R.Pick(`\u`, `\u`, `\u`, `\x`, `\U`, `\0`, `\ud83d\u`, `\ud800`, `\\`, `\n`, `\`)
		for k := c.R.N(5); k > 0; k-- {
			esc += string("0123456789abcdefABCDEFg"[c.R.N(23)])
		}
		esc += c.R.Pick("", `\\`, `\"\\`)
		fill := ""
		for k := c.R.N(8); k > 0; k-- {
			fill += c.R.Pick(":", ",", "a", "1", "}", "]", " ", "[", "{", "é")
		}
		toks[i] = token{'s', `"` + c.R.Pick("", "k", "key ") + esc + `"` + fill + c.R.Pick("", `k\\`) + `"`}
	}
	var offs []int
	s, _ := joinTokens(toks, c.R, c.R.N(2), offs)
	by, open := lexed(s)
	v := judge(by)
	if v.kind == 'o' {
		c.Count("still a value", 1)
		return
	}
	if open {
		v.kind = 'i'
	}
	vic := newVictim(c.R, c.R.P(1, 2))
	n, _, err := vic.d.Parse(s)
	c.Eval(1)
	if err == nil {
		b, _ := n.AppendJSON(nil)
		c.Failf("malformed text accepted as %s\ninput %q", clip(string(b), 300), clip(s, 800))
	}
	if n != (njson.Node{}) {
		c.Failf("a failed parse returned a node: type %v\ninput %q", n.Type(), clip(s, 800))
	}
	if d := vic.intact(); d != "" {
		c.Failf("%s\ninput %q", d, clip(s, 800))
	}
	c.Sig("escape"+v.state, uint64(v.kind), hashStr(err.Error()))
	c.Count("swallowed quotes", 1)
	c.Sample("escape", "%q", s)
}

// tokenBlock enumerates all token sequences starting with the three tokens of the case.
func tokenBlock(c *Case, pos bool) {
	max := 7
	if c.Env.Tier == "thorough" {
		max = 9
	}
	a := tokenAlphabet
	pre := []token{a[c.Idx/100%10], a[c.Idx/10%10], a[c.Idx%10]}
	for l := 1; l < 3; l++ {
		if c.Idx%1000 == 0 || l == 1 && c.Idx%100 == 0 || l == 2 && c.Idx%10 == 0 {
			c.oneSequence(pre[:l], pos, nil)
		}
	}
	toks := append([]token(nil), pre...)
	var offs []int
	var rec func()
	n := 0
	rec = func() {
		v := c.oneSequence(toks, pos, offs)
		n++
		if v.kind != 'i' || len(toks) == max {
			return
		}
		for _, t := range a {
			toks = append(toks, t)
			rec()
			toks = toks[:len(toks)-1]
		}
	}
	rec()
	c.Count("sequences", n)
}

func (c *Case) oneSequence(toks []token, pos bool, offs []int) verdict {
	v := judge(toks)
	s, offs := joinTokens(toks, c.R, c.R.N(2), offs)
	vic := newVictim(c.R, c.R.P(1, 4))
	tail, start := "", 0
	if v.kind == 'o' {
		tail = s[offs[v.at]+len(toks[v.at].text):]
	} else if v.kind == 'e' {
		start = offs[v.at]
	}
	checkVerdict(c, vic, s, v, tail, start, start, pos)
	h := mix(uint64(v.kind), hashStr(v.state), uint64(len(toks)))
	for _, t := range toks {
		h = mix(h, uint64(t.text[0]))
	}
	c.Sig("sequence", h)
	return v
}

// treeTokens flattens a tree to tokens.
func treeTokens(t *Tree, out []token) []token {
	switch t.Kind {
	case 'a', 'o':
		out = append(out, token{map[byte]byte{'a': '[', 'o': '{'}[t.Kind], map[byte]string{'a': "[", 'o': "{"}[t.Kind]})
		for i, k := range t.Kids {
			if i > 0 {
				out = append(out, token{',', ","})
			}
			if t.Kind == 'o' {
				out = append(out, token{'s', `"` + t.Keys[i] + `"`}, token{':', ":"})
			}
			out = treeTokens(k, out)
		}
		return append(out, token{map[byte]byte{'a': ']', 'o': '}'}[t.Kind], map[byte]string{'a': "]", 'o': "}"}[t.Kind]})
	case 's':
		return append(out, token{'s', t.text()})
	default:
		return append(out, token{'v', t.Raw})
	}
}

// tokenMutant changes tokens of a valid text.
func tokenMutant(c *Case, pos bool) {
	t := genTree(c.R, GenOpt{Nodes: 80, MaxStr: 40})
	if t.Kind != 'a' && t.Kind != 'o' {
		t = &Tree{Kind: 'a', Kids: []*Tree{t}}
	}
	toks := treeTokens(t, nil)
	what := ""
	for n := 1 + c.R.N(2); n > 0; n-- {
		i := c.R.N(len(toks))
		switch c.R.N(5) {
		case 0:
			what += "del"
			toks = append(toks[:i:i], toks[i+1:]...)
		case 1:
			what += "ins"
			toks = append(toks[:i:i], append([]token{tokenAlphabet[c.R.N(len(tokenAlphabet))]}, toks[i:]...)...)
		case 2:
			what += "rep"
			toks[i] = tokenAlphabet[c.R.N(len(tokenAlphabet))]
		case 3:
			what += "swap"
			j := c.R.N(len(toks))
			toks[i], toks[j] = toks[j], toks[i]
		default:
			what += "cut"
			toks = toks[:i+1]
		}
		if len(toks) == 0 {
			return
		}
	}
	v := judge(toks)
	s, offs := joinTokens(toks, c.R, c.R.N(3), nil)
	tail, start := "", 0
	off := byte('$')
	if v.kind == 'o' {
		tail = s[offs[v.at]+len(toks[v.at].text):]
	} else if v.kind == 'e' {
		start = offs[v.at]
		off = toks[v.at].class
	}
	checkVerdict(c, newVictim(c.R, c.R.P(1, 2)), s, v, tail, start, start, pos)
	c.Sig(what+v.state, uint64(off), uint64(v.kind), uint64(lenClass(v.at)))
	c.Count("outcome "+string(rune(v.kind)), 1)
	c.Sample("mutant "+v.state, "%q -> %c", s, v.kind)
}

var byteContexts = []struct {
	pre   string
	state string
	types njson.Type
	ok    string // bytes that may follow
}{
	{"", "value", njson.TypeAnyValue, "vs"},
	{"[", "first", njson.TypeAnyValue | njson.TypeArray, "vs]"},
	{`["a",`, "value", njson.TypeAnyValue, "vs"},
	{`[null,{},`, "value", njson.TypeAnyValue, "vs"},
	{"{", "firstkey", njson.TypeObject, `s"}`},
	{`{"a"`, "colon", njson.TypeObject, "s:"},
	{`{"a":`, "value", njson.TypeAnyValue, "vs"},
	{`{"a":"b"`, "inobject", njson.TypeObject, "s,}"},
	{`{"a":"b",`, "key", njson.TypeObject, `s"`},
	{`{"a\\":true,"b":[],`, "key", njson.TypeObject, `s"`},
	{`["a"`, "inarray", njson.TypeArray, "s,]"},
	{`[true`, "inarray", njson.TypeArray, "s,]"},
	{`[[]`, "inarray", njson.TypeArray, "s,]"},
	{`[{}`, "inarray", njson.TypeArray, "s,]"},
	{`[1 `, "inarray", njson.TypeArray, "s,]"},
	{`{"a":{"b":[null`, "inarray", njson.TypeArray, "s,]"},
	{`{"a":{"b":[]`, "inobject", njson.TypeObject, "s,}"},
	{`{"a":1 `, "inobject", njson.TypeObject, "s,}"},
	{`{"a":-2}`[:7] + "\n", "inobject", njson.TypeObject, "s,}"},
	{`{"a":false`, "inobject", njson.TypeObject, "s,}"},
}

// badBytes puts every byte where a token is expected.
func badBytes(c *Case, pos bool) {
	b := byte(c.Idx)
	for i, ctx := range byteContexts {
		allowed := false
		for _, k := range []byte(ctx.ok) {
			switch k {
			case 's':
				allowed = allowed || strings.IndexByte(" \n\t\r", b) >= 0
			case 'v':
				allowed = allowed || strings.IndexByte(`{["-0123456789tfn`, b) >= 0
			default:
				allowed = allowed || b == k
			}
		}
		if allowed {
			continue
		}
		for _, mid := range []string{"", " ", "\r\n\t "} {
			for _, post := range []string{"", "1", `"x":1}]`, "]", "}", ",", strings.Repeat(" ", 70)} {
				pre := ctx.pre + mid
				s := pre + string([]byte{b}) + post
				checkVerdict(c, newVictim(c.R, c.R.P(1, 4)), s, verdict{'e', 0, ctx.types, ctx.state}, "", len(pre), len(pre), pos)
			}
		}
		c.Sig("byte", uint64(b), uint64(i))
	}
}

// badLiterals spells true, false and null wrong.
func badLiterals(c *Case, pos bool) {
	b := byte(c.Idx)
	for _, lit := range []string{"true", "false", "null"} {
		types := njson.TypeBoolean
		if lit == "null" {
			types = njson.TypeNull
		}
		for i := 1; i < len(lit); i++ {
			if lit[i] == b {
				continue
			}
			for _, ctx := range []string{"", "[", `{"a":`, `[1, `, `{"a":"b","c": `} {
				bad := []byte(lit)
				bad[i] = b
				s := ctx + string(bad) + c.R.Pick("", "]", "}", " ", "true", "null")
				checkVerdict(c, newVictim(c.R, c.R.P(1, 4)), s, verdict{'e', 0, types, "literal"}, "", len(ctx), len(ctx)+i, pos)
			}
			c.Sig("literal "+lit, uint64(b), uint64(i))
		}
	}
	// Other case and words of other languages
	for _, w := range []string{"True", "NULL", "None", "undefined", "NaN", "Infinity", "+1", ".5", "'a'", "//", "/**/", "#", "\ufeff{}", "tRUE!", "falSE", "nil "} {
		for _, ctx := range []string{"", "[", `{"a":`} {
			types := njson.TypeAnyValue
			switch w[0] {
			case 't', 'f':
				types = njson.TypeBoolean
			case 'n':
				types = njson.TypeNull
			}
			if types == njson.TypeAnyValue && ctx == "[" {
				types |= njson.TypeArray
			}
			end := len(ctx)
			if types == njson.TypeBoolean || types == njson.TypeNull {
				end = len(ctx) + len(w)
			}
			checkVerdict(c, newVictim(c.R, false), ctx+w+"    ", verdict{'e', 0, types, "word"}, "", len(ctx), end, pos)
		}
	}
}

// ---- C03 ----

// cutKinds returns what may be reported as being scanned when the text ends at cut.
func cutKinds(toks []token, offs []int, cut int) (njson.Type, string) {
	i := 0
	for i < len(toks) && offs[i]+len(toks[i].text) <= cut {
		i++
	}
	v := judge(toks[:i])
	if i < len(toks) && offs[i] < cut {
		// inside of token i
		switch toks[i].class {
		case 's':
			if v.state == "value" || v.state == "first" {
				return njson.TypeString, "string"
			}
			return njson.TypeObject, "keytext"
		case 'v':
			switch toks[i].text[0] {
			case 't', 'f':
				return njson.TypeBoolean, "literal"
			case 'n':
				return njson.TypeNull, "literal"
			}
			// The number so far is a value
			v = judge(append(append([]token(nil), toks[:i]...), token{'v', "1"}))
			return v.types, "number"
		}
	}
	return v.types, v.state
}

func c03Prefixes(c *Case) {
	t := genTree(c.R, GenOpt{Nodes: 40, MaxStr: 60})
	if t.Kind == '0' {
		t = &Tree{Kind: 'a', Kids: []*Tree{t}}
	}
	toks := treeTokens(t, nil)
	s, offs := joinTokens(toks, c.R, c.R.N(3), nil)
	step := 1
	if len(s) > 400 {
		step = 1 + c.R.N(len(s)/100)
	}
	if len(s) > 20000 {
		// Parse some 20 MB in all
		step += len(s) / 20 * len(s) / 1000000
	}
	vic := newVictim(c.R, c.R.P(1, 2))
	for cut := 0; cut < len(s); cut += step {
		types, state := cutKinds(toks, offs, cut)
		checkVerdict(c, vic, s[:cut], verdict{'i', 0, types, state}, "", 0, 0, false)
		c.Sig("cut "+state, uint64(lenClass(cut)), uint64(lenClass(len(s))), t.shape()%64)
	}
	// The whole is accepted by the document that saw all the prefixes
	tail := ""
	if c.R.P(1, 2) {
		tail = c.R.Pick(" ", "\n", `{"a"`, `"`, "[", "x", "\x00", `,`, ` {}`)
	}
	n, got, err := vic.d.Parse(s + tail)
	if err != nil || got != tail {
		c.Failf("complete text after its prefixes: tail %q, want %q (%v)\ninput %q", got, tail, err, clip(s, 800))
	}
	if d := sameAs(n, t); d != "" {
		c.Failf("value parsed after its prefixes differs: %s\ninput %q", d, clip(s, 800))
	}
	c.Sample("text", "%q cut at every %d bytes", s, step)
}

// c03Streams parses concatenated values by their tails.
func c03Streams(c *Case) {
	var want []*Tree
	s, plan := "", uint64(0)
	for n := c.R.Range(1, 8) + c.R.bulkN(3, 5000); n > 0; n-- {
		t := genTree(c.R, GenOpt{Nodes: 20, MaxStr: 40})
		sp := space(c.R, c.R.N(3))
		if len(want) > 0 && want[len(want)-1].Kind == '0' && sp == "" {
			sp = c.R.Pick(" ", "\n")
		}
		s += sp + t.text()
		plan = mix(plan, uint64(t.Kind), hashStr(sp))
		want = append(want, t)
	}
	end := c.R.Pick("", "\n", "  ", "\r\n")
	s += end
	d := freshDoc(c.R)
	reset := c.R.P(1, 2)
	rest := s
	var nodes []njson.Node
	for i, t := range want {
		if reset {
			d.Reset()
		}
		n, tail, err := d.Parse(rest)
		c.Eval(1)
		if err != nil {
			c.Failf("value %d of a stream rejected: %v\nrest %q", i, err, clip(rest, 800))
		}
		if !strings.HasSuffix(rest, tail) {
			c.Failf("tail %q is not the end of the input %q", clip(tail, 300), clip(rest, 800))
		}
		if d := sameAs(n, t); d != "" {
			c.Failf("value %d of a stream differs: %s\nrest %q", i, d, clip(rest, 800))
		}
		used := strings.Trim(rest[:len(rest)-len(tail)], " \n\r\t")
		if used != t.text() {
			c.Failf("value %d of a stream consumed %q, want %q", i, clip(used, 400), clip(t.text(), 400))
		}
		if i+1 == len(want) && tail != end {
			c.Failf("the last tail is %q, want %q", tail, end)
		}
		rest = tail
		nodes = append(nodes, n)
	}
	if !reset {
		for i, n := range nodes {
			if d := sameAs(n, want[i]); d != "" {
				c.Failf("value %d of a stream changed after the next were parsed: %s", i, d)
			}
		}
	}
	if _, tail, err := d.Parse(rest); err != njson.UnexpectedEOF(njson.TypeAnyValue) || tail != rest {
		c.Failf("the empty end of a stream: tail %q error %v", tail, err)
	}
	c.Sig("stream", plan)
	c.Sample("stream", "%q", s)
}

// c03Chunks feeds a stream in chunks, parsing what has arrived.
func c03Chunks(c *Case) {
	var want []*Tree
	s := ""
	for n := c.R.Range(1, 5); n > 0; n-- {
		t := genTree(c.R, GenOpt{Nodes: 15, MaxStr: 40})
		if t.Kind == '0' {
			t = &Tree{Kind: 'o', Keys: []string{"n"}, Kids: []*Tree{t}}
		}
		s += t.spaced(c.R, c.R.N(2)) + space(c.R, 1)
		want = append(want, t)
	}
	d := freshDoc(c.R)
	plan := uint64(0)
	buf, got := "", 0
	for len(s) > 0 || strings.Trim(buf, " \n\r\t") != "" {
		if len(s) == 0 {
			c.Failf("all input arrived but %q is still incomplete", clip(buf, 400))
		}
		n := 1 + c.R.N(1+c.R.N(40))
		if len(buf)+len(s) > 4000 {
			n = 1 + c.R.N(len(s))
		}
		if n > len(s) {
			n = len(s)
		}
		plan = mix(plan, uint64(n))
		buf += s[:n]
		s = s[n:]
		for {
			if c.R.P(1, 3) {
				d.Reset()
			}
			node, tail, err := d.Parse(buf)
			c.Eval(1)
			if _, ok := err.(njson.UnexpectedEOF); ok {
				if tail != buf {
					c.Failf("incomplete chunk not returned: %q, want %q", clip(tail, 300), clip(buf, 300))
				}
				break
			}
			if err != nil {
				c.Failf("chunk of a valid stream rejected: %v\n%q", err, clip(buf, 800))
			}
			if got == len(want) {
				c.Failf("more values than were sent, at %q", clip(buf, 300))
			}
			if diff := sameAs(node, want[got]); diff != "" {
				c.Failf("value %d of a chunked stream differs: %s\n%q", got, diff, clip(buf, 800))
			}
			got++
			buf = tail
		}
	}
	if got != len(want) {
		c.Failf("%d values of a chunked stream, want %d", got, len(want))
	}
	c.Sig("chunks", plan)
	c.Count("values", got)
}

// ---- C05 ----

// compact removes the space outside of strings of consumed input.
func compact(s string) string {
	b := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case ' ', '\n', '\r', '\t':
		case '-', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
			// Whatever follows up to the next space or end of a value is the number
			j := i
			for j < len(s) && strings.IndexByte(" \n\r\t,]}", s[j]) < 0 {
				j++
			}
			b = append(b, s[i:j]...)
			i = j - 1
		case '"':
			j := i + 1
			for ; j < len(s) && s[j] != '"'; j++ {
				if s[j] == '\\' {
					j++
				}
			}
			if j++; j > len(s) {
				j = len(s)
			}
			b = append(b, s[i:j]...)
			i = j - 1
		default:
			b = append(b, s[i])
		}
	}
	return string(b)
}

// hammer uses every reader of every node: none may panic.
func hammer(n njson.Node, limit *int) {
	if *limit--; *limit < 0 {
		return
	}
	n.Type()
	n.Raw()
	n.Unescaped()
	n.ToBool()
	n.ToFloat()
	n.ToInt()
	n.ToUint()
	n.Get("a")
	n.Index(0)
	n.Lookup("a", "0")
	n.Lookup("0")
	_ = n.TypeError(njson.TypeString).Error()
	it := n.Values()
	for it.Next() {
		hammer(it.Value(), limit)
	}
}

// survive parses any bytes.
func survive(c *Case, s string, reuse *njson.Document) {
	d := reuse
	if d == nil {
		d = new(njson.Document)
	}
	before := strings.Clone(s)
	n, tail, err := d.Parse(s)
	c.Eval(1)
	if s != before {
		c.Failf("the input was changed")
	}
	if err != nil {
		_ = err.Error()
		if e, ok := err.(*njson.ParseError); ok && e.Pos() > 0 {
			c.Sig("rejected", hashStr(s))
		}
		c.Count("rejected", 1)
		return
	}
	if !strings.HasSuffix(s, tail) {
		c.Failf("tail %q is not the end of the input %q", clip(tail, 200), clip(s, 600))
	}
	out, err := n.AppendJSON(nil)
	if err != nil {
		c.Failf("accepted value cannot be serialized: %v\ninput %q", err, clip(s, 600))
	}
	if used := compact(s[:len(s)-len(tail)]); used != string(out) {
		c.Failf("serialized %q, the consumed text without space is %q\ninput %q", clip(string(out), 400), clip(used, 400), clip(s, 600))
	}
	limit := 1 << 20
	t, err := observe(n, &limit)
	if err != nil {
		c.Failf("%v\ninput %q", err, clip(s, 600))
	}
	limit = 2000
	hammer(n, &limit)
	n.ToInterface()
	d2 := new(njson.Document)
	n2, tail2, err := d2.Parse(string(out))
	if err != nil || tail2 != "" {
		c.Failf("serialized value does not parse: tail %q error %v\nserialized %q\ninput %q", clip(tail2, 200), err, clip(string(out), 400), clip(s, 600))
	}
	if diff := sameAs(n2, t); diff != "" {
		c.Failf("serialized value parses to another value: %s\ninput %q", diff, clip(s, 600))
	}
	out2, err := n2.AppendJSON(nil)
	if err != nil || string(out2) != string(out) {
		c.Failf("serialization is not stable: %q then %q (%v)", clip(string(out), 400), clip(string(out2), 400), err)
	}
	c.Count("accepted", 1)
	c.Sig("accepted", hashStr(s))
}

var fragments = []string{"{", "}", "[", "]", ",", ":", `"`, `\`, `\"`, `\\`, `\u`, `\ud83d`, "u00", "true", "false", "null", "tru", "nul", "0", "-", "1.5", "e9", "+", ".", " ", "\n", "\t", "\x00", "\xff", "\x80", "é", `"a"`, `"a":`, `{"a":1}`, `[1,2]`, "/", "\u2028", "\x0b", "\x0c", "\xc2\xa0"}

func c05Random(c *Case) {
	var reuse *njson.Document
	if c.R.P(1, 2) {
		reuse = freshDoc(c.R)
	}
	for k := 0; k < 4; k++ {
		var b strings.Builder
		switch c.R.N(3) {
		case 0:
			for n := c.R.N(30); n > 0; n-- {
				b.WriteByte(byte(c.R.N(256)))
			}
		default:
			b.WriteString(c.R.Pick("", "[", "{", `{"`, `"`, `[{"a":`))
			for n := c.R.N(20); n > 0; n-- {
				b.WriteString(fragments[c.R.N(len(fragments))])
			}
		}
		survive(c, b.String(), reuse)
		c.Sample("random", "%q", b.String())
	}
}

func c05Mutated(c *Case) {
	t := genTree(c.R, GenOpt{Nodes: 50, MaxStr: 60})
	b := []byte(t.spaced(c.R, c.R.N(3)))
	for n := 1 + c.R.N(4); n > 0 && len(b) > 0; n-- {
		i := c.R.N(len(b))
		switch c.R.N(6) {
		case 0:
			b[i] ^= 1 << c.R.N(8)
		case 1:
			b[i] = byte(c.R.N(256))
		case 2:
			b = append(b[:i:i], b[i+1:]...)
		case 3:
			j := i + c.R.N(len(b)-i)
			b = append(b[:j:j], b[i:]...)
		case 4:
			b = b[:i]
		default:
			b = append(b[:i:i], append([]byte(fragments[c.R.N(len(fragments))]), b[i:]...)...)
		}
	}
	var reuse *njson.Document
	if c.R.P(1, 3) {
		reuse = freshDoc(c.R)
	}
	survive(c, string(b), reuse)
	c.Sample("mutated", "%q", b)
}

var shortAlphabet = []string{"{", "}", "[", "]", ",", ":", `"`, `\`, "a", "1", "n", "null", "true", " ", "-", "\x00", "u", "é", ".", "e", "\xff", "\n", "/", "t", "f"}

// c05Short enumerates all strings of up to 4 (5) fragments.
func c05Short(c *Case) {
	a := shortAlphabet
	pre := a[c.Idx%25] + a[c.Idx/25%25]
	if c.Env.Tier == "thorough" {
		pre += a[c.Idx/625*5%25]
		for k := 1; k < 5; k++ {
			p := a[c.Idx%25] + a[c.Idx/25%25] + a[(c.Idx/625*5+k)%25]
			for _, x := range a {
				for _, y := range a {
					survive(c, p+x+y, nil)
				}
			}
		}
	}
	survive(c, pre, nil)
	survive(c, pre[:1], nil)
	survive(c, "", nil)
	for _, x := range a {
		survive(c, pre+x, nil)
		for _, y := range a {
			survive(c, pre+x+y, nil)
		}
	}
}

// c05Depth checks nesting of up to 100000 levels.
func c05Depth(c *Case) {
	depth := []int{1000, 9999, 10001, 65536, 100000, 300000}[c.Idx/2%6]
	open, shut := "[", "]"
	if c.Idx%2 == 1 {
		open, shut = `{"a":`, "}"
	}
	inner := "1"
	s := strings.Repeat(open, depth) + inner + strings.Repeat(shut, depth)
	d := new(njson.Document)
	n, tail, err := d.Parse(s)
	c.Eval(1)
	if err != nil || tail != "" {
		c.Failf("%d levels of nesting: %v", depth, err)
	}
	out, err := n.AppendJSON(nil)
	if err != nil || string(out) != s {
		c.Failf("%d levels of nesting are not serialized back (%v)", depth, err)
	}
	if x, ok := n.ToInterface(); !ok || x == nil {
		c.Failf("%d levels of nesting: ToInterface failed", depth)
	}
	if _, tail, err = d.Parse(s[:len(s)-1]); err == nil || len(tail) != len(s)-1 {
		c.Failf("%d levels of nesting without the last closing: %v", depth, err)
	}
	c.Sig("depth", uint64(depth), uint64(c.Idx%2))
}

// hugeShape is a family of texts of any length: a start, parts and an end.
type hugeShape struct {
	name        string
	start       string
	part        func(i int) string
	end         string
	ok          bool // the text is JSON
	incomplete  bool
	beforeLast  int // spaces before the end, as a multiple of the length of the parts
	valuesAlone bool
}

func same(s string) func(int) string { return func(int) string { return s } }

var hugeShapes = []hugeShape{
	{name: "flat array", start: "[", part: same("1,"), end: "1]", ok: true},
	{name: "flat array and space", start: "[", part: same("1,"), end: "1]", ok: true, beforeLast: 1},
	{name: "flat array without end", start: "[", part: same("1,"), end: "1", incomplete: true},
	{name: "flat array of strings", start: "[", part: same(`"a",`), end: `""]`, ok: true},
	{name: "flat array of escapes", start: "[", part: same(`"\\\"",`), end: `"\\"]`, ok: true},
	{name: "flat array of literals", start: "[", part: same(`null,true,false,`), end: `null]`, ok: true},
	{name: "flat object", start: "{", part: func(i int) string { return `"` + strconv.Itoa(i) + `":0,` }, end: `"":0}`, ok: true},
	{name: "flat object with one key", start: "{", part: same(`"a":0,`), end: `"a":0}`, ok: true},
	{name: "flat object with escaped keys", start: "{", part: func(i int) string { return `"\\` + strconv.Itoa(i) + `\"":0,` }, end: `"":0}`, ok: true},
	{name: "flat object without end", start: "{", part: same(`"a":0,`), end: `"a`, incomplete: true},
	{name: "flat object and space", start: "{", part: same(`"a":0,`), end: `"a":0}`, ok: true, beforeLast: 1},
	{name: "empty arrays", start: "[", part: same("[],"), end: "[]]", ok: true},
	{name: "empty objects", start: "[", part: same("{},"), end: "{}]", ok: true},
	{name: "rows", start: "[", part: same(`{"a":1,"b":[true,"x"]},`), end: "{}]", ok: true},
	{name: "pairs", start: "[", part: same(`[[1],[2]],`), end: "[]]", ok: true},
	{name: "string", start: `"`, part: same("lorem ipsum "), end: `"`, ok: true},
	{name: "string of quotes", start: `"`, part: same(`\"`), end: `"`, ok: true},
	{name: "string of slashes", start: `"`, part: same(`\\`), end: `"`, ok: true},
	{name: "string of code points", start: `"`, part: same(`\u00e9`), end: `"`, ok: true},
	{name: "string of quotes without end", start: `"`, part: same(`\"`), end: "", incomplete: true},
	{name: "string of slashes without end", start: `"`, part: same(`\\`), end: "", incomplete: true},
	{name: "string without end", start: `"`, part: same("x"), end: "", incomplete: true},
	{name: "key", start: `{"`, part: same(`k\"`), end: `":1}`, ok: true},
	{name: "key without end", start: `{"`, part: same(`k\\`), end: ``, incomplete: true},
	{name: "number", start: "", part: same("1234567890"), end: "", ok: true},
	{name: "fraction", start: "0.", part: same("0000000001"), end: "", ok: true},
	{name: "space", start: "", part: same(" \n\t\r"), end: "1", ok: true},
	{name: "only space", start: "", part: same("    "), end: "", incomplete: true},
	{name: "space inside", start: "[", part: same(" \n\t\r"), end: "1 ]", ok: true},
	{name: "spread array", start: "[", part: same("\n    1   ,"), end: "1]", ok: true},
	{name: "spread object", start: "{", part: same("\n    \"a\"   :   1   ,"), end: `"a":1}`, ok: true},
	{name: "bad end", start: "[", part: same("1,"), end: "x]"},
	{name: "bad end of object", start: "{", part: same(`"a":0,`), end: "}"},
	{name: "unclosed strings", start: "[", part: same(`"\",`), end: "x]"},
	{name: "values", part: same(`1 `), valuesAlone: true},
	{name: "array values", part: same(`[1]`), valuesAlone: true},
	{name: "string values", part: same(`"\"a"`), valuesAlone: true},
	{name: "mixed values", part: same(`{"a":[1,"b"]} null`), valuesAlone: true},
}

// spend fails if fn takes much longer than linear time: a microsecond a byte is a hundred times the usual.
func spend(c *Case, what string, size int, fn func()) {
	start := cpuTime()
	fn()
	took := cpuTime() - start
	if limit := time.Second + time.Duration(size)*time.Microsecond; took > limit {
		// Once more: the time may have gone elsewhere
		start = cpuTime()
		fn()
		if took = cpuTime() - start; took > limit {
			c.Failf("%s of %d bytes takes %v of CPU time", what, size, took)
		}
	}
}

// c05Huge parses texts of millions of bytes.
func c05Huge(c *Case) {
	sh := hugeShapes[c.Idx%len(hugeShapes)]
	size := []int{400000, 3000000}[c.Idx/len(hugeShapes)%2]
	if c.Env.Tier == "thorough" {
		size = []int{400000, 3000000, 8000000, 20000000}[c.Idx/len(hugeShapes)%4]
	}
	size += c.R.N(size / 16)
	if sh.beforeLast > 0 {
		size /= 2
	}
	var b strings.Builder
	b.Grow(size + size/4)
	b.WriteString(sh.start)
	parts := 0
	for b.Len() < size {
		b.WriteString(sh.part(parts))
		parts++
	}
	if sh.beforeLast > 0 {
		b.WriteString(strings.Repeat(" ", sh.beforeLast*b.Len()))
	}
	b.WriteString(sh.end)
	s := b.String()
	d := new(njson.Document)
	if c.R.P(1, 3) {
		d.Parse("[[1],{}]")
		d.Reset()
	}
	c.Sig("huge", hashStr(sh.name), uint64(len(s)))
	c.Count("huge bytes", len(s))
	if sh.valuesAlone {
		// A stream is read value by value into a document that is reset
		n := 0
		spend(c, "reading the stream "+sh.name, len(s), func() {
			n = 0
			for tail := s; tail != ""; n++ {
				d.Reset()
				var err error
				before := len(tail)
				if _, tail, err = d.Parse(tail); err != nil {
					if strings.TrimSpace(tail) == "" {
						break
					}
					c.Failf("value %d of the stream %s: %v", n, sh.name, err)
				}
				if len(tail) >= before {
					c.Failf("value %d of the stream %s consumes nothing", n, sh.name)
				}
			}
		})
		want := parts
		if sh.name == "mixed values" {
			want *= 2
		}
		c.Eval(n)
		if n != want {
			c.Failf("the stream %s has %d values, %d were read", sh.name, want, n)
		}
		return
	}
	var n njson.Node
	var tail string
	var err error
	spend(c, "parsing "+sh.name, len(s), func() {
		d.Reset()
		n, tail, err = d.Parse(s)
	})
	c.Eval(1)
	if sh.ok {
		if err != nil || tail != "" {
			c.Failf("%s of %d bytes: error %v, tail of %d bytes", sh.name, len(s), err, len(tail))
		}
		var out []byte
		spend(c, "serializing "+sh.name, len(s), func() { out, err = n.AppendJSON(nil) })
		if err != nil || string(out) != compact(s) {
			c.Failf("%s of %d bytes is not serialized back: %d bytes, %v", sh.name, len(s), len(out), err)
		}
		spend(c, "converting "+sh.name, len(s), func() { n.ToInterface() })
	} else if _, eof := err.(njson.UnexpectedEOF); err == nil || eof != sh.incomplete {
		c.Failf("%s of %d bytes: error %v", sh.name, len(s), err)
	} else if eof && tail != s {
		c.Failf("%s of %d bytes: the input is not returned", sh.name, len(s))
	}
	// The size of an earlier text costs later ones nothing
	small := `{"a":[1,2,{"b":null}],"c":"d"}`
	spend(c, "1000 small texts after "+sh.name, 1000*len(small), func() {
		for i := 0; i < 1000; i++ {
			d.Reset()
			if n, _, err = d.Parse(small); err != nil {
				c.Failf("after %s of %d bytes: %v", sh.name, len(s), err)
			}
		}
	})
	if out, err := n.AppendJSON(nil); err != nil || string(out) != small {
		c.Failf("after %s of %d bytes: %s (%v)", sh.name, len(s), out, err)
	}
}

const tooDeep = 20000000

// c05TooDeep nests millions of levels in a process of its own.
func c05TooDeep(c *Case) {
	kind := []string{"array", "object"}[c.Idx]
	cmd := exec.Command(c.Env.Self, "deepnest", kind)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=none")
	out, err := cmd.CombinedOutput()
	c.Eval(1)
	c.Sig("toodeep " + kind)
	if err != nil {
		if strings.Contains(string(out), "stack") || strings.Contains(string(out), "overflow") {
			c.FailKey("deep-nesting-"+kind, "%d levels of %s nesting end the process: %s", tooDeep, kind, firstLine(string(out)))
		}
		c.Failf("%d levels of %s nesting end the process: %v %s", tooDeep, kind, err, clip(string(out), 500))
	}
}

func deepNest(args []string) {
	debug.SetMaxStack(256 << 20)
	s := strings.Repeat("[", tooDeep)
	if len(args) > 0 && args[0] == "object" {
		s = strings.Repeat(`{"":`, tooDeep)
	}
	d := new(njson.Document)
	_, _, err := d.Parse(s)
	if err == nil {
		os.Exit(4)
	}
}

// ---- C06 ----

func c06Histories(c *Case) {
	d := freshDoc(c.R)
	type held struct {
		n njson.Node
		t *Tree
	}
	var live []held
	plan := uint64(0)
	lastText := ""
	edited := false
	steps := c.R.Range(3, 25)
	for i := 0; i < steps; i++ {
		op := c.R.N(12)
		switch {
		case op < 5: // accepted parse
			t := genTree(c.R, GenOpt{Nodes: 30, MaxStr: 30, EmptyHeavy: true})
			s := t.spaced(c.R, c.R.N(2))
			c.Logf("parse %q", s)
			n, _, err := d.Parse(s)
			if err != nil {
				c.Failf("valid JSON rejected after a history: %v\n%q", err, clip(s, 500))
			}
			if diff := sameAs(n, t); diff != "" {
				c.Failf("parse after a history differs: %s\n%q", diff, clip(s, 500))
			}
			f, _, _ := new(njson.Document).Parse(s)
			a, _ := f.AppendJSON(nil)
			b, _ := n.AppendJSON(nil)
			if string(a) != string(b) {
				c.Failf("parse after a history serializes to %q, fresh to %q", clip(string(b), 400), clip(string(a), 400))
			}
			if len(live) == 0 && !edited {
				if diff := sameAs(d.Root(), t); diff != "" {
					c.Failf("root after the first parse differs: %s", diff)
				}
			}
			live = append(live, held{n, t})
			lastText = s
			plan = mix(plan, 1, t.shape())
		case op < 7: // rejected parse
			t := genTree(c.R, GenOpt{Nodes: 30, MaxStr: 30})
			s := t.text()
			s = s[:c.R.N(len(s))]
			if c.R.P(1, 2) {
				s = "[" + s + "}"
			}
			if c.R.P(1, 4) && lastText != "" {
				s = "[" + lastText + "," + lastText + "!"
			}
			if t.Kind == '0' {
				s = "["
			}
			if s = strings.TrimSpace(s); s == "" || s[0] != '[' {
				s = "[" + s
			}
			c.Logf("parse %q", s)
			if _, _, err := d.Parse(s); err == nil {
				// A cut that happened to be complete
				live, edited = nil, true
				d.Reset()
			}
			plan = mix(plan, 2, uint64(len(s)))
		case op < 9: // reset
			c.Logf("reset")
			d.Reset()
			live, edited = nil, false
			plan = mix(plan, 3)
		case op == 9 && len(live) > 0: // drop a value by editing it
			j := c.R.N(len(live))
			n := live[j].n
			c.Logf("edit value %d", j)
			switch c.R.N(4) {
			case 0:
				n.SetInt(int64(i))
			case 1:
				n.SetStringRaw("edited")
			case 2:
				n.Remove(0)
				n.Strip("k1")
			default:
				n.Slice(0, 0)
				n.SetNull()
			}
			live = append(live[:j], live[j+1:]...)
			edited = true
			plan = mix(plan, 4, uint64(j))
		case op == 10: // added values are live too
			c.Logf("add")
			o := d.Object()
			o.Set("x", d.Text("y"))
			a := d.Array()
			a.Append(d.Number(1), o, d.Null())
			live = append(live, held{a, &Tree{Kind: 'a', Kids: []*Tree{{Kind: '0', Raw: "1"}, {Kind: 'o', Keys: []string{"x"}, Kids: []*Tree{{Kind: 's', Raw: "y"}}}, {Kind: 'n', Raw: "null"}}}})
			plan = mix(plan, 5)
			edited = true
		default:
			c.Logf("close")
			d.Close()
			d = njson.Blank()
			live, edited = nil, false
			plan = mix(plan, 6)
		}
		for j, h := range live {
			c.Eval(1)
			if diff := sameAs(h.n, h.t); diff != "" {
				c.Failf("value %d of the document changed by a later operation: %s", j, diff)
			}
		}
	}
	d.Close()
	c.Sig("history", plan)
	c.Sample("history", "%d operations, %d values alive at the end", steps, len(live))
}
