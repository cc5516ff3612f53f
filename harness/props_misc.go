package main

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"reflect"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"testing"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/njsontest"
	"github.com/alxarch/njson/unjson"
)

func init() {
	register(&Prop{ID: "C31", MinSig: 500,
		Rule: "a case is a value under test that behaves or misbehaves in a chosen way and an expectation; the verdict of the helper, run by the testing package, is compared with whether the expectation holds; distinct by helper, options, behaviour and verdict",
		Stages: []Stage{
			{Name: "append", Quick: 100000, Thorough: 2000000, Fn: c31Append},
			{Name: "unmarshal", Quick: 100000, Thorough: 2000000, Fn: c31Unmarshal},
			{Name: "kinds", Quick: 100000, Thorough: 2000000, Fn: c31Kinds},
			{Name: "bulk-append", Quick: 2000, Thorough: 80000, Fn: bulk(c31Append, 2, 1<<18)},
			{Name: "bulk-unmarshal", Quick: 2000, Thorough: 80000, Fn: bulk(c31Unmarshal, 2, 1<<18)},
		}})
}

var testingOnce sync.Once

// testVerdict runs a test with the testing package: "pass", "fail" or "panic: ...".
func testVerdict(fn func(t *testing.T)) (v string) {
	testingOnce.Do(func() {
		// The testing package reports on the standard output
		os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		testing.Init()
		flag.CommandLine.Parse(nil)
		// The testing package gets ready to run tests when its main function runs: it stays in a test from here on
		ready := make(chan bool)
		go testing.Main(matchAll, []testing.InternalTest{{Name: "ready", F: func(t *testing.T) { close(ready); select {} }}}, nil, nil)
		<-ready
	})
	ran, panicked := false, ""
	ok := testing.RunTests(matchAll, []testing.InternalTest{{Name: "x", F: func(t *testing.T) {
		defer func() {
			if x := recover(); x != nil {
				buf := make([]byte, 4000)
				panicked = fmt.Sprintf("panic: %v\n%s", x, buf[:runtime.Stack(buf, false)])
			}
		}()
		ran = true
		fn(t)
	}}})
	if !ran {
		return "no run"
	}
	if panicked != "" {
		return panicked
	}
	if ok {
		return "pass"
	}
	return "fail"
}

func matchAll(pat, str string) (bool, error) { return true, nil }

// puppet is a value under test that does as it is told.
type puppet struct {
	A int               `json:"a"`
	B string            `json:"b"`
	C []int             `json:"c"`
	D map[string]string `json:"d"`
	P *int              `json:"p"`
	e int
}

var puppeteer struct {
	out []byte
	err error
	set func(p *puppet)
}

func (p puppet) AppendJSON(dst []byte) ([]byte, error) {
	return append(dst, puppeteer.out...), puppeteer.err
}

func (p puppet) Other(dst []byte) ([]byte, error) {
	return append(dst, "[\"other\"]"...), nil
}

func (p puppet) Wrong(dst []byte) []byte { return dst }

type plainPuppet puppet

func (p *puppet) UnmarshalNodeJSON(n njson.Node) error {
	err := unjson.UnmarshalFromNode(n, (*plainPuppet)(p))
	if err != nil {
		return err
	}
	if puppeteer.set != nil {
		puppeteer.set(p)
	}
	return puppeteer.err
}

func (p *puppet) OtherNode(n njson.Node) error { p.B = "other"; return nil }

func (p *puppet) WrongNode(n njson.Node, x int) error { return nil }

func genPuppet(r *Rng) puppet {
	x := r.N(100)
	p := puppet{A: r.N(1000), B: toValidUTF8(genString(r, 10)), C: []int{r.N(5), r.N(5)}, D: map[string]string{r.Pick("k", "l"): r.Pick("v", "w")}, P: &x}
	if r.P(1, 5) {
		p.P = nil
	}
	if n := r.bulkN(2, 20000); n > 0 {
		p.C = make([]int, n)
		for i := range p.C {
			p.C[i] = i
		}
	}
	if n := r.bulkN(3, 5000); n > 0 {
		p.D = map[string]string{}
		for i := 0; i < n; i++ {
			p.D["k"+fmt.Sprint(i)] = "v"
		}
	}
	switch r.N(6) {
	case 0:
		// Nothing but zero values
		p = puppet{}
	case 1:
		p = puppet{C: []int{}, D: map[string]string{}}
	case 2:
		p.A, p.B = 0, ""
	}
	return p
}

// errorOption is an expectation of an error and whether an error meets it.
func errorOption(c *Case, err error) (opt njsontest.Option, name string, expects bool, met bool) {
	r := c.R
	msg := "none"
	if err != nil {
		msg = err.Error()
	}
	switch r.N(14) {
	case 12:
		return njsontest.Error((*regexp.Regexp)(nil)), "nil pattern", false, false
	case 13:
		return njsontest.Error((func(error) error)(nil)), "nil func", false, false
	case 0:
		return njsontest.Error(nil), "nil", false, false
	case 1:
		return njsontest.Error(""), "empty", false, false
	case 2:
		return njsontest.Error(false), "false", false, false
	case 3:
		return njsontest.Error(true), "true", true, err != nil
	case 4:
		other := errors.New(msg)
		return njsontest.Error(other), "other error", true, false
	case 5:
		if err != nil {
			return njsontest.Error(err), "same error", true, true
		}
		return njsontest.Error(io.EOF), "EOF", true, false
	case 6:
		i := r.N(len(msg))
		s := msg[i : i+1+r.N(len(msg)-i)]
		return njsontest.Error(s), "part of the text", true, err != nil
	case 7:
		return njsontest.Error("not in it"), "other text", true, false
	case 8:
		switch r.N(3) {
		case 0:
			i := r.N(len(msg))
			return njsontest.Error(regexp.MustCompile(regexp.QuoteMeta(msg[i : i+1+r.N(len(msg)-i)]))), "pattern of a part", true, err != nil
		case 1:
			return njsontest.Error(regexp.MustCompile(r.Pick("", "z*", "^", "$"))), "pattern that matches nothing too", true, err != nil
		}
		return njsontest.Error(regexp.MustCompile("^" + regexp.QuoteMeta(msg[:1]) + ".*$")), "pattern", true, err != nil
	case 9:
		return njsontest.Error(regexp.MustCompile("^not (in|of) it$")), "other pattern", true, false
	case 10:
		return njsontest.Error(func(e error) error {
			if e == err {
				return nil
			}
			return e
		}), "accepting func", true, err != nil
	default:
		return njsontest.Error(func(e error) error { return errors.New("refused") }), "refusing func", true, false
	}
}

// jsonOption gives the data in one of the forms the option takes.
func jsonOption(c *Case, data string) (njsontest.Option, string, bool) {
	once := false
	switch c.R.N(6) {
	case 0:
		return njsontest.JSON(data), "string", once
	case 1:
		return njsontest.JSON([]byte(data)), "bytes", once
	case 2:
		return njsontest.JSON(func() ([]byte, error) { return []byte(data), nil }), "func", once
	case 3:
		return njsontest.JSON(strings.NewReader(data)), "reader", true
	case 4:
		return njsontest.JSON(json.RawMessage(data)), "value", once
	}
	return njsontest.JSON(io.MultiReader(strings.NewReader(data[:len(data)/2]), strings.NewReader(data[len(data)/2:]))), "reader in parts", true
}

func judgeTest(c *Case, what string, fn func(t *testing.T), want bool, once bool) {
	if fn == nil {
		c.Failf("%s: no test", what)
	}
	runs := 2
	if once {
		runs = 1
	}
	for i := 0; i < runs; i++ {
		got := testVerdict(fn)
		c.Eval(1)
		exp := "fail"
		if want {
			exp = "pass"
		}
		if got != exp {
			c.Failf("the helper's verdict is %s, want %s\n%s", got, exp, what)
		}
		c.Count(exp, 1)
	}
}

func c31Append(c *Case) {
	r := c.R
	p := genPuppet(r)
	right, _ := json.Marshal(p2(p))
	puppeteer.set = nil
	puppeteer.out, puppeteer.err = right, nil
	behaves := "right"
	switch r.N(8) {
	case 0:
		puppeteer.out, behaves = right[:len(right)-1], "cut off"
	case 1:
		q := p
		switch r.N(4) {
		case 0:
			q.A++
		case 1:
			q.B += "x"
		case 2:
			q.C = append([]int{9}, q.C...)
			if n := len(p.C); n > 0 && r.P(1, 2) {
				q.C = append(append([]int(nil), p.C[:n-1]...), p.C[n-1]+1)
			}
		case 3:
			q.D = map[string]string{"k": "other"}
		}
		puppeteer.out, _ = json.Marshal(p2(q))
		behaves = "wrong field"
	case 2:
		puppeteer.out, behaves = append(append([]byte(nil), right...), r.Pick("x", "}", "1", " ", "\n", "\t", "\x00")...), "longer"
		if r.P(1, 4) {
			puppeteer.out = append([]byte(r.Pick(" ", "\n", "\ufeff")), right...)
		}
	case 3:
		puppeteer.out, behaves = []byte(r.Pick("", "null", "{}", "x")), "other output"
	case 4:
		puppeteer.out, behaves = []byte(strings.Replace(string(right), `"c":`, `"x":`, 1)), "missing field"
	}
	if r.P(1, 3) {
		puppeteer.err = errors.New(r.Pick("boom", "some error", "x"))
	}
	expects, met := false, false
	ename := "no expectation"
	var opts []njsontest.Option
	if r.P(1, 2) {
		var o njsontest.Option
		o, ename, expects, met = errorOption(c, puppeteer.err)
		opts = append(opts, o)
	}
	once, jname := false, "default"
	good := string(puppeteer.out) == string(right)
	if r.P(2, 3) {
		var o njsontest.Option
		o, jname, once = jsonOption(c, string(right))
		opts = append(opts, o)
	} else if r.P(1, 8) {
		opts = append(opts, njsontest.JSON(nil))
		jname = "nil"
		good = string(puppeteer.out) == "null"
	}
	broken := r.P(1, 12)
	if broken {
		jname, once = "failing", false
		data := [][]byte{nil, right, puppeteer.out}[r.N(3)]
		opts = append(opts, njsontest.JSON(func() ([]byte, error) { return data, errors.New("no data") }))
	}
	want := !broken
	if expects {
		want = want && met
	} else {
		want = want && puppeteer.err == nil && good
	}
	mname := "AppendJSON"
	switch r.N(12) {
	case 0:
		mname = "Other"
		if expects {
			want = false
		} else {
			want = false
		}
	case 1:
		mname = r.Pick("Missing", "Wrong", "appendJSON", "MarshalJSON", "String")
		want = false
	}
	if mname != "AppendJSON" || r.P(1, 4) {
		opts = append(opts, njsontest.Method(mname))
	}
	if mname == "Other" && r.P(1, 2) && !broken {
		opts = append(opts, njsontest.JSON(`["other"]`))
		once = false
		jname = "of the other method"
		want = !expects
	}
	var x interface{} = p
	if r.P(1, 2) {
		x = &p
	}
	if r.P(1, 10) {
		opts = append(opts, nil)
	}
	what := fmt.Sprintf("AppendJSON of a value that gives %q (%s), error %v; expected JSON %s %q, error %s, method %s", puppeteer.out, behaves, puppeteer.err, jname, right, ename, mname)
	c.Logf("%s", what)
	judgeTest(c, what, njsontest.AppendJSON(x, opts...), want, once)
	c.Sig("append", hashStr(behaves), hashStr(fmt.Sprint(puppeteer.err != nil)), hashStr(jname), hashStr(ename), hashStr(mname), uint64(boolInt(want)))
	c.Sample(fmt.Sprintf("append %s pass=%v", behaves, want), "%s", what)
}

// p2 has the exported fields of a puppet and none of its methods.
func p2(p puppet) interface{} { return plainPuppet(p) }

func c31Unmarshal(c *Case) {
	r := c.R
	p := genPuppet(r)
	data, _ := json.Marshal(p2(p))
	puppeteer.out, puppeteer.err, puppeteer.set = nil, nil, nil
	behaves, good := "right", true
	input := string(data)
	switch r.N(9) {
	case 0:
		k := r.N(6)
		puppeteer.set = func(q *puppet) {
			switch k {
			case 0:
				q.A++
			case 1:
				q.B += "x"
			case 2:
				q.C = append([]int(nil), append(q.C, 7)...)
			case 3:
				q.D = map[string]string{"extra": "x"}
			case 4:
				q.e = 5
			case 5:
				y := 1000
				q.P = &y
			}
		}
		behaves, good = "wrong field", false
	case 1:
		puppeteer.set = func(q *puppet) { *q = puppet{} }
		behaves, good = "nothing set", reflect.ValueOf(p).IsZero()
	case 2:
		input = strings.Replace(input, `"c":`, `"x":`, 1)
		behaves, good = "missing field", p.C == nil
	case 3:
		puppeteer.set = func(q *puppet) {
			// Equal, but not the same memory
			if q.C != nil {
				q.C = append([]int{}, q.C...)
			}
		}
		behaves = "equal"
	}
	if r.P(1, 3) {
		puppeteer.err = errors.New(r.Pick("boom", "some error", "x"))
	}
	bad := r.P(1, 10)
	if bad {
		input = input[:len(input)-1-r.N(len(input)-2)]
		behaves = "bad input"
	}
	expects, met := false, false
	ename := "no expectation"
	var opts []njsontest.Option
	if r.P(1, 2) {
		var o njsontest.Option
		o, ename, expects, met = errorOption(c, puppeteer.err)
		opts = append(opts, o)
	}
	once, jname := false, "default"
	if input != string(data) || r.P(2, 3) {
		// A puppet marshals to its plain form, so the default is the same data
		var o njsontest.Option
		switch o, jname, once = jsonOption(c, input); jname {
		case "value":
			if bad {
				o, jname = njsontest.JSON(input), "string"
			}
		}
		opts = append(opts, o)
	}
	broken := !bad && r.P(1, 12)
	if broken {
		jname, once = "failing", false
		part := []byte(input)
		if r.P(1, 2) {
			part = nil
		}
		opts = append(opts, njsontest.JSON(func() ([]byte, error) { return part, errors.New("no data") }))
		bad = true
	}
	want := !bad
	if expects {
		want = want && met
	} else {
		want = want && puppeteer.err == nil && good
	}
	mname := "UnmarshalNodeJSON"
	switch r.N(12) {
	case 0:
		mname = "OtherNode"
		want = !bad && !expects && r.P(1, 2)
		if want {
			p = puppet{B: "other"}
		} else {
			p.B = "not other"
		}
	case 1:
		mname = r.Pick("Missing", "WrongNode", "UnmarshalJSON", "unmarshalNodeJSON", "AppendJSON")
		want = false
	}
	if mname != "UnmarshalNodeJSON" || r.P(1, 4) {
		opts = append(opts, njsontest.Method(mname))
	}
	tname := "new"
	if r.P(1, 4) {
		opts = append(opts, njsontest.Value(&puppet{}))
		tname = "given"
		once = true
	}
	var x interface{} = p
	if r.P(1, 2) {
		x = &p
	}
	if jname == "default" {
		// The value marshals through json.Marshal
		x = &p
		if r.P(1, 2) {
			x = p
		}
		if mname == "OtherNode" {
			// The data of the expected value
			input = "its own"
		}
	}
	what := fmt.Sprintf("Unmarshal of %q (%s), error %v, expecting %+v; data %s, error %s, method %s, target %s", input, behaves, puppeteer.err, p, jname, ename, mname, tname)
	c.Logf("%s", what)
	judgeTest(c, what, njsontest.Unmarshal(x, opts...), want, once)
	c.Sig("unmarshal", hashStr(behaves), hashStr(fmt.Sprint(puppeteer.err != nil)), hashStr(jname), hashStr(ename), hashStr(mname), hashStr(tname), uint64(boolInt(want)))
	c.Sample(fmt.Sprintf("unmarshal %s pass=%v", behaves, want), "%s", what)
}

// Types of all kinds whose methods behave as kindAct says.
type (
	kindInt    int
	kindUint   uint8
	kindString string
	kindBool   bool
	kindFloat  float64
	kindSlice  []int
	kindMap    map[string]int
	kindArray  [2]string
	kindPtr    struct{ P *int }
)

var kindAct struct {
	decode, encode int // 0 does what it should, 1 nothing, 2 leaves zero, 3 something else
	err            error
}

func kindDecode(n njson.Node, p interface{}) error {
	if kindAct.decode == 1 {
		return kindAct.err
	}
	v := reflect.ValueOf(p).Elem()
	v.SetZero()
	if kindAct.decode != 2 {
		b, err := n.AppendJSON(nil)
		if err == nil {
			err = json.Unmarshal(b, p)
		}
		if err != nil {
			return err
		}
	}
	if kindAct.decode == 3 {
		kindSpoil(v)
	}
	return kindAct.err
}

func kindSpoil(v reflect.Value) {
	switch v.Kind() {
	case reflect.Int:
		v.SetInt(v.Int() + 1)
	case reflect.Uint8:
		v.SetUint((v.Uint() + 1) % 256)
	case reflect.Float64:
		v.SetFloat(v.Float() + 0.5)
	case reflect.String:
		v.SetString(v.String() + " ")
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Slice:
		v.Set(reflect.Append(v, reflect.Zero(v.Type().Elem())))
	case reflect.Map:
		if v.IsNil() {
			v.Set(reflect.MakeMap(v.Type()))
		}
		v.SetMapIndex(reflect.ValueOf("another"), reflect.ValueOf(0))
	case reflect.Array:
		v.Index(1).SetString(v.Index(1).String() + "x")
	case reflect.Struct:
		x := 12345
		v.Field(0).Set(reflect.ValueOf(&x))
	}
}

func kindEncode(b []byte, x interface{}) ([]byte, error) {
	out, err := json.Marshal(x)
	if err != nil {
		return nil, err
	}
	switch kindAct.encode {
	case 1:
		out = nil
	case 2:
		out = []byte("null")
	case 3:
		out = append(out, ' ')
	}
	return append(b, out...), kindAct.err
}

func (p *kindInt) UnmarshalNodeJSON(n njson.Node) error    { return kindDecode(n, p) }
func (p *kindUint) UnmarshalNodeJSON(n njson.Node) error   { return kindDecode(n, p) }
func (p *kindString) UnmarshalNodeJSON(n njson.Node) error { return kindDecode(n, p) }
func (p *kindBool) UnmarshalNodeJSON(n njson.Node) error   { return kindDecode(n, p) }
func (p *kindFloat) UnmarshalNodeJSON(n njson.Node) error  { return kindDecode(n, p) }
func (p *kindSlice) UnmarshalNodeJSON(n njson.Node) error  { return kindDecode(n, p) }
func (p *kindMap) UnmarshalNodeJSON(n njson.Node) error    { return kindDecode(n, p) }
func (p *kindArray) UnmarshalNodeJSON(n njson.Node) error  { return kindDecode(n, p) }
func (p *kindPtr) UnmarshalNodeJSON(n njson.Node) error    { return kindDecode(n, p) }
func (x kindInt) AppendJSON(b []byte) ([]byte, error)      { return kindEncode(b, x) }
func (x kindUint) AppendJSON(b []byte) ([]byte, error)     { return kindEncode(b, x) }
func (x kindString) AppendJSON(b []byte) ([]byte, error)   { return kindEncode(b, x) }
func (x kindBool) AppendJSON(b []byte) ([]byte, error)     { return kindEncode(b, x) }
func (x kindFloat) AppendJSON(b []byte) ([]byte, error)    { return kindEncode(b, x) }
func (x kindSlice) AppendJSON(b []byte) ([]byte, error)    { return kindEncode(b, x) }
func (x kindMap) AppendJSON(b []byte) ([]byte, error)      { return kindEncode(b, x) }
func (x kindArray) AppendJSON(b []byte) ([]byte, error)    { return kindEncode(b, x) }
func (x kindPtr) AppendJSON(b []byte) ([]byte, error)      { return kindEncode(b, x) }

func genKind(r *Rng) interface{} {
	if r.P(1, 6) {
		return []interface{}{kindInt(0), kindUint(0), kindString(""), kindBool(false), kindFloat(0), kindSlice(nil), kindSlice{}, kindMap(nil), kindMap{}, kindArray{}, kindPtr{}}[r.N(11)]
	}
	switch r.N(9) {
	case 0:
		return kindInt(r.N(1000) - 500)
	case 1:
		return kindUint(r.N(256))
	case 2:
		return kindString(toValidUTF8(genString(r, 20)))
	case 3:
		return kindBool(true)
	case 4:
		return kindFloat(float64(r.N(1000)) / 8)
	case 5:
		s := make(kindSlice, r.N(4))
		for i := range s {
			s[i] = r.N(9)
		}
		return s
	case 6:
		m := kindMap{}
		for i := r.N(3); i > 0; i-- {
			m[r.Pick("a", "b", "é")] = r.N(3)
		}
		if len(m) > 1 {
			// One order only
			return kindMap{"a": 1}
		}
		return m
	case 7:
		return kindArray{r.Pick("", "a"), r.Pick("", "b")}
	default:
		x := r.N(3)
		return kindPtr{&x}
	}
}

// c31Kinds uses the helpers with types of all kinds.
func c31Kinds(c *Case) {
	r := c.R
	x := genKind(r)
	data, err := json.Marshal(x)
	if err != nil {
		c.Broken("%v", err)
	}
	kindAct.decode, kindAct.encode, kindAct.err = r.N(4), r.N(4), nil
	if r.P(1, 2) {
		kindAct.decode, kindAct.encode = 0, 0
	}
	if r.P(1, 5) {
		kindAct.err = errors.New("boom")
	}
	expects, met, ename := false, false, "no expectation"
	var opts []njsontest.Option
	if r.P(1, 4) {
		var o njsontest.Option
		o, ename, expects, met = errorOption(c, kindAct.err)
		opts = append(opts, o)
	}
	if r.P(1, 2) {
		opts = append(opts, njsontest.JSON(string(data)))
	}
	arg := x
	ptr := reflect.New(reflect.TypeOf(x))
	ptr.Elem().Set(reflect.ValueOf(x))
	if r.P(1, 2) {
		arg = ptr.Interface()
	}
	if r.P(1, 2) {
		want := met
		if !expects {
			out, _ := kindEncode(nil, x)
			want = kindAct.err == nil && string(out) == string(data)
		}
		what := fmt.Sprintf("AppendJSON of %T %v which does %d, error %v, expected error %s", arg, x, kindAct.encode, kindAct.err, ename)
		judgeTest(c, what, njsontest.AppendJSON(arg, opts...), want, false)
		c.Sig("append kind", hashStr(fmt.Sprintf("%T", arg)), uint64(kindAct.encode), hashStr(ename), uint64(boolInt(want)), uint64(len(opts)))
		c.Count(fmt.Sprintf("append %T", x), 1)
		return
	}
	target := reflect.New(reflect.TypeOf(x))
	if r.P(1, 3) {
		// A target that holds something
		if r.P(1, 2) {
			kindSpoil(target.Elem())
		}
		opts = append(opts, njsontest.Value(target.Interface()))
		ename += " given target"
	} else {
		target = reflect.New(reflect.TypeOf(x))
	}
	want := met
	if !expects {
		// What the method makes of a copy of the target
		now := reflect.New(reflect.TypeOf(x))
		now.Elem().Set(target.Elem())
		var d njson.Document
		n, _, err := d.Parse(string(data))
		if err != nil {
			c.Failf("%v", err)
		}
		err = kindDecode(n, now.Interface())
		want = err == nil && reflect.DeepEqual(now.Elem().Interface(), x)
	}
	what := fmt.Sprintf("Unmarshal of %T %v which does %d to %v, error %v, expected error %s", arg, x, kindAct.decode, target.Elem(), kindAct.err, ename)
	judgeTest(c, what, njsontest.Unmarshal(arg, opts...), want, true)
	c.Sig("unmarshal kind", hashStr(fmt.Sprintf("%T", arg)), uint64(kindAct.decode), hashStr(ename), uint64(boolInt(want)), uint64(len(opts)))
	c.Count(fmt.Sprintf("unmarshal %T", x), 1)
}
