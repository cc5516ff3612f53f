package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"runtime"
	"strings"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/numjson"
	"github.com/alxarch/njson/strjson"
	"github.com/alxarch/njson/unjson"
)

func init() {
	register(&Prop{ID: "C32", MinSig: 1000,
		Rule: "a case is an append operation run on buffers with canaries in front of and behind the bytes given, or a set of results kept while further operations run and inputs are overwritten; distinct by operation, output and buffer layout",
		Stages: []Stage{
			{Name: "append", Quick: 240000, Thorough: 3000000, Fn: c32Append},
			{Name: "kept", Quick: 80000, Thorough: 800000, Fn: c32Kept},
			{Name: "pooled", Quick: 80000, Thorough: 800000, Fn: c32Pooled},
			{Name: "bulk-append", Quick: 3000, Thorough: 60000, Fn: bulk(c32Append, 2, 1<<18)},
			{Name: "bulk-kept", Quick: 800, Thorough: 24000, Fn: bulk(c32Kept, 3, 1<<17)},
			{Name: "bulk-pooled", Quick: 800, Thorough: 24000, Fn: bulk(c32Pooled, 2, 1<<17)},
		}})
	register(&Prop{ID: "C28", MinSig: 20,
		Rule: "a case is a workload repeated until memory must be steady, then watched: live heap after garbage collection at distant points; distinct by workload and variant",
		Stages: []Stage{
			{Name: "steady", Quick: 14 * 6, Thorough: 14 * 60, Fn: c28Steady, CPULimit: 120},
			{Name: "large", Quick: 14 * 8, Thorough: 14 * 40, Fn: c28Large, CPULimit: 300},
		}})
}

// ---- C32 ----

// appendOp is an operation that appends to a buffer.
type appendOp struct {
	name string
	run  func(dst []byte) ([]byte, error)
	alt  func(a, b string) bool // outputs that are the same value
}

func sameValue(a, b string) bool { return a == b || sameMeaning(a, b) == "" }

type partialHook struct{ err error }

func (p partialHook) AppendJSON(dst []byte) ([]byte, error) { return append(dst, "partial"...), p.err }

type partialText struct{ err error }

func (p partialText) MarshalText() ([]byte, error) { return []byte("partial"), p.err }

func genAppendOp(c *Case) appendOp {
	r := c.R
	switch r.N(10) {
	case 0:
		s := genString(r, 300)
		if r.P(1, 3) {
			s = hostileString(r)
		}
		html := r.P(1, 2)
		return appendOp{"AppendEscaped", func(dst []byte) ([]byte, error) { return strjson.AppendEscaped(dst, s, html), nil }, nil}
	case 1:
		s := genRawMax(r, 300, true)
		if r.P(1, 4) {
			s = hostileString(r)
		}
		return appendOp{"AppendUnescaped", func(dst []byte) ([]byte, error) { return strjson.AppendUnescaped(dst, s), nil }, nil}
	case 2:
		f, bits := genFloat(r), r.Pick2(32, 64)
		return appendOp{"AppendFloat", func(dst []byte) ([]byte, error) { return numjson.AppendFloat(dst, f, bits), nil }, nil}
	case 3, 4:
		d := freshDoc(r)
		t := genTree(r, GenOpt{Nodes: 40})
		n, _, err := d.Parse(t.text())
		if err != nil {
			c.Failf("%v", err)
		}
		if r.P(1, 3) {
			o := d.Object()
			o.Set("built", n)
			o.Set("s", d.Text(genString(r, 50)))
			n = o
		}
		if r.P(1, 4) {
			return appendOp{"Document.AppendJSON", d.AppendJSON, nil}
		}
		if r.P(1, 10) {
			// A node without a value below the root
			stale := d.Array()
			d.Reset()
			return appendOp{"Node.AppendJSON of a stale node", stale.AppendJSON, nil}
		}
		return appendOp{"Node.AppendJSON", n.AppendJSON, nil}
	case 5:
		// Values that fail at some depth
		boom := errors.New("boom")
		x := []interface{}{
			[]interface{}{1, "a", partialHook{boom}}, map[string]interface{}{"a": partialText{boom}}, []interface{}{partialHook{}, partialText{}, math.NaN()},
			struct {
				A string
				B []float64
			}{"abc", []float64{1, math.Inf(-1)}}, make(chan int), []interface{}{"x", func() {}},
			[]interface{}{[]interface{}{[]string{"deep"}, partialHook{boom}}}}[r.N(7)]
		return appendOp{"AppendJSON of a failing value", func(dst []byte) ([]byte, error) { return unjson.AppendJSON(dst, x) }, nil}
	case 6:
		x := []interface{}{partialHook{}, partialText{}, map[string]interface{}{"h": HJV{genString(r, 30)}, "t": HTV{genString(r, 30)}, "n": HNV{genString(r, 30)}},
			HookMix{J: HJV{"j"}, Any: HTP{"x"}}, &HJP{genString(r, 30)}, HJStr(genString(r, 100))}[r.N(6)]
		return appendOp{"AppendJSON of hooks", func(dst []byte) ([]byte, error) {
			resetHooks(0)
			return unjson.AppendJSON(dst, x)
		}, sameValue}
	default:
		g := newTypeGen(r)
		t := g.typ(4)
		p := reflect.New(t)
		vg := newValueGen(r)
		vg.nilSlices = true
		vg.fill(p.Elem(), 5)
		if r.P(1, 2) && t.Kind() != reflect.Ptr && t.Kind() != reflect.Interface {
			o := unjson.DefaultOptions()
			o.AllowNaN = true
			enc, err := unjson.NewTypeEncoder(t, o)
			if err != nil {
				c.Failf("%v", err)
			}
			return appendOp{"Encoder.Encode", func(dst []byte) ([]byte, error) { return enc.Encode(dst, p.Interface()) }, sameValue}
		}
		return appendOp{"AppendJSON", func(dst []byte) ([]byte, error) { return unjson.AppendJSON(dst, p.Interface()) }, sameValue}
	}
}

func c32Append(c *Case) {
	r := c.R
	op := genAppendOp(c)
	base, berr := op.run(nil)
	want := string(base)
	for i := 0; i < 4; i++ {
		// [guard][given bytes][spare capacity]
		guard := r.N(20)
		pre := genBefore(r)
		if r.P(1, 4) {
			pre = strings.Repeat(r.Pick("p", "\"", "{", "\\", "\xff"), r.Pick2(0, 1, 3, 50, 700, 5000))
		}
		spare := r.Pick2(0, 1, 2, 8, len(want)-1, len(want), len(want)+1, 2*len(want)+64, 5000)
		if spare < 0 {
			spare = 0
		}
		back := make([]byte, guard+len(pre)+spare)
		for k := range back {
			back[k] = 0xA5
		}
		copy(back[guard:], pre)
		given := back[guard : guard+len(pre) : guard+len(pre)+spare]
		got, err := op.run(given)
		c.Eval(2)
		if string(given) != pre || strings.Count(string(back[:guard]), "\xa5") != guard {
			c.Failf("%s changed the bytes it was given: %q, were %q", op.name, clip(string(given), 200), clip(pre, 200))
		}
		if (err == nil) != (berr == nil) {
			c.Failf("%s with a buffer gives error %v, with none %v", op.name, err, berr)
		}
		if err != nil {
			c.Count("failed appends", 1)
			continue
		}
		if !strings.HasPrefix(string(got), pre) {
			c.Failf("%s lost the bytes it was given: %q, want %q in front", op.name, clip(string(got), 200), clip(pre, 200))
		}
		out := string(got[len(pre):])
		if out != want && (op.alt == nil || !op.alt(out, want)) {
			c.Failf("%s appends %q to %d bytes with %d spare and %q to nothing", op.name, clip(out, 300), len(pre), spare, clip(want, 300))
		}
		// The result is the caller's: what is written there is seen by nobody else
		full := got[:cap(got)]
		for k := range full {
			full[k] = 0xEE
		}
		again, err := op.run(nil)
		if s := string(again); err != nil || s != want && (op.alt == nil || !op.alt(s, want)) {
			c.Failf("%s gives another result after its earlier result was overwritten: %q, was %q (%v)", op.name, clip(s, 300), clip(want, 300), err)
		}
		c.Sig("append", hashStr(op.name), hashStr(want), uint64(lenClass(len(pre))), uint64(lenClass(spare)))
	}
	if string(base) != want {
		c.Failf("the first result of %s changed: %q, was %q", op.name, clip(string(base), 300), clip(want, 300))
	}
	checkKept(c)
	c.Count(op.name, 1)
	c.Sample(op.name, "%s", clip(want, 150))
}

// result is a result kept and how to look at it again.
type result struct {
	name string
	now  func() string
	was  string
}

// c32Kept keeps results of all kinds while other operations run.
func c32Kept(c *Case) {
	r := c.R
	var kept []result
	keepResult := func(name string, now func() string) { kept = append(kept, result{name, now, strings.Clone(now())}) }
	var docs []*njson.Document
	for i := r.Range(3, 14); i > 0; i-- {
		switch r.N(10) {
		case 0:
			s := strjson.Escaped(genString(r, 100), r.P(1, 2), r.P(1, 2))
			keepResult("Escaped", func() string { return s })
		case 1:
			s := strjson.Unescaped(genRawMax(r, 100, true))
			keepResult("Unescaped", func() string { return s })
		case 2:
			s := numjson.FormatFloat(genFloat(r), 64)
			keepResult("FormatFloat", func() string { return s })
		case 3:
			// The input is overwritten after decoding
			t := genTree(r, GenOpt{Nodes: 20, Unique: true})
			fitFloats(t)
			data := []byte(t.text())
			var x interface{}
			if err := unjson.Unmarshal(data, &x); err != nil {
				c.Failf("%v", err)
			}
			var want interface{}
			unjson.UnmarshalFromString(string(data), &want)
			for k := range data {
				data[k] = 'Z'
			}
			if d := deepDiff(x, want); d != "" {
				c.Failf("overwriting the input changed the decoded value: %s", d)
			}
			keepResult("Unmarshal", func() string { return jsonOf(x) })
		case 4:
			g := newTypeGen(r)
			t := g.typ(3)
			tg := TextGen{r: r, tag: "json", budget: 30}
			text := tg.tree(t, 4).text()
			p := reflect.New(t)
			data := []byte(text)
			if err := unjson.Unmarshal(data, p.Interface()); err != nil {
				c.Failf("%v", err)
			}
			for k := range data {
				data[k] = '7'
			}
			keepResult("Unmarshal to "+typeName(t), func() string { return jsonOf(p.Interface()) })
		case 5:
			g := newTypeGen(r)
			p := reflect.New(g.typ(3))
			newValueGen(r).fill(p.Elem(), 4)
			b, err := unjson.Marshal(p.Interface())
			if err != nil {
				c.Failf("%v", err)
			}
			keepResult("Marshal", func() string { return string(b) })
		case 6:
			resetHooks(0)
			x := HookMix{J: HJV{genString(r, 20)}, T: HTV{genString(r, 20)}, N: HNV{genString(r, 20)}, Any: &HTP{genString(r, 20)}}
			b, err := unjson.Marshal(x)
			if err != nil {
				c.Failf("%v", err)
			}
			keepResult("Marshal of hooks", func() string { return string(b) })
			var y HookMix
			if err := unjson.Unmarshal(append([]byte(nil), b...), &y); err != nil {
				c.Failf("%v", err)
			}
			keepResult("hooks", func() string { resetHooks(0); return jsonOf(y.J) + jsonOf(y.T) + y.N.P })
		case 7:
			// What a document gives out stays, whatever happens to the document
			d := njson.Blank()
			docs = append(docs, d)
			t := genTree(r, GenOpt{Nodes: 20, Unique: true})
			fitFloats(t)
			n, _, err := d.Parse(t.text())
			if err != nil {
				c.Failf("%v", err)
			}
			raw, un := n.Raw(), n.Unescaped()
			x, _ := n.ToInterface()
			b, _ := n.AppendJSON(nil)
			keepResult("Raw", func() string { return raw + un })
			keepResult("ToInterface", func() string { return jsonOf(x) })
			keepResult("Node.AppendJSON", func() string { return string(b) })
			var y interface{}
			if unjson.UnmarshalFromNode(n, &y) == nil {
				keepResult("UnmarshalFromNode", func() string { return jsonOf(y) })
			}
		case 8:
			var buf bytes.Buffer
			e := unjson.NewLineEncoder(&buf)
			for k := 0; k < 3; k++ {
				e.Encode(genString(r, 60))
			}
			dec := unjson.NewLineDecoder(strings.NewReader(buf.String()))
			for k := 0; k < 3; k++ {
				var s string
				if err := dec.Decode(&s); err != nil {
					c.Failf("%v", err)
				}
				keepResult("LineDecoder", func() string { return s })
			}
		case 9:
			var d njson.Document
			_, _, err := d.Parse(r.Pick("[1,x]", "{", `{"a":tru}`, `"`, "[1 2]"))
			if err == nil {
				c.Failf("bad text is accepted")
			}
			keepResult("error", err.Error)
		}
		for len(docs) > 0 && r.P(1, 3) {
			// Documents are changed, reset and reused
			d := docs[len(docs)-1]
			docs = docs[:len(docs)-1]
			vandalize(d.Root(), d.Text("other"))
			d.Reset()
			d.Parse(`["` + strings.Repeat("Q", 100) + `",{"k":"` + strings.Repeat("W", 50) + `"}]`)
			d.Close()
		}
		for _, k := range kept {
			c.Eval(1)
			if s := k.now(); s != k.was {
				c.Failf("a result of %s changed: %q, was %q", k.name, clip(s, 300), clip(k.was, 300))
			}
		}
	}
	h := uint64(0)
	for _, k := range kept {
		h = mix(h, hashStr(k.was))
		c.Count("kept results of "+strings.SplitN(k.name, " to ", 2)[0], 1)
	}
	checkKept(c)
	c.Sig("kept", h)
}

// reenter is a writer and a hook that uses the pooled buffers while it holds one.
type reenter struct {
	c     *Case
	n     njson.Node
	depth int
	seen  int
}

func (w *reenter) disturb(b []byte) error {
	was := string(b)
	if w.depth > 0 {
		w.depth--
		w.seen++
		switch w.c.R.N(6) {
		case 5:
			var d njson.Document
			s := w.c.R.Pick("[]", "{}", `""`, "null", "1")
			n, _, _ := d.Parse(s)
			var rec recorder
			if err := n.WrapUnmarshalJSON(&rec); err != nil || rec.data != s {
				w.c.Failf("a hook got %q for %s: %v", rec.data, s, err)
			}
			if err := n.WrapUnmarshalJSON(w); err != nil {
				return err
			}
			if b, err := n.AppendJSON(nil); err != nil || string(b) != s {
				w.c.Failf("%s serializes as %q after a hook wrote over its argument: %v", s, b, err)
			}
		case 0:
			if _, err := w.n.PrintJSON(w); err != nil {
				return err
			}
		case 1:
			if err := w.n.WrapUnmarshalJSON(w); err != nil {
				return err
			}
		case 2:
			var d njson.Document
			if err := d.Text(strings.Repeat("text", 40)).WrapUnmarshalText(w); err != nil {
				return err
			}
		case 3:
			if _, err := njson.PrintJSON(w, partialHook{}); err != nil {
				return err
			}
		case 4:
			njson.PrintJSON(w, failAppender{errors.New("no value")})
			w.n.WrapUnmarshalJSON(failHook{errors.New("no value")})
			njson.PrintJSON(&failWriter{err: io.ErrShortWrite}, w.n)
			if _, err := w.n.PrintJSON(w); err != nil {
				return err
			}
		}
	}
	w.c.Eval(1)
	if string(b) != was {
		w.c.Failf("the bytes given to a writer or hook changed while it ran: %q, were %q", clip(string(b), 200), clip(was, 200))
	}
	return nil
}

// own checks the bytes given to a hook and writes over them, as a hook may.
func (w *reenter) own(b []byte) error {
	if len(b) == 2 && !(string(b) == "[]" || string(b) == "{}" || string(b) == `""`) {
		if _, err := refDoc(string(b)); err != nil {
			w.c.Failf("a hook got the bytes %q", b)
		}
	}
	err := w.disturb(b)
	for i := range b {
		b[i] = 'x'
	}
	return err
}

func (w *reenter) Write(b []byte) (int, error) { return len(b), w.disturb(b) }

func (w *reenter) UnmarshalJSON(b []byte) error { return w.own(b) }
func (w *reenter) UnmarshalText(b []byte) error { return w.own(b) }

// c32Pooled uses buffers of the pool from within their users.
func c32Pooled(c *Case) {
	t := genTree(c.R, GenOpt{Nodes: 30, MaxStr: c.R.Pick2(10, 3000)})
	d := freshDoc(c.R)
	n, _, err := d.Parse(t.text())
	if err != nil {
		c.Failf("%v", err)
	}
	w := &reenter{c: c, n: n, depth: c.R.Range(1, 8)}
	for i := 0; i < 3; i++ {
		if err := w.disturb([]byte("start")); err != nil {
			c.Failf("%v", err)
		}
	}
	c.Count("nested uses", w.seen)
	c.Sig("pooled", t.shape(), uint64(w.seen))
}

// ---- C28 ----

func liveHeap() uint64 {
	// Pools are emptied by the second collection
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.HeapAlloc
}

type steadyType struct {
	ID   int                    `json:"id"`
	Name string                 `json:"name"`
	Tags []string               `json:"tags"`
	M    map[string]interface{} `json:"m"`
	Sub  *steadyType            `json:"sub,omitempty"`
	H    *HTV                   `json:"h,omitempty"`
}

type steadyWork struct {
	name string
	make func(c *Case, texts []string) func(i int)
}

// steadyWorks are workloads. Each call is one round of a cycle that repeats exactly.
var steadyWorks = []steadyWork{
	{"parse and reset", func(c *Case, texts []string) func(int) {
		d := new(njson.Document)
		return func(i int) {
			d.Reset()
			d.Parse(texts[i%len(texts)])
		}
	}},
	{"parse and fail and reset", func(c *Case, texts []string) func(int) {
		d := new(njson.Document)
		return func(i int) {
			s := texts[i%len(texts)]
			d.Parse(s[:len(s)-1])
			d.Parse(s[:len(s)/2])
			d.Parse(s[:len(s)/2] + "\x01")
			d.Reset()
		}
	}},
	{"failed parses without reset", func(c *Case, texts []string) func(int) {
		d := new(njson.Document)
		return func(i int) {
			s := texts[i%len(texts)]
			if len(s) > 2 {
				d.Parse(s[:len(s)/2] + "\x01")
			}
		}
	}},
	{"default pool", func(c *Case, texts []string) func(int) {
		return func(i int) {
			d := njson.Blank()
			d.Parse(texts[i%len(texts)])
			d.Close()
		}
	}},
	{"own pool", func(c *Case, texts []string) func(int) {
		p := new(njson.Pool)
		return func(i int) {
			a, b := p.Get(), p.Get()
			a.Parse(texts[i%len(texts)])
			n, _, _ := b.Parse(texts[(i+1)%len(texts)])
			r := a.Array()
			r.Append(n)
			p.Put(a)
			p.Put(b)
		}
	}},
	{"edit and reset", func(c *Case, texts []string) func(int) {
		d, e := new(njson.Document), new(njson.Document)
		return func(i int) {
			n, _, _ := d.Parse(texts[i%len(texts)])
			o := d.Object()
			for k := 0; k < 5; k++ {
				o.Set(fmt.Sprint("k", k), d.Text("value"))
				o.Set("n", n)
				o.Strip("k1")
				o.Del("k2")
			}
			a := e.Array()
			a.Append(o, n)
			a.Remove(0)
			a.Slice(0, 1)
			b, _ := a.AppendJSON(nil)
			runtime.KeepAlive(b)
			e.Reset()
			d.Reset()
		}
	}},
	{"print", func(c *Case, texts []string) func(int) {
		d := new(njson.Document)
		var nodes []njson.Node
		for _, s := range texts {
			n, _, _ := d.Parse(s)
			nodes = append(nodes, n)
		}
		return func(i int) {
			n := nodes[i%len(nodes)]
			n.PrintJSON(io.Discard)
			njson.PrintJSON(&failWriter{err: io.ErrShortWrite}, n)
			njson.PrintJSON(io.Discard, failAppender{io.ErrUnexpectedEOF})
			n.ToInterface()
			it := n.Values()
			for it.Next() {
				it.Value().Unescaped()
			}
		}
	}},
	{"hooks", func(c *Case, texts []string) func(int) {
		d := new(njson.Document)
		var nodes []njson.Node
		for _, s := range texts {
			n, _, _ := d.Parse(s)
			nodes = append(nodes, n)
		}
		str := d.Text("some text")
		return func(i int) {
			n := nodes[i%len(nodes)]
			n.WrapUnmarshalJSON(failHook{io.EOF})
			n.WrapUnmarshalJSON(failHook{nil})
			str.WrapUnmarshalText(failHook{nil})
		}
	}},
	{"unmarshal", func(c *Case, texts []string) func(int) {
		return func(i int) {
			s := texts[i%len(texts)]
			var x interface{}
			unjson.Unmarshal([]byte(s), &x)
			var y map[string][]steadyType
			unjson.UnmarshalFromString(s, &y)
			unjson.UnmarshalFromString(s[:len(s)-1], &x)
			unjson.UnmarshalFromString(s+"x", &x)
			var z steadyType
			unjson.UnmarshalFromString(`{"id":1,"name":"n","tags":["a","b"],"sub":{"id":2},"m":{"k":[1,2]}}`, &z)
		}
	}},
	{"marshal", func(c *Case, texts []string) func(int) {
		var values []interface{}
		for _, s := range texts {
			var x interface{}
			unjson.UnmarshalFromString(s, &x)
			values = append(values, x)
		}
		buf := []byte{}
		return func(i int) {
			x := values[i%len(values)]
			unjson.Marshal(x)
			buf, _ = unjson.AppendJSON(buf[:0], steadyType{ID: i, Name: "n", Tags: []string{"x"}, M: map[string]interface{}{"x": x}})
			unjson.Marshal(map[string]interface{}{"a": &steadyType{}, "b": []float64{math.NaN()}})
			unjson.Marshal(make(chan int))
		}
	}},
	{"encoders", func(c *Case, texts []string) func(int) {
		cache := unjson.Cache{Options: unjson.DefaultOptions()}
		var values []interface{}
		for _, s := range texts {
			var x interface{}
			unjson.UnmarshalFromString(s, &x)
			values = append(values, x)
		}
		d := new(njson.Document)
		return func(i int) {
			x := steadyType{Name: "n", M: map[string]interface{}{"v": values[i%len(values)]}}
			e, _ := cache.Encoder(reflect.TypeOf(x))
			b, _ := e.Encode(nil, x)
			d.Reset()
			n, _, _ := d.Parse(string(b))
			dec, _ := cache.Decoder(reflect.TypeOf(&x))
			var y steadyType
			dec.Decode(&y, n)
			// Fresh ones
			t, _ := unjson.NewTypeEncoder(reflect.TypeOf(x), unjson.DefaultOptions())
			t.Encode(nil, x)
			u, _ := unjson.NewTypeDecoder(reflect.TypeOf(&x), "")
			u.Decode(&y, n)
		}
	}},
	{"line decoder", func(c *Case, texts []string) func(int) {
		r := &cycleReader{texts: texts}
		d := unjson.NewLineDecoder(r)
		return func(i int) {
			var x interface{}
			d.Decode(&x)
			var y []int
			d.Decode(&y)
		}
	}},
	{"line encoder", func(c *Case, texts []string) func(int) {
		e := unjson.NewLineEncoder(io.Discard)
		fe := unjson.NewLineEncoder(&failWriter{err: io.ErrShortWrite})
		var values []interface{}
		for _, s := range texts {
			var x interface{}
			unjson.UnmarshalFromString(s, &x)
			values = append(values, x)
		}
		return func(i int) {
			e.Encode(values[i%len(values)])
			fe.Encode(values[i%len(values)])
			e.Encode(math.NaN())
		}
	}},
	{"strings and numbers", func(c *Case, texts []string) func(int) {
		buf := []byte{}
		return func(i int) {
			s := texts[i%len(texts)]
			e := strjson.Escaped(s, true, false)
			strjson.Unescaped(e)
			buf = strjson.AppendEscaped(buf[:0], s, false)
			buf = strjson.AppendUnescaped(buf[:0], e)
			f := float64(i%1000) * 1.37e5
			numjson.ParseFloat(numjson.FormatFloat(f, 64))
			numjson.ParseInt("12345")
			buf = numjson.AppendFloat(buf, f, 32)
			_ = njson.Type(i).String()
		}
	}},
}

// cycleReader gives the same lines for ever, with bad ones between them.
type cycleReader struct {
	texts []string
	i     int
	rest  string
}

func (r *cycleReader) Read(p []byte) (int, error) {
	if r.rest == "" {
		r.rest = r.texts[r.i%len(r.texts)] + "\n"
		if r.i%7 == 3 {
			r.rest = "[" + r.texts[r.i%len(r.texts)] + ",\n"
		}
		r.i++
		if r.i == len(r.texts)*7 {
			r.i = 0
		}
	}
	n := copy(p, r.rest)
	r.rest = r.rest[n:]
	return n, nil
}

func c28Steady(c *Case) {
	w := steadyWorks[c.Idx%len(steadyWorks)]
	// A cycle of texts, all of which are used in the warm-up
	var texts []string
	for i := c.R.Range(3, 12); i > 0; i-- {
		t := genTree(c.R, GenOpt{Nodes: c.R.Pick2(3, 10, 25), Unique: true, MaxStr: c.R.Pick2(5, 40)})
		if t.Kind != 'a' && t.Kind != 'o' {
			t = &Tree{Kind: 'a', Kids: []*Tree{t}}
		}
		fitFloats(t)
		texts = append(texts, t.text())
	}
	c28Run(c, w, texts, 40, 30000, 96<<10)
}

// c28Large does the same with texts of up to some hundred kilobytes among small ones.
func c28Large(c *Case) {
	w := steadyWorks[c.Idx%len(steadyWorks)]
	var texts []string
	size := 0
	none := c.R.P(1, 2) // no small texts
	for i := c.R.Range(3, 6); i > 0; i-- {
		t := genTree(c.R, GenOpt{Nodes: c.R.Pick2(10, 300, 3000), Unique: true, MaxStr: c.R.Pick2(5, 40, 5000)})
		kids := []*Tree{t}
		if c.R.P(1, 3) {
			for j := c.R.N(3000); j > 0; j-- {
				kids = append(kids, &Tree{Kind: '0', Raw: fmt.Sprint(j)})
			}
		}
		if none {
			kids = append(kids, &Tree{Kind: 's', Raw: strings.Repeat("x", 70000>>uint(4*c.R.N(2)))})
		} else if c.R.P(1, 3) {
			kids = append(kids, &Tree{Kind: 's', Raw: strings.Repeat(c.R.Pick("x", "\\n", "é"), c.R.N(50000))})
		}
		t = &Tree{Kind: 'a', Kids: kids}
		fitFloats(t)
		texts = append(texts, t.text())
		size += len(texts[len(texts)-1])
	}
	n := 100000000 / (size/len(texts) + 1) / 8
	if n > 3000 {
		n = 3000
	}
	c28Run(c, w, texts, 6, n, int64(192<<10+size))
}

// c28Run repeats work and compares the live heap at moments far apart.
func c28Run(c *Case, w steadyWork, texts []string, warm, n int, slack int64) {
	work := w.make(c, texts)
	rounds := 0
	run := func(n int) {
		for i := 0; i < n; i++ {
			work(rounds)
			rounds++
		}
	}
	cycle := len(texts) * 7
	goroutines := runtime.NumGoroutine()
	run(cycle * warm)
	n = n/cycle*cycle + cycle
	before := liveHeap()
	var grown []int64
	for try := 0; try < 3; try++ {
		run(n)
		after := liveHeap()
		c.Eval(1)
		g := int64(after) - int64(before)
		grown = append(grown, g)
		if g < slack {
			c.Count("rounds", rounds)
			c.Sig("steady", uint64(c.Idx), uint64(len(texts)), hashStr(texts[0]))
			c.Sample(w.name, "%d rounds, live heap %d bytes, change after %d more rounds %d bytes", cycle*warm, before, n, g)
			if k := runtime.NumGoroutine(); k > goroutines {
				c.Failf("%s leaves %d goroutines running", w.name, k-goroutines)
			}
			runtime.KeepAlive(work)
			return
		}
		before = after
		n *= 2
	}
	c.Failf("live memory grows while %q is repeated: by %v bytes in %d rounds", w.name, grown, rounds)
}
