package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"reflect"
	"strings"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/unjson"
)

func init() {
	register(&Prop{ID: "C27", MinSig: 1000,
		Rule: "a case is a stream of values, readers and writers that split, stall and fail, and a ledger of the values written and delivered; distinct by the lines, the way they are split and where the stream fails",
		Stages: []Stage{
			{Name: "round trip", Quick: 60000, Thorough: 500000, Fn: c27RoundTrip},
			{Name: "reading", Quick: 120000, Thorough: 1500000, Fn: c27Reading},
			{Name: "lengths", Quick: 3000, Thorough: 30000, Fn: c27Lengths},
			{Name: "writing", Quick: 100000, Thorough: 800000, Fn: c27Writing},
			{Name: "typed writing", Quick: 60000, Thorough: 600000, Fn: c27Typed},
			{Name: "bulk-round-trip", Quick: 1500, Thorough: 60000, Fn: bulk(c27RoundTrip, 2, 1<<20)},
			{Name: "bulk-reading", Quick: 1000, Thorough: 60000, Fn: bulk(c27Reading, 3, 1<<20)},
			{Name: "bulk-lengths", Quick: 240, Thorough: 16000, Fn: bulk(c27Lengths, 4, 1<<20)},
			{Name: "bulk-writing", Quick: 1500, Thorough: 60000, Fn: bulk(c27Writing, 3, 1<<20)},
			{Name: "bulk-typed", Quick: 800, Thorough: 32000, Fn: bulk(c27Typed, 2, 1<<20)},
		}})
}

// hostileReader returns data in pieces, sometimes nothing, and ends with an error.
type hostileReader struct {
	r     *Rng
	data  string
	max   int   // longest piece
	err   error // what follows the data
	with  bool  // the error comes with the last piece
	empty int   // empty reads in a row
	last  []byte
	reads int
}

func (h *hostileReader) Read(p []byte) (int, error) {
	h.reads++
	// What was returned earlier must not be needed any more by anyone but the caller's buffer
	if len(h.data) == 0 {
		return 0, h.err
	}
	if h.empty < 3 && h.r.P(1, 8) {
		h.empty++
		return 0, nil
	}
	h.empty = 0
	n := 1 + h.r.N(h.max)
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], h.data)
	h.data = h.data[n:]
	if len(h.data) == 0 && h.with {
		return n, h.err
	}
	return n, nil
}

// lineReader makes a line decoder over data with a random kind of reader.
func lineReader(c *Case, data string, err error) *unjson.LineDecoder {
	r := c.R
	h := &hostileReader{r: r, data: data, max: r.Pick2(1, 2, 7, 64, 4095, 4096, 4097, 1<<20), err: err, with: r.P(1, 2)}
	var in io.Reader = h
	switch r.N(6) {
	case 0:
		in = bufio.NewReaderSize(h, r.Pick2(16, 17, 64, 4096, 10000))
	case 1:
		in = bufio.NewReader(h)
	case 2:
		if err == io.EOF {
			in = strings.NewReader(data)
		}
	case 3:
		if err == io.EOF {
			in = bytes.NewBufferString(data)
		}
	}
	d := unjson.NewLineDecoder(in)
	if d == nil {
		c.Failf("no line decoder for a reader")
	}
	return d
}

// kept is a value decoded earlier and what it was then.
type keptValue struct {
	x     interface{}
	print string
}

func checkDelivered(c *Case, kept []keptValue) {
	for i, k := range kept {
		c.Eval(1)
		if s := jsonOf(k.x); s != k.print {
			c.Failf("value %d changed after it was delivered: %s, was %s", i, clip(s, 300), clip(k.print, 300))
		}
	}
}

// c27RoundTrip writes values of random types with a line encoder and reads them back.
func c27RoundTrip(c *Case) {
	g := newTypeGen(c.R)
	t := g.typ(c.R.Range(1, 4))
	var buf bytes.Buffer
	enc := unjson.NewLineEncoder(&buf)
	custom := c.R.P(1, 3) && t.Kind() != reflect.Ptr && t.Kind() != reflect.Interface
	if custom {
		e, err := unjson.NewTypeEncoder(t, unjson.DefaultOptions())
		if err != nil {
			c.Failf("%v", err)
		}
		enc.Encoder = e
	}
	var want []reflect.Value
	h := hashStr(t.String())
	for i := c.R.N(8) + c.R.bulkN(4, 1200); i >= 0; i-- {
		vg := newValueGen(c.R)
		vg.nilSlices = true
		p := reflect.New(t)
		vg.fill(p.Elem(), c.R.Range(1, 5))
		before := buf.Len()
		if err := enc.Encode(p.Interface()); err != nil {
			c.Failf("cannot write a value of %s: %v", typeName(t), err)
		}
		line := buf.String()[before:]
		c.Eval(1)
		if strings.Count(line, "\n") != 1 || !strings.HasSuffix(line, "\n") || strings.Contains(line, "\r") {
			c.Failf("a value is not written as one line: %q", clip(line, 400))
		}
		m := EncModel{tag: "json"}
		tr, err := refDoc(line)
		if err != nil {
			c.Failf("the line is not valid JSON: %v: %q", err, clip(line, 400))
		}
		if d := meaning(tr, m.encode(p.Elem(), false, false)); d != "" {
			c.Failf("the line is of another value: %s\n%q", d, clip(line, 400))
		}
		want = append(want, p)
		h = mix(h, tr.shape())
	}
	dec := lineReader(c, buf.String(), io.EOF)
	if c.R.P(1, 3) {
		d, err := unjson.NewTypeDecoder(reflect.PtrTo(t), "")
		if err != nil {
			c.Failf("%v", err)
		}
		dec.Decoder = d
	}
	c.Logf("type %s lines %q", t, clip(buf.String(), 400))
	var kept []keptValue
	for i, w := range want {
		p := reflect.New(t)
		if err := dec.Decode(p.Interface()); err != nil {
			c.Failf("value %d of %d: %v", i, len(want), err)
		}
		if d := diffValues(p.Elem(), w.Elem(), eqOpt{tag: "json", roundTrip: true}); d != "" {
			c.Failf("value %d of %d: %s", i, len(want), d)
		}
		kept = append(kept, keptValue{p.Interface(), jsonOf(p.Interface())})
		c.Eval(1)
	}
	for i := 0; i < 2; i++ {
		if err := dec.Decode(reflect.New(t).Interface()); err != io.EOF {
			c.Failf("after the last value: %v", err)
		}
	}
	checkDelivered(c, kept)
	c.Count("values delivered", len(want))
	c.Sig("roundtrip", h)
	c.Sample("lines", "%q", clip(buf.String(), 250))
}

// A line of a stream: good ones have a value, others give an error.
type streamLine struct {
	text string
	good bool
	want interface{}
	kind string
}

var errRead = errors.New("read failed")

// Errors of readers and writers.
var streamFaults = []error{errRead, errors.New("disk full"), io.ErrShortWrite, io.ErrClosedPipe, io.ErrUnexpectedEOF, io.EOF, io.ErrNoProgress, io.ErrShortBuffer,
	&os.PathError{Op: "write", Path: "x", Err: os.ErrClosed}, context.DeadlineExceeded, bufio.ErrBufferFull, njson.UnexpectedEOF(njson.TypeString)}

// c27Reading reads streams with good and bad lines, line ends of both kinds, and read errors at any byte.
func c27Reading(c *Case) {
	r := c.R
	var lines []streamLine
	ints := r.P(1, 4) // decode to a type that not all lines fit
	for i := r.N(10) + r.bulkN(4, 3000); i >= 0; i-- {
		t := genTree(r, GenOpt{Nodes: r.Pick2(1, 3, 20), Unique: true, MaxStr: r.Pick2(5, 100, 3000)})
		fitFloats(t)
		s := t.text()
		l := streamLine{text: s, good: true, kind: "value"}
		if r.P(1, 3) {
			l.text = r.Pick(" ", "\t", "", "  ") + s + r.Pick(" ", "\t", " \t ", "")
		}
		if err := json.Unmarshal([]byte(s), &l.want); err != nil {
			c.Broken("encoding/json: %v", err)
		}
		if ints {
			var x []int8
			if json.Unmarshal([]byte(s), &x) != nil || t.Kind != 'a' {
				l.text = fmt.Sprintf("[%d,%d]", r.N(100), -r.N(100))
				json.Unmarshal([]byte(l.text), &l.want)
			} else {
				l.text = "[]"
				l.want = []interface{}{}
			}
		}
		switch r.N(12) {
		case 0:
			l.text, l.kind = s+" "+r.Pick("1", "x", "{}", ",", "]", "\""), "two values"
			if r.P(1, 3) {
				// Spaces, but not those of JSON
				l.text, l.kind = s+r.Pick("", " ")+r.Pick("\v", "\f", "\u0085", "\u00a0", "\u2028", "\u3000", "\ufeff", "\x00", "\x1f", "\v\f", "\b"), "spaces that are none"
				if r.P(1, 4) {
					l.text = r.Pick("\v", "\f", "\u0085", "\u00a0", "\u2028", "\ufeff", "\x00") + s
				}
			}
		case 1:
			l.text, l.kind = r.Pick("[", "{", "[1,", `{"a"`, `{"a":`, `"abc`, "[[]", "tru", "nul", `"\`), "cut off"
		case 2:
			l.text, l.kind = r.Pick("]", "}", ":", ",", "x", "[,]", "{,}", "[1 2]", "\x00", "'a'"), "bad"
		case 3:
			if ints {
				l.text, l.kind = r.Pick(`"x"`, "[1000]", `{"a":1}`, "[1.5]", "true"), "wrong type"
			}
		}
		l.good = l.kind == "value"
		lines = append(lines, l)
	}
	// The stream and the end of each line
	var b strings.Builder
	var ends []int
	for i, l := range lines {
		b.WriteString(l.text)
		ends = append(ends, b.Len())
		if i+1 < len(lines) || r.P(1, 2) {
			b.WriteString(r.Pick("\n", "\n", "\n", "\r\n"))
			ends[i] = b.Len()
		}
	}
	data := b.String()
	fail := error(io.EOF)
	cut := len(data)
	if r.P(1, 3) {
		for fail == io.EOF || fail == bufio.ErrBufferFull {
			fail = streamFaults[r.N(len(streamFaults))]
		}
		cut = r.N(len(data) + 1)
		if r.P(1, 4) {
			cut = ends[r.N(len(ends))]
		}
		data = data[:cut]
	}
	dec := lineReader(c, data, fail)
	c.Logf("stream %q ends with %v", data, fail)
	var kept []keptValue
	h := uint64(len(lines))
	for i, l := range lines {
		var x interface{}
		var xs []int8
		target := interface{}(&x)
		if ints {
			target = &xs
		}
		err := dec.Decode(target)
		c.Eval(1)
		if fail != io.EOF && (ends[i] > cut || ends[i] == cut && !strings.HasSuffix(data, "\n")) {
			// The line is not complete
			if !errors.Is(err, fail) {
				c.Failf("line %d ends with a read error after %d bytes, Decode gives %v", i, cut, err)
			}
			if err := dec.Decode(target); !errors.Is(err, fail) {
				c.Failf("Decode after a read error gives %v", err)
			}
			h = mix(h, 'f')
			c.Count("read errors reported", 1)
			break
		}
		h = mix(h, hashStr(l.kind), uint64(lenClass(len(l.text))))
		c.Count(l.kind+" lines", 1)
		if !l.good {
			if err == nil || err == io.EOF {
				c.Failf("line %d is not a value (%s) but Decode gives %v: %q", i, l.kind, err, clip(l.text, 200))
			}
			continue
		}
		if err != nil {
			c.Failf("line %d: %v: %q", i, err, clip(l.text, 200))
		}
		if ints {
			x = nil
			json.Unmarshal([]byte(jsonOf(xs)), &x)
			if x == nil {
				x = []interface{}{}
			}
			kept = append(kept, keptValue{xs, jsonOf(xs)})
		} else {
			kept = append(kept, keptValue{x, jsonOf(x)})
		}
		if d := deepDiff(x, l.want); d != "" {
			c.Failf("line %d: %s: %q", i, d, clip(l.text, 300))
		}
	}
	if fail == io.EOF {
		for i := 0; i < 2; i++ {
			var x interface{}
			if err := dec.Decode(&x); err != io.EOF {
				c.Failf("at the end of the stream: %v", err)
			}
		}
	}
	checkDelivered(c, kept)
	c.Count("values delivered", len(kept))
	c.Sig("reading", h, uint64(lenClass(cut)))
}

// c27Lengths has lines of lengths around the sizes of buffers, with every kind of line end.
func c27Lengths(c *Case) {
	r := c.R
	base := []int{16, 32, 64, 512, 1024, 2048, 4096, 8192, 12288, 16384, 65536}[c.Idx%11]
	if r.bulk > 0 {
		base = []int{1 << 17, 1 << 18, 1 << 20, 1 << 21}[r.bulk%4]
	}
	var b strings.Builder
	var want []string
	n := r.Range(1, 4)
	for i := 0; i < n; i++ {
		l := base*r.Pick2(1, 1, 2) + r.Range(-4, 4)
		if r.P(1, 5) {
			l = r.N(10) + 2
		}
		s := strings.Repeat(r.Pick("x", "y", "é"[:1]+"\xa9"), l)[:l-2]
		s = toValidUTF8(s)
		want = append(want, s)
		b.WriteString(`"` + s + `"`)
		if i+1 < n || r.P(1, 2) {
			b.WriteString(r.Pick("\n", "\r\n"))
		}
	}
	var in io.Reader = &hostileReader{r: r, data: b.String(), max: r.Pick2(1, 16, base-1, base, base+1, 1<<20), err: io.EOF, with: r.P(1, 2)}
	if r.P(1, 2) {
		in = bufio.NewReaderSize(in, r.Pick2(16, base, base+1, base-1, 2*base))
	}
	dec := unjson.NewLineDecoder(in)
	for i, w := range want {
		var s string
		if err := dec.Decode(&s); err != nil {
			c.Failf("line %d of length %d: %v", i, len(w)+2, err)
		}
		c.Eval(1)
		if s != w {
			c.Failf("line %d of length %d: got %d bytes %q", i, len(w)+2, len(s), clip(s, 100))
		}
	}
	var s string
	if err := dec.Decode(&s); err != io.EOF {
		c.Failf("after the last line: %v", err)
	}
	c.Sig("lengths", uint64(len(b.String())), uint64(n), uint64(len(want[n-1])), hashStr(b.String()[b.Len()-2:]))
}

// Raw JSON with space and line breaks of its own.
type rawHook string

func (h rawHook) MarshalJSON() ([]byte, error) {
	if h == "" {
		return nil, errRead
	}
	return []byte(h), nil
}

// rawAppender is the same with the njson hook.
type rawAppender string

func (h rawAppender) AppendJSON(dst []byte) ([]byte, error) {
	if h == "" {
		return append(dst, "garbage"...), errRead
	}
	return append(dst, h...), nil
}

// ledgerWriter fails after a number of bytes and remembers what it got.
type ledgerWriter struct {
	left int
	err  error
	got  []byte
	kept [][]byte // the slices it was given, overwritten afterwards
}

func (w *ledgerWriter) Write(b []byte) (int, error) {
	n := len(b)
	var err error
	if n > w.left {
		n, err = w.left, w.err
	}
	w.got = append(w.got, b[:n]...)
	w.left -= n
	return n, err
}

// c27Writing writes good values, values that cannot be encoded and values with line breaks to failing writers.
func c27Writing(c *Case) {
	r := c.R
	werr := streamFaults[r.N(len(streamFaults))]
	w := &ledgerWriter{left: 1 << 30, err: werr}
	if r.P(1, 2) {
		w.left = r.N(400) + r.N(1+r.bulkN(2, 70000))
	}
	enc := unjson.NewLineEncoder(w)
	var want []*Tree
	written := 0
	recovered := false
	h := uint64(0)
	for i := r.N(10) + r.bulkN(4, 3000); i >= 0; i-- {
		t := genTree(r, GenOpt{Nodes: r.Pick2(1, 3, 15), Unique: true, MaxStr: r.Pick2(10, 200)})
		fitFloats(t)
		var x interface{}
		kind := r.N(7)
		bad := false
		switch kind {
		case 0:
			x = rawHook(t.spaced(r, 1))
		case 1:
			x = []interface{}{rawHook(t.spaced(r, 1))}
			t = &Tree{Kind: 'a', Kids: []*Tree{t}}
		case 2:
			x = map[string]interface{}{"k": rawAppender(t.spaced(r, 1))}
			t = &Tree{Kind: 'o', Keys: []string{"k"}, Kids: []*Tree{t}}
		case 3:
			var d njson.Document
			n, _, err := d.Parse(t.spaced(r, 1))
			if err != nil {
				c.Failf("%v", err)
			}
			x = n
		case 4:
			// Values that cannot be encoded
			bad = true
			if n := r.bulkN(1, 3000); n > 0 {
				// Much is encoded before what cannot be
				long := make([]interface{}, n)
				for i := range long {
					long[i] = "value"
				}
				x = append(long, []interface{}{math.NaN(), rawHook(""), rawAppender(""), make(chan int)}[r.N(4)])
				break
			}
			x = []interface{}{
				math.NaN(), []interface{}{1, math.Inf(1)}, map[string]interface{}{"a": rawHook("")}, []interface{}{"text", rawAppender("")},
				make(chan int), struct {
					A int
					B float64
				}{1, math.NaN()}}[r.N(6)]
		default:
			if err := json.Unmarshal([]byte(t.text()), &x); err != nil {
				c.Broken("%v", err)
			}
			// Integers may have been rounded
			t, _ = refDoc(jsonOf(x))
		}
		before := len(w.got)
		left := w.left
		err := enc.Encode(x)
		c.Eval(1)
		h = mix(h, uint64(kind))
		if bad {
			if err == nil {
				c.Failf("a value that cannot be encoded is written: %q", clip(string(w.got[before:]), 200))
			}
			if len(w.got) != before {
				c.Failf("a value that cannot be encoded (%v) leaves %q on the stream", err, clip(string(w.got[before:]), 200))
			}
			c.Count("values refused", 1)
			continue
		}
		if w.left == 0 && left < 1<<29 && (err != nil || len(w.got)-before == left && !bytes.HasSuffix(w.got, []byte("\n"))) {
			if !errors.Is(err, werr) {
				c.Failf("the writer failed with %v, Encode gives %v", werr, err)
			}
			c.Count("write errors reported", 1)
			h = mix(h, 'f')
			if r.P(1, 3) {
				break
			}
			// The writer works again: what follows is whole lines
			w.left = 1 << 30
			recovered = true
			continue
		}
		if err != nil {
			c.Failf("cannot write %T: %v", x, err)
		}
		line := string(w.got[before:])
		if strings.Count(line, "\n") != 1 || !strings.HasSuffix(line, "\n") || strings.Contains(line, "\r") {
			c.Failf("a value is not written as one line: %q", clip(line, 300))
		}
		tr, err := refDoc(line)
		if err != nil {
			c.Failf("the line is not valid JSON: %v: %q", err, clip(line, 300))
		}
		if kind <= 3 {
			if d := equalTree(tr, t, true); d != "" {
				c.Failf("the line is of another value: %s\n%q", d, clip(line, 300))
			}
		} else if d := meaning(tr, t); d != "" {
			c.Failf("the line is of another value: %s\n%q", d, clip(line, 300))
		}
		want = append(want, t)
		written += len(line)
		c.Count("values written", 1)
	}
	// All lines of values that were written are on the stream
	lines := strings.SplitAfter(string(w.got), "\n")
	if recovered {
		// A part of the line that failed is in between
		lines, want = nil, nil
	}
	if len(lines) < len(want) {
		c.Failf("%d lines for %d values", len(lines), len(want))
	}
	for i, t := range want {
		tr, err := refDoc(lines[i])
		if err != nil {
			c.Failf("line %d: %v", i, err)
		}
		if d := meaning(tr, t); d != "" {
			c.Failf("line %d: %s", i, d)
		}
		c.Eval(1)
	}
	c.Sig("writing", h, uint64(len(want)), uint64(lenClass(written)))
}

type typedLine struct {
	A []float64              `json:"a"`
	B string                 `json:"b"`
	C interface{}            `json:"c"`
	D map[string]interface{} `json:"d"`
	E *typedPart             `json:"e"`
	F rawAppender            `json:"f"`
}

type typedPart struct {
	X float64 `json:"x"`
	Y []rawHook
}

// c27Typed writes values with the encoder of their type, some of which cannot be encoded, to a writer that
// fails now and then. What is on the stream is the lines of the values that were written and nothing else.
func c27Typed(c *Case) {
	r := c.R
	type kindOf struct {
		t    reflect.Type
		make func(bad bool) interface{}
	}
	num := func(bad bool) float64 {
		if bad {
			return []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[r.N(3)]
		}
		return float64(r.N(1000)) / 4
	}
	hook := func(bad bool) string {
		if bad {
			return ""
		}
		return r.Pick("1", "[\n]", "{}", `"x"`)
	}
	kinds := []kindOf{
		{reflect.TypeOf([]float64{}), func(bad bool) interface{} { return []float64{num(false), num(false), num(bad)} }},
		{reflect.TypeOf(typedLine{}), func(bad bool) interface{} {
			where := r.N(6)
			v := typedLine{
				A: []float64{1, num(bad && where == 0)}, B: toValidUTF8(genString(r, 30)), C: num(bad && where == 1),
				D: map[string]interface{}{"k": []interface{}{"x", rawHook(hook(bad && where == 2))}},
				E: &typedPart{num(bad && where == 3), []rawHook{rawHook(hook(bad && where == 4))}},
				F: rawAppender(hook(bad && where == 5)),
			}
			if r.P(1, 2) {
				return &v
			}
			return v
		}},
		{reflect.TypeOf(map[string]float32{}), func(bad bool) interface{} {
			return map[string]float32{"a": float32(num(false)), "b": float32(num(bad))}
		}},
		{reflect.TypeOf([2]rawAppender{}), func(bad bool) interface{} {
			return [2]rawAppender{rawAppender(hook(false)), rawAppender(hook(bad))}
		}},
	}
	k := kinds[r.N(len(kinds))]
	w := &ledgerWriter{left: 1 << 30}
	enc := unjson.NewLineEncoder(w)
	e, err := unjson.NewTypeEncoder(k.t, unjson.DefaultOptions())
	if err != nil {
		c.Failf("%v", err)
	}
	enc.Encoder = e
	h := hashStr(k.t.String())
	for i := r.N(8); i >= 0; i-- {
		bad := r.P(1, 3)
		x := k.make(bad)
		before := len(w.got)
		w.left = 1 << 30
		fault := !bad && r.P(1, 4)
		if fault {
			w.left = 0
			if r.P(1, 2) {
				w.left = r.N(4)
			}
			w.err = streamFaults[r.N(len(streamFaults))]
		}
		room := w.left
		err := enc.Encode(x)
		got := string(w.got[before:])
		c.Eval(1)
		h = mix(h, uint64(boolInt(bad)), uint64(boolInt(fault)))
		switch {
		case bad:
			if err == nil || got != "" {
				c.Failf("a value of %s that cannot be encoded leaves %q and error %v", k.t, got, err)
			}
			c.Count("values refused", 1)
		case fault && (len(got) == 0 || got[len(got)-1] != '\n' || err != nil):
			if err != w.err && !errors.Is(err, w.err) {
				c.Failf("the writer failed with %v, Encode gives %v", w.err, err)
			}
			if len(got) != room {
				c.Failf("%d bytes written of the %d that fit: %q", len(got), room, got)
			}
			c.Count("write errors reported", 1)
		default:
			if err != nil {
				c.Failf("cannot write a value of %s: %v", k.t, err)
			}
			if strings.IndexAny(got, "\r\n") != len(got)-1 {
				c.Failf("a value is not written as one line: %q", clip(got, 300))
			}
			tr, err := refDoc(got)
			if err != nil {
				c.Failf("the line is not valid JSON: %v: %q", err, clip(got, 300))
			}
			want, err := refDoc(jsonOf(stdLine(x)))
			if err != nil {
				c.Broken("%v", err)
			}
			if d := meaning(tr, want); d != "" {
				c.Failf("the line is of another value: %s\n%q", d, clip(got, 300))
			}
			c.Count("values written", 1)
		}
	}
	c.Sig("typed", h)
}

// stdLine is the value in a form that encoding/json encodes alike.
func stdLine(x interface{}) interface{} {
	switch v := x.(type) {
	case *typedLine:
		return stdLine(*v)
	case typedLine:
		return map[string]interface{}{"a": v.A, "b": v.B, "c": v.C, "d": v.D, "e": v.E, "f": rawHook(v.F)}
	case [2]rawAppender:
		return []rawHook{rawHook(v[0]), rawHook(v[1])}
	}
	return x
}
