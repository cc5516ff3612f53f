package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/unjson"
)

func init() {
	register(&Prop{ID: "C21", MinSig: 1000,
		Rule: "a case is a random type with a block of random values, encoded and decoded through every entry point; distinct by type and by shape of the encoding",
		Stages: []Stage{
			{Name: "types", Quick: 48000, Thorough: 1920000, Fn: c21Types},
			{Name: "named", Quick: 24000, Thorough: 960000, Fn: c21Named},
			{Name: "bulk-types", Quick: 2000, Thorough: 80000, Fn: bulk(c21Types, 2, 1<<17)},
			{Name: "bulk-named", Quick: 500, Thorough: 20000, Fn: bulk(c21Named, 2, 1<<17)},
		}})
	register(&Prop{ID: "C22", MinSig: 1000,
		Rule: "a case is a random type with a block of random values, encoded by every entry point and compared with encoding/json or with a model of the encoding; distinct by type and by shape of the encoding",
		Stages: []Stage{
			{Name: "stdlib", Quick: 48000, Thorough: 1920000, Fn: c22Stdlib},
			{Name: "model", Quick: 32000, Thorough: 1280000, Fn: c22Model},
			{Name: "unsupported", Quick: 16000, Thorough: 320000, Fn: c22Unsupported},
			{Name: "bulk-stdlib", Quick: 2000, Thorough: 80000, Fn: bulk(c22Stdlib, 2, 1<<17)},
			{Name: "bulk-model", Quick: 2000, Thorough: 80000, Fn: bulk(c22Model, 2, 1<<17)},
		}})
	register(&Prop{ID: "C23", MinSig: 1000,
		Rule: "a case is a random type with a block of JSON texts made to fit it, decoded by every entry point and by encoding/json; distinct by type and by shape of the text",
		Stages: []Stage{
			{Name: "types", Quick: 48000, Thorough: 1920000, Fn: c23Types},
			{Name: "named", Quick: 24000, Thorough: 960000, Fn: c23Named},
			{Name: "deep", Quick: 300, Thorough: 3000, Fn: c23Deep},
			{Name: "reuse", Quick: 24000, Thorough: 960000, Fn: c23Reuse},
			{Name: "partial", Quick: 24000, Thorough: 960000, Fn: c23Partial},
			{Name: "bulk-reuse", Quick: 1000, Thorough: 40000, Fn: bulk(c23Reuse, 2, 1<<17)},
			{Name: "bulk-types", Quick: 2000, Thorough: 80000, Fn: bulk(c23Types, 2, 1<<17)},
			{Name: "bulk-named", Quick: 500, Thorough: 20000, Fn: bulk(c23Named, 2, 1<<17)},
		}})
	register(&Prop{ID: "C24", MinSig: 1000,
		Rule: "a case is a random type with a block of JSON texts that fit it but for one injected fault (a value of a wrong type or out of range at a random place, broken structure, trailing data) or a wrong decode target; distinct by type, fault and path; encoding/json must refuse the text too",
		Stages: []Stage{
			{Name: "mismatch", Quick: 48000, Thorough: 1920000, Fn: c24Mismatch},
			{Name: "malformed", Quick: 18000, Thorough: 720000, Fn: c24Malformed},
			{Name: "targets", Quick: 9000, Thorough: 240000, Fn: c24Targets},
			{Name: "chaos", Quick: 30000, Thorough: 1200000, Fn: c24Chaos},
			{Name: "unsupported", Quick: 12000, Thorough: 240000, Fn: c24Unsupported},
			{Name: "bulk-mismatch", Quick: 1500, Thorough: 60000, Fn: bulk(c24Mismatch, 2, 1<<17)},
			{Name: "bulk-malformed", Quick: 600, Thorough: 24000, Fn: bulk(c24Malformed, 2, 1<<17)},
		}})
}

const prefix = "\x00prefix,{\"é"

// encodeAll encodes x (a pointer to a value) in every way and returns the text after checking that all agree.
func encodeAll(c *Case, p reflect.Value) ([]byte, error) {
	v := p.Elem()
	want, err := unjson.Marshal(p.Interface())
	ways := []string{"value", "append", "encoder", "encoder of pointer", "value by encoder"}
	for i, way := range ways {
		var got []byte
		var e error
		pre := ""
		switch i {
		case 0:
			got, e = unjson.Marshal(v.Interface())
		case 1:
			pre = genBefore(c.R)
			buf := make([]byte, len(pre), len(pre)+c.R.Pick2(0, 1, 10, 4000))
			copy(buf, pre)
			got, e = unjson.AppendJSON(buf, v.Interface())
			if string(buf) != pre {
				c.Failf("AppendJSON changed the bytes before its output: %q", buf)
			}
		default:
			t := v.Type()
			if i == 3 {
				t = p.Type()
			} else if i == 2 && t.Kind() == reflect.Ptr || i == 4 && t.Kind() == reflect.Interface {
				// An encoder takes values of its type or pointers to them and looks through one pointer only
				continue
			}
			enc, e2 := unjson.NewTypeEncoder(t, unjson.DefaultOptions())
			if e2 != nil {
				if err == nil {
					c.Failf("NewTypeEncoder: %v for %s", e2, typeName(t))
				}
				continue
			}
			pre = genBefore(c.R)
			buf := append(make([]byte, 0, c.R.Pick2(0, 40, 400)), pre...)
			if i == 4 {
				got, e = enc.Encode(buf, v.Interface())
			} else {
				got, e = enc.Encode(buf, p.Interface())
			}
			if string(buf) != pre {
				c.Failf("Encode changed the bytes before its output: %q", buf)
			}
		}
		c.Eval(1)
		if (e == nil) != (err == nil) {
			c.Failf("encoding by pointer: error %v, by %s: error %v\ntype %s", err, way, e, typeName(v.Type()))
		}
		if e != nil {
			continue
		}
		if !bytes.HasPrefix(got, []byte(pre)) {
			c.Failf("encoding by %s: prefix is gone: %q", way, clip(string(got), 200))
		}
		if d := sameMeaning(string(got[len(pre):]), string(want)); d != "" {
			c.Failf("encoding by %s differs: %s\n%s\n%s\ntype %s", way, d, clip(string(got), 400), clip(string(want), 400), typeName(v.Type()))
		}
	}
	return want, err
}

func typeName(t reflect.Type) string { return clip(t.String(), 500) }

func sameMeaning(a, b string) string {
	if a == b {
		return ""
	}
	ta, err := refDoc(a)
	if err != nil {
		return "not valid JSON: " + err.Error()
	}
	tb, err := refDoc(b)
	if err != nil {
		return "not valid JSON: " + err.Error()
	}
	return meaning(ta, tb)
}

// decodeAll decodes s into new variables of type t in every way.
func decodeAll(c *Case, t reflect.Type, s string) (reflect.Value, error) {
	first := reflect.New(t)
	err := unjson.Unmarshal([]byte(s), first.Interface())
	dec, derr := unjson.NewTypeDecoder(reflect.PtrTo(t), c.R.Pick("", "json"))
	for i, way := range []string{"UnmarshalFromString", "UnmarshalFromNode", "Decoder"} {
		p := reflect.New(t)
		var e error
		switch i {
		case 0:
			e = unjson.UnmarshalFromString(s, p.Interface())
		default:
			d := freshDoc(c.R)
			n, tail, perr := d.Parse(s)
			if perr != nil || strings.Trim(tail, " \t\r\n") != "" {
				if err == nil {
					c.Failf("Unmarshal accepts what does not parse: %v tail %q\n%q", perr, clip(tail, 40), clip(s, 300))
				}
				continue
			}
			if i == 1 {
				e = unjson.UnmarshalFromNode(n, p.Interface())
			} else if derr != nil {
				e = derr
			} else {
				e = dec.Decode(p.Interface(), n)
			}
			// The value must not depend on the document
			n.SetNull()
			d.Close()
		}
		c.Eval(1)
		if (e == nil) != (err == nil) {
			c.Failf("Unmarshal: error %v, %s: error %v\ntype %s\n%s", err, way, e, typeName(t), clip(s, 400))
		}
		if e == nil {
			if d := diffValues(p.Elem(), first.Elem(), eqOpt{}); d != "" {
				c.Failf("%s and Unmarshal differ: %s\ntype %s\n%s", way, d, typeName(t), clip(s, 400))
			}
		}
	}
	return first, err
}

func shapeOf(s string) uint64 {
	t, err := refDoc(s)
	if err != nil {
		return hashStr(s)
	}
	return t.shape()
}

// ---- C21 ----

func c21Types(c *Case) {
	g := newTypeGen(c.R)
	g.omitAgg, g.bytes = true, true
	roundTrip(c, g.typ(5), 4)
}

func c21Named(c *Case) {
	roundTrip(c, plainNamed[c.R.N(len(plainNamed))], 4)
}

func roundTrip(c *Case, t reflect.Type, n int) {
	for i := 0; i < n; i++ {
		vg := newValueGen(c.R)
		vg.nilSlices = c.R.P(1, 2)
		p := reflect.New(t)
		vg.fill(p.Elem(), c.R.Range(2, 8))
		b, err := encodeAll(c, p)
		c.Logf("type %s text %s", typeName(t), b)
		if err != nil {
			c.Failf("cannot encode a value of %s: %v", typeName(t), err)
		}
		text := string(b)
		if c.R.P(1, 2) {
			// The same text written in another way
			tr, err := refDoc(text)
			if err != nil {
				c.Failf("not valid JSON: %v: %s", err, clip(text, 400))
			}
			text = tr.spaced(c.R, 1)
		}
		q, err := decodeAll(c, t, text)
		if err != nil {
			c.Failf("cannot decode what was encoded from %s: %v\n%s", typeName(t), err, clip(text, 400))
		}
		c.Eval(1)
		if d := diffValues(q.Elem(), p.Elem(), eqOpt{tag: "json", roundTrip: true}); d != "" {
			c.Failf("round trip of %s: %s\n%s", typeName(t), d, clip(text, 600))
		}
		// Encoding again gives the same
		b2, err := unjson.Marshal(q.Interface())
		if err != nil {
			c.Failf("%v", err)
		}
		if d := diffModuloOmitted(string(b2), text); d != "" {
			c.Failf("encoding the decoded value differs: %s\n%s\n%s", d, clip(string(b2), 400), clip(text, 400))
		}
		c.Sig("roundtrip", hashStr(t.String()), shapeOf(text))
		c.Sample("type and text", "%s %s", typeName(t), clip(text, 150))
	}
}

// diffModuloOmitted is empty if the texts mean the same (nil pointers to what encodes as null allowed for).
func diffModuloOmitted(a, b string) string {
	ta, err := refDoc(a)
	if err != nil {
		return err.Error()
	}
	tb, err := refDoc(b)
	if err != nil {
		return err.Error()
	}
	dropNulls(ta)
	dropNulls(tb)
	return meaning(ta, tb)
}

// dropNulls removes the members that are null and empty objects' distinction with omitted ones.
func dropNulls(t *Tree) {
	if t.Kind == 'o' {
		keys, kids := []string{}, []*Tree{}
		for i, k := range t.Kids {
			dropNulls(k)
			switch {
			case k.Kind == 'n', k.Kind == 'o' && len(k.Kids) == 0, k.Kind == 'a' && len(k.Kids) == 0, k.Raw == "0", k.Raw == "", k.Raw == "false":
				continue
			}
			keys, kids = append(keys, t.Keys[i]), append(kids, k)
		}
		t.Keys, t.Kids = keys, kids
		return
	}
	for _, k := range t.Kids {
		dropNulls(k)
	}
}

// ---- C22 ----

func c22Stdlib(c *Case) {
	g := newTypeGen(c.R)
	t := g.typ(5)
	if c.R.P(1, 4) {
		t = plainNamed[c.R.N(len(plainNamed))]
		if c.R.P(1, 4) {
			t = hiddenNamed[c.R.N(len(hiddenNamed))]
		}
	}
	for i := 0; i < 4; i++ {
		vg := newValueGen(c.R)
		vg.invalid, vg.negZero = c.R.P(1, 2), true
		p := reflect.New(t)
		vg.fill(p.Elem(), c.R.Range(2, 8))
		want, err := json.Marshal(p.Interface())
		if err != nil {
			c.Broken("encoding/json: %v for %s", err, t)
		}
		got, err := encodeAll(c, p)
		c.Logf("type %s text %s", typeName(t), got)
		if err != nil {
			c.Failf("cannot encode a value of %s: %v", typeName(t), err)
		}
		if !json.Valid(got) {
			c.Failf("not valid JSON: %s", clip(string(got), 600))
		}
		if d := sameMeaning(string(got), string(want)); d != "" {
			c.Failf("encoding of %s differs from encoding/json: %s\n%s\n%s", typeName(t), d, clip(string(got), 400), clip(string(want), 400))
		}
		c.Sig("encoding", hashStr(t.String()), shapeOf(string(got)))
		c.Sample("type and text", "%s %s", typeName(t), clip(string(got), 150))
	}
}

func c22Model(c *Case) {
	g := newTypeGen(c.R)
	g.bytes = true
	t := g.typ(5)
	for i := 0; i < 4; i++ {
		vg := newValueGen(c.R)
		vg.invalid, vg.negZero, vg.nilSlices = c.R.P(1, 2), true, true
		p := reflect.New(t)
		vg.fill(p.Elem(), c.R.Range(2, 8))
		m := EncModel{tag: "json"}
		want := m.encode(p.Elem(), false, false)
		got, err := encodeAll(c, p)
		if err != nil {
			c.Failf("cannot encode a value of %s: %v", typeName(t), err)
		}
		tr, err := refDoc(string(got))
		if err != nil {
			c.Failf("not valid JSON: %v: %s", err, clip(string(got), 600))
		}
		if d := meaning(tr, want); d != "" {
			c.Failf("encoding of %s: %s\n%s", typeName(t), d, clip(string(got), 600))
		}
		c.Count("fields omitted", m.Omitted)
		c.Count("fields kept", m.Kept)
		c.Sig("model", hashStr(t.String()), tr.shape())
	}
}

func c22Unsupported(c *Case) {
	g := newTypeGen(c.R)
	g.budget = 5
	var bad reflect.Type
	switch c.R.N(5) {
	case 0:
		bad = reflect.TypeOf((chan int)(nil))
	case 1:
		bad = reflect.TypeOf((func())(nil))
	case 2:
		bad = reflect.TypeOf(complex128(0))
	default:
		// Floats without a JSON encoding
		bits := c.R.Pick2(32, 64)
		f := []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[c.R.N(3)]
		var x interface{} = f
		if bits == 32 {
			x = float32(f)
		}
		p := wrapValue(c.R, reflect.ValueOf(x), c.R.N(5))
		c.Logf("%s of %v", p.Type(), f)
		if _, err := encodeAll(c, p); err == nil {
			c.Failf("%v is encoded without an error in %s", f, typeName(p.Type()))
		}
		c.Eval(1)
		c.Sig("float", hashStr(p.Type().String()), math.Float64bits(f))
		// The same shape with a finite number is no error
		p = wrapValue(c.R, reflect.ValueOf(x).Convert(reflect.TypeOf(x)), 0)
		return
	}
	p := wrapValue(c.R, reflect.Zero(bad), c.R.N(5))
	c.Eval(1)
	if b, err := unjson.Marshal(p.Elem().Interface()); err == nil {
		c.Failf("%s is encoded without an error as %s", typeName(p.Type()), clip(string(b), 200))
	}
	if b, err := unjson.AppendJSON([]byte(prefix), p.Interface()); err == nil {
		c.Failf("%s is encoded without an error as %s", typeName(p.Type()), clip(string(b), 200))
	}
	c.Sig("unsupported", hashStr(p.Type().String()))
	// An encoder refuses values of other types
	t := g.typ(3)
	enc, err := unjson.NewTypeEncoder(t, unjson.DefaultOptions())
	if err != nil {
		c.Failf("NewTypeEncoder: %v for %s", err, typeName(t))
	}
	other := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "Other", Type: t}}))
	for _, x := range []interface{}{nil, other.Interface(), other.Elem().Interface(), reflect.New(reflect.PtrTo(t)).Interface(), reflect.Zero(other.Type()).Interface(), reflect.MakeSlice(reflect.SliceOf(t), 1, 1).Interface()} {
		xt := reflect.TypeOf(x)
		if x != nil && (xt == t || xt == reflect.PtrTo(t) || t.Kind() == reflect.Ptr && (xt == t.Elem() || xt.Kind() == reflect.Ptr && xt.Elem() == t)) {
			continue
		}
		c.Eval(1)
		if t.Kind() == reflect.Interface {
			continue
		}
		buf := append(make([]byte, 0, 40), prefix...)
		out, err := enc.Encode(buf, x)
		if err == nil {
			c.Failf("the encoder of %s encodes a %T as %s", typeName(t), x, clip(string(out), 200))
		}
		if !strings.HasPrefix(string(out), prefix) && out != nil {
			c.Failf("the encoder of %s refuses a %T and changes the buffer", typeName(t), x)
		}
	}
}

// wrapTyped is wrapValue without interfaces.
func wrapTyped(r *Rng, v reflect.Value, n int) reflect.Value { return wrap(r, v, n, false) }

// wrapValue puts a value inside containers, and returns a pointer to the outermost.
func wrapValue(r *Rng, v reflect.Value, n int) reflect.Value { return wrap(r, v, n, true) }

func wrap(r *Rng, v reflect.Value, n int, ifaces bool) reflect.Value {
	for i := 0; i < n; i++ {
		k := r.N(7)
		for k == 4 && !ifaces {
			k = r.N(7)
		}
		switch k {
		case 0:
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			v = p
		case 1:
			s := reflect.MakeSlice(reflect.SliceOf(v.Type()), 0, 4)
			for j := r.N(2); j > 0; j-- {
				s = reflect.Append(s, reflect.Zero(v.Type()))
			}
			v = reflect.Append(s, v)
		case 2:
			m := reflect.MakeMap(reflect.MapOf(typString, v.Type()))
			m.SetMapIndex(reflect.ValueOf("key"), v)
			v = m
		case 3:
			a := reflect.New(reflect.ArrayOf(2, v.Type())).Elem()
			a.Index(r.N(2)).Set(v)
			v = a
		case 4:
			i := reflect.New(typIface).Elem()
			i.Set(v)
			s := reflect.MakeSlice(reflect.SliceOf(typIface), 0, 1)
			v = reflect.Append(s, i)
		case 5:
			// embedded
			if v.Kind() != reflect.Struct || v.NumField() == 0 || v.Type().PkgPath() != "" || v.Type().NumMethod() != 0 {
				continue
			}
			key := fmt.Sprintf("own%d", i)
			t := reflect.StructOf([]reflect.StructField{
				{Name: fmt.Sprintf("Emb%d", i), Type: v.Type(), Anonymous: true},
				{Name: fmt.Sprintf("Own%d", i), Type: typString, Tag: reflect.StructTag(fmt.Sprintf(`json:"%s"`, key))}})
			s := reflect.New(t).Elem()
			s.Field(0).Set(v)
			v = s
		default:
			t := reflect.StructOf([]reflect.StructField{
				{Name: "Before", Type: typString},
				{Name: "Field", Type: v.Type(), Tag: reflect.StructTag(r.Pick(`json:"f"`, ``, `json:"g"`))},
				{Name: "After", Type: typString}})
			s := reflect.New(t).Elem()
			s.Field(1).Set(v)
			v = s
		}
	}
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p
}

// ---- C23 ----

func c23Types(c *Case) {
	g := newTypeGen(c.R)
	decodeLike(c, g.typ(5), 4)
}

func c23Named(c *Case) {
	decodeLike(c, plainNamed[c.R.N(len(plainNamed))], 4)
}

// c23Deep decodes long and deep values of recursive types.
func c23Deep(c *Case) {
	n := c.R.Range(20, 400)
	s, t := "", reflect.Type(nil)
	switch c.R.N(4) {
	case 0:
		s, t = strings.Repeat("[", n)+strings.Repeat("]", n), typeOf((*RecS)(nil))
	case 1:
		s, t = strings.Repeat(`{"k":`, n)+"null"+strings.Repeat("}", n), typeOf((*RecM)(nil))
	case 2:
		s, t = strings.Repeat(`{"name":"n","next":`, n)+"null"+strings.Repeat("}", n), typeOf((*Rec)(nil))
	default:
		s, t = strings.Repeat(`{"B":{"a":`, n)+`{"Val":7}`+strings.Repeat("}}", n), typeOf((*MutA)(nil))
	}
	sameAsStdlib(c, t, s)
}

// c23Reuse decodes texts with members for all fields into variables that hold other values.
func c23Reuse(c *Case) {
	t := plainNamed[c.R.N(len(plainNamed))]
	if c.R.P(2, 3) {
		t = newTypeGen(c.R).typ(5)
	}
	dec, err := unjson.NewTypeDecoder(reflect.PtrTo(t), "")
	if err != nil {
		c.Failf("no decoder of %s: %v", typeName(t), err)
	}
	p := reflect.New(t)
	for i := 0; i < 5; i++ {
		g := TextGen{r: c.R, tag: "json", nulls: c.R.P(1, 2), budget: c.R.Range(5, 120), full: i > 0}
		s := g.tree(t, c.R.Range(2, 8)).spaced(c.R, c.R.N(2))
		c.Logf("type %s text %s", t, s)
		fresh := reflect.New(t)
		err := unjson.UnmarshalFromString(s, fresh.Interface())
		err2 := error(nil)
		d := freshDoc(c.R)
		switch n, _, perr := d.Parse(s); {
		case perr != nil:
			err2 = perr
		case c.R.P(1, 2):
			err2 = dec.Decode(p.Interface(), n)
		default:
			err2 = unjson.UnmarshalFromNode(n, p.Interface())
		}
		d.Close()
		c.Eval(2)
		if err != nil || err2 != nil {
			c.Failf("cannot decode to %s: %v, into a used variable: %v\n%s", typeName(t), err, err2, clip(s, 600))
		}
		if i == 0 {
			continue
		}
		if d := diffValues(p.Elem(), fresh.Elem(), eqOpt{reused: true}); d != "" {
			c.Failf("decoding to a used %s: %s\n%s", typeName(t), d, clip(s, 600))
		}
		c.Sig("reuse", hashStr(t.String()), shapeOf(s))
		c.Sample("reused type and text", "%s %s", typeName(t), clip(s, 150))
	}
}

// c23Partial decodes texts without nulls that lack members into variables that hold other values.
// What the text says nothing about must stay, as with encoding/json.
func c23Partial(c *Case) {
	t := plainNamed[c.R.N(len(plainNamed))]
	if c.R.P(2, 3) {
		t = newTypeGen(c.R).typ(5)
	}
	dec, err := unjson.NewTypeDecoder(reflect.PtrTo(t), "")
	if err != nil {
		c.Failf("no decoder of %s: %v", typeName(t), err)
	}
	for i := 0; i < 3; i++ {
		g := TextGen{r: c.R, tag: "json", budget: c.R.Range(10, 120), full: true}
		before := g.tree(t, c.R.Range(3, 8)).spaced(c.R, 0)
		got, want := reflect.New(t), reflect.New(t)
		for _, p := range []reflect.Value{got, want} {
			if err := json.Unmarshal([]byte(before), p.Interface()); err != nil {
				c.Broken("encoding/json: %v\ntype %s\n%s", err, t, before)
			}
			dropSlices(p.Elem())
		}
		g = TextGen{r: c.R, tag: "json", budget: c.R.Range(5, 80)}
		s := g.tree(t, c.R.Range(2, 8)).spaced(c.R, c.R.N(2))
		c.Logf("type %s text %s used for %s", t, s, before)
		old, oldWant := pointees(got.Elem()), pointees(want.Elem())
		if err := json.Unmarshal([]byte(s), want.Interface()); err != nil {
			c.Broken("encoding/json: %v\ntype %s\n%s", err, t, s)
		}
		switch c.R.N(3) {
		case 0:
			err = unjson.UnmarshalFromString(s, got.Interface())
		case 1:
			err = unjson.Unmarshal([]byte(s), got.Interface())
		default:
			d := freshDoc(c.R)
			n, _, perr := d.Parse(s)
			if err = perr; err == nil {
				err = dec.Decode(got.Interface(), n)
			}
			d.Close()
		}
		c.Eval(1)
		if err != nil {
			c.Failf("cannot decode into a used %s: %v\n%s", typeName(t), err, clip(s, 600))
		}
		if d := diffValues(got.Elem(), want.Elem(), eqOpt{nilSlices: true}); d != "" {
			c.Failf("decoding to a used %s differs from encoding/json: %s\n%s\nit was used for\n%s", typeName(t), d, clip(s, 600), clip(before, 600))
		}
		// Pointers still point to the same variable unless they became nil
		now, nowWant := pointees(got.Elem()), pointees(want.Elem())
		for k, p := range old {
			if oldWant[k] == nowWant[k] && now[k] != p {
				c.Failf("decoding to a used %s replaces the variable of %s\n%s\nit was used for\n%s", typeName(t), k, clip(s, 600), clip(before, 600))
			}
		}
		c.Count("pointers kept", len(old))
		c.Sig("partial", hashStr(t.String()), shapeOf(s))
		c.Sample("used type and text", "%s %s", typeName(t), clip(s, 150))
	}
}

// dropSlices sets slices of other than scalars to nil: encoding/json may leave old values in elements that are used again.
func dropSlices(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			dropSlices(v.Elem())
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			dropSlices(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			dropSlices(v.Field(i))
		}
	case reflect.Slice:
		switch v.Type().Elem().Kind() {
		case reflect.Ptr, reflect.Struct, reflect.Array, reflect.Map, reflect.Slice:
			if v.CanSet() {
				v.Set(reflect.Zero(v.Type()))
			}
		}
	}
}

// pointees returns the addresses of the variables that pointers in structs and arrays point to.
func pointees(v reflect.Value) map[string]uintptr {
	m := map[string]uintptr{}
	var walk func(v reflect.Value, path string)
	walk = func(v reflect.Value, path string) {
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() {
				m[path] = v.Pointer()
				walk(v.Elem(), path+"*")
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), path+"."+v.Type().Field(i).Name)
			}
		}
	}
	walk(v, "")
	return m
}

func decodeLike(c *Case, t reflect.Type, n int) {
	for i := 0; i < n; i++ {
		g := TextGen{r: c.R, tag: "json", nulls: c.R.P(1, 2), dups: true, budget: c.R.Range(5, 120)}
		tr := g.tree(t, c.R.Range(2, 8))
		c.Count("nulls", g.Nulls)
		c.Count("values", len(g.sites))
		sameAsStdlib(c, t, tr.spaced(c.R, c.R.N(2)))
	}
}

func sameAsStdlib(c *Case, t reflect.Type, s string) {
	c.Logf("type %s text %s", t, s)
	want := reflect.New(t)
	if err := json.Unmarshal([]byte(s), want.Interface()); err != nil {
		c.Broken("encoding/json: %v\ntype %s\n%s", err, t, s)
	}
	got, err := decodeAll(c, t, s)
	if err != nil {
		c.Failf("cannot decode to %s: %v\n%s", typeName(t), err, clip(s, 600))
	}
	if d := diffValues(got.Elem(), want.Elem(), eqOpt{nilSlices: true}); d != "" {
		c.Failf("decoding to %s differs from encoding/json: %s\n%s", typeName(t), d, clip(s, 600))
	}
	c.Sig("text", hashStr(t.String()), shapeOf(s))
	c.Sample("type and text", "%s %s", typeName(t), clip(s, 150))
}

// ---- C24 ----

func (g *TextGen) wrong(t reflect.Type) *Tree {
	str := &Tree{Kind: 's', Raw: g.r.Pick("", "x", "text", "NaN", "[]", "{}")}
	num := &Tree{Kind: '0', Raw: g.r.Pick("0", "1", "-1", "1.5", "1e3")}
	bl := &Tree{Kind: 'b', Raw: g.r.Pick("true", "false")}
	obj := &Tree{Kind: 'o'}
	if g.r.P(1, 2) {
		obj = &Tree{Kind: 'o', Keys: []string{"k"}, Kids: []*Tree{num}}
	}
	arr := &Tree{Kind: 'a'}
	if g.r.P(1, 2) {
		arr.Kids = []*Tree{num}
	}
	pick := func(ts ...*Tree) *Tree { return ts[g.r.N(len(ts))] }
	number := func(s ...string) *Tree { return &Tree{Kind: '0', Raw: s[g.r.N(len(s))]} }
	if k := t.Kind(); reflect.Int <= k && k <= reflect.Uint64 && g.r.P(1, 3) {
		// Whole numbers around the powers of two beyond the range of the type
		bits := uint(t.Bits())
		if k <= reflect.Int64 {
			bits--
		}
		n := new(big.Int).Lsh(big.NewInt(1), bits+uint(g.r.N(66-int(bits))))
		switch g.r.N(4) {
		case 0: // the least that does not fit
			n.Lsh(big.NewInt(1), bits)
		case 1:
			n.Add(n, n).Sub(n, big.NewInt(1))
		case 2:
			n.Add(n, big.NewInt(int64(g.r.N(1000))))
		}
		if g.r.P(1, 4) {
			n.Neg(n)
			if k <= reflect.Int64 {
				n.Sub(n, big.NewInt(1))
			}
		}
		return &Tree{Kind: '0', Raw: n.String()}
	}
	if k := t.Kind(); reflect.Int <= k && k <= reflect.Float64 && g.r.P(1, 8) || k == reflect.Interface && g.r.P(1, 2) {
		// What other languages take for a number
		return number("0x10", "0x1p-2", "-0x1p2", "0X1P+2", "0x1_0p0", "1_000", "1e5_0", "0b1", "0o7", "-inf", "-Infinity", "-nan", "0f", "1e", "1.5e+", "-", "1.2.3", "1-2", "--1", "1e1e1", "1e+-1", "1.e2", "1e5.5", "-.5", "1.", "1.5.", "1,5"[:1]+"'000")
	}
	switch t.Kind() {
	case reflect.Ptr:
		return g.wrong(t.Elem())
	case reflect.Interface:
		return number("1e309", "-1e309", "2e308", "1e4000", "-179769313486231580793e289", "1"+strings.Repeat("0", 310))
	case reflect.Bool:
		return pick(str, num, obj, arr)
	case reflect.String:
		return pick(num, bl, obj, arr)
	case reflect.Slice, reflect.Array:
		return pick(str, num, bl, obj)
	case reflect.Map, reflect.Struct:
		return pick(str, num, bl, arr)
	case reflect.Float32:
		return pick(str, bl, obj, arr, number("1e39", "-4e38", "3.5e38", "1e400", "-1e309", "340282356779733661637539395458142568448", "-3.4028235677973366164e38"))
	case reflect.Float64:
		return pick(str, bl, obj, arr, number("1e309", "-1e309", "2e308", "1e4000", "-179769313486231580793e289"))
	case reflect.Int8:
		return pick(str, bl, obj, arr, number("128", "-129", "256", "1000", "1.5", "-0.5", "9223372036854775808", "18446744073709551615", "1e30"))
	case reflect.Int16:
		return pick(str, bl, obj, arr, number("32768", "-32769", "65536", "1.5", "0.1", "9223372036854775808", "-9223372036854775809"))
	case reflect.Int32:
		return pick(str, bl, obj, arr, number("2147483648", "-2147483649", "4294967296", "1.25", "9223372036854775808", "99999999999999999999"))
	case reflect.Int, reflect.Int64:
		return pick(str, bl, obj, arr, number("9223372036854775808", "-9223372036854775809", "18446744073709551616", "1e19", "0.5", "-1.5", "123456789012345678901234567890"))
	case reflect.Uint8:
		return pick(str, bl, obj, arr, number("256", "-1", "-255", "1.5", "65536", "18446744073709551616", "1e20"))
	case reflect.Uint16:
		return pick(str, bl, obj, arr, number("65536", "-1", "1.5", "4294967296", "18446744073709551616"))
	case reflect.Uint32:
		return pick(str, bl, obj, arr, number("4294967296", "-1", "0.5", "18446744073709551616"))
	case reflect.Uint, reflect.Uint64:
		return pick(str, bl, obj, arr, number("18446744073709551616", "-1", "-9223372036854775808", "1e20", "0.5", "99999999999999999999999"))
	}
	return nil
}

func kindTag(t reflect.Type) uint64 {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return uint64(t.Kind())
}

func c24Mismatch(c *Case) {
	tg := newTypeGen(c.R)
	t := tg.typ(5)
	if c.R.P(1, 4) {
		t = plainNamed[c.R.N(len(plainNamed))]
	}
	for i := 0; i < 5; i++ {
		g := TextGen{r: c.R, tag: "json", nulls: c.R.P(1, 4), budget: c.R.Range(5, 60)}
		tr := g.tree(t, c.R.Range(2, 8))
		s := g.sites[c.R.N(len(g.sites))]
		if c.R.P(1, 2) {
			// prefer the deeper values
			s = g.sites[c.R.N(len(g.sites)/2+1)]
		}
		bad := g.wrong(s.typ)
		if bad == nil {
			continue
		}
		good := tr.text()
		*s.node = *bad
		text := tr.spaced(c.R, c.R.N(2))
		c.Logf("type %s text %s fault %s for %s", t, text, bad.text(), s.typ)
		if err := json.Unmarshal([]byte(text), reflect.New(t).Interface()); err == nil {
			c.Count("fault accepted by encoding/json too", 1)
			continue
		}
		if _, err := decodeAll(c, t, text); err == nil {
			c.Failf("%s decoded to %s without an error\ntype %s\n%s\n(valid: %s)", bad.text(), s.typ, typeName(t), clip(text, 600), clip(good, 300))
		}
		c.Count("faults injected", 1)
		c.Sig("mismatch", hashStr(t.String()), kindTag(s.typ), hashStr(bad.text()), shapeOf(text))
		c.Sample("fault "+s.typ.Kind().String(), "%s in %s", bad.text(), clip(text, 150))
	}
}

func c24Malformed(c *Case) {
	tg := newTypeGen(c.R)
	t := tg.typ(4)
	for i := 0; i < 6; i++ {
		g := TextGen{r: c.R, tag: "json", nulls: true, budget: c.R.Range(5, 60)}
		tr := g.tree(t, c.R.Range(2, 8))
		text := tr.spaced(c.R, c.R.N(2))
		kind := c.R.N(3)
		switch kind {
		case 0:
			// truncated
			text = strings.TrimSpace(text)
			text = text[:c.R.N(len(text))]
		case 1:
			// trailing data
			text += " " + c.R.Pick("x", "]", "}", ",", ":", "1", `""`, "null", "{}", "[]", "\x00", "//", "-", "\xff", "\v")
		default:
			// structure broken at a token
			toks := treeTokens(tr, nil)
			s, offs := joinTokens(toks, c.R, 1, nil)
			at := offs[c.R.N(len(offs))]
			text = s[:at] + " " + c.R.Pick(",", ":", "]", "}", "[", "{", ",,", "}]", `:""`) + " " + s[at:]
		}
		if json.Valid([]byte(text)) || strings.IndexByte("-0123456789", strings.TrimSpace(text + "x")[0]) >= 0 && !strings.Contains(strings.TrimSpace(text), " ") {
			// Valid, or a bare number cut short
			continue
		}
		c.Logf("type %s text %q", t, text)
		if _, err := decodeAll(c, t, text); err == nil {
			c.Failf("malformed text decoded without an error to %s\n%q", typeName(t), clip(text, 600))
		}
		c.Count("malformed", 1)
		c.Sig("malformed", hashStr(t.String()), uint64(kind), hashStr(text))
		c.Sample("malformed", "%q", text)
	}
}

type notDecodable struct{ C chan int }

// Types with unmarshal hooks that do not expect nil pointers
var nilHooks = []reflect.Type{typeOf((**HJV)(nil)), typeOf((**HTV)(nil)), typeOf((**HNV)(nil)), typeOf((**HNArr)(nil)), typeOf((**HJMap)(nil)), typeOf((**HTSlice)(nil)), typeOf((**HookMix)(nil)), typeOf((**time.Time)(nil)), typeOf((**big.Int)(nil))}

// hiddenTargets decodes to structs with embedded pointers to unexported structs: there is an error if such a pointer
// is nil and the text has a value for one of its fields.
func hiddenTargets(c *Case) {
	t := hiddenNamed[c.R.N(len(hiddenNamed))]
	g := TextGen{r: c.R, tag: "json", nulls: c.R.P(1, 3), budget: 40}
	s := g.tree(t, 4).text()
	if c.R.P(1, 3) {
		s = c.R.Pick("{}", `{"unknown":{"hid":1}}`, `{"First":true,"Own":1e3}`, `{"hid":1}`, `{"hid":null}`, `{"DA":1,"TM":null}`, `{"TM":{"a":true}}`)
	}
	got, want := reflect.New(t), reflect.New(t)
	if s != "null" && c.R.P(2, 3) {
		src := reflect.New(t)
		newValueGen(c.R).fill(src.Elem(), 3)
		copyHidden(got.Elem(), src.Elem())
		copyHidden(want.Elem(), src.Elem())
	}
	c.Logf("hidden %s text %s", t, s)
	err, err2 := unjson.UnmarshalFromString(s, got.Interface()), json.Unmarshal([]byte(s), want.Interface())
	c.Eval(1)
	if (err == nil) != (err2 == nil) {
		c.Failf("decoding to %s with embedded pointers to unexported structs: error %v, encoding/json: %v\n%s", t, err, err2, clip(s, 400))
	}
	c.Count("hidden fields", 1)
	if err != nil {
		c.Count("hidden fields refused", 1)
	} else if a, b := mustMarshal(c, got), mustMarshal(c, want); a != b {
		c.Failf("decoding to %s with embedded pointers to unexported structs: %s, encoding/json: %s\n%s", t, clip(a, 400), clip(b, 400), clip(s, 400))
	}
	c.Sig("hidden", hashStr(t.String()), shapeOf(s), uint64(len(fmt.Sprint(err))))
}

func mustMarshal(c *Case, p reflect.Value) string {
	b, err := json.Marshal(p.Interface())
	if err != nil {
		c.Broken("encoding/json: %v", err)
	}
	return string(b)
}

// copyHidden allocates the embedded pointers of dst that are set in src.
func copyHidden(dst, src reflect.Value) {
	for i := 0; i < src.NumField(); i++ {
		f := src.Type().Field(i)
		if f.Anonymous && f.Type.Kind() == reflect.Ptr && !src.Field(i).IsNil() {
			p := reflect.New(f.Type.Elem())
			reflect.NewAt(f.Type, unsafe.Pointer(dst.Field(i).UnsafeAddr())).Elem().Set(p)
			copyHidden(p.Elem(), src.Field(i).Elem())
		}
	}
}

func c24Targets(c *Case) {
	tg := newTypeGen(c.R)
	t := tg.typ(4)
	g := TextGen{r: c.R, tag: "json", budget: 40}
	tr := g.tree(t, 4)
	text := tr.text()
	d := freshDoc(c.R)
	n, _, err := d.Parse(text)
	if err != nil {
		c.Failf("%v", err)
	}
	dec, err := unjson.NewTypeDecoder(reflect.PtrTo(t), "")
	if err != nil {
		c.Failf("no decoder of %s: %v", typeName(t), err)
	}
	refuse := func(what string, x interface{}) {
		c.Eval(4)
		if err := unjson.Unmarshal([]byte(text), x); err == nil {
			c.Failf("Unmarshal to %s: no error\n%s", what, clip(text, 300))
		}
		if err := unjson.UnmarshalFromString(text, x); err == nil {
			c.Failf("UnmarshalFromString to %s: no error\n%s", what, clip(text, 300))
		}
		if err := unjson.UnmarshalFromNode(n, x); err == nil {
			c.Failf("UnmarshalFromNode to %s: no error\n%s", what, clip(text, 300))
		}
		if err := dec.Decode(x, n); err == nil {
			c.Failf("Decode to %s: no error\n%s", what, clip(text, 300))
		}
		c.Sig(what, hashStr(t.String()))
	}
	refuse("nil", nil)
	if t.Kind() != reflect.Ptr {
		refuse("a value that is not a pointer", reflect.Zero(t).Interface())
	}
	if n.Type() != njson.TypeNull {
		refuse("a nil pointer", reflect.Zero(reflect.PtrTo(t)).Interface())
		for _, t := range nilHooks {
			refuse("a nil "+t.String(), reflect.Zero(t).Interface())
		}
	} else {
		for _, t := range nilHooks {
			// Nothing to store, but no reason to panic
			unjson.UnmarshalFromNode(n, reflect.Zero(t).Interface())
			c.Eval(1)
		}
	}
	hiddenTargets(c)
	refuse("a channel", make(chan int))
	refuse("a pointer to a channel", new(chan int))
	refuse("a pointer to a struct with a channel", &notDecodable{})
	refuse("a function", func() {})
	refuse("a pointer to a complex number", new(complex64))
	refuse("a map with number keys", &map[float64]int{})
	// A decoder of another type
	other := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "Other", Type: reflect.PtrTo(t)}}))
	if err := dec.Decode(other.Interface(), n); err == nil {
		c.Failf("Decode to a value of another type: no error")
	}
	if err := dec.Decode(reflect.New(reflect.PtrTo(t)).Interface(), n); err == nil {
		c.Failf("Decode to a pointer to a pointer: no error")
	}
	// Nodes that are not there
	if err := unjson.UnmarshalFromNode(njson.Node{}, reflect.New(t).Interface()); err == nil {
		c.Failf("UnmarshalFromNode of no node: no error for %s", typeName(t))
	}
	n2 := n
	d.Reset()
	if err := dec.Decode(reflect.New(t).Interface(), n2); err == nil {
		c.Failf("Decode of a node of a reset document: no error for %s", typeName(t))
	}
	if _, err := unjson.NewTypeDecoder(t, ""); err == nil && t.Kind() != reflect.Ptr && t.Kind() != reflect.Interface {
		c.Failf("NewTypeDecoder of %s, not a pointer: no error", typeName(t))
	}
}

// textOf gives a text with the structure of a value, with leaf for the values of the inner type.
func textOf(v reflect.Value, inner reflect.Type, leaf string) string {
	if v.Type() == inner {
		return leaf
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return textOf(reflect.Zero(v.Type().Elem()), inner, leaf)
		}
		return textOf(v.Elem(), inner, leaf)
	case reflect.Interface:
		return textOf(v.Elem(), inner, leaf)
	case reflect.Slice, reflect.Array:
		out := "["
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				out += ","
			}
			out += textOf(v.Index(i), inner, leaf)
		}
		return out + "]"
	case reflect.Map:
		out := "{"
		for i, k := range v.MapKeys() {
			if i > 0 {
				out += ","
			}
			out += strconv.Quote(k.String()) + ":" + textOf(v.MapIndex(k), inner, leaf)
		}
		return out + "}"
	case reflect.Struct:
		out := "{"
		for i, f := range visible(v.Type(), "json") {
			if i > 0 {
				out += ","
			}
			x := follow(v, f.index)
			if !x.IsValid() {
				x = reflect.Zero(f.typ)
			}
			out += strconv.Quote(f.key) + ":" + textOf(x, inner, leaf)
		}
		return out + "}"
	case reflect.String:
		return `"text"`
	}
	return "1"
}

type hasMethods interface{ Method() int }

// c24Unsupported decodes to types with a part that nothing can be decoded to.
func c24Unsupported(c *Case) {
	bad := []reflect.Type{reflect.TypeOf((chan int)(nil)), reflect.TypeOf((func())(nil)), reflect.TypeOf(complex64(0)), reflect.TypeOf(complex128(0)), typeOf((*hasMethods)(nil)),
		reflect.TypeOf(map[float64]string(nil)), reflect.TypeOf(map[[2]string]string(nil)), reflect.TypeOf(notDecodable{}), reflect.TypeOf([]chan<- bool(nil)), reflect.TypeOf(struct{ notDecodable }{})}[c.R.N(10)]
	p := wrapTyped(c.R, reflect.Zero(bad), c.R.N(5))
	leaf := c.R.Pick(`1`, `"x"`, `true`, `{"C":1}`, `[1]`, `{"1":"x"}`, `[true]`, `{"C":{}}`)
	if bad.Kind() == reflect.Map && leaf[0] == '{' {
		leaf = `{"1":"x"}`
	}
	if bad.Kind() == reflect.Struct {
		leaf = `{"C":1}`
	}
	if bad.Kind() == reflect.Slice {
		leaf = `[true]`
	}
	text := textOf(p.Elem(), bad, leaf)
	t := p.Type().Elem()
	c.Logf("type %s text %s", t, text)
	_, err := decodeAll(c, t, text)
	c.Eval(1)
	if err == nil {
		c.Failf("no error decoding to %s\n%s", typeName(t), clip(text, 300))
	}
	if d, err := unjson.NewTypeDecoder(p.Type(), ""); err == nil {
		doc := freshDoc(c.R)
		n, _, perr := doc.Parse(text)
		if perr != nil {
			c.Failf("%v", perr)
		}
		if err := d.Decode(reflect.New(t).Interface(), n); err == nil {
			c.Failf("no error of the decoder of %s\n%s", typeName(t), clip(text, 300))
		}
	}
	c.Sig("unsupported", hashStr(t.String()), hashStr(text))
	c.Sample("unsupported", "%s %s", t, text)
	// The decoder of plain Go values
	for i := 0; i < 2; i++ {
		var it reflect.Type
		if i == 1 {
			it = typIface
		}
		dec, err := unjson.NewTypeDecoder(it, "")
		if err != nil {
			c.Failf("no decoder of plain values: %v", err)
		}
		tr := genTree(c.R, GenOpt{Nodes: 10, Unique: true})
		fitFloats(tr)
		doc := freshDoc(c.R)
		n, _, perr := doc.Parse(tr.text())
		if perr != nil {
			c.Failf("%v", perr)
		}
		var x interface{} = "before"
		if err := dec.Decode(&x, n); err != nil {
			c.Failf("decoder of plain values: %v\n%s", err, tr.text())
		}
		var want interface{}
		if err := json.Unmarshal([]byte(tr.text()), &want); err != nil {
			c.Failf("%v", err)
		}
		if !reflect.DeepEqual(x, want) {
			c.Failf("decoder of plain values gives %v, want %v\n%s", x, want, tr.text())
		}
		for _, bad := range []interface{}{nil, x, (*interface{})(nil), new(int), new(chan int), new(hasMethods)} {
			if err := dec.Decode(bad, n); err == nil {
				c.Failf("decoder of plain values: no error decoding to a %T\n%s", bad, tr.text())
			}
		}
		if err := dec.Decode(&x, njson.Node{}); err == nil {
			c.Failf("decoder of plain values: no error decoding no node")
		}
		c.Eval(9)
	}
}

// c24Chaos decodes random texts to random types.
func c24Chaos(c *Case) {
	tg := newTypeGen(c.R)
	t := tg.typ(5)
	for i := 0; i < 5; i++ {
		var tr *Tree
		switch c.R.N(3) {
		case 0:
			tr = genTree(c.R, GenOpt{Nodes: 30})
			foreignKeys(tr)
		default:
			// A text made for another type that shares some of the keys
			g2 := TypeGen{r: c.R, tag: "json", named: plainNamed, keys: tg.keys, budget: 20}
			t2 := g2.typ(4)
			g := TextGen{r: c.R, tag: "json", nulls: true, budget: 40}
			tr = g.tree(t2, 5)
			// Move the keys of the type in
			if t.Kind() == reflect.Struct {
				fields := visible(t, "json")
				rekey(c.R, tr, fields)
			}
			unfold(tr, fieldKeys(t))
			fitFloats(tr)
		}
		text := tr.text()
		c.Logf("type %s text %s", t, text)
		want := json.Unmarshal([]byte(text), reflect.New(t).Interface())
		_, err := decodeAll(c, t, text)
		c.Eval(1)
		var te *json.UnmarshalTypeError
		if errors.As(want, &te) && !strings.HasPrefix(te.Value, "number") && err == nil {
			c.Failf("no error decoding to %s, encoding/json: %v\n%s", typeName(t), want, clip(text, 600))
		}
		if want == nil && err != nil {
			c.Failf("error decoding to %s: %v, encoding/json has none\n%s", typeName(t), err, clip(text, 600))
		}
		c.Count(fmt.Sprintf("errors %v", err != nil), 1)
		c.Sig("chaos", hashStr(t.String()), tr.shape())
	}
}

// foreignKeys makes the keys different from those of all types in any case.
func foreignKeys(t *Tree) {
	for i := range t.Keys {
		t.Keys[i] = "~" + t.Keys[i]
	}
	for _, k := range t.Kids {
		foreignKeys(k)
	}
}

// fieldKeys collects the keys of all structs in a type.
func fieldKeys(t reflect.Type) map[string]bool {
	keys := map[string]bool{}
	seen := map[reflect.Type]bool{}
	var walk func(t reflect.Type)
	walk = func(t reflect.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
			walk(t.Elem())
		case reflect.Struct:
			for _, f := range visible(t, "json") {
				keys[f.key] = true
				walk(f.typ)
			}
		}
	}
	walk(t)
	return keys
}

// unfold changes the keys that match a field only when case is ignored.
func unfold(t *Tree, keys map[string]bool) {
	for i, k := range t.Keys {
		key := refUnescape(k)
		if keys[key] {
			continue
		}
		for f := range keys {
			if strings.EqualFold(f, key) {
				t.Keys[i] = "~" + k
				break
			}
		}
	}
	for _, k := range t.Kids {
		unfold(k, keys)
	}
}

func rekey(r *Rng, t *Tree, fields []vfield) {
	if t.Kind == 'o' && len(fields) > 0 {
		used := map[string]bool{}
		for i := range t.Keys {
			f := fields[r.N(len(fields))]
			if r.P(1, 2) && !used[f.key] {
				used[f.key] = true
				t.Keys[i] = f.key
			}
		}
	}
	for _, k := range t.Kids {
		if r.P(1, 2) {
			rekey(r, k, fields)
		}
	}
}
