package main

import (
	"bytes"
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/strjson"
	"github.com/alxarch/njson/unjson"
)

func init() {
	register(&Prop{ID: "C25", MinSig: 1000,
		Rule: "a case is a random type with hook types at random places and a block of values and texts; the ledger of hook calls, the arguments the hooks got and the results are compared with a model and with encoding/json; distinct by type, shape and failing call",
		Stages: []Stage{
			{Name: "encode", Quick: 48000, Thorough: 1600000, Fn: c25Encode},
			{Name: "decode", Quick: 48000, Thorough: 1600000, Fn: c25Decode},
			{Name: "errors", Quick: 48000, Thorough: 1600000, Fn: c25Errors},
			{Name: "node", Quick: 32000, Thorough: 960000, Fn: c25Node},
			{Name: "bulk-encode", Quick: 1500, Thorough: 60000, Fn: bulk(c25Encode, 2, 1<<17)},
			{Name: "bulk-decode", Quick: 1500, Thorough: 60000, Fn: bulk(c25Decode, 2, 1<<17)},
			{Name: "bulk-errors", Quick: 800, Thorough: 32000, Fn: bulk(c25Errors, 2, 1<<17)},
			{Name: "bulk-node", Quick: 1500, Thorough: 60000, Fn: bulk(c25Node, 2, 1<<17)},
		}})
	register(&Prop{ID: "C26", MinSig: 1000,
		Rule: "a case is a random struct type with random tags, embedding and options and a block of values, encoded and decoded by typed coders and compared with a model of the visible fields; distinct by type, options and set of members written",
		Stages: []Stage{
			{Name: "options", Quick: 48000, Thorough: 1920000, Fn: c26Options},
			{Name: "omit", Quick: 48000, Thorough: 1600000, Fn: c26Omit},
			{Name: "hints", Quick: 32000, Thorough: 960000, Fn: c26Hints},
			{Name: "mixed", Quick: 9000, Thorough: 720000, Fn: c26Mixed},
			{Name: "decode", Quick: 32000, Thorough: 960000, Fn: c26Decode},
			{Name: "floats", Quick: 8000, Thorough: 160000, Fn: c26Floats},
			{Name: "bulk-options", Quick: 1500, Thorough: 60000, Fn: bulk(c26Options, 2, 1<<17)},
			{Name: "bulk-omit", Quick: 1500, Thorough: 60000, Fn: bulk(c26Omit, 2, 1<<17)},
			{Name: "bulk-hints", Quick: 800, Thorough: 32000, Fn: bulk(c26Hints, 2, 1<<17)},
			{Name: "bulk-decode", Quick: 1500, Thorough: 60000, Fn: bulk(c26Decode, 2, 1<<17)},
		}})
}

// ---- ledger of hook calls ----

var hooks struct {
	calls  map[string]int
	total  int
	failAt int // number of the call that fails, 0 for none
	failed error
	onNil  string // hook called with a nil receiver
}

type hookError struct{ n int }

func (e *hookError) Error() string { return fmt.Sprintf("hook call %d failed", e.n) }

func resetHooks(failAt int) {
	hooks.calls, hooks.total, hooks.failAt, hooks.failed, hooks.onNil = map[string]int{}, 0, failAt, nil, ""
}

func called(name string) error {
	hooks.calls[name]++
	hooks.total++
	if hooks.total == hooks.failAt {
		hooks.failed = &hookError{hooks.total}
		return hooks.failed
	}
	return nil
}

// The payload of a hook type is a string. kept are the slices handed out, to check that they stay as they are.
type keptSlice struct {
	b    []byte
	copy string
}

var keptSlices []keptSlice

// keep returns the bytes in a slice with spare capacity that must not be written to.
func keep(b []byte) []byte {
	full := append(append(make([]byte, 0, len(b)+16), b...), "0123456789abcdef"...)
	if len(keptSlices) > 64 {
		keptSlices = keptSlices[:0]
	}
	keptSlices = append(keptSlices, keptSlice{full, string(full)})
	return full[:len(b)]
}

func checkKept(c *Case) {
	for _, k := range keptSlices {
		if string(k.b) != k.copy {
			c.Failf("bytes returned by a hook were written to: %q, were %q", clip(string(k.b), 200), clip(k.copy, 200))
		}
	}
	c.Eval(len(keptSlices))
}

func hookJSON(name, s string) ([]byte, error) {
	if err := called(name); err != nil {
		return []byte("garbage"), err
	}
	b, _ := json.Marshal(map[string]interface{}{"P": s})
	return keep(b), nil
}

func unhookJSON(name string, s *string, b []byte) error {
	if err := called(name); err != nil {
		return err
	}
	if string(b) == "null" {
		return nil
	}
	var x struct{ P *string }
	if err := json.Unmarshal(b, &x); err != nil {
		return fmt.Errorf("UnmarshalJSON got %q: %v", b, err)
	}
	if x.P == nil {
		return fmt.Errorf("UnmarshalJSON got %q", b)
	}
	*s = *x.P
	return nil
}

func hookText(name, s string) ([]byte, error) {
	if err := called(name); err != nil {
		return []byte("garbage"), err
	}
	return keep([]byte("T:" + s)), nil
}

func unhookText(name string, s *string, b []byte) error {
	if err := called(name); err != nil {
		return err
	}
	if !bytes.HasPrefix(b, []byte("T:")) {
		return fmt.Errorf("UnmarshalText got %q", b)
	}
	*s = string(b[2:])
	return nil
}

func hookNode(name string, dst []byte, s string) ([]byte, error) {
	if err := called(name); err != nil {
		return append(dst, "garbage"...), err
	}
	dst = append(dst, `["N","`...)
	dst = strjson.AppendEscaped(dst, s, false)
	return append(dst, `"]`...), nil
}

func unhookNode(name string, s *string, n njson.Node) error {
	if err := called(name); err != nil {
		return err
	}
	if n.Type() == njson.TypeNull {
		return nil
	}
	it := n.Values()
	if it.Len() != 2 || n.Index(0).Unescaped() != "N" || n.Index(1).Type() != njson.TypeString {
		return fmt.Errorf("UnmarshalNodeJSON got a %s", n.Type())
	}
	*s = n.Index(1).Unescaped()
	return nil
}

// JSON hooks, marshaled by value and by pointer
type HJV struct{ P string }

func (h HJV) MarshalJSON() ([]byte, error)     { return hookJSON("HJV.MarshalJSON", h.P) }
func (h *HJV) UnmarshalJSON(data []byte) error { return unhookJSON("HJV.UnmarshalJSON", &h.P, data) }

type HJP struct{ P string }

func (h *HJP) MarshalJSON() ([]byte, error) {
	if h == nil {
		hooks.onNil = "HJP.MarshalJSON"
		return []byte("null"), nil
	}
	return hookJSON("HJP.MarshalJSON", h.P)
}
func (h *HJP) UnmarshalJSON(data []byte) error { return unhookJSON("HJP.UnmarshalJSON", &h.P, data) }

// Text hooks
type HTV struct{ P string }

func (h HTV) MarshalText() ([]byte, error)     { return hookText("HTV.MarshalText", h.P) }
func (h *HTV) UnmarshalText(data []byte) error { return unhookText("HTV.UnmarshalText", &h.P, data) }

type HTP struct{ P string }

func (h *HTP) MarshalText() ([]byte, error) {
	if h == nil {
		hooks.onNil = "HTP.MarshalText"
		return nil, nil
	}
	return hookText("HTP.MarshalText", h.P)
}
func (h *HTP) UnmarshalText(data []byte) error { return unhookText("HTP.UnmarshalText", &h.P, data) }

// njson hooks. The other hooks tell if they are called instead.
type HNV struct{ P string }

func (h HNV) AppendJSON(dst []byte) ([]byte, error) {
	return hookNode("HNV.AppendJSON", dst, h.P)
}
func (h *HNV) UnmarshalNodeJSON(n njson.Node) error {
	return unhookNode("HNV.UnmarshalNodeJSON", &h.P, n)
}
func (h HNV) MarshalJSON() ([]byte, error) {
	hooks.calls["other"]++
	return json.Marshal([]string{"N", h.P})
}
func (h *HNV) UnmarshalJSON(b []byte) error {
	hooks.calls["other"]++
	var x []string
	if err := json.Unmarshal(b, &x); err != nil || len(x) != 2 {
		return err
	}
	h.P = x[1]
	return nil
}

type HNP struct{ P string }

func (h *HNP) AppendJSON(dst []byte) ([]byte, error) {
	if h == nil {
		hooks.onNil = "HNP.AppendJSON"
		return append(dst, "null"...), nil
	}
	return hookNode("HNP.AppendJSON", dst, h.P)
}
func (h *HNP) UnmarshalNodeJSON(n njson.Node) error {
	return unhookNode("HNP.UnmarshalNodeJSON", &h.P, n)
}
func (h *HNP) MarshalJSON() ([]byte, error) { return (HNV{h.P}).MarshalJSON() }
func (h *HNP) UnmarshalJSON(b []byte) error { return (*HNV)(h).UnmarshalJSON(b) }

// Hooks on types of other kinds
type HJStr string

func (h HJStr) MarshalJSON() ([]byte, error) { return hookJSON("HJStr.MarshalJSON", string(h)) }
func (h *HJStr) UnmarshalJSON(data []byte) error {
	s := string(*h)
	err := unhookJSON("HJStr.UnmarshalJSON", &s, data)
	*h = HJStr(s)
	return err
}

type HTSlice []byte

func (h HTSlice) MarshalText() ([]byte, error) { return hookText("HTSlice.MarshalText", string(h)) }
func (h *HTSlice) UnmarshalText(data []byte) error {
	s := ""
	err := unhookText("HTSlice.UnmarshalText", &s, data)
	*h = HTSlice(s)
	return err
}

// A map, nil when there is no payload: hooks are called for nil maps too
type HJMap map[string]string

func (h HJMap) MarshalJSON() ([]byte, error) { return hookJSON("HJMap.MarshalJSON", h["P"]) }
func (h *HJMap) UnmarshalJSON(data []byte) error {
	s := (*h)["P"]
	err := unhookJSON("HJMap.UnmarshalJSON", &s, data)
	*h = nil
	if s != "" {
		*h = HJMap{"P": s}
	}
	return err
}

type HNArr [1]string

func (h HNArr) AppendJSON(dst []byte) ([]byte, error) {
	return hookNode("HNArr.AppendJSON", dst, h[0])
}
func (h *HNArr) UnmarshalNodeJSON(n njson.Node) error {
	return unhookNode("HNArr.UnmarshalNodeJSON", &h[0], n)
}
func (h HNArr) MarshalJSON() ([]byte, error) { return (HNV{h[0]}).MarshalJSON() }
func (h *HNArr) UnmarshalJSON(b []byte) error {
	x := HNV{h[0]}
	err := x.UnmarshalJSON(b)
	h[0] = x.P
	return err
}

// All hooks: those of njson come first, then those of JSON
type HAll struct{ P string }

func (h HAll) MarshalText() ([]byte, error) { hooks.calls["other"]++; return nil, nil }
func (h HAll) MarshalJSON() ([]byte, error) { return hookJSON("HAll.MarshalJSON", h.P) }
func (h *HAll) UnmarshalText([]byte) error  { hooks.calls["other"]++; return nil }
func (h *HAll) UnmarshalJSON(b []byte) error {
	return unhookJSON("HAll.UnmarshalJSON", &h.P, b)
}

// Map keys
type HKey struct{ P string }

func (h HKey) MarshalText() ([]byte, error)     { return hookText("HKey.MarshalText", h.P) }
func (h *HKey) UnmarshalText(data []byte) error { return unhookText("HKey.UnmarshalText", &h.P, data) }

// HKeyPrev and HJPrev keep what they were before they were unmarshaled
type HKeyPrev struct{ P, Prev string }

func (h HKeyPrev) MarshalText() ([]byte, error) { return hookText("HKeyPrev.MarshalText", h.P) }
func (h *HKeyPrev) UnmarshalText(data []byte) error {
	h.Prev += h.P
	return unhookText("HKeyPrev.UnmarshalText", &h.P, data)
}

type HJPrev struct{ P, Prev string }

func (h HJPrev) MarshalJSON() ([]byte, error) { return hookJSON("HJPrev.MarshalJSON", h.P) }
func (h *HJPrev) UnmarshalJSON(data []byte) error {
	h.Prev += h.P
	return unhookJSON("HJPrev.UnmarshalJSON", &h.P, data)
}

type HKeyInt int

func (h HKeyInt) MarshalText() ([]byte, error) {
	return hookText("HKeyInt.MarshalText", strconv.Itoa(int(h)))
}
func (h *HKeyInt) UnmarshalText(data []byte) error {
	s := ""
	err := unhookText("HKeyInt.UnmarshalText", &s, data)
	if err == nil {
		var i int
		i, err = strconv.Atoi(s)
		*h = HKeyInt(i)
	}
	return err
}

// A struct of hooks, embedded and not
type HookMix struct {
	J   HJV  `json:"j"`
	JP  *HJP `json:"jp,omitempty"`
	T   HTV
	TP  *HTP
	N   HNV           `json:"n"`
	M   map[HKey]*HNP `json:",omitempty"`
	S   []HJStr
	A   [2]HTP
	Any interface{}
}

var hookTypes = []reflect.Type{typeOf((*HJV)(nil)), typeOf((*HJP)(nil)), typeOf((*HTV)(nil)), typeOf((*HTP)(nil)), typeOf((*HNV)(nil)), typeOf((*HNP)(nil)),
	typeOf((*HJStr)(nil)), typeOf((*HTSlice)(nil)), typeOf((*HJMap)(nil)), typeOf((*HNArr)(nil)), typeOf((*HAll)(nil)), typeOf((*HJPrev)(nil)), typeOf((*HookMix)(nil)), typeOf((*NString)(nil))}

var hookKeys = []reflect.Type{typString, typeOf((*HKey)(nil)), typeOf((*HKeyPrev)(nil)), typeOf((*HKeyInt)(nil))}

// payload returns the payload of a hook type and what kind of hook it has.
func payload(v reflect.Value) (kind byte, s string) {
	switch x := v.Interface().(type) {
	case HJV:
		return 'j', x.P
	case HJP:
		return 'j', x.P
	case HAll:
		return 'j', x.P
	case HJStr:
		return 'j', string(x)
	case HTV:
		return 't', x.P
	case HTP:
		return 't', x.P
	case HTSlice:
		return 't', string(x)
	case HJMap:
		return 'j', x["P"]
	case HNArr:
		return 'n', x[0]
	case HKey:
		return 't', x.P
	case HKeyPrev:
		return 't', x.P
	case HJPrev:
		return 'j', x.P
	case HKeyInt:
		return 't', strconv.Itoa(int(x))
	case HNV:
		return 'n', x.P
	case HNP:
		return 'n', x.P
	}
	return 0, ""
}

func hookTree(kind byte, raw func(string) string, s string) *Tree {
	switch kind {
	case 'j':
		return &Tree{Kind: 'o', Keys: []string{"P"}, Kids: []*Tree{{Kind: 's', Raw: raw(s)}}}
	case 't':
		return &Tree{Kind: 's', Raw: raw("T:" + s)}
	}
	return &Tree{Kind: 'a', Kids: []*Tree{{Kind: 's', Raw: "N"}, {Kind: 's', Raw: raw(s)}}}
}

// Interface types with hooks, and what they hold
type (
	JHook interface {
		json.Marshaler
		json.Unmarshaler
	}
	THook interface {
		encoding.TextMarshaler
		encoding.TextUnmarshaler
	}
	NHook interface {
		njson.Appender
		njson.Unmarshaler
	}
)

var ifaceHooks = []reflect.Type{typeOf((*JHook)(nil)), typeOf((*THook)(nil)), typeOf((*NHook)(nil)), typeOf((*json.Marshaler)(nil)), typeOf((*encoding.TextMarshaler)(nil)), typeOf((*njson.Appender)(nil))}

// held makes a value for an interface with hooks.
func held(r *Rng, t reflect.Type) interface{} {
	var x []interface{}
	switch {
	case t.Implements(typeOf((*json.Marshaler)(nil))):
		x = []interface{}{new(HJV), new(HJP), new(HAll), new(HJStr), new(HJMap), new(HJPrev)}
	case t.Implements(typeOf((*encoding.TextMarshaler)(nil))):
		x = []interface{}{new(HTV), new(HTP), new(HTSlice), new(HKey)}
	default:
		x = []interface{}{new(HNV), new(HNP), new(HNArr)}
	}
	p := reflect.ValueOf(x[r.N(len(x))])
	hookFill(r)(p.Elem())
	if t.NumMethod() == 1 && p.Elem().Type().Implements(t) && r.P(1, 2) {
		return p.Elem().Interface()
	}
	return p.Interface()
}

// ifaceHookType makes a type of interfaces with hooks.
func ifaceHookType(r *Rng) reflect.Type {
	t := ifaceHooks[r.N(len(ifaceHooks))]
	for n := r.Range(1, 3); n > 0; n-- {
		switch r.N(5) {
		case 0:
			t = reflect.SliceOf(t)
		case 1:
			t = reflect.ArrayOf(r.N(4), t)
		case 2:
			t = reflect.MapOf(hookKeys[r.N(len(hookKeys))], t)
		case 3:
			t = reflect.PtrTo(t)
		case 4:
			// The fields of structs need both hooks
			f := ifaceHooks[r.N(3)]
			if r.P(1, 3) {
				f = reflect.SliceOf(f)
			} else if r.P(1, 4) {
				f = reflect.PtrTo(f)
			}
			t = reflect.StructOf([]reflect.StructField{{Name: "A", Type: f, Tag: `json:"a,omitempty"`}, {Name: "B", Type: ifaceHooks[r.N(3)]}})
		}
	}
	if t.Kind() == reflect.Interface || t.Kind() == reflect.Ptr && t.Elem().Kind() == reflect.Interface {
		return reflect.SliceOf(t)
	}
	return t
}

// ptrKeyMap makes a map with keys that are pointers to hooks, one of them nil perhaps.
func ptrKeyMap(r *Rng) reflect.Type {
	return reflect.MapOf(reflect.PtrTo(hookKeys[1+r.N(len(hookKeys)-1)]), hookTypes[r.N(len(hookTypes))])
}

func hookFill(r *Rng) func(v reflect.Value) bool {
	return func(v reflect.Value) bool {
		if v.Kind() == reflect.Interface && v.Type().NumMethod() > 0 {
			if v.Set(reflect.Zero(v.Type())); r.P(5, 6) {
				v.Set(reflect.ValueOf(held(r, v.Type())))
			}
			return true
		}
		if v.Kind() == reflect.Map && v.Type().Key().Kind() == reflect.Ptr {
			m := reflect.MakeMap(v.Type())
			for i := r.N(5); i >= 0; i-- {
				k := reflect.New(v.Type().Key().Elem())
				if k.Elem().Kind() == reflect.Int {
					k.Elem().SetInt(int64(i))
				} else {
					k.Elem().Field(0).SetString(fmt.Sprint("key", i))
				}
				if i == 0 && r.P(1, 2) {
					k = reflect.Zero(k.Type())
				}
				x := reflect.New(v.Type().Elem()).Elem()
				g := ValueGen{r: r, hook: hookFill(r), iface: hookIface(r)}
				g.fill(x, 2)
				m.SetMapIndex(k, x)
			}
			v.Set(m)
			return true
		}
		kind, _ := payload(reflect.Zero(v.Type()))
		if kind == 0 {
			return false
		}
		s := toValidUTF8(genString(r, 30))
		if r.P(1, 3) {
			s = toValidUTF8(hostileString(r))
		}
		switch v.Kind() {
		case reflect.Struct:
			v.Field(0).SetString(s)
		case reflect.String:
			v.SetString(s)
		case reflect.Slice:
			if v.SetBytes([]byte(s)); s == "" || r.P(1, 8) {
				v.SetBytes(nil)
			}
		case reflect.Map:
			if v.Set(reflect.ValueOf(HJMap{"P": s})); s == "" || r.P(1, 8) {
				v.Set(reflect.ValueOf(HJMap(nil)))
			}
		case reflect.Array:
			v.Index(0).SetString(s)
		case reflect.Int:
			v.SetInt(int64(r.N(1000)) - 500)
		}
		return true
	}
}

func hookTypeGen(r *Rng) *TypeGen {
	g := newTypeGen(r)
	g.named, g.keys = hookTypes, hookKeys
	return g
}

func hookTypeOf(c *Case) reflect.Type {
	if c.R.P(1, 6) {
		return hookTypes[c.R.N(len(hookTypes)-1)]
	}
	t := hookTypeGen(c.R).typ(4)
	if c.R.P(1, 4) {
		t = reflect.PtrTo(t)
	}
	return t
}

func hookModel() *EncModel {
	return &EncModel{tag: "json", hook: func(v reflect.Value) (*Tree, bool) {
		kind, s := payload(v)
		if kind == 0 {
			return nil, false
		}
		return hookTree(kind, func(s string) string { return strTree(s).Raw }, s), true
	}}
}

func hookIface(r *Rng) func(depth int) interface{} {
	return func(depth int) interface{} {
		p := reflect.New(hookTypes[r.N(len(hookTypes))])
		g := ValueGen{r: r, hook: hookFill(r), iface: func(int) interface{} { return "inner" }}
		g.fill(p.Elem(), depth)
		if r.P(1, 3) {
			return p.Interface()
		}
		return p.Elem().Interface()
	}
}

func c25Encode(c *Case) {
	t := hookTypeOf(c)
	if c.R.P(1, 5) {
		if t = ifaceHookType(c.R); c.R.P(1, 3) {
			t = ptrKeyMap(c.R)
		}
		c.Count("types of interfaces with hooks and pointer keys", 1)
	}
	for i := 0; i < 3; i++ {
		vg := newValueGen(c.R)
		vg.nilSlices, vg.hook, vg.iface = true, hookFill(c.R), hookIface(c.R)
		p := reflect.New(t)
		vg.fill(p.Elem(), c.R.Range(2, 6))
		want := hookModel().encode(p.Elem(), false, false)
		resetHooks(0)
		got, err := unjson.Marshal(p.Interface())
		if err != nil {
			c.Failf("cannot encode a value of %s: %v", typeName(t), err)
		}
		c.Logf("type %s text %s", t, got)
		calls, total, onNil := hooks.calls, hooks.total, hooks.onNil
		tr, err := refDoc(string(got))
		if err != nil {
			c.Failf("not valid JSON: %v: %s", err, clip(string(got), 600))
		}
		if d := meaning(tr, want); d != "" {
			c.Failf("encoding of %s: %s\n%s", typeName(t), d, clip(string(got), 600))
		}
		if onNil != "" {
			c.Failf("%s was called for a nil pointer", onNil)
		}
		if calls["other"] > 0 {
			c.Failf("a hook of lower precedence was called: %v", calls)
		}
		// Every hook value written was written by its hook, once
		if n := countHooks(want); n != total && !hasIface(t) {
			c.Failf("%d hook calls for %d values: %v\n%s", total, n, calls, clip(string(got), 400))
		}
		for name, n := range calls {
			c.Count(name, n)
		}
		encodeAll(c, p)
		checkKept(c)
		c.Sig("encode", hashStr(t.String()), tr.shape())
		c.Sample("encoded", "%s %s", typeName(t), clip(string(got), 150))
	}
}

// countHooks counts the hook values in a tree: {"P":""}, "T:", ["N",""] and keys "T:".
func countHooks(t *Tree) (n int) {
	switch {
	case t.Kind == 's' && strings.HasPrefix(t.Raw, "T:"), t.Kind == 'o' && len(t.Keys) == 1 && t.Keys[0] == "P",
		t.Kind == 'a' && len(t.Kids) == 2 && t.Kids[0].Kind == 's' && t.Kids[0].Raw == "N":
		return 1
	}
	for i, k := range t.Kids {
		n += countHooks(k)
		if t.Kind == 'o' && strings.HasPrefix(t.Keys[i], "T:") {
			n++
		}
	}
	return
}

func hasIface(t reflect.Type) bool {
	found := false
	seen := map[reflect.Type]bool{}
	var walk func(t reflect.Type)
	walk = func(t reflect.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.Kind() {
		case reflect.Interface, reflect.String, reflect.Map:
			// Plain strings and keys could look like hook values
			found = found || !reflect.PtrTo(t).Implements(typeOf((*encoding.TextMarshaler)(nil))) && !reflect.PtrTo(t).Implements(typeOf((*json.Marshaler)(nil)))
		case reflect.Ptr, reflect.Slice, reflect.Array:
			walk(t.Elem())
		case reflect.Struct:
			if kind, _ := payload(reflect.Zero(t)); kind != 0 {
				return
			}
			for i := 0; i < t.NumField(); i++ {
				walk(t.Field(i).Type)
			}
		}
	}
	walk(t)
	return found
}

func hookText2(c *Case, nulls bool) func(t reflect.Type) *Tree {
	return func(t reflect.Type) *Tree {
		kind, _ := payload(reflect.Zero(t))
		if kind == 0 {
			return nil
		}
		s := toValidUTF8(genString(c.R, 30))
		if c.R.P(1, 3) {
			s = toValidUTF8(hostileString(c.R))
		}
		if t == reflect.TypeOf(HKeyInt(0)) {
			s = strconv.Itoa(c.R.N(2000) - 1000)
		} else if nulls && c.R.P(1, 10) && t != reflect.TypeOf(HKey{}) && t != reflect.TypeOf(HKeyPrev{}) {
			return &Tree{Kind: 'n', Raw: "null"}
		}
		return hookTree(kind, func(s string) string { return rawOf(c.R, s) }, s)
	}
}

func c25Decode(c *Case) {
	t := hookTypeOf(c)
	for i := 0; i < 3; i++ {
		g := TextGen{r: c.R, tag: "json", nulls: c.R.P(1, 2), budget: c.R.Range(5, 80), hook: hookText2(c, true)}
		tr := g.tree(t, c.R.Range(2, 6))
		s := tr.spaced(c.R, c.R.N(2))
		c.Logf("type %s text %s", t, s)
		want := reflect.New(t)
		resetHooks(0)
		if err := json.Unmarshal([]byte(s), want.Interface()); err != nil {
			c.Broken("encoding/json: %v\ntype %s\n%s", err, t, s)
		}
		resetHooks(0)
		got := reflect.New(t)
		if err := unjson.Unmarshal([]byte(s), got.Interface()); err != nil {
			c.Failf("cannot decode to %s: %v\n%s", typeName(t), err, clip(s, 600))
		}
		if hooks.calls["other"] > 0 {
			c.Failf("a hook of lower precedence was called: %v\ntype %s", hooks.calls, typeName(t))
		}
		for name, n := range hooks.calls {
			c.Count(name, n)
		}
		c.Eval(1)
		if d := diffValues(got.Elem(), want.Elem(), eqOpt{}); d != "" {
			c.Failf("decoding to %s differs from encoding/json: %s\n%s", typeName(t), d, clip(s, 600))
		}
		decodeAll(c, t, s)
		c.Sig("decode", hashStr(t.String()), tr.shape())
		c.Sample("decoded", "%s %s", typeName(t), clip(s, 150))
	}
}

func c25Errors(c *Case) {
	t := hookTypeOf(c)
	// encoding
	vg := newValueGen(c.R)
	vg.hook, vg.iface = hookFill(c.R), hookIface(c.R)
	p := reflect.New(t)
	vg.fill(p.Elem(), 5)
	resetHooks(0)
	if _, err := unjson.Marshal(p.Interface()); err != nil {
		c.Failf("cannot encode a value of %s: %v", typeName(t), err)
	}
	if n := hooks.total; n > 0 {
		at := c.R.Range(1, n)
		resetHooks(at)
		b, err := unjson.AppendJSON([]byte(prefix), p.Interface())
		c.Eval(1)
		if hooks.failed == nil {
			c.Failf("%d hook calls at first, %d then", n, hooks.total)
		}
		if err == nil {
			c.Failf("no error when hook call %d of %d fails encoding %s: %s", at, n, typeName(t), clip(string(b), 300))
		}
		if !errors.Is(err, hooks.failed) && !strings.Contains(err.Error(), hooks.failed.Error()) {
			c.Failf("the error is %v when hook call %d fails with %v", err, at, hooks.failed)
		}
		c.Count("encode errors", 1)
		c.Sig("encode error", hashStr(t.String()), uint64(at))
	}
	// decoding
	g := TextGen{r: c.R, tag: "json", nulls: c.R.P(1, 4), budget: c.R.Range(5, 80), hook: hookText2(c, false)}
	s := g.tree(t, c.R.Range(2, 6)).text()
	resetHooks(0)
	if err := unjson.Unmarshal([]byte(s), reflect.New(t).Interface()); err != nil {
		c.Failf("cannot decode to %s: %v\n%s", typeName(t), err, clip(s, 400))
	}
	if n := hooks.total; n > 0 {
		at := c.R.Range(1, n)
		resetHooks(at)
		err := unjson.Unmarshal([]byte(s), reflect.New(t).Interface())
		c.Eval(1)
		if hooks.failed == nil {
			c.Failf("%d hook calls at first, %d then", n, hooks.total)
		}
		if err == nil {
			c.Failf("no error when hook call %d of %d fails decoding %s\n%s", at, n, typeName(t), clip(s, 300))
		}
		if !errors.Is(err, hooks.failed) && !strings.Contains(err.Error(), hooks.failed.Error()) {
			c.Failf("the error is %v when hook call %d fails with %v", err, at, hooks.failed)
		}
		c.Count("decode errors", 1)
		c.Sig("decode error", hashStr(t.String()), uint64(at))
	}
	resetHooks(0)
	// Text hooks take strings only
	for _, bad := range []string{"1", "true", "{}", "[]", `["T:"]`} {
		x := struct {
			A []HTV `json:"a"`
			M map[string]*HTP
		}{}
		c.Eval(2)
		if err := unjson.Unmarshal([]byte(`{"a":["T:x",`+bad+`]}`), &x); err == nil {
			c.Failf("%s decoded to a text hook without an error", bad)
		}
		if err := unjson.Unmarshal([]byte(`{"M":{"k":`+bad+`}}`), &x); err == nil {
			c.Failf("%s decoded to a text hook without an error", bad)
		}
	}
}

// c25Node calls hooks through the wrappers of a node.
func c25Node(c *Case) {
	tr := genTree(c.R, GenOpt{Nodes: 40})
	s := tr.spaced(c.R, 1)
	d := freshDoc(c.R)
	n, _, err := d.Parse(s)
	if err != nil {
		c.Failf("%v", err)
	}
	rec := recorder{}
	if err := n.WrapUnmarshalJSON(&rec); err != nil || !rec.called {
		c.Failf("WrapUnmarshalJSON: %v", err)
	}
	c.Eval(2)
	got, err := refDoc(rec.data)
	if err != nil {
		c.Failf("UnmarshalJSON got %q: %v", clip(rec.data, 300), err)
	}
	if diff := equalTree(got, tr, false); diff != "" {
		c.Failf("UnmarshalJSON got another value: %s\n%q\n%q", diff, clip(rec.data, 300), clip(s, 300))
	}
	// Hooks in hooks: the wrapper is used while another one is active
	nested := &nestedHook{c: c, n: n, depth: c.R.Range(1, 4)}
	if err := n.WrapUnmarshalJSON(nested); err != nil {
		c.Failf("nested hook: %v", err)
	}
	nested.depth = c.R.Range(1, 4)
	text := genString(c.R, 40)
	if err := d.Text(text).WrapUnmarshalText(nested); err != nil {
		c.Failf("nested hook: %v", err)
	}
	// What hooks did to their arguments is not seen by later ones
	for _, s := range []string{"[]", "{}", `""`, "null", "true", "0", `"a"`} {
		var other njson.Document
		n, _, _ := other.Parse(s)
		rec = recorder{}
		if err := n.WrapUnmarshalJSON(&rec); err != nil || rec.data != s {
			c.Failf("UnmarshalJSON got %q for %s: %v", rec.data, s, err)
		}
	}
	rec = recorder{}
	err = n.WrapUnmarshalText(&rec)
	if tr.Kind == 's' {
		if err != nil || rec.data != refUnescape(tr.Raw) {
			c.Failf("UnmarshalText got %q of %q: %v", clip(rec.data, 300), clip(tr.Raw, 300), err)
		}
	} else if err == nil || rec.called {
		c.Failf("WrapUnmarshalText of a %s: called %v, error %v", n.Type(), rec.called, err)
	}
	fail := errors.New("hook failed")
	if err := n.WrapUnmarshalJSON(failHook{fail}); !errors.Is(err, fail) {
		c.Failf("WrapUnmarshalJSON returns %v when the hook fails with %v", err, fail)
	}
	if err := n.WrapUnmarshalText(failHook{fail}); tr.Kind == 's' && !errors.Is(err, fail) {
		c.Failf("WrapUnmarshalText returns %v when the hook fails with %v", err, fail)
	}
	c.Sig("node", tr.shape())
}

type failHook struct{ err error }

func (f failHook) UnmarshalJSON([]byte) error { return f.err }
func (f failHook) UnmarshalText([]byte) error { return f.err }

type nestedHook struct {
	c     *Case
	n     njson.Node
	depth int
}

func (h *nestedHook) UnmarshalText(data []byte) error { return h.UnmarshalJSON(data) }

func (h *nestedHook) UnmarshalJSON(data []byte) error {
	before := string(data)
	if h.depth > 0 {
		h.depth--
		var buf bytes.Buffer
		h.n.PrintJSON(&buf)
		var d njson.Document
		switch h.c.R.N(3) {
		case 0:
			if err := d.Text(h.c.R.Pick("text", "some other text \n of a hook")).WrapUnmarshalText(h); err != nil {
				return err
			}
		case 1:
			if n, _, err := d.Parse(h.c.R.Pick("[]", "{}", `""`, "null", "1", "[[]]")); err != nil {
				return err
			} else if err := n.WrapUnmarshalJSON(h); err != nil {
				return err
			}
		default:
			if err := h.n.WrapUnmarshalJSON(h); err != nil {
				return err
			}
		}
		var x interface{}
		unjson.Unmarshal(data, &x)
		unjson.Marshal(x)
	}
	h.c.Eval(1)
	if string(data) != before {
		h.c.Failf("the argument of a hook changed while it ran: %q was %q", clip(string(data), 200), clip(before, 200))
	}
	// The bytes are the hook's own while it runs
	for i := range data {
		data[i] = 'x'
	}
	return nil
}

// ---- C26 ----

// Types with omission methods
type OmV int

func (o OmV) Omit() bool    { return o%2 == 0 }
func (o OmV) Skip() bool    { return o%3 == 0 }
func (o OmV) Empty() string { return "not an omission method" }

type OmP struct{ N int }

func (o *OmP) Omit() bool { return o == nil || o.N%2 == 0 }
func (o *OmP) Skip() bool { return o == nil || o.N%3 == 0 }

type OmS string

func (o OmS) Omit() bool { return o == "omit" || o == "" }
func (o OmS) Skip() bool { return o != "omit" }

type OmMap map[string]int

func (o OmMap) Omit() bool { return len(o) < 2 }

type OmNo int // methods that do not count

func (o OmNo) Omit(int) bool { return true }
func (o OmNo) Skip() int     { return 1 }

type OmStruct struct{ A, B int }

func (o OmStruct) Omit() bool { return o.A == o.B }

// Kinds that only hooks can encode
type (
	OmCx complex128
	OmFn func()
	OmUp uintptr
	OmCh chan int
)

func (OmCx) MarshalJSON() ([]byte, error)  { return []byte("1"), nil }
func (*OmCx) UnmarshalJSON(b []byte) error { return nil }
func (OmFn) MarshalJSON() ([]byte, error)  { return []byte("2"), nil }
func (*OmFn) UnmarshalJSON(b []byte) error { return nil }
func (OmUp) MarshalJSON() ([]byte, error)  { return []byte("3"), nil }
func (*OmUp) UnmarshalJSON(b []byte) error { return nil }
func (OmCh) MarshalJSON() ([]byte, error)  { return []byte("4"), nil }
func (*OmCh) UnmarshalJSON(b []byte) error { return nil }

// Interfaces, with and without omission methods
type OmIface interface {
	JHook
	Omit() bool
	Skip() bool
}

type OmIfaceNo interface {
	JHook
	Empty() string
}

type OmIV struct{ N int }

func (o OmIV) Omit() bool                    { return o.N%2 == 0 }
func (o OmIV) Skip() bool                    { return o.N%3 == 0 }
func (o OmIV) Empty() string                 { return "" }
func (o OmIV) MarshalJSON() ([]byte, error)  { return []byte(strconv.Itoa(o.N)), nil }
func (o *OmIV) UnmarshalJSON(b []byte) error { return json.Unmarshal(b, &o.N) }

var omitIfaces = []reflect.Type{typeOf((*JHook)(nil)), typeOf((*OmIface)(nil)), typeOf((*OmIfaceNo)(nil)), typeOf((*OmIface)(nil))}
var omitKinds = []reflect.Type{typeOf((*OmCx)(nil)), typeOf((*OmFn)(nil)), typeOf((*OmUp)(nil)), typeOf((*OmCh)(nil)), typeOf((*OmIV)(nil)), reflect.PtrTo(typeOf((*OmIV)(nil))), reflect.PtrTo(typeOf((*OmCx)(nil)))}

// omitHook is the model of the values that hooks encode.
func omitHook(v reflect.Value) (*Tree, bool) {
	if v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr || !v.CanInterface() {
		return nil, false
	}
	raw := ""
	switch x := v.Interface().(type) {
	case OmCx:
		raw = "1"
	case OmFn:
		raw = "2"
	case OmUp:
		raw = "3"
	case OmCh:
		raw = "4"
	case OmIV:
		raw = strconv.Itoa(x.N)
	default:
		return nil, false
	}
	return &Tree{Kind: '0', Raw: raw}, true
}

// omitFill fills the values that hooks encode.
func omitFill(r *Rng, v reflect.Value) bool {
	zero := r.P(1, 2)
	switch t := v.Type(); t {
	case typeOf((*OmIV)(nil)):
		v.Field(0).SetInt(int64(r.N(7)))
	case typeOf((*OmCx)(nil)):
		if v.SetComplex(0); !zero {
			v.SetComplex(complex(float64(r.N(2)), float64(r.N(2))))
		}
	case typeOf((*OmFn)(nil)):
		if v.Set(reflect.Zero(t)); !zero {
			v.Set(reflect.ValueOf(OmFn(func() {})))
		}
	case typeOf((*OmUp)(nil)):
		v.SetUint(uint64(r.N(2)))
	case typeOf((*OmCh)(nil)):
		if v.Set(reflect.Zero(t)); !zero {
			v.Set(reflect.ValueOf(make(OmCh)))
		}
	default:
		if v.Kind() != reflect.Interface || t.NumMethod() == 0 {
			return false
		}
		if v.Set(reflect.Zero(t)); r.P(1, 4) {
			return true
		}
		v.Set(reflect.ValueOf(&OmIV{r.N(7)}))
	}
	return true
}

var omitTypes = []reflect.Type{typeOf((*OmV)(nil)), typeOf((*OmP)(nil)), typeOf((*OmS)(nil)), typeOf((*OmMap)(nil)), typeOf((*OmNo)(nil)), typeOf((*NInt)(nil)),
	reflect.PtrTo(typeOf((*OmV)(nil))), reflect.PtrTo(typeOf((*OmP)(nil))), reflect.PtrTo(typeOf((*OmS)(nil))), typeOf((*OmStruct)(nil)), reflect.PtrTo(typeOf((*OmStruct)(nil)))}

func keySet(t *Tree) uint64 {
	h := uint64(t.Kind)
	for i, k := range t.Kids {
		if t.Kind == 'o' {
			h = mix(h, hashStr(t.Keys[i]))
		}
		h = mix(h, keySet(k))
	}
	return h
}

// mentions reports whether values of type t may have parts of type x.
func mentions(t, x reflect.Type) bool {
	if t == x {
		return true
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
		return mentions(t.Elem(), x)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if mentions(t.Field(i).Type, x) {
				return true
			}
		}
	}
	return false
}

// encodeWith encodes what p points to, by value too.
func encodeWith(c *Case, t reflect.Type, p reflect.Value, o unjson.Options, want *Tree) *Tree {
	var got []byte
	var err error
	switch c.R.N(3) {
	case 0:
		cache := unjson.Cache{Options: o}
		var enc unjson.Encoder
		if enc, err = cache.Encoder(p.Type()); err == nil {
			got, err = enc.Encode(nil, p.Interface())
		}
	default:
		at := t
		if c.R.P(1, 2) {
			at = p.Type()
		}
		var enc unjson.Encoder
		if enc, err = unjson.NewTypeEncoder(at, o); err == nil {
			x := p.Interface()
			if c.R.P(1, 2) {
				x = p.Elem().Interface()
			}
			got, err = enc.Encode(nil, x)
		}
	}
	if err != nil {
		c.Failf("cannot encode a value of %s with %+v: %v", typeName(t), o, err)
	}
	c.Logf("type %s options %+v text %s", t, o, got)
	c.Eval(1)
	tr, err := refDoc(string(got))
	if err != nil {
		c.Failf("not valid JSON: %v: %s", err, clip(string(got), 600))
	}
	if d := meaning(tr, want); d != "" {
		c.Failf("encoding with %+v of %s: %s\n%s", o, typeName(t), d, clip(string(got), 600))
	}
	return tr
}

func c26Options(c *Case) {
	o := unjson.Options{Tag: c.R.Pick("", "json", "xml", "njson", "other"), OmitEmpty: c.R.P(1, 2), OmitMethod: c.R.Pick("", "Omit", "Skip")}
	g := newTypeGen(c.R)
	g.named = plainNamed[:6]
	g.omitAgg = true
	g.tag = o.Tag
	if g.tag == "" {
		g.tag = "json"
	}
	if g.tag == "other" {
		// The generator writes tags of this key too
		g.tag = "mine"
		o.Tag = "mine"
	}
	t := g.structType(4)
	for i := 0; i < 4; i++ {
		vg := newValueGen(c.R)
		vg.nilSlices = true
		p := reflect.New(t)
		vg.fill(p.Elem(), c.R.Range(1, 6))
		m := EncModel{tag: g.tag, omitEmpty: o.OmitEmpty, omitMethod: o.OmitMethod}
		want := m.encode(p.Elem(), false, false)
		tr := encodeWith(c, t, p, o, want)
		c.Count("fields omitted", m.Omitted)
		c.Count("fields kept", m.Kept)
		c.Sig("options", hashStr(t.String()), hashStr(fmt.Sprint(o)), keySet(tr))
		c.Sample("encoded", "%+v %s", o, clip(tr.text(), 200))
	}
}

func c26Omit(c *Case) {
	o := unjson.Options{OmitEmpty: c.R.P(1, 2), OmitMethod: c.R.Pick("", "Omit", "Skip", "Empty", "None")}
	g := newTypeGen(c.R)
	g.noMaps = true
	g.named = omitTypes
	g.omitAgg = true
	var fields []reflect.StructField
	n := c.R.Range(1, 6)
	for i := 0; i < n; i++ {
		ft := omitTypes[c.R.N(len(omitTypes))]
		if c.R.P(1, 5) {
			ft = omitIfaces[c.R.N(len(omitIfaces))]
			if c.R.P(1, 4) {
				ft = reflect.PtrTo(ft)
			}
		} else if c.R.P(1, 5) {
			ft = omitKinds[c.R.N(len(omitKinds))]
		}
		opts := c.R.Pick("", ",omitempty", ",omitempty")
		switch c.R.N(5) {
		case 0:
			ft = reflect.SliceOf(ft)
		case 1:
			g.budget = 5
			ft = g.typ(2)
		case 2:
			ft = reflect.ArrayOf(c.R.N(4), ft)
			if c.R.P(1, 4) {
				ft = reflect.ArrayOf(c.R.Range(8, 80), ft.Elem())
			}
		case 3:
			if c.R.P(1, 3) {
				ft = reflect.ArrayOf(c.R.Range(1, 80), []reflect.Type{typString, reflect.TypeOf(0), reflect.TypeOf(1.5), reflect.TypeOf(false), reflect.TypeOf(uint8(0))}[c.R.N(5)])
			}
		}
		fields = append(fields, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: ft, Tag: reflect.StructTag(fmt.Sprintf(`json:"k%d%s"`, i, opts))})
	}
	t := reflect.StructOf(fields)
	if c.R.P(1, 3) {
		t = reflect.SliceOf(t)
	}
	for i := 0; i < 5; i++ {
		vg := newValueGen(c.R)
		vg.nilSlices = true
		var kept []bool
		if c.R.P(1, 3) {
			kept = []bool{true}
		}
		vg.hook = func(v reflect.Value) bool {
			if omitFill(c.R, v) {
				return true
			}
			if v.Kind() == reflect.Array && v.Len() > 3 {
				// Only some elements are set
				for k := c.R.N(3); k > 0; k-- {
					vg.fill(v.Index(v.Len()-1-c.R.N(v.Len())*c.R.N(2)), 2)
				}
				if kept == nil || !mentions(v.Type(), reflect.TypeOf(OmP{})) {
					return true
				}
				for k := 0; k < v.Len(); k++ {
					vg.fill(v.Index(k), 2)
				}
				return true
			}
			switch v.Type() {
			case reflect.TypeOf(OmP{}):
				if kept == nil {
					return false
				}
				v.Field(0).SetInt(int64(1 + 6*c.R.N(5)))
			case reflect.TypeOf(OmV(0)), reflect.TypeOf(OmNo(0)):
				v.SetInt(int64(c.R.N(7)))
			case reflect.TypeOf(OmS("")):
				v.SetString(c.R.Pick("", "omit", "keep"))
			default:
				return false
			}
			return true
		}
		p := reflect.New(t)
		vg.fill(p.Elem(), 5)
		if v := p.Elem(); v.Kind() == reflect.Struct {
			for i := 0; i < v.NumField(); i++ {
				if f := v.Field(i); f.Type() == reflect.TypeOf(OmP{}) && kept == nil || f.Type() == reflect.TypeOf(OmStruct{}) {
					f.Field(0).SetInt(int64(c.R.N(4)))
					if f.NumField() > 1 {
						f.Field(1).SetInt(int64(c.R.N(2)))
					}
				}
			}
		}
		m := EncModel{tag: "json", omitEmpty: o.OmitEmpty, omitMethod: o.OmitMethod, hook: omitHook}
		want := m.encode(p.Elem(), false, false)
		tr := encodeWith(c, t, p, o, want)
		c.Count("fields omitted", m.Omitted)
		c.Count("fields kept", m.Kept)
		c.Sig("omit", hashStr(t.String()), hashStr(fmt.Sprint(o)), keySet(tr))
		c.Sample("omit", "%+v %s %s", o, typeName(t), clip(tr.text(), 200))
	}
}

// plainText is a type that marshals itself to text.
type plainText string

func (p plainText) MarshalText() ([]byte, error) { return []byte(p), nil }

// c26Hints checks which strings the html and 8bit options reach.
func c26Hints(c *Case) {
	mk := func() string {
		s := c.R.Pick("<b>", "a&b", "x>y", "</script>", "plain", "é<é", "a\"b", "\\", "\n") + strconv.Itoa(c.R.N(100))
		if c.R.P(1, 8) {
			s = strings.Repeat(s, 1+c.R.N(200))
		}
		return s
	}
	raw := func() string { return c.R.Pick(`a\nb`, `\u003c`, `plain`, `\"`, `<raw>`, `é`) }
	type inner struct {
		Plain string
		HTML  string `json:",html"`
	}
	type T struct {
		P  string
		H  string             `json:"h,html"`
		HP *string            `json:"hp,html"`
		HS []string           `json:"hs,omitempty,html"`
		HA [2]NString         `json:"ha,html"`
		HN [][]*string        `json:",html,omitempty"`
		R  string             `json:"r,8bit"`
		RS []string           `json:"rs,8bit,omitempty"`
		RP *NString           `json:",8bit"`
		HR string             `json:"hr,html,8bit"`
		I  inner              `json:"i"`
		M  map[string]string  `json:"m"`
		MH map[string]NString `json:"mh,omitempty"`
		Z  []string
		TV plainText            `json:"tv"`
		TP *plainText           `json:"tp,omitempty"`
		TK map[plainText]string `json:"tk"`
	}
	s := func() *string { x := mk(); return &x }
	r := NString(raw())
	v := T{P: mk(), H: mk(), HP: s(), HS: []string{mk(), mk()}, HA: [2]NString{NString(mk()), NString(mk())}, HN: [][]*string{{s(), nil}, {s()}},
		R: raw(), RS: []string{raw(), raw()}, RP: &r, HR: mk(), I: inner{mk(), mk()}, M: map[string]string{mk(): mk()}, MH: map[string]NString{mk(): NString(mk())}, Z: []string{mk()},
		TV: plainText(mk()), TK: map[plainText]string{plainText(mk()): mk()}}
	if c.R.P(1, 2) {
		x := plainText(mk())
		v.TP = &x
	}
	if c.R.P(1, 4) {
		v.HS, v.HN, v.RS, v.MH = nil, nil, nil, nil
	}
	var o unjson.Options
	if c.R.P(1, 2) {
		o = unjson.DefaultOptions()
	}
	p := reflect.ValueOf(&v)
	m := EncModel{tag: "json", omitMethod: o.OmitMethod}
	tr := encodeWith(c, p.Elem().Type(), p, o, m.encode(p.Elem(), false, false))
	var walk func(t *Tree, html, raw bool, path string)
	walk = func(t *Tree, html, raw bool, path string) {
		switch t.Kind {
		case 's':
			c.Eval(1)
			special := strings.ContainsAny(t.Raw, "<>&")
			meant := strings.ContainsAny(refUnescape(t.Raw), "<>&")
			if html && special {
				c.Failf("%s has the html option but is not escaped: %s", path, t.Raw)
			}
			if !html && !raw && meant != special {
				c.Failf("%s does not have the html option but is escaped: %s", path, t.Raw)
			}
			c.Count(fmt.Sprintf("html=%v raw=%v", html, raw), 1)
		case 'a':
			for _, k := range t.Kids {
				walk(k, html, raw, path+"[]")
			}
		}
	}
	for i, key := range tr.Keys {
		kid := tr.Kids[i]
		switch key {
		case "h", "hp", "hs", "ha", "HN", "hr":
			walk(kid, true, false, key)
		case "r", "rs", "RP":
			walk(kid, false, true, key)
		case "i":
			for j, k := range kid.Keys {
				walk(kid.Kids[j], k == "HTML", false, "i."+k)
			}
		case "m", "mh", "tk":
			for j := range kid.Keys {
				walk(&Tree{Kind: 's', Raw: kid.Keys[j]}, false, false, "key of "+key)
				walk(kid.Kids[j], false, false, key)
			}
		default:
			walk(kid, false, false, key)
		}
	}
	c.Sig("hints", tr.hash())
	c.Sample("hints", "%s", tr.text())
}

// hinted fills v with strings that show which option reached them and records, for every string of
// the value in the order of encoding, the option that names it.
func hinted(r *Rng, v reflect.Value, html, raw bool) {
	switch v.Kind() {
	case reflect.String:
		if raw && !html {
			v.SetString(r.Pick(`a\nb`, `\u003c<`, `plain`, `\"`, `<raw>&`, `é`, `\\`))
		} else {
			v.SetString(r.Pick("<b>", "a&b", "x>y", "q\"<", "b\\>", "é<é", "l\n&", "", "plain") + strconv.Itoa(r.N(100)))
		}
	case reflect.Ptr:
		if r.P(4, 5) {
			v.Set(reflect.New(v.Type().Elem()))
			hinted(r, v.Elem(), html, raw)
		}
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), r.N(4), 4))
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			hinted(r, v.Index(i), html, raw)
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		for i := r.N(3); i > 0; i-- {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			hinted(r, k, false, false)
			hinted(r, e, false, false)
			v.SetMapIndex(k, e)
		}
	case reflect.Interface:
		e := reflect.New(reflect.TypeOf([]string{})).Elem()
		hinted(r, e, false, false)
		v.Set(e)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			h := strings.Split(v.Type().Field(i).Tag.Get("json"), ",")[1:]
			hinted(r, v.Field(i), has(h, "html"), has(h, "8bit"))
		}
	}
}

func has(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

// hintsReach checks that the strings of v in t are written the way the options of their field say.
func hintsReach(c *Case, v reflect.Value, t *Tree, html, raw bool, path string) {
	switch v.Kind() {
	case reflect.String:
		c.Eval(1)
		s := v.String()
		special := strings.ContainsAny(t.Raw, "<>&")
		switch {
		case html:
			if special {
				c.Failf("%s has the html option but is not escaped: %s", path, t.Raw)
			}
		case raw:
			if t.Raw != s {
				c.Failf("%s has the 8bit option but is written as %s, want %s", path, t.Raw, s)
			}
		default:
			if strings.ContainsAny(s, "<>&") != special {
				c.Failf("%s does not have the html option but is escaped: %s", path, t.Raw)
			}
		}
		c.Count(fmt.Sprintf("html=%v raw=%v", html, raw), 1)
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			if v.Kind() == reflect.Interface {
				html, raw = false, false
			}
			hintsReach(c, v.Elem(), t, html, raw, path)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len() && i < len(t.Kids); i++ {
			hintsReach(c, v.Index(i), t.Kids[i], html, raw, path+"[]")
		}
	case reflect.Map:
		for i, k := range t.Keys {
			for _, key := range v.MapKeys() {
				if key.String() == refUnescape(k) {
					hintsReach(c, key, &Tree{Kind: 's', Raw: k}, false, false, path+" key")
					hintsReach(c, v.MapIndex(key), t.Kids[i], false, false, path+" value")
				}
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			tag := strings.Split(v.Type().Field(i).Tag.Get("json"), ",")
			for j, k := range t.Keys {
				if k == tag[0] {
					hintsReach(c, v.Field(i), t.Kids[j], has(tag, "html"), has(tag, "8bit"), path+"."+k)
				}
			}
		}
	}
}

// c26Mixed uses the same types under different options in one struct, in any order.
func c26Mixed(c *Case) {
	r := c.R
	base := []reflect.Type{typString, reflect.TypeOf(NString("")), reflect.TypeOf(map[string]string{}), reflect.TypeOf((*interface{})(nil)).Elem()}
	var pool []reflect.Type
	for i := r.Range(1, 3); i > 0; i-- {
		t := base[r.N(len(base))]
		if r.P(2, 3) {
			t = typString
		}
		for j := r.N(4); j > 0; j-- {
			switch r.N(5) {
			case 0, 1:
				t = reflect.SliceOf(t)
			case 2, 3:
				t = reflect.PtrTo(t)
			default:
				t = reflect.ArrayOf(r.Range(1, 2), t)
			}
		}
		pool = append(pool, t)
	}
	var mk func(depth int) reflect.Type
	mk = func(depth int) reflect.Type {
		var fields []reflect.StructField
		for i, n := 0, r.Range(2, 7); i < n; i++ {
			t := pool[r.N(len(pool))]
			if depth > 0 && r.P(1, 4) {
				t = mk(depth - 1)
				if r.P(1, 2) {
					t = reflect.SliceOf(reflect.PtrTo(t))
				}
				pool = append(pool, t)
			}
			opts := r.Pick("", "", ",html", ",html", ",8bit", ",html,8bit", ",omitempty", ",omitempty,html", ",8bit,omitempty", ",string", ", html", ",HTML", ",html ", ",8bit ,html", ",omit", ", omitempty", ",omitEmpty", ",,html", ",x,omitempty,y")
			fields = append(fields, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: t, Tag: reflect.StructTag(fmt.Sprintf(`json:"f%d%s"`, i, opts))})
		}
		return reflect.StructOf(fields)
	}
	t := mk(2)
	var o unjson.Options
	if r.P(1, 2) {
		o = unjson.DefaultOptions()
	}
	o.OmitEmpty = r.P(1, 4)
	p := reflect.New(t)
	hinted(r, p.Elem(), false, false)
	m := EncModel{tag: "json", omitEmpty: o.OmitEmpty, omitMethod: o.OmitMethod}
	tr := encodeWith(c, t, p, o, m.encode(p.Elem(), false, false))
	hintsReach(c, p.Elem(), tr, false, false, "")
	c.Sig("mixed", hashStr(t.String()), tr.shape())
	c.Sample("mixed", "%s %s", typeName(t), clip(tr.text(), 200))
}

// c26Decode decodes with another tag key: only the fields of that key are set.
func c26Decode(c *Case) {
	tag := c.R.Pick("xml", "njson", "mine", "json")
	g := newTypeGen(c.R)
	g.named = plainNamed[:6]
	g.tag = tag
	t := g.structType(4)
	// The same type with json tags is what encoding/json decodes to
	twin := retag(t, tag, "json")
	if !t.ConvertibleTo(twin) {
		return
	}
	dec, err := unjson.NewTypeDecoder(reflect.PtrTo(t), tag)
	if err != nil {
		c.Failf("no decoder of %s: %v", typeName(t), err)
	}
	cache := unjson.Cache{Options: unjson.Options{Tag: tag}}
	cdec, err := cache.Decoder(reflect.PtrTo(t))
	if err != nil {
		c.Failf("no decoder of %s: %v", typeName(t), err)
	}
	for i := 0; i < 4; i++ {
		tg := TextGen{r: c.R, tag: tag, nulls: true, budget: c.R.Range(5, 60)}
		tr := tg.tree(t, 5)
		// Members named by the Go names of the fields and by the other tags are not fields
		if tr.Kind == 'o' {
			for _, k := range []string{"zzz", "yyy", "-", "omitempty"} {
				tr.Keys = append(tr.Keys, k)
				tr.Kids = append(tr.Kids, &Tree{Kind: '0', Raw: "1"})
			}
		}
		s := tr.text()
		c.Logf("type %s text %s", t, s)
		want := reflect.New(twin)
		if err := json.Unmarshal([]byte(s), want.Interface()); err != nil {
			c.Broken("encoding/json: %v\n%s\n%s", err, twin, s)
		}
		d := freshDoc(c.R)
		n, _, err := d.Parse(s)
		if err != nil {
			c.Failf("%v", err)
		}
		for _, dec := range []unjson.Decoder{dec, cdec} {
			got := reflect.New(t)
			if err := dec.Decode(got.Interface(), n); err != nil {
				c.Failf("decoding with tag %s to %s: %v\n%s", tag, typeName(t), err, clip(s, 400))
			}
			c.Eval(1)
			if diff := diffValues(got.Elem().Convert(twin), want.Elem(), eqOpt{}); diff != "" {
				c.Failf("decoding with tag %s to %s: %s\n%s", tag, typeName(t), diff, clip(s, 400))
			}
		}
		c.Sig("decode", hashStr(t.String()), tr.shape())
	}
}

// retag changes the tag key of all fields of a type without named structs.
func retag(t reflect.Type, from, to string) reflect.Type {
	switch t.Kind() {
	case reflect.Ptr:
		return reflect.PtrTo(retag(t.Elem(), from, to))
	case reflect.Slice:
		if t.Name() == "" {
			return reflect.SliceOf(retag(t.Elem(), from, to))
		}
	case reflect.Array:
		if t.Name() == "" {
			return reflect.ArrayOf(t.Len(), retag(t.Elem(), from, to))
		}
	case reflect.Map:
		if t.Name() == "" {
			return reflect.MapOf(t.Key(), retag(t.Elem(), from, to))
		}
	case reflect.Struct:
		if t.Name() != "" {
			return t
		}
		var fields []reflect.StructField
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			tag := reflect.StructTag("")
			if value, ok := f.Tag.Lookup(from); ok {
				tag = reflect.StructTag(to + ":" + strconv.Quote(value))
			}
			fields = append(fields, reflect.StructField{Name: f.Name, Anonymous: f.Anonymous, Type: retag(f.Type, from, to), Tag: tag})
		}
		return reflect.StructOf(fields)
	}
	return t
}

// c26Floats checks the options for floats without a JSON encoding.
func c26Floats(c *Case) {
	for nan := 0; nan < 2; nan++ {
		for inf := 0; inf < 2; inf++ {
			o := unjson.Options{AllowNaN: nan == 1, AllowInf: inf == 1}
			for _, f := range []float64{math.NaN(), math.Inf(1), math.Inf(-1), genFloat(c.R)} {
				x := struct {
					A float64 `json:"a"`
					B []float32
					C float64    `json:",omitempty"`
					D *float32   `json:",omitempty"`
					E [2]float64 `json:",omitempty"`
				}{A: f, B: []float32{1, float32(f)}}
				omitted := c.R.N(4)
				switch omitted {
				case 1:
					x.A, x.B[1], x.C = 0, 0, f
				case 2:
					g := float32(f)
					x.A, x.B[1], x.D = 0, 0, &g
				case 3:
					x.A, x.B[1], x.E[1] = 0, 0, f
				}
				enc, err := unjson.NewTypeEncoder(reflect.TypeOf(x), o)
				if err != nil {
					c.Failf("%v", err)
				}
				b, err := enc.Encode(nil, &x)
				c.Eval(1)
				text := ""
				switch {
				case f != f && nan == 1:
					text = "NaN"
				case math.IsInf(f, 1) && inf == 1:
					text = "+Inf"
				case math.IsInf(f, -1) && inf == 1:
					text = "-Inf"
				case f != f || math.IsInf(f, 0):
				default:
					if math.Abs(f) > math.MaxFloat32/2 {
						continue
					}
					a, _ := json.Marshal(f)
					b32, _ := json.Marshal(float32(f))
					if omitted == 0 && (err != nil || string(b) != `{"a":`+string(a)+`,"B":[1,`+string(b32)+`]}`) {
						c.Failf("%v with %+v: %s, %v", f, o, b, err)
					}
					continue
				}
				if text == "" {
					if err == nil {
						c.Failf("%v is encoded with %+v: %s", f, o, b)
					}
				} else if want := map[int]string{0: `{"a":` + text + `,"B":[1,` + text + `]}`, 1: `{"a":0,"B":[1,0],"C":` + text + `}`,
					2: `{"a":0,"B":[1,0],"D":` + text + `}`, 3: `{"a":0,"B":[1,0],"E":[0,` + text + `]}`}[omitted]; err != nil || string(b) != want {
					c.Failf("%v with %+v: %s, %v", f, o, b, err)
				}
				c.Sig("float", math.Float64bits(f), uint64(nan*2+inf))
			}
		}
	}
}
