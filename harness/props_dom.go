package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/strjson"
)

func init() {
	register(&Prop{ID: "C07", MinSig: 1000,
		Rule: "a case is a history of 10 to 60 DOM operations on one to three documents, mirrored on a value-tree model and compared through every live handle after every operation; distinct by hash of (operation, operand kinds, outcome) sequence",
		Stages: []Stage{
			{Name: "edits", Quick: 300000, Thorough: 16000000, Fn: func(c *Case) { domHistory(c, false) }},
			{Name: "growth", Quick: 12000, Thorough: 400000, Fn: c07Growth},
			{Name: "setters", Quick: 400000, Thorough: 16000000, Fn: c07Setters},
			{Name: "bulk-edits", Quick: 1000, Thorough: 40000, Fn: bulk(func(c *Case) { domHistory(c, false) }, 2, 3000)},
			{Name: "bulk-growth", Quick: 300, Thorough: 12000, Fn: bulk(c07Growth, 2, 40000)},
			{Name: "bulk-setters", Quick: 2000, Thorough: 80000, Fn: bulk(c07Setters, 2, 1<<17)},
		}})
	register(&Prop{ID: "C08", MinSig: 1000,
		Rule: "a case is a history dominated by attaching values that are already attached, enclosing, removed, roots, of other documents or the target itself; after every operation every edge reachable from a handle is recorded and no node may have two parents or be its own ancestor; distinct by hash of the (operation, relation of value and target, adopted or copied) sequence",
		Stages: []Stage{
			{Name: "attach", Quick: 180000, Thorough: 9600000, Fn: func(c *Case) { domHistory(c, true) }},
			{Name: "pairs", Quick: 72000, Thorough: 2400000, Fn: c08Pairs},
			{Name: "bulk-attach", Quick: 800, Thorough: 32000, Fn: bulk(func(c *Case) { domHistory(c, true) }, 2, 2000)},
			{Name: "bulk-pairs", Quick: 2000, Thorough: 80000, Fn: bulk(c08Pairs, 2, 1<<16)},
		}})
	register(&Prop{ID: "C09", MinSig: 500,
		Rule: "a case takes handles and iterators of a document, resets or closes it, fills it again and uses every method through the old handles; distinct by (old tree shape, new tree shape, way of invalidation)",
		Stages: []Stage{
			{Name: "stale", Quick: 480000, Thorough: 19200000, Fn: c09Stale},
			{Name: "absent", Quick: 120000, Thorough: 4800000, Fn: c09Absent},
			{Name: "bulk-stale", Quick: 2000, Thorough: 80000, Fn: bulk(c09Stale, 2, 1<<15)},
			{Name: "bulk-absent", Quick: 1000, Thorough: 40000, Fn: bulk(c09Absent, 2, 1<<15)},
			{Name: "generations", Quick: 8, Thorough: 8, Fn: c09Generations, CPULimit: 200},
		}})
	register(&Prop{ID: "C10", MinSig: 1000,
		Rule: "a case is a parsed or edited tree and a set of keys, offsets and paths, present and absent; distinct by (tree shape, path kinds)",
		Stages: []Stage{
			{Name: "trees", Quick: 600000, Thorough: 30000000, Fn: c10Trees},
			{Name: "bulk", Quick: 1500, Thorough: 60000, Fn: bulk(c10Trees, 2, 1<<17)},
		}})
	register(&Prop{ID: "C11", MinSig: 1000,
		Rule: "a case is a parsed or built document serialized through every path (node, document, writer, helper, failing writer); distinct by tree shape and buffer situation",
		Stages: []Stage{
			{Name: "parsed", Quick: 480000, Thorough: 19200000, Fn: c11Parsed},
			{Name: "built", Quick: 480000, Thorough: 19200000, Fn: c11Built},
			{Name: "writers", Quick: 240000, Thorough: 8000000, Fn: c11Writers},
			{Name: "bulk-parsed", Quick: 1500, Thorough: 60000, Fn: bulk(c11Parsed, 3, 1<<19)},
			{Name: "bulk-built", Quick: 1500, Thorough: 60000, Fn: bulk(c11Built, 3, 1<<17)},
			{Name: "bulk-writers", Quick: 800, Thorough: 32000, Fn: bulk(c11Writers, 3, 1<<17)},
		}})
}

// ---- model of documents under edit ----

type mnode struct {
	kind   byte
	raw    string
	keys   []string
	kids   []*mnode
	parent *mnode
	unord  bool
	world  int // document
}

func (m *mnode) tree() *Tree {
	t := &Tree{Kind: m.kind, Raw: m.raw, Keys: m.keys}
	for _, k := range m.kids {
		t.Kids = append(t.Kids, k.tree())
	}
	return t
}

func modelOf(t *Tree, world int) *mnode {
	m := &mnode{kind: t.Kind, raw: t.Raw, keys: append([]string(nil), t.Keys...), world: world}
	for _, k := range t.Kids {
		kid := modelOf(k, world)
		kid.parent = m
		m.kids = append(m.kids, kid)
	}
	return m
}

func (m *mnode) within(anc *mnode) bool {
	for ; m != nil; m = m.parent {
		if m == anc {
			return true
		}
	}
	return false
}

func (m *mnode) find(key string) int {
	for i, k := range m.keys {
		if k == key {
			return i
		}
	}
	return -1
}

func (m *mnode) drop(i int) {
	m.kids[i].parent = nil
	m.kids = append(append([]*mnode(nil), m.kids[:i]...), m.kids[i+1:]...)
	if m.kind == 'o' {
		m.keys = append(append([]string(nil), m.keys[:i]...), m.keys[i+1:]...)
		m.unord = true
	}
}

func (m *mnode) strip(key string) {
	if i := m.find(key); m.kind == 'o' && i >= 0 {
		m.drop(i)
	}
	for _, k := range m.kids {
		k.strip(key)
	}
}

func (m *mnode) clear(kind byte, raw string) {
	for _, k := range m.kids {
		k.parent = nil
	}
	m.kind, m.raw, m.kids, m.keys, m.unord = kind, raw, nil, nil, false
}

func (m *mnode) size() int {
	n := 1
	for _, k := range m.kids {
		n += k.size()
	}
	return n
}

// compare checks a node against the model. Objects that lost a key have no defined order:
// the model takes the order that is observed.
func (m *mnode) compare(n njson.Node) string {
	raw, typ := n.Data()
	if typ != kindTypes[m.kind] {
		return fmt.Sprintf("type %v, want %v", typ, kindTypes[m.kind])
	}
	if raw != m.raw {
		return fmt.Sprintf("raw %q, want %q", clip(raw, 100), clip(m.raw, 100))
	}
	it := n.Values()
	if it.Len() != len(m.kids) {
		return fmt.Sprintf("%d values, want %d", it.Len(), len(m.kids))
	}
	if m.kind == 'o' && m.unord && len(m.kids) > 1 {
		var keys []string
		var kids []*mnode
		seen := map[string]bool{}
		at := make(map[string]int, len(m.keys))
		for i, k := range m.keys {
			if _, ok := at[k]; !ok {
				at[k] = i
			}
		}
		for it.Next() {
			i, ok := at[it.Key()]
			if !ok || seen[it.Key()] {
				return fmt.Sprintf("unexpected or repeated key %q, want %q", it.Key(), m.keys)
			}
			seen[it.Key()] = true
			keys, kids = append(keys, it.Key()), append(kids, m.kids[i])
		}
		m.keys, m.kids = keys, kids
		it = n.Values()
	}
	for i := 0; it.Next(); i++ {
		if m.kind == 'o' && it.Key() != m.keys[i] {
			return fmt.Sprintf("key %d is %q, want %q", i, it.Key(), m.keys[i])
		}
		if d := m.kids[i].compare(it.Value()); d != "" {
			if m.kind == 'o' {
				return fmt.Sprintf("%q: %s", m.keys[i], d)
			}
			return fmt.Sprintf("[%d]: %s", i, d)
		}
	}
	return ""
}

type handle struct {
	n njson.Node
	m *mnode
}

type domWorld struct {
	c       *Case
	docs    []*njson.Document
	hs      []handle
	created int
	plan    uint64
}

func (w *domWorld) add(n njson.Node, m *mnode) handle {
	h := handle{n, m}
	w.hs = append(w.hs, h)
	return h
}

// verify compares every handle with its model and looks for shared nodes and cycles.
func (w *domWorld) verify(op string) {
	c := w.c
	type edge struct {
		parent uint
		slot   int
	}
	for di, d := range w.docs {
		parents := map[uint]edge{}
		state := map[uint]int{} // 1 on the path, 2 done
		var walk func(n njson.Node)
		walk = func(n njson.Node) {
			if state[n.ID()] == 2 {
				return
			}
			state[n.ID()] = 1
			it := n.Values()
			for i := 0; it.Next(); i++ {
				k := it.Value()
				e := edge{n.ID(), i}
				if p, ok := parents[k.ID()]; ok && p != e {
					c.Failf("after %s: node %d of document %d is a value of node %d slot %d and of node %d slot %d", op, k.ID(), di, p.parent, p.slot, e.parent, e.slot)
				}
				parents[k.ID()] = e
				if state[k.ID()] == 1 {
					c.Failf("after %s: node %d of document %d contains itself", op, k.ID(), di)
				}
				walk(k)
			}
			state[n.ID()] = 2
		}
		for _, h := range w.hs {
			if h.m.world == di && h.n.Document() == d {
				walk(h.n)
			}
		}
	}
	for i, h := range w.hs {
		c.Eval(1)
		if d := h.m.compare(h.n); d != "" {
			c.Failf("after %s: handle %d differs from its model: %s", op, i, d)
		}
	}
}

// attached updates the model after value v was attached to slot i of target:
// the node is either v itself, that had no parent and does not contain the target, or a copy.
func (w *domWorld) attached(op string, child njson.Node, v handle, vdoc int, target *mnode, snapshot *Tree) *mnode {
	relation := uint64(0)
	if v.m.parent != nil {
		relation |= 1
	}
	if target.within(v.m) {
		relation |= 2
	}
	if vdoc != target.world {
		relation |= 4
	}
	if v.m.kind == 'a' || v.m.kind == 'o' {
		relation |= 8
	}
	if child.ID() == v.n.ID() && child.Document() == v.n.Document() {
		w.c.Count("adopted", 1)
		w.plan = mix(w.plan, relation, 1)
		if v.m.parent != nil {
			w.c.Failf("%s: a value of one parent became a value of another without a copy", op)
		}
		if target.within(v.m) {
			w.c.Failf("%s: a node became a value of its own descendant", op)
		}
		if child.ID() == 0 {
			w.c.Failf("%s: the root of a document became a value without a copy", op)
		}
		v.m.parent = target
		return v.m
	}
	w.c.Count("copied", 1)
	w.plan = mix(w.plan, relation, 2)
	m := modelOf(snapshot, target.world)
	m.parent = target
	w.created += m.size()
	return m
}

func (w *domWorld) pick() handle { return w.hs[w.c.R.N(len(w.hs))] }

func (w *domWorld) pickKind(kind byte) handle {
	for i := 0; i < 12; i++ {
		if h := w.pick(); h.m.kind == kind {
			return h
		}
	}
	return w.pick()
}

var domKeys = []string{"a", "b", "c", "d", "k", "", "0", "key with space", `e\"q`, `\u0061`, "é"}

// domHistory runs a history of operations. hostile histories attach far more.
func domHistory(c *Case, hostile bool) {
	w := &domWorld{c: c}
	r := c.R
	for i := r.Range(1, 2+boolInt(hostile)); i > 0; i-- {
		w.docs = append(w.docs, freshDoc(r))
	}
	newValue := func() handle {
		di := r.N(len(w.docs))
		d := w.docs[di]
		w.created++
		switch r.N(12) {
		case 0:
			return w.add(d.Null(), &mnode{kind: 'n', raw: "null", world: di})
		case 1:
			return w.add(d.True(), &mnode{kind: 'b', raw: "true", world: di})
		case 2:
			return w.add(d.False(), &mnode{kind: 'b', raw: "false", world: di})
		case 3:
			f := genFloat(r)
			return w.add(d.Number(f), &mnode{kind: '0', raw: refFloat(f), world: di})
		case 4, 5:
			s := genString(r, 40)
			html := r.P(1, 2)
			n := d.Text(s)
			if html {
				n = d.TextHTML(s)
			}
			checkEscapedRaw(c, n.Raw(), s, html)
			return w.add(n, &mnode{kind: 's', raw: n.Raw(), world: di})
		case 6:
			raw := genRawMax(r, 30, true)
			return w.add(d.TextRaw(raw), &mnode{kind: 's', raw: raw, world: di})
		case 7, 8:
			return w.add(d.Object(), &mnode{kind: 'o', world: di})
		case 9:
			return w.add(d.Array(), &mnode{kind: 'a', world: di})
		default:
			t := genTree(r, GenOpt{Nodes: 14, MaxStr: 16, Unique: true, EmptyHeavy: true})
			n, _, err := d.Parse(t.text())
			if err != nil {
				c.Failf("parse: %v", err)
			}
			w.created += t.count()
			return w.add(n, modelOf(t, di))
		}
	}
	newValue()
	steps := r.Range(10, 60)
	for i := 0; i < steps; i++ {
		if len(w.hs) > 24 {
			// Forget some handles; what they point to lives on in its parents
			w.hs = append(w.hs[:4:4], w.hs[10:]...)
		}
		big := 0
		for _, h := range w.hs {
			big += h.m.size()
		}
		op, what := r.N(22), ""
		if hostile && r.P(1, 2) {
			op = []int{5, 5, 5, 7, 7, 7, 11, 11}[r.N(8)]
		}
		if (big > 900 && r.bulkMax == 0 || big > 20000) && (op >= 5 && op <= 8 || op == 11) {
			op = []int{9, 10, 12, 13, 14, 15}[r.N(6)]
		}
		switch {
		case op < 3 || len(w.hs) < 2:
			h := newValue()
			what = fmt.Sprintf("new %c in document %d", h.m.kind, h.m.world)
		case op < 5: // a handle of a value inside
			h := w.pick()
			if len(h.m.kids) == 0 {
				break
			}
			j := r.N(len(h.m.kids))
			var n njson.Node
			if h.m.kind == 'o' {
				n = h.n.Get(h.m.keys[j])
				if r.P(1, 2) {
					n = h.n.Lookup(h.m.keys[j])
				}
			} else {
				n = h.n.Index(j)
				if r.P(1, 2) {
					n = h.n.Lookup(strconv.Itoa(j))
				}
			}
			what = fmt.Sprintf("handle of value %d", j)
			w.add(n, h.m.kids[j])
		case op < 7: // Set
			h := w.pickKind('o')
			v := w.pick()
			if r.P(1, 8) {
				v = h
			}
			key := domKeys[r.N(len(domKeys))]
			what = fmt.Sprintf("Set(%q)", key)
			snap := v.m.tree()
			j := h.m.find(key)
			same := j >= 0 && h.m.kids[j] == v.m
			h.n.Set(key, v.n)
			if h.m.kind != 'o' {
				break
			}
			if same {
				// The value is replaced by itself or by a copy of itself
				h.m.kids[j].parent = nil
			}
			m := w.attached(what, h.n.Get(key), v, v.m.world, h.m, snap)
			if j >= 0 {
				if h.m.kids[j] != m {
					h.m.kids[j].parent = nil
				}
				h.m.kids[j] = m
			} else {
				h.m.keys = append(h.m.keys, key)
				h.m.kids = append(h.m.kids, m)
			}
			m.parent = h.m
		case op < 9: // Append
			h := w.pickKind('a')
			var vs []handle
			for n := r.N(4); n >= 0; n-- {
				vs = append(vs, w.pick())
			}
			if len(vs) > 1 {
				// An enclosing value is appended on its own
				keep := vs[:0]
				for _, v := range vs {
					if !h.m.within(v.m) {
						keep = append(keep, v)
					}
				}
				vs = keep
			}
			what = fmt.Sprintf("Append of %d", len(vs))
			var nodes []njson.Node
			var snaps []*Tree
			bad := 0
			for _, v := range vs {
				if r.P(1, 10) {
					nodes = append(nodes, []njson.Node{{}, h.n.With(1 << 40), h.n.Get("missing key")}[r.N(3)])
					bad++
				}
				nodes = append(nodes, v.n)
				snaps = append(snaps, v.m.tree())
			}
			base := len(h.m.kids)
			h.n.Append(nodes...)
			if h.m.kind != 'a' {
				break
			}
			for k, v := range vs {
				m := w.attached(what, h.n.Index(base+k), v, v.m.world, h.m, snaps[k])
				h.m.kids = append(h.m.kids, m)
			}
		case op == 9: // Remove
			h := w.pickKind('a')
			j := r.N(len(h.m.kids)+3) - 1
			what = fmt.Sprintf("Remove(%d) of %d", j, len(h.m.kids))
			h.n.Remove(j)
			if h.m.kind == 'a' && 0 <= j && j < len(h.m.kids) {
				h.m.drop(j)
			}
		case op == 10: // Slice
			h := w.pickKind('a')
			a, b := r.N(len(h.m.kids)+3)-1, r.N(len(h.m.kids)+3)-1
			if a > b && r.P(2, 3) {
				a, b = b, a
			}
			what = fmt.Sprintf("Slice(%d,%d) of %d", a, b, len(h.m.kids))
			h.n.Slice(a, b)
			if h.m.kind == 'a' && 0 <= a && a <= b && b <= len(h.m.kids) {
				for k, kid := range h.m.kids {
					if k < a || k >= b {
						kid.parent = nil
					}
				}
				h.m.kids = append([]*mnode(nil), h.m.kids[a:b]...)
			}
		case op == 11: // Replace
			h := w.pickKind('a')
			v := w.pick()
			if r.P(1, 8) {
				v = h
			}
			j := r.N(len(h.m.kids)+2) - 1
			if r.P(2, 3) && len(h.m.kids) > 0 {
				j = r.N(len(h.m.kids))
			}
			what = fmt.Sprintf("Replace(%d) of %d", j, len(h.m.kids))
			snap := v.m.tree()
			valid := h.m.kind == 'a' && 0 <= j && j < len(h.m.kids)
			if valid && h.m.kids[j] == v.m {
				h.m.kids[j].parent = nil
			}
			h.n.Replace(j, v.n)
			if valid {
				m := w.attached(what, h.n.Index(j), v, v.m.world, h.m, snap)
				if h.m.kids[j] != m {
					h.m.kids[j].parent = nil
				}
				h.m.kids[j] = m
				m.parent = h.m
			}
		case op == 12 || op == 13: // Del
			h := w.pickKind('o')
			key := domKeys[r.N(len(domKeys))]
			if len(h.m.keys) > 0 && r.P(2, 3) {
				key = h.m.keys[r.N(len(h.m.keys))]
			}
			what = fmt.Sprintf("Del(%q)", key)
			h.n.Del(key)
			if j := h.m.find(key); h.m.kind == 'o' && j >= 0 {
				h.m.drop(j)
			}
		case op == 14: // Strip
			h := w.pick()
			key := domKeys[r.N(len(domKeys))]
			if len(h.m.keys) > 0 && r.P(1, 2) {
				key = h.m.keys[r.N(len(h.m.keys))]
			} else if len(h.m.kids) > 0 {
				if k := h.m.kids[r.N(len(h.m.kids))]; len(k.keys) > 0 {
					key = k.keys[r.N(len(k.keys))]
				}
			}
			what = fmt.Sprintf("Strip(%q)", key)
			h.n.Strip(key)
			h.m.strip(key)
		case op == 15: // values that do not exist have no effect
			h := w.pick()
			bad := []njson.Node{{}, h.n.With(1 << 40), h.n.Get("missing key"), h.n.Index(-1), h.n.With(math.MaxUint64)}[r.N(5)]
			what = "attach nothing"
			h.n.Set("a", bad)
			h.n.Append(bad)
			h.n.Append()
			h.n.Replace(0, bad)
			bad.Set("a", h.n)
			bad.Append(h.n)
			bad.SetInt(1)
			bad.Strip("a")
			bad.Del("a")
			bad.Remove(0)
		default:
			h := w.pick()
			what = w.setScalar(h)
		}
		c.Logf("%s", what)
		w.plan = mix(w.plan, uint64(op), uint64(len(w.hs)))
		c.Count("operations", 1)
		w.verify(what)
	}
	for _, h := range w.hs {
		out, err := h.n.AppendJSON(nil)
		if err != nil {
			c.Failf("serialize: %v", err)
		}
		if string(out) != h.m.tree().text() {
			c.Failf("serialized %s, model %s", clip(string(out), 500), clip(h.m.tree().text(), 500))
		}
		if !json.Valid(out) {
			c.Failf("invalid JSON serialized: %s", clip(string(out), 800))
		}
		c.Sample("result", "%s", out)
	}
	c.Sig("history", w.plan)
	for _, d := range w.docs {
		d.Close()
	}
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// setScalar overwrites a node through one of its setters.
func (w *domWorld) setScalar(h handle) string {
	r := w.c.R
	switch r.N(9) {
	case 0:
		i := genInt(r)
		h.n.SetInt(i)
		h.m.clear('0', strconv.FormatInt(i, 10))
		return "SetInt"
	case 1:
		u := uint64(genInt(r))
		h.n.SetUint(u)
		h.m.clear('0', strconv.FormatUint(u, 10))
		return "SetUint"
	case 2:
		f := genFloat(r)
		h.n.SetFloat(f)
		h.m.clear('0', refFloat(f))
		return "SetFloat"
	case 3:
		s := genString(r, 60)
		h.n.SetString(s)
		checkEscapedRaw(w.c, h.n.Raw(), s, false)
		h.m.clear('s', h.n.Raw())
		return "SetString"
	case 4:
		s := genString(r, 60)
		h.n.SetStringHTML(s)
		checkEscapedRaw(w.c, h.n.Raw(), s, true)
		h.m.clear('s', h.n.Raw())
		return "SetStringHTML"
	case 5:
		s := genRawMax(r, 30, true)
		h.n.SetStringRaw(s)
		h.m.clear('s', s)
		return "SetStringRaw"
	case 6:
		h.n.SetTrue()
		h.m.clear('b', "true")
		return "SetTrue"
	case 7:
		h.n.SetFalse()
		h.m.clear('b', "false")
		return "SetFalse"
	default:
		h.n.SetNull()
		h.m.clear('n', "null")
		return "SetNull"
	}
}

// refFloat is the JSON form of a float by encoding/json.
func refFloat(f float64) string {
	b, err := json.Marshal(f)
	if err != nil {
		panic(broken(err.Error()))
	}
	return string(b)
}

func genInt(r *Rng) int64 {
	switch r.N(4) {
	case 0:
		return int64(r.N(2001) - 1000)
	case 1:
		return []int64{0, 1, -1, math.MaxInt8, math.MinInt8, math.MaxInt16, math.MinInt16, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1, -(1<<53 + 1), math.MaxInt64 - 1, math.MinInt64 + 1, math.MaxUint32, 1000000000000000000}[r.N(18)]
	case 2:
		return int64(r.U64()) >> r.N(64)
	default:
		p := int64(1)
		for i := r.N(19); i > 0; i-- {
			p *= 10
		}
		return p + int64(r.N(3)) - 1
	}
}

// genFloat makes finite floats of all magnitudes.
func genFloat(r *Rng) float64 {
	for {
		var f float64
		switch r.N(6) {
		case 0:
			f = float64(r.N(2001)-1000) / 8
		case 1:
			f = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1e21, 1e20, 999999999999999999999, 1e-6, 1e-7, 9.999999e-7, 5e-324, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, 1e22, 1e23, 123456789, 0.30000000000000004, 1 << 53, 1e100, 2.2250738585072014e-308, 1.1e-10}[r.N(24)]
		case 2:
			f = math.Float64frombits(r.U64())
		case 3:
			f = float64(int64(r.U64())>>r.N(64)) / math.Pow10(r.N(20))
		case 4:
			f = float64(r.N(100000)) * math.Pow10(r.N(40)-20)
		default:
			f, _ = strconv.ParseFloat(genNum(r), 64)
		}
		if !math.IsNaN(f) && !math.IsInf(f, 0) {
			return f
		}
	}
}

var strRunes = []rune{'a', 'b', 'z', '0', ' ', '"', '\\', '/', '\b', '\f', '\n', '\r', '\t', 0, 1, 0x0b, 0x1f, 0x7f, 0x80, 0xe9, 0xff, 0x7ff, 0x800, 0x2027, 0x2028, 0x2029, 0x202a, 0x4e16, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff, '<', '>', '&', '\'', '=', '{', '}', '[', ']', ',', ':', 'u'}

// genString makes valid UTF-8 text of up to about max runes, often with a special rune at
// the start, the end or after a long plain run.
func genString(r *Rng, max int) string {
	var b strings.Builder
	if n := r.bulkN(5, 1<<20); n > 0 {
		block := []int{0, 1, r.Range(1, n), n}[r.N(4)]
		fill := r.Pick("a", "x", " ", "é", "z")
		for b.Len() < n {
			k := minInt(block, n-b.Len())
			b.WriteString(strings.Repeat(fill, (k+len(fill)-1)/len(fill)))
			if b.Len() < n || r.P(1, 2) {
				b.WriteRune(strRunes[r.N(len(strRunes))])
			}
		}
		for k := r.N(4); k > 0; k-- {
			b.WriteRune(strRunes[r.N(len(strRunes))])
		}
		return b.String()
	}
	switch r.N(8) {
	case 0:
		return ""
	case 1:
		b.WriteString(strings.Repeat(r.Pick("a", "x", "é", "0"), size(r, max)))
		b.WriteRune(strRunes[r.N(len(strRunes))])
		b.WriteString(strings.Repeat("z", r.N(10)))
	case 2:
		for n := size(r, max); n > 0; n-- {
			b.WriteRune(rune(genBMP(r)))
		}
	case 3:
		return strings.Repeat(string(strRunes[r.N(len(strRunes))]), size(r, max))
	default:
		for n := size(r, max); n > 0; n-- {
			if r.P(1, 2) {
				b.WriteByte("abcdefghij klmnopq"[r.N(18)])
			} else {
				b.WriteRune(strRunes[r.N(len(strRunes))])
			}
		}
	}
	return b.String()
}

// checkEscapedRaw checks that raw is the contents of a JSON string meaning s.
func checkEscapedRaw(c *Case, raw, s string, html bool) {
	if j, err := refString(raw+`"`, 0); err != nil || j != len(raw) {
		c.Failf("escaped form of %q is not the contents of a JSON string: %q (%v)", s, raw, err)
	}
	if u := refUnescape(raw); u != s {
		c.Failf("escaped form of %q is %q which means %q", s, raw, u)
	}
	if !utf8.ValidString(raw) {
		c.Failf("escaped form of %q is not valid UTF-8: %q", s, raw)
	}
	if i := strings.IndexAny(raw, "\u2028\u2029"); i >= 0 {
		c.Failf("escaped form of %q contains a line separator: %q", s, raw)
	}
	if html && strings.ContainsAny(raw, "<>&") {
		c.Failf("HTML escaped form of %q contains unsafe characters: %q", s, raw)
	}
}

// c07Growth makes documents and containers cross their capacities.
func c07Growth(c *Case) {
	r := c.R
	d := freshDoc(r)
	arr, obj := d.Array(), d.Object()
	ma, mo := &mnode{kind: 'a'}, &mnode{kind: 'o'}
	n := size(r, 700) + 1 + r.bulkN(1, 70000)
	src := new(njson.Document)
	for i := 0; i < n; i++ {
		t := genTree(r, GenOpt{Nodes: 8, MaxStr: 8, Unique: true})
		var v njson.Node
		if r.P(1, 3) {
			src.Reset()
			v, _, _ = src.Parse(t.text())
		} else {
			v, _, _ = d.Parse(t.text())
		}
		m := modelOf(t, 0)
		if r.P(1, 2) {
			arr.Append(v)
			ma.kids = append(ma.kids, m)
		} else {
			k := "k" + strconv.Itoa(i)
			obj.Set(k, v)
			mo.keys, mo.kids = append(mo.keys, k), append(mo.kids, m)
		}
		if r.P(1, 9) && len(ma.kids) > 0 {
			j := r.N(len(ma.kids))
			arr.Remove(j)
			ma.drop(j)
		}
		if r.P(1, 40) && len(ma.kids) > 4 {
			j := r.N(3)
			arr.Slice(j, len(ma.kids)-1)
			ma.kids = append([]*mnode(nil), ma.kids[j:len(ma.kids)-1]...)
		}
		if r.P(1, 12) && len(mo.kids) > 0 {
			j := r.N(len(mo.kids))
			obj.Del(mo.keys[j])
			mo.drop(j)
		}
	}
	c.Eval(2)
	if diff := ma.compare(arr); diff != "" {
		c.Failf("array of %d after growth: %s", len(ma.kids), diff)
	}
	if diff := mo.compare(obj); diff != "" {
		c.Failf("object of %d after growth: %s", len(mo.kids), diff)
	}
	// and all of it inside of one value
	top := d.Object()
	top.Set("arr", arr)
	top.Set("obj", obj)
	mt := &mnode{kind: 'o', keys: []string{"arr", "obj"}, kids: []*mnode{ma, mo}}
	if diff := mt.compare(top); diff != "" {
		c.Failf("attached containers: %s", diff)
	}
	out, err := top.AppendJSON(nil)
	if err != nil || string(out) != mt.tree().text() {
		c.Failf("serialized differs (%v)", err)
	}
	c.Sig("growth", uint64(len(ma.kids)), uint64(len(mo.kids)))
	c.Count("values", n)
}

// c07Setters overwrites a value of every kind by every other kind and reads it back.
func c07Setters(c *Case) {
	r := c.R
	d := freshDoc(r)
	t := genTree(r, GenOpt{Nodes: 10, MaxStr: 20, Unique: true})
	n, _, err := d.Parse(`{"before":[1],"v":` + t.text() + `,"after":{"x":null}}`)
	if err != nil {
		c.Failf("%v", err)
	}
	v := n.Get("v")
	m := modelOf(t, 0)
	w := &domWorld{c: c}
	for i := r.Range(1, 4); i > 0; i-- {
		op := w.setScalar(handle{v, m})
		c.Eval(1)
		top := &mnode{kind: 'o', keys: []string{"before", "v", "after"}, kids: []*mnode{
			{kind: 'a', kids: []*mnode{{kind: '0', raw: "1"}}}, m, {kind: 'o', keys: []string{"x"}, kids: []*mnode{{kind: 'n', raw: "null"}}}}}
		if diff := top.compare(n); diff != "" {
			c.Failf("after %s: %s", op, diff)
		}
		c.Sig(op, t.shape())
	}
}

// c08Pairs attaches one value of a tree to another place of the same tree and edits both.
func c08Pairs(c *Case) {
	r := c.R
	d := freshDoc(r)
	if r.P(1, 2) {
		d.Parse(`"first"`)
	}
	t := genTree(r, GenOpt{Nodes: 16, MaxStr: 8, Unique: true, EmptyHeavy: true, PlainKeys: true})
	if len(t.Kids) == 0 {
		t = &Tree{Kind: 'a', Kids: []*Tree{{Kind: 'o'}, {Kind: 'a'}, t}}
	}
	root, _, err := d.Parse(t.text())
	if err != nil {
		c.Failf("%v", err)
	}
	var nodes []njson.Node
	var paths [][]int
	var walk func(n njson.Node, path []int)
	walk = func(n njson.Node, path []int) {
		nodes = append(nodes, n)
		paths = append(paths, append([]int(nil), path...))
		it := n.Values()
		for i := 0; it.Next(); i++ {
			walk(it.Value(), append(path, i))
		}
	}
	walk(root, nil)
	at := func(tr *Tree, path []int) *Tree {
		for _, i := range path {
			tr = tr.Kids[i]
		}
		return tr
	}
	var vi, ti int
	for i := 0; i < 50; i++ {
		vi, ti = r.N(len(nodes)), r.N(len(nodes))
		if k := at(t, paths[ti]).Kind; k == 'a' || k == 'o' {
			break
		}
		ti = 0
	}
	want := t.clone()
	value := at(t, paths[vi]).clone()
	target := at(want, paths[ti])
	switch target.Kind {
	case 'o':
		nodes[ti].Set("new", nodes[vi])
		target.Keys = append(target.Keys, "new")
	default:
		nodes[ti].Append(nodes[vi])
	}
	target.Kids = append(target.Kids, value)
	limit := 4 * t.count()
	got, err := observe(root, &limit)
	c.Eval(1)
	if err != nil {
		c.Failf("value %v attached to %v of %s: %v", paths[vi], paths[ti], clip(t.text(), 300), err)
	}
	if diff := equalTree(got, want, false); diff != "" {
		c.Failf("value %v attached to %v of %s: %s", paths[vi], paths[ti], clip(t.text(), 300), diff)
	}
	// An edit in the place the value came from is not seen in the copy and the reverse
	var child njson.Node
	if target.Kind == 'o' {
		child = nodes[ti].Get("new")
	} else {
		child = nodes[ti].Index(len(target.Kids) - 1)
	}
	if vi != 0 || true {
		if r.P(1, 2) {
			child.SetStringRaw("edited")
			*value = Tree{Kind: 's', Raw: "edited"}
		} else {
			orig := nodes[vi]
			if orig.ID() == child.ID() {
				c.Failf("value %v attached to %v of %s is shared", paths[vi], paths[ti], clip(t.text(), 300))
			}
			orig.SetStringRaw("edited")
			o := at(want, paths[vi])
			*o = Tree{Kind: 's', Raw: "edited"}
		}
	}
	limit = 4 * t.count()
	got, err = observe(root, &limit)
	if err != nil {
		c.Failf("%v", err)
	}
	if diff := equalTree(got, want, false); diff != "" {
		c.Failf("after an edit of one of the places of value %v attached to %v of %s: %s", paths[vi], paths[ti], clip(t.text(), 300), diff)
	}
	c.Sig("pair", t.shape(), uint64(vi), uint64(ti))
}

// ---- C09 ----

func inert(c *Case, what string, n njson.Node) {
	c.Eval(1)
	if n.Type() != njson.TypeInvalid || n.Raw() != "" || n.Unescaped() != "" {
		c.Failf("%s still reads: type %v raw %q", what, n.Type(), clip(n.Raw(), 100))
	}
	if raw, typ := n.Data(); raw != "" || typ != njson.TypeInvalid {
		c.Failf("%s still has data %q %v", what, clip(raw, 100), typ)
	}
	if b, ok := n.ToBool(); b || ok {
		c.Failf("%s converts to bool", what)
	}
	if f, ok := n.ToFloat(); ok || f != 0 && f == f {
		c.Failf("%s converts to float %v", what, f)
	}
	if i, ok := n.ToInt(); ok || i != 0 {
		c.Failf("%s converts to int %v", what, i)
	}
	if i, ok := n.ToUint(); ok || i != 0 {
		c.Failf("%s converts to uint %v", what, i)
	}
	if x, ok := n.ToInterface(); ok || x != nil {
		c.Failf("%s converts to %v", what, x)
	}
	it := n.Values()
	if it.Len() != 0 || it.Next() {
		c.Failf("%s has values", what)
	}
	for _, k := range []njson.Node{n.Get("a"), n.Get(""), n.Index(0), n.Lookup("a"), n.Lookup("0"), n.Lookup("a", "b")} {
		if k.Type() != njson.TypeInvalid {
			c.Failf("%s finds values", what)
		}
	}
	if _, err := n.AppendJSON(nil); err == nil {
		c.Failf("%s serializes", what)
	}
	var buf bytes.Buffer
	if _, err := n.PrintJSON(&buf); err == nil || buf.Len() > 0 {
		c.Failf("%s prints %q", what, buf.String())
	}
	var u recorder
	if err := n.WrapUnmarshalJSON(&u); err == nil || u.called {
		c.Failf("%s is passed to UnmarshalJSON", what)
	}
	if err := n.WrapUnmarshalText(&u); err == nil || u.called {
		c.Failf("%s is passed to UnmarshalText", what)
	}
	if n.TypeError(njson.TypeString) == nil {
		c.Failf("%s has no type error", what)
	}
}

type recorder struct {
	called bool
	data   string
}

func (r *recorder) UnmarshalJSON(b []byte) error { r.called, r.data = true, string(b); return nil }
func (r *recorder) UnmarshalText(b []byte) error { r.called, r.data = true, string(b); return nil }

// vandalize uses every mutator of n. live is a good value to attach.
func vandalize(n njson.Node, live njson.Node) {
	n.SetInt(99)
	n.SetUint(99)
	n.SetFloat(9.5)
	n.SetString("stale")
	n.SetStringHTML("stale")
	n.SetStringRaw("stale")
	n.SetTrue()
	n.SetFalse()
	n.SetNull()
	n.Set("a", live)
	n.Set("stale", live)
	n.Append(live)
	n.Append(live, live)
	n.Replace(0, live)
	n.Remove(0)
	n.Slice(0, 0)
	n.Del("a")
	n.Strip("a")
}

func c09Stale(c *Case) {
	r := c.R
	d := freshDoc(r)
	old := genTree(r, GenOpt{Nodes: 25, MaxStr: 12, PlainKeys: true})
	root, _, err := d.Parse(old.text())
	if err != nil {
		c.Failf("%v", err)
	}
	handles := []njson.Node{root, d.Root(), d.Object(), d.Array(), d.Text("x"), d.Number(1)}
	var iters []njson.IterV
	limit := 12
	var walk func(n njson.Node)
	walk = func(n njson.Node) {
		if limit--; limit < 0 {
			return
		}
		handles = append(handles, n, n.Get("a"), n.Index(0))
		it := n.Values()
		if it.Len() > 0 {
			jt := it
			jt.Next()
			iters = append(iters, it, jt)
		}
		for it.Next() {
			walk(it.Value())
		}
	}
	walk(root)
	way := r.N(5)
	d2 := d
	switch way {
	case 0, 1:
		d.Reset()
	case 2:
		d.Close()
		d2 = njson.Blank() // most often the same document
	case 3:
		var p njson.Pool
		p.Put(d)
		d2 = p.Get()
	default:
		d.Reset()
		d.Parse(`[1,2,3]`)
		h := d.Root()
		handles = append(handles, h, h.Index(1))
		d.Reset()
	}
	var want *Tree
	var live njson.Node
	if r.P(4, 5) {
		want = genTree(r, GenOpt{Nodes: 25, MaxStr: 12, PlainKeys: true, Unique: true})
		live, _, err = d2.Parse(want.text())
		if err != nil {
			c.Failf("%v", err)
		}
	}
	other := new(njson.Document)
	val := other.Text("live")
	for i, h := range handles {
		what := fmt.Sprintf("handle %d of %d taken before (way %d)", i, len(handles), way)
		if h.Document() != nil && !(way == 2 && d2 != d || way == 3 && d2 != d) {
			c.Failf("%s still has a document", what)
		}
		inert(c, what, h)
		vandalize(h, val)
		inert(c, what+" after writes", h)
		if want != nil {
			// A stale value is nothing to attach
			vandalize(h, live)
			arr, obj := other.Array(), other.Object()
			arr.Append(h)
			obj.Set("x", h)
			if b, _ := arr.AppendJSON(nil); string(b) != "[]" {
				c.Failf("%s was appended: %s", what, b)
			}
			if b, _ := obj.AppendJSON(nil); string(b) != "{}" {
				c.Failf("%s was set: %s", what, b)
			}
			arr.Append(val)
			arr.Replace(0, h)
			if b, _ := arr.AppendJSON(nil); string(b) != `["live"]` {
				c.Failf("%s replaced a value: %s", what, b)
			}
		}
	}
	for i := range iters {
		it := &iters[i]
		for k := 0; k < 3; k++ {
			v := it.Value()
			inert(c, "value of an iterator taken before", v)
			vandalize(v, val)
			if !it.Next() {
				break
			}
		}
	}
	if want != nil {
		if live.Type() == njson.TypeArray {
			n := len(want.Kids)
			live.Append(handles[0])
			if it := live.Values(); it.Len() != n {
				c.Failf("a stale value was appended to the document")
			}
		} else if live.Type() == njson.TypeObject {
			live.Set("stale", handles[0])
		}
		if diff := sameAs(live, want); diff != "" {
			c.Failf("stale handles changed the document: %s", diff)
		}
		if b, err := d2.AppendJSON(nil); err != nil || string(b) != want.text() {
			c.Failf("stale handles changed the document to %s (%v)", clip(string(b), 300), err)
		}
		c.Sig("stale", old.shape(), want.shape(), uint64(way))
	} else {
		if t := d2.Root().Type(); t != njson.TypeInvalid {
			c.Failf("the root of an empty document has type %v", t)
		}
		c.Sig("stale empty", old.shape(), uint64(way))
	}
	c.Count("handles", len(handles))
	c.Count("iterators", len(iters))
	c.Sample("stale", "%d handles of %s used on %v", len(handles), old.text(), want != nil)
}

// c09Generations resets one document very often: handles from long ago stay inert.
func c09Generations(c *Case) {
	last := uint64(1) << 20
	if c.Idx == 0 {
		last = 1<<32 + 1
		if c.Env.Tier == "thorough" {
			last = 1<<33 + 1
		}
	}
	d := new(njson.Document)
	var pool njson.Pool
	type old struct {
		n    njson.Node
		it   njson.IterV
		when uint64
	}
	var olds []old
	val := new(njson.Document).True()
	next := uint64(1)
	gen := uint64(0)
	for {
		// The first distances of all, then around powers of two
		want := &Tree{Kind: 'a', Kids: []*Tree{{Kind: '0', Raw: strconv.FormatUint(gen, 10)}, {Kind: 's', Raw: "x"}}}
		live, _, err := d.Parse(want.text())
		if err != nil {
			c.Failf("%v", err)
		}
		for _, o := range olds {
			what := fmt.Sprintf("a handle of generation %d at generation %d", o.when, gen)
			inert(c, what, o.n)
			vandalize(o.n, val)
			inert(c, what, o.n)
			if v := o.it.Value(); v.Type() != njson.TypeInvalid {
				c.Failf("the iterator of %s has a value", what)
			}
		}
		if diff := sameAs(live, want); diff != "" {
			c.Failf("generation %d: %s", gen, diff)
		}
		if gen < 64 || gen&(gen-1) == 0 || gen&(gen+1) == 0 {
			if len(olds) > 40 {
				olds = append(olds[:20:20], olds[21+c.R.N(10):]...)
			}
			it := live.Values()
			it.Next()
			olds = append(olds, old{live, it, gen}, old{live.Index(1), it, gen})
		}
		c.Sig("generation", gen, uint64(c.Idx))
		if gen > last {
			break
		}
		if gen < 300 || c.Idx > 0 && gen < 5000 {
			next = gen + 1
		} else if gen&(gen-1) == 0 && gen > 300 {
			next = gen + 1 // just beyond a power of two
		} else {
			p := uint64(1)
			for p <= gen+1 {
				p <<= 1
			}
			if next = p - 1; gen == p-1 {
				next = p
			}
		}
		for ; gen < next; gen++ {
			switch c.Idx % 4 {
			case 0, 1:
				d.Reset()
			case 2:
				pool.Put(d)
				if d = pool.Get(); d == nil {
					c.Failf("no document")
				}
			default:
				d.Reset()
				if gen&63 == 0 {
					d.Parse("[1]")
				}
			}
		}
	}
	c.Count("resets", int(gen))
}

// c09Absent uses nodes that never existed.
func c09Absent(c *Case) {
	r := c.R
	d := freshDoc(r)
	t := genTree(r, GenOpt{Nodes: 20, MaxStr: 12, PlainKeys: true, Unique: true})
	live, _, err := d.Parse(t.text())
	if err != nil {
		c.Failf("%v", err)
	}
	n := uint(t.count())
	absent := []njson.Node{{}, d.Node(n), d.Node(n + 1), d.Node(n + 1000), d.Node(math.MaxUint64), live.With(n), live.With(math.MaxUint64), live.With(1 << 63),
		live.Get("no such key"), live.Index(-1), live.Index(1 << 40), live.Lookup("no such key"), live.Lookup("99999999999999999999"), live.Lookup("no", "such", "path"),
		(&njson.Document{}).Root(), (&njson.Document{}).Node(0)}
	val := new(njson.Document).True()
	for i, a := range absent {
		inert(c, fmt.Sprintf("absent node %d", i), a)
		vandalize(a, val)
		vandalize(a, live)
	}
	if diff := sameAs(live, t); diff != "" {
		c.Failf("absent nodes changed the document: %s", diff)
	}
	if d.Node(n).Type() != njson.TypeInvalid {
		c.Failf("absent nodes added to the document")
	}
	// Nodes of an empty document that is reset or recycled while it is empty
	e := new(njson.Document)
	if r.P(1, 3) {
		e = njson.Blank()
	}
	if r.P(1, 2) {
		e.Parse(r.Pick("[1,2", "x", "", `{"a":[1,2,3],`))
	}
	absent = []njson.Node{e.Root(), e.Node(0), e.Node(1), e.Node(n - 1), e.Root().Get("a"), e.Root().With(0), e.Root().With(n - 1)}
	e2, way := e, r.N(4)
	switch way {
	case 0:
		e.Reset()
	case 1:
		e.Close()
		e2 = njson.Blank()
	case 2:
		var p njson.Pool
		p.Put(e)
		e2 = p.Get()
	default:
		e.Reset()
		e.Reset()
		absent = append(absent, e.Root())
		e.Reset()
	}
	if live, _, err = e2.Parse(t.text()); err != nil {
		c.Failf("%v", err)
	}
	for i, a := range absent {
		inert(c, fmt.Sprintf("node %d of a document that was empty (way %d)", i, way), a)
		vandalize(a, val)
	}
	if diff := sameAs(live, t); diff != "" {
		c.Failf("nodes of an empty document changed a later one: %s", diff)
	}
	c.Sig("absent", t.shape(), uint64(way))
}

// ---- C10 ----

func c10Trees(c *Case) {
	r := c.R
	d := freshDoc(r)
	t := genTree(r, GenOpt{Nodes: 60, MaxStr: 20})
	pre := uint(0)
	if r.P(1, 3) {
		d.Parse(`[0]`)
		pre = 2
	}
	_ = pre
	root, _, err := d.Parse(t.text())
	if err != nil {
		c.Failf("%v", err)
	}
	type item struct {
		n    njson.Node
		t    *Tree
		path []string
		uniq bool // every key of the path is the first of its name
	}
	items := []item{{root, t, nil, true}}
	for i := 0; i < len(items) && i < 60; i++ {
		it := items[i]
		c.lookups(it.n, it.t)
		v := it.n.Values()
		seen := map[string]bool{}
		for j := 0; v.Next(); j++ {
			seg, uniq := strconv.Itoa(j), it.uniq
			if it.t.Kind == 'o' {
				seg = it.t.Keys[j]
				uniq = uniq && !seen[seg]
				seen[seg] = true
			}
			items = append(items, item{v.Value(), it.t.Kids[j], append(it.path[:len(it.path):len(it.path)], seg), uniq})
		}
	}
	for k := 0; k < 20 && k < len(items); k++ {
		it := items[r.N(len(items))]
		if !it.uniq {
			continue
		}
		got := root.Lookup(it.path...)
		c.Eval(1)
		if got != it.n {
			c.Failf("Lookup(%q) is node %d, want %d\n%s", it.path, got.ID(), it.n.ID(), clip(t.text(), 500))
		}
		step := root
		for i, seg := range it.path {
			if step.Type() == njson.TypeArray {
				j, _ := strconv.Atoi(seg)
				step = step.Index(j)
			} else {
				step = step.Get(seg)
			}
			if rest := step.Lookup(it.path[i+1:]...); rest != it.n {
				c.Failf("Lookup(%q) after %d steps is node %d, want %d", it.path, i+1, rest.ID(), it.n.ID())
			}
		}
		// paths that lead nowhere
		seg := r.Pick("no such key", "-1", "+1", " 1", "1 ", "0x0", "1.0", "99999999999999999999", "18446744073709551616", "18446744073709551617", "9223372036854775808", "4294967296", "a1", "1a", "٣", "/", ":", "00a",
			"", "", " ", "0 ", "\x000", "0\x00", "1e0", "0.", "1_0", ",", "-0", "+0", "0x", "\xb0", "²", "०")
		if r.P(1, 4) {
			// An index that is in range when it wraps around
			b := new(big.Int).Lsh(big.NewInt(1), uint([]int{8, 16, 31, 32, 63, 64, 65, 128}[r.N(8)]))
			b.Mul(b, big.NewInt(int64(1+r.N(3))))
			over := b.Add(b, big.NewInt(int64(r.N(3))))
			if over.IsInt64() && over.Int64() < 1<<16 {
				over.Lsh(over, 16)
			}
			seg = over.String()
		}
		if it.t.Kind == 'a' && len(it.t.Kids) > 0 && it.uniq && r.P(1, 2) {
			// A step that leads nowhere in front of one that leads somewhere
			kid := it.t.Kids[0]
			next := "0"
			if kid.Kind == 'o' && len(kid.Keys) > 0 {
				next = kid.Keys[0]
			}
			if x := it.n.Lookup(seg, next); x.Type() != njson.TypeInvalid {
				c.Failf("Lookup(%q, %q) found a %v in %s", seg, next, x.Type(), clip(it.t.text(), 500))
			}
		}
		bad := append(append([]string(nil), it.path...), seg)
		if it.t.Kind == 'o' && firstKey(it.t.Keys, seg) >= 0 {
			continue
		}
		if x := root.Lookup(bad...); x.Type() != njson.TypeInvalid {
			c.Failf("Lookup(%q) found a %v\n%s", bad, x.Type(), clip(t.text(), 500))
		}
		if it.t.Kind == 'a' {
			over := strconv.Itoa(len(it.t.Kids) + r.N(3))
			if x := it.n.Lookup(over); x.Type() != njson.TypeInvalid {
				c.Failf("Lookup(%q) of %d values found a %v", over, len(it.t.Kids), x.Type())
			}
		}
		if len(it.path) > 0 && r.P(1, 2) {
			bad := append([]string(nil), it.path...)
			j := r.N(len(bad))
			bad[j] += "x"
			if x := root.Lookup(bad...); x.Type() != njson.TypeInvalid && !pathExists(t, bad) {
				c.Failf("Lookup(%q) found a %v\n%s", bad, x.Type(), clip(t.text(), 500))
			}
		}
		// a node can be reached by its number
		if d.Node(it.n.ID()) != it.n || root.With(it.n.ID()) != it.n {
			c.Failf("node %d by its number is another node", it.n.ID())
		}
		if it.n.Document() != d {
			c.Failf("node %d has another document", it.n.ID())
		}
	}
	c.Sig("tree", t.shape())
	c.Sample("tree", "%s", t.text())
}

func pathExists(t *Tree, path []string) bool {
	for _, seg := range path {
		if t.Kind == 'o' {
			i := firstKey(t.Keys, seg)
			if i < 0 {
				return false
			}
			t = t.Kids[i]
		} else {
			i, err := strconv.Atoi(seg)
			if err != nil || t.Kind != 'a' || i < 0 || i >= len(t.Kids) {
				return false
			}
			t = t.Kids[i]
		}
	}
	return true
}

func firstKey(keys []string, key string) int {
	for i, k := range keys {
		if k == key {
			return i
		}
	}
	return -1
}

// lookups checks the lookups and the iterator of one node.
func (c *Case) lookups(n njson.Node, t *Tree) {
	r := c.R
	missing := func(what string, x njson.Node) {
		if x.Type() != njson.TypeInvalid || x.Raw() != "" {
			c.Failf("%s of %s found a %v", what, clip(t.text(), 300), x.Type())
		}
		if x.Document() != n.Document() {
			c.Failf("%s of %s has lost its document", what, clip(t.text(), 300))
		}
	}
	if n.Lookup() != n {
		c.Failf("Lookup of no path is not the node itself")
	}
	c.conversions(n, t)
	c.Eval(1)
	ids := []uint{}
	it := n.Values()
	for it.Next() {
		ids = append(ids, it.ID())
	}
	step := 1 + len(t.Kids)/40
	for i := 0; i < len(t.Kids); i += step {
		if t.Kind == 'o' {
			first := firstKey(t.Keys, t.Keys[i])
			if x := n.Get(t.Keys[i]); x.ID() != ids[first] || x.Document() != n.Document() {
				c.Failf("Get(%q) is node %d, want %d", t.Keys[i], x.ID(), ids[first])
			}
			missing("Index", n.Index(i))
			for _, k := range []string{t.Keys[i] + "x", "x" + t.Keys[i], strings.ToUpper(t.Keys[i]), refUnescape(t.Keys[i]), t.Keys[i] + "\x00", nearKey(r, t.Keys[i]), nearKey(r, t.Keys[i])} {
				if j := firstKey(t.Keys, k); j < 0 {
					missing(fmt.Sprintf("Get(%q)", k), n.Get(k))
					if x := n.Lookup(k); x.Type() != njson.TypeInvalid {
						c.Failf("Lookup(%q) of %s found a %v", k, clip(t.text(), 300), x.Type())
					}
				} else if x, y := n.Get(k), n.Lookup(k); x.ID() != ids[j] || y.ID() != ids[j] {
					c.Failf("Get(%q) and Lookup are nodes %d and %d, want %d", k, x.ID(), y.ID(), ids[j])
				}
			}
		} else {
			if x := n.Index(i); x.ID() != ids[i] || x.Document() != n.Document() {
				c.Failf("Index(%d) is node %d, want %d", i, x.ID(), ids[i])
			}
			missing("Get", n.Get(strconv.Itoa(i)))
			missing("Get", n.Get(""))
		}
	}
	for _, i := range []int{-1, len(t.Kids), len(t.Kids) + 1, math.MaxInt64, math.MinInt64, -len(t.Kids)} {
		if i != 0 || t.Kind != 'a' {
			missing(fmt.Sprintf("Index(%d)", i), n.Index(i))
		}
	}
	if firstKey(t.Keys, "no such key") < 0 {
		missing("Get", n.Get("no such key"))
	}
	if t.Kind != 'a' && t.Kind != 'o' {
		missing("Get", n.Get(""))
		missing("Index", n.Index(0))
		missing("Lookup", n.Lookup("0"))
	}
	// iterators
	a := n.Values()
	if a.Len() != len(t.Kids) || a.Index() != -1 {
		c.Failf("a new iterator has length %d index %d, want %d and -1", a.Len(), a.Index(), len(t.Kids))
	}
	stop := len(t.Kids)
	if r.P(1, 3) {
		stop = r.N(len(t.Kids) + 1)
	}
	for round := 0; round < 2; round++ {
		for i := 0; i < stop; i++ {
			if !a.Next() {
				c.Failf("iteration ended at %d of %d", i, len(t.Kids))
			}
			if a.Index() != i || a.ID() != ids[i] || a.Len() != len(t.Kids) {
				c.Failf("iteration step %d has index %d id %d length %d, want id %d length %d", i, a.Index(), a.ID(), a.Len(), ids[i], len(t.Kids))
			}
			if t.Kind == 'o' && a.Key() != t.Keys[i] || t.Kind == 'a' && a.Key() != "" {
				c.Failf("iteration step %d has key %q", i, a.Key())
			}
			if v := a.Value(); v.ID() != ids[i] || v.Type() != kindTypes[t.Kids[i].Kind] {
				c.Failf("iteration step %d has node %d of type %v", i, v.ID(), v.Type())
			}
		}
		if stop == len(t.Kids) {
			for k := 0; k < 3; k++ {
				if a.Next() {
					c.Failf("iteration goes on after the end")
				}
				if a.Index() != -2 || a.Value().Type() != njson.TypeInvalid {
					c.Failf("finished iterator has index %d and a value of type %v", a.Index(), a.Value().Type())
				}
			}
		}
		a.Reset()
		if a.Index() != -1 || a.Len() != len(t.Kids) || a.Value().Type() != njson.TypeInvalid {
			c.Failf("reset iterator has index %d length %d and a value of type %v", a.Index(), a.Len(), a.Value().Type())
		}
	}
	a.Close()
	if a.Next() || a.Len() != 0 || a.Value().Type() != njson.TypeInvalid {
		c.Failf("a closed iterator goes on")
	}
}

// conversions checks that the raw text, type and conversions of a node match its literal.
func (c *Case) conversions(n njson.Node, t *Tree) {
	raw := t.Raw
	if t.Kind == 'a' || t.Kind == 'o' {
		raw = ""
	}
	data, typ := n.Data()
	if n.Raw() != raw || n.Type() != kindTypes[t.Kind] || data != raw || typ != n.Type() || !typ.IsValue() {
		c.Failf("node of %s has data %q %v, raw text %q and type %v", clip(t.text(), 300), data, typ, n.Raw(), n.Type())
	}
	want := ""
	if t.Kind == 's' {
		want = refUnescape(t.Raw)
	}
	if s := n.Unescaped(); s != want {
		c.Failf("node of %s has text %q, want %q", clip(t.text(), 300), s, want)
	}
	if b, ok := n.ToBool(); ok != (t.Kind == 'b') || b != (ok && t.Raw == "true") {
		c.Failf("node of %s converts to bool: %v %v", clip(t.text(), 300), b, ok)
	}
	f, fok := n.ToFloat()
	i, iok := n.ToInt()
	u, uok := n.ToUint()
	switch {
	case t.Kind == '0':
		wf, err := strconv.ParseFloat(t.Raw, 64)
		if math.Float64bits(f) != math.Float64bits(wf) || err == nil && !fok {
			c.Failf("node of %s converts to float %v %v", t.Raw, f, fok)
		}
		if strings.Trim(t.Raw, "-0123456789") == "" && t.Raw != "-0" {
			wi, err := strconv.ParseInt(t.Raw, 10, 64)
			if iok != (err == nil) || iok && i != wi {
				c.Failf("node of %s converts to int %v %v", t.Raw, i, iok)
			}
			wu, err := strconv.ParseUint(t.Raw, 10, 64)
			if uok != (err == nil) || uok && u != wu {
				c.Failf("node of %s converts to uint %v %v", t.Raw, u, uok)
			}
		}
	case t.Kind != 's' || strings.IndexAny(t.Raw, "0123456789") < 0:
		if fok || iok || uok {
			c.Failf("node of %s converts to a number: %v %v, %v %v, %v %v", clip(t.text(), 300), f, fok, i, iok, u, uok)
		}
	}
}

// ---- C11 ----

// checkSerial checks every way to serialize a node against the expected text.
func checkSerial(c *Case, n njson.Node, want string) {
	c.Eval(1)
	r := c.R
	out, err := n.AppendJSON(nil)
	if err != nil || string(out) != want {
		c.Failf("serialized %q, want %q (%v)", clip(string(out), 600), clip(want, 600), err)
	}
	prefix := genBefore(r)
	buf := make([]byte, len(prefix), len(prefix)+r.Pick2(0, len(want), len(want)/2, len(want)+100, 4096))
	copy(buf, prefix)
	out, err = n.AppendJSON(buf)
	if err != nil || string(out) != prefix+want || string(buf) != prefix {
		c.Failf("appended to %q: %q, want %q (%v)", clip(prefix, 100), clip(string(out), 600), clip(want, 600), err)
	}
	var w bytes.Buffer
	k, err := n.PrintJSON(&w)
	if err != nil || k != len(want) || w.String() != want {
		c.Failf("printed %d bytes %q, want %q (%v)", k, clip(w.String(), 600), clip(want, 600), err)
	}
	w.Reset()
	k, err = njson.PrintJSON(&w, n)
	if err != nil || k != len(want) || w.String() != want {
		c.Failf("helper printed %d bytes %q, want %q (%v)", k, clip(w.String(), 600), clip(want, 600), err)
	}
}

// Pick2 picks a number.
func (r *Rng) Pick2(n ...int) int { return n[r.N(len(n))] }

func c11Parsed(c *Case) {
	t := genTree(c.R, GenOpt{Nodes: 100, MaxStr: c.R.Pick2(0, 30, 3000)})
	d := freshDoc(c.R)
	mode := c.R.N(3)
	n, _, err := d.Parse(t.spaced(c.R, mode))
	if err != nil {
		c.Failf("%v", err)
	}
	want := t.text()
	checkSerial(c, n, want)
	out, err := d.AppendJSON(nil)
	if err != nil || string(out) != want {
		c.Failf("document serialized %q, want %q (%v)", clip(string(out), 600), clip(want, 600), err)
	}
	var w bytes.Buffer
	if _, err := njson.PrintJSON(&w, d); err != nil || w.String() != want {
		c.Failf("document printed %q, want %q (%v)", clip(w.String(), 600), clip(want, 600), err)
	}
	if !json.Valid(out) {
		c.Failf("invalid JSON %q", clip(want, 600))
	}
	it := n.Values()
	for i := 0; it.Next() && i < 5; i++ {
		checkSerial(c, it.Value(), t.Kids[i].text())
	}
	if c.R.P(1, 10) {
		d.Reset()
		if out, err := d.AppendJSON([]byte("x")); err == nil {
			c.Failf("an empty document serialized to %q", out)
		}
	}
	c.Sig("parsed", t.shape(), uint64(mode))
	c.Sample("parsed", "%s", want)
}

// c11Built serializes documents built from Go values that may be hostile text.
func c11Built(c *Case) {
	r := c.R
	d := freshDoc(r)
	budget := r.Range(1, 30)
	var build func(depth int) (njson.Node, interface{})
	build = func(depth int) (njson.Node, interface{}) {
		budget--
		k := r.N(11)
		if depth > 5 || budget < 0 {
			k = r.N(7)
		}
		switch k {
		case 0:
			return d.Null(), nil
		case 1:
			return d.True(), true
		case 2:
			return d.False(), false
		case 3:
			f := genFloat(r)
			return d.Number(f), f
		case 4, 5, 6:
			s := hostileString(r)
			if r.P(1, 2) {
				return d.Text(s), toValidUTF8(s)
			}
			n := d.Null()
			if r.P(1, 2) {
				n.SetString(s)
			} else {
				n.SetStringHTML(s)
				if strings.ContainsAny(n.Raw(), "<>&") {
					c.Failf("HTML escaped text contains unsafe characters: %q", n.Raw())
				}
			}
			return n, toValidUTF8(s)
		case 7, 8:
			n := d.Array()
			x := []interface{}{}
			for i := r.N(6) + r.bulkN(2, 3000); i > 0; i-- {
				k, v := build(depth + 1)
				n.Append(k)
				x = append(x, v)
			}
			return n, x
		default:
			n := d.Object()
			x := map[string]interface{}{}
			for i := r.N(6) + r.bulkN(2, 2000); i > 0; i-- {
				k, v := build(depth + 1)
				key := genString(r, 12) + strconv.Itoa(i)
				n.Set(strjson.Escaped(key, r.P(1, 2), false), k)
				x[key] = v
			}
			return n, x
		}
	}
	n, want := build(0)
	out, err := n.AppendJSON(nil)
	c.Eval(1)
	if err != nil {
		c.Failf("%v", err)
	}
	if !json.Valid(out) || !utf8.Valid(out) {
		c.Failf("invalid JSON or UTF-8 serialized: %q", clip(string(out), 800))
	}
	var got interface{}
	if err := json.Unmarshal(out, &got); err != nil {
		c.Failf("%v: %q", err, clip(string(out), 800))
	}
	if diff := deepDiff(got, want); diff != "" {
		c.Failf("serialized value differs: %s\n%q", diff, clip(string(out), 800))
	}
	checkSerial(c, n, string(out))
	t, err := refDoc(string(out))
	if err != nil {
		c.Failf("%v", err)
	}
	if string(out) != t.text() {
		c.Failf("serialized text is not compact: %q", clip(string(out), 800))
	}
	c.Sig("built", t.shape())
	c.Sample("built", "%s", out)
}

// hostileString is text that may be invalid UTF-8.
func hostileString(r *Rng) string {
	s := genString(r, r.Pick2(20, 80))
	for n := r.N(3); n > 0; n-- {
		i := 0
		if len(s) > 0 {
			i = r.N(len(s))
		}
		s = s[:i] + r.Pick("\xff", "\x80", "\xc3", "\xe2\x80", "\xed\xa0\x80", "\xf0\x9f\x98", "\xc0\x80", "\xf8", "<script>", "\u2028", "\x00", `\`, `"`) + s[i:]
	}
	return s
}

// toValidUTF8 replaces every invalid byte as encoding/json does.
func toValidUTF8(s string) string {
	var b strings.Builder
	for _, r := range s {
		b.WriteRune(r)
	}
	return b.String()
}

type failAppender struct{ err error }

func (f failAppender) AppendJSON(b []byte) ([]byte, error) { return append(b, "partial"...), f.err }

type failWriter struct {
	n   int // bytes accepted
	err error
	got []byte
	nw  int
}

func (f *failWriter) Write(b []byte) (int, error) {
	f.nw++
	n := f.n
	if n > len(b) {
		n = len(b)
	}
	f.got = append(f.got, b[:n]...)
	if n < len(b) {
		return n, f.err
	}
	return n, nil
}

type retainWriter struct{ chunks [][]byte }

func (w *retainWriter) Write(b []byte) (int, error) {
	w.chunks = append(w.chunks, append([]byte(nil), b...))
	return len(b), nil
}

// c11Writers checks what happens around failing writers and appenders.
func c11Writers(c *Case) {
	r := c.R
	d := freshDoc(r)
	t := genTree(r, GenOpt{Nodes: 60, MaxStr: r.Pick2(10, 5000)})
	n, _, err := d.Parse(t.text())
	if err != nil {
		c.Failf("%v", err)
	}
	want := t.text()
	werr := errors.New("disk full")
	fw := &failWriter{n: r.N(len(want) + 2), err: werr}
	k, err := njson.PrintJSON(fw, n)
	c.Eval(1)
	if fw.n < len(want) {
		if err != werr || k != fw.n {
			c.Failf("writer failed after %d bytes with %v: got %d, %v", fw.n, werr, k, err)
		}
	} else if err != nil || k != len(want) {
		c.Failf("writer accepted all %d bytes: got %d, %v", len(want), k, err)
	}
	if !strings.HasPrefix(want, string(fw.got)) {
		c.Failf("writer got %q, want a prefix of %q", clip(string(fw.got), 400), clip(want, 400))
	}
	// Writers that serialize something else while they are given the output
	re := &reenter{c: c, n: n, depth: r.Range(1, 5)}
	for i := 0; i < 2; i++ {
		if k, err = n.PrintJSON(re); err != nil || k != len(want) {
			c.Failf("a writer that uses the serializer: got %d, %v, want %d", k, err, len(want))
		}
	}
	aerr := errors.New("no value")
	fw = &failWriter{n: 1 << 20, err: io.ErrShortWrite}
	if k, err = njson.PrintJSON(fw, failAppender{aerr}); err != aerr || k != 0 || fw.nw != 0 {
		c.Failf("an appender failed with %v: wrote %d times %q, got %d, %v", aerr, fw.nw, fw.got, k, err)
	}
	// buffers of failed or larger prints leave nothing behind
	rw := &retainWriter{}
	for i := 0; i < 3; i++ {
		small := d.Node(n.ID())
		if k, err := small.PrintJSON(rw); err != nil || k != len(want) {
			c.Failf("print after failures: %d, %v", k, err)
		}
		if k, err := njson.PrintJSON(rw, new(njson.Document).Null()); err != nil || k != 4 {
			c.Failf("print null after failures: %d, %v", k, err)
		}
	}
	for i, b := range rw.chunks {
		exp := want
		if i%2 == 1 {
			exp = "null"
		}
		if string(b) != exp {
			c.Failf("print %d after failures: %q, want %q", i, clip(string(b), 400), clip(exp, 400))
		}
	}
	c.Sig("writer", t.shape(), uint64(lenClass(len(want))), uint64(boolInt(fw.n < len(want))))
}
