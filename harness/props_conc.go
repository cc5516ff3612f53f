package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/numjson"
	"github.com/alxarch/njson/strjson"
	"github.com/alxarch/njson/unjson"
)

func init() {
	register(&Prop{ID: "C18", Race: true, MinSig: 500,
		Rule: "a case is a schedule of goroutines that get documents from pools, use them and give them back, watched by an ownership ledger, by stale handles handed to the next owner and by the race detector; distinct by the observed order of owners of the documents",
		Stages: []Stage{
			{Name: "ledger", Quick: 2400, Thorough: 60000, Fn: func(c *Case) { c18Pools(c, true) }},
			{Name: "race", Quick: 1600, Thorough: 40000, Fn: func(c *Case) { c18Pools(c, false) }},
			{Name: "sequential", Quick: 3000, Thorough: 150000, Fn: c18Sequential},
			{Name: "functions", Quick: 1200, Thorough: 30000, Fn: c18Functions},
			{Name: "bulk-ledger", Quick: 60, Thorough: 3000, Fn: bulk(func(c *Case) { c18Pools(c, true) }, 2, 1<<14)},
			{Name: "bulk-race", Quick: 40, Thorough: 2000, Fn: bulk(func(c *Case) { c18Pools(c, false) }, 2, 1<<14)},
			{Name: "bulk-sequential", Quick: 120, Thorough: 6000, Fn: bulk(c18Sequential, 3, 1<<15)},
		}})
	register(&Prop{ID: "C19", Race: true, MinSig: 500,
		Rule: "a case is a document and a schedule of goroutines reading it, each result compared with the one obtained alone; distinct by document and by the observed order of operations",
		Stages: []Stage{
			{Name: "readers", Quick: 7000, Thorough: 180000, Fn: c19Readers},
			{Name: "functions", Quick: 4000, Thorough: 100000, Fn: c19Functions},
			{Name: "bulk-readers", Quick: 150, Thorough: 6000, Fn: bulk(c19Readers, 2, 1<<13)},
		}})
	register(&Prop{ID: "C20", Race: true, MinSig: 500,
		Rule: "a case is a set of fresh types and caches and a schedule of goroutines encoding and decoding, each result compared with a model that runs alone; distinct by types and by the observed order of operations",
		Stages: []Stage{
			{Name: "first uses", Quick: 1600, Thorough: 40000, Fn: c20First},
			{Name: "instances", Quick: 1000, Thorough: 25000, Fn: c20Instances},
			{Name: "caches", Quick: 1000, Thorough: 25000, Fn: c20Caches},
			{Name: "own options", Quick: 600, Thorough: 15000, Fn: c20Own},
			{Name: "many", Quick: 160, Thorough: 4000, Fn: c20Many},
			{Name: "nested", Quick: 800, Thorough: 20000, Fn: c20Nested},
		}})
}

// ---- running goroutines ----

type event struct {
	at  int64
	who int
	op  uint64
}

// team is a goroutine's own case. Its events are kept apart, so that watching adds no synchronization.
type team struct {
	*Case
	who    int
	events []event
	pause  int
}

// step notes an operation and gives way at random.
func (t *team) step(op uint64) {
	t.events = append(t.events, event{int64(time.Since(epoch)), t.who, op})
	if t.pause > 0 && t.R.N(t.pause) == 0 {
		runtime.Gosched()
	}
}

var epoch = time.Now()

// parallel runs n goroutines from a barrier and reports the first failure of one.
// It returns a signature of the order in which operations were observed to start.
func (c *Case) parallel(n int, fn func(t *team)) uint64 {
	procs := []int{1, 2, 2, 4, 8}[c.R.N(5)]
	old := runtime.GOMAXPROCS(procs)
	defer runtime.GOMAXPROCS(old)
	pause := []int{0, 1, 2, 5, 20}[c.R.N(5)]
	teams := make([]*team, n)
	fails := make([]interface{}, n)
	stacks := make([]string, n)
	start := make(chan bool)
	var wg sync.WaitGroup
	for i := range teams {
		t := &team{Case: &Case{R: &Rng{s: c.R.U64(), bulk: c.R.bulk, bulkMax: c.R.bulkMax}, Idx: c.Idx, Stage: c.Stage, Env: c.Env, res: newResult(), prop: c.prop}, who: i, pause: pause}
		teams[i] = t
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					fails[i], stacks[i] = x, string(debug.Stack())
				}
			}()
			<-start
			fn(t)
		}(i)
	}
	close(start)
	wg.Wait()
	for i, x := range fails {
		if x == nil {
			continue
		}
		c.trace = append(c.trace, fmt.Sprintf("goroutine %d of %d, GOMAXPROCS %d", i, n, procs))
		c.trace = append(c.trace, teams[i].trace...)
		switch x := x.(type) {
		case failure, broken:
			panic(x)
		default:
			c.trace = append(c.trace, clip(stacks[i], 3000))
			c.Failf("panic in a goroutine: %v", x)
		}
	}
	var events []event
	for _, t := range teams {
		events = append(events, t.events...)
		c.res.Evals += t.res.Evals
		for k, v := range t.res.Counters {
			c.Count(k, int(v))
		}
	}
	sort.SliceStable(events, func(i, j int) bool { return events[i].at < events[j].at })
	h := uint64(n)
	switches, last := 0, -1
	for _, e := range events {
		h = mix(h, uint64(e.who), e.op)
		if e.who != last {
			switches++
			last = e.who
		}
	}
	c.Count("operations", len(events))
	c.Count("switches between goroutines", switches)
	c.Count("goroutines", n)
	return h
}

// ---- C18 ----

type staleHandle struct {
	n    njson.Node
	what string
}

// ledger knows who owns which document.
type ledger struct {
	mu     sync.Mutex
	owner  map[*njson.Document]int
	stale  map[*njson.Document][]staleHandle
	orders map[*njson.Document]uint64
	reused int
}

func (l *ledger) take(who int, d *njson.Document) (owner int, stale []staleHandle) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if o, ok := l.owner[d]; ok {
		return o, nil
	}
	l.owner[d] = who
	if _, ok := l.orders[d]; ok {
		l.reused++
	}
	l.orders[d] = mix(l.orders[d], uint64(who)+1)
	return -1, append([]staleHandle(nil), l.stale[d]...)
}

func (l *ledger) give(d *njson.Document, stale []staleHandle) {
	l.mu.Lock()
	defer l.mu.Unlock()
	delete(l.owner, d)
	if len(stale) > 40 {
		stale = stale[len(stale)-40:]
	}
	l.stale[d] = stale
}

// poolUse is one use of a document: it has to be blank, to work like a new one and to be unreachable for stale handles.
func poolUse(c *Case, d *njson.Document, stale []staleHandle, big bool) []staleHandle {
	r := c.R
	if d == nil {
		c.Failf("the pool gave no document")
	}
	c.Eval(4)
	keep := stale
	if r.P(1, 3) {
		// Handles to what is not there yet
		keep = append(keep, staleHandle{d.Root(), "the root of the empty document"}, staleHandle{d.Node(uint(r.N(3))), "a node of the empty document"})
	}
	if t := d.Root().Type(); t != njson.TypeInvalid {
		c.Failf("a document from the pool has a root of type %v", t)
	}
	if b, err := d.AppendJSON(nil); err == nil {
		c.Failf("a document from the pool serializes to %q", clip(string(b), 200))
	}
	for id := uint(0); id < 3; id++ {
		if t := d.Node(id).Type(); t != njson.TypeInvalid {
			c.Failf("a document from the pool has a node %d of type %v", id, t)
		}
	}
	check := func(when string, n njson.Node, t *Tree) {
		for _, s := range stale {
			inert(c, s.what+" from before the document was given back, "+when+",", s.n)
		}
		if diff := sameAs(n, t); diff != "" {
			c.Failf("%s: %s\nwant %s", when, diff, clip(t.text(), 300))
		}
		c.Eval(1)
	}
	switch r.N(12) {
	case 0, 1:
		// Given back as it is
		return keep
	case 2:
		if n, _, err := d.Parse(r.Pick(`[1,2`, `{"a":`, `x`, ``, `[1,]`)); err == nil {
			c.Failf("malformed text gives %v", n.Type())
		}
		if r.P(1, 2) {
			return keep
		}
	}
	nodes := 30
	if big {
		nodes = 400
	}
	t := genTree(r, GenOpt{Nodes: nodes, Unique: true})
	s := t.spaced(r, r.N(2))
	n, tail, err := d.Parse(s)
	if err != nil || tail != "" {
		c.Failf("a document from the pool does not parse: %v %q\n%s", err, tail, clip(s, 200))
	}
	if n.ID() != 0 || d.Root() != n {
		c.Failf("the first value parsed by a document from the pool is node %d and not its root", n.ID())
	}
	check("after parsing", n, t)
	for _, s := range stale {
		vandalize(s.n, n)
	}
	check("after the use of handles from before", n, t)
	// Edit it as a new document
	root := d.Array()
	want := &Tree{Kind: 'a'}
	for i := r.N(5); i >= 0; i-- {
		switch r.N(6) {
		case 0:
			root.Append(n)
			want.Kids = append(want.Kids, t.clone())
		case 1:
			root.Append(d.TextRaw("own"))
			want.Kids = append(want.Kids, &Tree{Kind: 's', Raw: "own"})
		case 2:
			o := d.Object()
			o.Set("k", d.True())
			root.Append(o)
			want.Kids = append(want.Kids, &Tree{Kind: 'o', Keys: []string{"k"}, Kids: []*Tree{{Kind: 'b', Raw: "true"}}})
		case 3:
			root.Append(d.Null(), d.False())
			want.Kids = append(want.Kids, &Tree{Kind: 'n', Raw: "null"}, &Tree{Kind: 'b', Raw: "false"})
		case 4:
			// From a document that is not shared
			var other njson.Document
			o, _, _ := other.Parse(`{"x":[1,2]}`)
			root.Append(o)
			want.Kids = append(want.Kids, &Tree{Kind: 'o', Keys: []string{"x"}, Kids: []*Tree{{Kind: 'a', Kids: []*Tree{{Kind: '0', Raw: "1"}, {Kind: '0', Raw: "2"}}}}})
		case 5:
			root.Append(d.Number(0.5))
			want.Kids = append(want.Kids, &Tree{Kind: '0', Raw: "0.5"})
		}
		if r.P(1, 3) {
			runtime.Gosched()
		}
	}
	for _, s := range stale {
		vandalize(s.n, root)
	}
	check("after editing", root, want)
	check("the parsed value after editing", n, t)
	for _, s := range stale {
		// Attaching what is gone changes nothing
		root.Append(s.n)
	}
	if b, err := root.AppendJSON(nil); len(stale) == 0 {
		if err != nil {
			c.Failf("serializing: %v", err)
		}
		if tr, err := refDoc(string(b)); err != nil {
			c.Failf("serialized %q: %v", clip(string(b), 300), err)
		} else if diff := equalTree(tr, want, false); diff != "" {
			c.Failf("serialized: %s", diff)
		}
	}
	if r.P(1, 4) {
		// A second generation within the same ownership
		old := n
		d.Reset()
		inert(c, "a node from before Reset", old)
		n, _, err = d.Parse(s)
		if err != nil {
			c.Failf("after Reset: %v", err)
		}
		check("after Reset", n, t)
	}
	keep = append(keep, staleHandle{n, "the root"}, staleHandle{n.Index(0), "a value"}, staleHandle{d.Node(uint(r.N(8))), "a node"})
	if len(t.Keys) > 0 {
		keep = append(keep, staleHandle{n.Get(t.Keys[r.N(len(t.Keys))]), "a member"})
	}
	if r.P(1, 2) {
		keep = append(keep, staleHandle{root, "an array"})
	}
	if r.P(1, 5) {
		d.Reset()
		keep = append(keep, staleHandle{d.Root(), "the root after a reset"})
	}
	return keep
}

func c18Pools(c *Case, watched bool) {
	pools := make([]njson.Pool, c.R.Range(1, 3))
	l := ledger{owner: map[*njson.Document]int{}, stale: map[*njson.Document][]staleHandle{}, orders: map[*njson.Document]uint64{}}
	workers, rounds := c.R.Range(2, 8), c.R.Range(2, 8)
	hold := c.R.Range(1, 3)
	big := c.R.P(1, 8)
	shared := c.R.P(1, 2)
	order := c.parallel(workers, func(t *team) {
		get := func(p int) *njson.Document {
			if p < 0 {
				return njson.Blank()
			}
			return pools[p].Get()
		}
		put := func(p int, d *njson.Document) {
			if p < 0 {
				d.Close()
			} else {
				pools[p].Put(d)
			}
		}
		pick := func() int {
			if !shared {
				return t.R.N(len(pools)+1) - 1
			}
			return 0
		}
		for i := 0; i < rounds; i++ {
			var docs []*njson.Document
			var stales [][]staleHandle
			for k := 0; k < hold; k++ {
				d := get(pick())
				t.step(1)
				var stale []staleHandle
				if watched {
					owner := 0
					if owner, stale = l.take(t.who, d); owner >= 0 {
						t.Failf("goroutine %d was given document %p which goroutine %d has not given back", t.who, d, owner)
					}
				}
				stales = append(stales, poolUse(t.Case, d, stale, big))
				docs = append(docs, d)
			}
			for k, d := range docs {
				if watched {
					l.give(d, stales[k])
				}
				t.step(2)
				put(pick(), d)
				if t.R.P(1, 10) {
					pools[0].Put(nil)
				}
			}
		}
		t.Count("uses", rounds*hold)
	})
	h := order
	if watched {
		for _, o := range l.orders {
			h += o
		}
		c.Count("documents", len(l.orders))
		c.Count("documents used again", l.reused)
	}
	c.Sig("pools", h)
	c.Sample(fmt.Sprintf("pools watched=%v", watched), "%d goroutines, %d rounds, %d documents held, order %x", workers, rounds, hold, order)
}

// c18Sequential follows a random history of gets and puts of one goroutine over several pools.
func c18Sequential(c *Case) {
	pools := make([]*njson.Pool, c.R.Range(1, 3))
	for i := range pools {
		pools[i] = new(njson.Pool)
	}
	l := ledger{owner: map[*njson.Document]int{}, stale: map[*njson.Document][]staleHandle{}, orders: map[*njson.Document]uint64{}}
	type held struct {
		d     *njson.Document
		n     njson.Node
		t     *Tree
		stale []staleHandle
	}
	var out []held
	h := uint64(0)
	ids := map[*njson.Document]uint64{}
	for i := c.R.Range(4, 24); i > 0; i-- {
		if len(out) > 0 && c.R.P(1, 2) {
			k := c.R.N(len(out))
			x := out[k]
			// What others did must not have reached it
			if diff := sameAs(x.n, x.t); diff != "" {
				c.Failf("a document in use changed while others were used: %s", diff)
			}
			l.give(x.d, append(x.stale, staleHandle{x.n, "the root"}, staleHandle{x.n.Index(0), "a value"}))
			p := c.R.N(len(pools) + 1)
			if p == len(pools) {
				x.d.Close()
			} else {
				pools[p].Put(x.d)
			}
			h = mix(h, ids[x.d], uint64(p))
			out = append(out[:k], out[k+1:]...)
			continue
		}
		p := c.R.N(len(pools) + 1)
		var d *njson.Document
		if p == len(pools) {
			d = njson.Blank()
		} else {
			d = pools[p].Get()
		}
		owner, stale := l.take(i, d)
		if owner >= 0 {
			c.Failf("a document in use was handed out again")
		}
		if ids[d] == 0 {
			ids[d] = uint64(len(ids) + 1)
		}
		h = mix(h, ids[d], uint64(p)+100)
		stale = poolUse(c, d, stale, false)
		d.Reset()
		t := genTree(c.R, GenOpt{Nodes: 20, Unique: true})
		n, _, err := d.Parse(t.text())
		if err != nil {
			c.Failf("%v", err)
		}
		out = append(out, held{d, n, t, stale})
	}
	c.Count("documents", len(ids))
	c.Count("documents used again", l.reused)
	c.Sig("sequential", h)
}

// poolHook uses the default pool while a document from it is being decoded.
type poolHook struct{ got string }

func (p *poolHook) UnmarshalNodeJSON(n njson.Node) error {
	before, _ := n.AppendJSON(nil)
	d := njson.Blank()
	if d == n.Document() {
		return errors.New("the document being decoded was handed out by the pool")
	}
	d.Parse(`["other","owner",{"k":[1,2,3,4,5,6,7,8]}]`)
	var x interface{}
	if err := unjson.UnmarshalFromString(`{"nested":[1,2,{"x":"y"}]}`, &x); err != nil {
		return err
	}
	d.Close()
	runtime.Gosched()
	after, _ := n.AppendJSON(nil)
	if string(before) != string(after) {
		return fmt.Errorf("the node changed while it was decoded: %q was %q", after, before)
	}
	p.got = string(after)
	return nil
}

type failNode struct{}

func (failNode) UnmarshalNodeJSON(n njson.Node) error { return errors.New("hook failed") }

type panicNode struct{}

// c18Functions lets the package functions, which borrow documents, run between owners of documents.
func c18Functions(c *Case) {
	workers := c.R.Range(2, 6)
	rounds := c.R.Range(2, 6)
	order := c.parallel(workers, func(t *team) {
		r := t.R
		for i := 0; i < rounds; i++ {
			t.step(uint64(i))
			switch r.N(5) {
			case 0, 1:
				d := njson.Blank()
				poolUse(t.Case, d, nil, false)
				d.Close()
			case 2:
				tr := genTree(r, GenOpt{Nodes: 20, Unique: true})
				x := map[string]*poolHook{}
				s := `{"a":` + tr.text() + `,"b":` + tr.text() + `}`
				if err := unjson.Unmarshal([]byte(s), &x); err != nil {
					t.Failf("Unmarshal: %v", err)
				}
				for k, h := range x {
					if h == nil && tr.Kind == 'n' {
						continue
					}
					if got, err := refDoc(h.got); err != nil || equalTree(got, tr, true) != "" {
						t.Failf("%s was decoded to %q from %s", k, clip(h.got, 300), clip(s, 300))
					}
				}
				if len(x) != 2 {
					t.Failf("%d of 2 values decoded", len(x))
				}
			case 3:
				// Errors give the document back too, once
				var x []failNode
				if unjson.UnmarshalFromString(`[1,2]`, &x) == nil {
					t.Failf("the error of a hook is lost")
				}
				var y interface{}
				if unjson.UnmarshalFromString(`[1,2`, &y) == nil || unjson.UnmarshalFromString(`[1] 2`, &y) == nil {
					t.Failf("bad text is accepted")
				}
			case 4:
				// Two documents at once are two documents
				a, b := njson.Blank(), njson.Blank()
				if a == b {
					t.Failf("the same document was handed out twice")
				}
				na, _, _ := a.Parse(`{"a":1}`)
				nb, _, _ := b.Parse(`[2]`)
				var x interface{}
				unjson.UnmarshalFromNode(nb, &x)
				if unjson.Unmarshal([]byte(`{"c":3}`), &x) != nil {
					t.Failf("Unmarshal fails")
				}
				if na.Get("a").Raw() != "1" || nb.Index(0).Raw() != "2" {
					t.Failf("documents are mixed up")
				}
				a.Close()
				if nb.Index(0).Raw() != "2" {
					t.Failf("closing a document changed another one")
				}
				b.Close()
			}
			t.Eval(1)
		}
	})
	c.Sig("functions", order)
}

// ---- C19 ----

// readOp is an operation and what it gives when nothing else runs.
type readOp struct {
	name string
	run  func() interface{}
	want interface{}
}

type typedTarget struct {
	A interface{}            `json:"a"`
	K map[string]interface{} `json:"k"`
	S string                 `json:"s"`
	N []float64              `json:"n"`
	H *recorder              `json:"h"`
}

// readOps are the operations on a node, each returning a value to compare.
func readOps(c *Case, d *njson.Document, n njson.Node, t *Tree) []readOp {
	r := c.R
	var ops []readOp
	add := func(name string, run func() interface{}) {
		ops = append(ops, readOp{name: name, run: run})
	}
	// A random node and its path
	path := []string{}
	k, kt := n, t
	for depth := r.N(6); depth > 0 && len(kt.Kids) > 0; depth-- {
		i := r.N(len(kt.Kids))
		if kt.Kind == 'o' {
			path = append(path, kt.Keys[i])
			k = k.Get(kt.Keys[i])
		} else {
			path = append(path, strconv.Itoa(i))
			k = k.Index(i)
		}
		kt = kt.Kids[i]
	}
	idx := r.N(len(kt.Kids) + 2)
	key := "none"
	if kt.Kind == 'o' && len(kt.Keys) > 0 {
		key = kt.Keys[r.N(len(kt.Keys))]
	}
	add("scalars", func() interface{} {
		raw, typ := k.Data()
		f, ok1 := k.ToFloat()
		i, ok2 := k.ToInt()
		u, ok3 := k.ToUint()
		b, ok4 := k.ToBool()
		return fmt.Sprint(raw, typ, math.Float64bits(f), ok1, i, ok2, u, ok3, b, ok4, k.Raw(), k.Unescaped(), k.Type(), k.ID(), k.TypeError(njson.TypeObject))
	})
	add("lookup", func() interface{} {
		x, y := n.Lookup(path...), d.Root().Lookup(path...)
		return fmt.Sprint(x.ID(), y.ID(), x.Type())
	})
	add("get", func() interface{} {
		x, y := k.Get(key), k.Index(idx)
		return fmt.Sprint(x.ID(), x.Type(), x.Raw(), y.ID(), y.Type(), y.Raw(), k.Get("missing").Type(), k.Index(-1).Type())
	})
	add("iterate", func() interface{} {
		h := uint64(0)
		it := k.Values()
		l := it.Len()
		for it.Next() {
			v := it.Value()
			h = mix(h, hashStr(it.Key()), hashStr(v.Raw()), uint64(v.Type()), uint64(it.Index()), uint64(v.ID()))
		}
		it.Close()
		it.Reset()
		return fmt.Sprint(l, h)
	})
	add("observe", func() interface{} {
		limit := 100000
		tr, err := observe(n, &limit)
		if err != nil {
			return err.Error()
		}
		return tr.hash()
	})
	add("serialize", func() interface{} {
		b, err := k.AppendJSON(nil)
		return fmt.Sprint(string(b), err)
	})
	add("serialize document", func() interface{} {
		b, err := d.AppendJSON(make([]byte, 0, 10))
		return fmt.Sprint(string(b), err)
	})
	add("print", func() interface{} {
		var buf bytes.Buffer
		m, err := n.PrintJSON(&buf)
		return fmt.Sprint(buf.String(), m, err)
	})
	add("interface", func() interface{} {
		x, ok := n.ToInterface()
		return fmt.Sprintf("%v %#v", ok, jsonOf(x))
	})
	add("hook", func() interface{} {
		var u recorder
		err := k.WrapUnmarshalJSON(&u)
		return fmt.Sprint(u.data, u.called, err)
	})
	add("text hook", func() interface{} {
		var u recorder
		err := k.WrapUnmarshalText(&u)
		return fmt.Sprint(u.data, u.called, err)
	})
	add("decode", func() interface{} {
		var x interface{}
		err := unjson.UnmarshalFromNode(k, &x)
		return fmt.Sprintf("%v %s", err, jsonOf(x))
	})
	add("decode typed", func() interface{} {
		var x typedTarget
		err := unjson.UnmarshalFromNode(n, &x)
		if err != nil {
			return "error"
		}
		return jsonOf(x)
	})
	add("copy", func() interface{} {
		var own njson.Document
		a := own.Array()
		a.Append(k)
		o := own.Object()
		o.Set("n", n)
		a.Append(o)
		b, err := a.AppendJSON(nil)
		return fmt.Sprint(string(b), err)
	})
	return ops
}

func jsonOf(x interface{}) string {
	b, err := json.Marshal(x)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

func c19Readers(c *Case) {
	nodes := 30
	if c.R.P(1, 6) {
		nodes = 300
	}
	t := genTree(c.R, GenOpt{Nodes: nodes, Unique: true})
	if c.R.P(1, 6) {
		t = &Tree{Kind: 'o', Keys: []string{"a", "k", "s", "n", "h"}, Kids: []*Tree{t, {Kind: 'o'}, {Kind: 's', Raw: genRawMax(c.R, 60, true)}, {Kind: 'a', Kids: []*Tree{{Kind: '0', Raw: genNum(c.R)}}}, t.clone()}}
	}
	fitFloats(t)
	d := freshDoc(c.R)
	defer d.Close()
	n, _, err := d.Parse(t.spaced(c.R, c.R.N(2)))
	if err != nil {
		c.Failf("%v", err)
	}
	if c.R.P(1, 3) {
		// A document that was built and edited
		a := d.Array()
		a.Append(d.Text("built"), n)
		if c.R.P(1, 2) {
			a.Append(n)
		}
	}
	var ops []readOp
	for i := c.R.Range(1, 4); i > 0; i-- {
		ops = append(ops, readOps(c, d, n, t)...)
	}
	// Reading something for the first time is no different, so what each gives alone may be asked later
	late := c.R.P(1, 2)
	if late {
		c.Count("documents read by many at first", 1)
	} else {
		for i := range ops {
			ops[i].want = ops[i].run()
		}
	}
	readTogether(c, ops, t.hash(), late)
	if diff := sameAs(n, t); diff != "" {
		c.Failf("reading changed the document: %s", diff)
	}
}

func readTogether(c *Case, ops []readOp, h uint64, late bool) {
	workers, rounds := c.R.Range(2, 8), c.R.Range(3, 20)
	same := c.R.P(1, 4) // all goroutines do the same operation
	pick := c.R.N(len(ops))
	type kept struct {
		i   int
		got interface{}
	}
	var mu sync.Mutex
	var all []kept
	order := c.parallel(workers, func(t *team) {
		var got []kept
		for k := 0; k < rounds; k++ {
			i := t.R.N(len(ops))
			if same {
				i = pick
			}
			t.step(uint64(i))
			got = append(got, kept{i, ops[i].run()})
		}
		if late {
			mu.Lock()
			all = append(all, got...)
			mu.Unlock()
			return
		}
		for _, k := range got {
			t.Eval(1)
			t.Count(ops[k.i].name, 1)
			if k.got != ops[k.i].want {
				t.Failf("%s gives %v among other readers and %v alone", ops[k.i].name, clip(fmt.Sprint(k.got), 400), clip(fmt.Sprint(ops[k.i].want), 400))
			}
		}
	})
	for _, k := range all {
		op := &ops[k.i]
		if op.want == nil {
			op.want = op.run()
		}
		c.Eval(1)
		c.Count(op.name, 1)
		if k.got != op.want {
			c.Failf("%s gives %v among other readers and %v alone", op.name, clip(fmt.Sprint(k.got), 400), clip(fmt.Sprint(op.want), 400))
		}
	}
	c.Sig("readers", h, order)
	c.Sample("readers", "%d goroutines, %d operations each, order %x", workers, rounds, order)
}

// c19Functions uses the package level functions together.
func c19Functions(c *Case) {
	var ops []readOp
	add := func(name string, run func() interface{}) {
		ops = append(ops, readOp{name: name, run: run})
	}
	for i := 0; i < 2; i++ {
		raw, s := genRawMax(c.R, 200, true), toValidUTF8(genString(c.R, 100))
		num, f := genNum(c.R), genFloat(c.R)
		tr := genTree(c.R, GenOpt{Nodes: 20, Unique: true})
		fitFloats(tr)
		text := tr.text()
		bad := text[:c.R.N(len(text))] + "\x01"
		add("unescape", func() interface{} {
			buf := make([]byte, len(raw)*2+10)
			m := strjson.Unescape(buf, raw)
			return fmt.Sprint(strjson.Unescaped(raw), string(strjson.AppendUnescaped([]byte("x"), raw)), string(buf[:m]))
		})
		add("escape", func() interface{} {
			return fmt.Sprint(strjson.Escaped(s, true, true), strjson.Escaped(s, false, false), string(strjson.AppendEscaped(nil, s, true)))
		})
		add("numbers", func() interface{} {
			i, ok := numjson.ParseInt(num)
			u, ok2 := numjson.ParseUint(num)
			return fmt.Sprint(math.Float64bits(numjson.ParseFloat(num)), i, ok, u, ok2, numjson.FormatFloat(f, 64), string(numjson.AppendFloat(nil, f, 32)))
		})
		add("unmarshal", func() interface{} {
			var x interface{}
			err := unjson.Unmarshal([]byte(text), &x)
			return fmt.Sprint(jsonOf(x), err)
		})
		add("unmarshal bad", func() interface{} {
			var x interface{}
			err := unjson.UnmarshalFromString(bad, &x)
			return fmt.Sprint(err)
		})
		add("marshal", func() interface{} {
			b, err := unjson.Marshal([]interface{}{s, f, num, true, nil, map[string]interface{}{s: s}, typedTarget{S: s, N: []float64{f}}})
			return fmt.Sprint(string(b), err)
		})
		add("append", func() interface{} {
			b, err := unjson.AppendJSON(make([]byte, 3, 300), map[string]int{s: 3})
			return fmt.Sprint(string(b), err)
		})
		add("parse", func() interface{} {
			d := njson.Blank()
			defer d.Close()
			n, tail, err := d.Parse(text + " x")
			b, err2 := n.AppendJSON(nil)
			return fmt.Sprint(tail, err, string(b), err2)
		})
		add("print", func() interface{} {
			var d njson.Document
			n := d.Object()
			n.Set("s", d.Text(s))
			n.Set("f", d.Number(f))
			var buf bytes.Buffer
			njson.PrintJSON(&buf, n)
			if _, err := njson.PrintJSON(&failWriter{}, n); err == nil {
				return "a failing writer gives no error"
			}
			return buf.String()
		})
		add("lines", func() interface{} {
			var buf bytes.Buffer
			e := unjson.NewLineEncoder(&buf)
			e.Encode(map[string]interface{}{"s": s})
			e.Encode([]string{s, raw})
			dec := unjson.NewLineDecoder(&buf)
			var x, y interface{}
			err := dec.Decode(&x)
			err2 := dec.Decode(&y)
			return fmt.Sprint(jsonOf(x), err, jsonOf(y), err2)
		})
		add("types", func() interface{} {
			t := njson.Type(c.Idx) | njson.TypeString
			return fmt.Sprint(t.String(), t.Types(), t.IsValue(), njson.TypeAnyValue.String())
		})
	}
	h := uint64(0)
	for i := range ops {
		ops[i].want = ops[i].run()
		h = mix(h, hashStr(fmt.Sprint(ops[i].want)))
	}
	readTogether(c, ops, h, false)
}

// ---- C20 ----

// codecJob encodes and decodes a value of a type in one way.
type codecJob struct {
	name string
	t    reflect.Type
	v    reflect.Value // pointer to the value
	want *Tree         // its encoding
	text string        // text to decode
	dec  reflect.Value // what it decodes to, by encoding/json
	enc  func(out []byte, x interface{}) ([]byte, error)
	deco func(s string, x interface{}) error
}

func (j *codecJob) encode(c *Case) {
	b, err := j.enc([]byte("pre"), j.v.Interface())
	if err != nil || !bytes.HasPrefix(b, []byte("pre")) {
		c.Failf("%s: encoding %s: %v %q", j.name, typeName(j.t), err, clip(string(b), 100))
	}
	tr, err := refDoc(string(b[3:]))
	if err != nil {
		c.Failf("%s: not valid JSON: %v: %s", j.name, err, clip(string(b), 400))
	}
	if d := meaning(tr, j.want); d != "" {
		c.Failf("%s: encoding of %s: %s\n%s", j.name, typeName(j.t), d, clip(string(b), 400))
	}
	c.Eval(1)
	c.Count("encoded", 1)
}

func (j *codecJob) decode(c *Case) {
	p := reflect.New(j.t)
	if err := j.deco(j.text, p.Interface()); err != nil {
		c.Failf("%s: decoding %s: %v\n%s", j.name, typeName(j.t), err, clip(j.text, 400))
	}
	if d := diffValues(p.Elem(), j.dec.Elem(), eqOpt{}); d != "" {
		c.Failf("%s: decoding %s: %s\n%s", j.name, typeName(j.t), d, clip(j.text, 400))
	}
	c.Eval(1)
	c.Count("decoded", 1)
}

// newJob makes a value of t and a text for t, with their meanings by the model and by encoding/json.
func newJob(c *Case, t reflect.Type, o unjson.Options) *codecJob {
	j := &codecJob{t: t, v: reflect.New(t)}
	tag := o.Tag
	if tag == "" {
		tag = "json"
	}
	vg := newValueGen(c.R)
	vg.nilSlices = true
	vg.fill(j.v.Elem(), c.R.Range(2, 5))
	m := EncModel{tag: tag, omitEmpty: o.OmitEmpty, omitMethod: o.OmitMethod}
	j.want = m.encode(j.v.Elem(), false, false)
	g := TextGen{r: c.R, tag: tag, budget: c.R.Range(5, 60)}
	tr := g.tree(t, c.R.Range(2, 5))
	j.text = tr.spaced(c.R, c.R.N(2))
	twin := t
	if tag != "json" {
		twin = retag(t, tag, "json")
	}
	p := reflect.New(twin)
	if err := json.Unmarshal([]byte(j.text), p.Interface()); err != nil {
		c.Broken("encoding/json: %v\n%s\n%s", err, twin, j.text)
	}
	j.dec = reflect.New(t)
	j.dec.Elem().Set(p.Elem().Convert(t))
	return j
}

func (j codecJob) with(name string, enc func([]byte, interface{}) ([]byte, error), dec func(string, interface{}) error) *codecJob {
	j.name, j.enc, j.deco = name, enc, dec
	return &j
}

func defaultFuncs(j *codecJob) *codecJob {
	return j.with("default functions", unjson.AppendJSON, unjson.UnmarshalFromString)
}

func cacheFuncs(j *codecJob, name string, cache *unjson.Cache) *codecJob {
	return j.with(name, func(out []byte, x interface{}) ([]byte, error) {
		e, err := cache.Encoder(reflect.TypeOf(x))
		if err != nil {
			return nil, err
		}
		return e.Encode(out, x)
	}, func(s string, x interface{}) error {
		d, err := cache.Decoder(reflect.TypeOf(x))
		if err != nil {
			return err
		}
		return decodeText(d, s, x)
	})
}

func decodeText(d unjson.Decoder, s string, x interface{}) error {
	doc := njson.Blank()
	defer doc.Close()
	n, _, err := doc.Parse(s)
	if err != nil {
		return err
	}
	return d.Decode(x, n)
}

// runJobs lets goroutines do all jobs in different orders, or all in the same order.
func runJobs(c *Case, jobs []*codecJob, h uint64) {
	lockstep := c.R.P(1, 2)
	perm := c.R.perm(len(jobs) * 2)
	order := c.parallel(c.R.Range(2, 8), func(t *team) {
		mine := perm
		if !lockstep {
			mine = t.R.perm(len(jobs) * 2)
		}
		for _, k := range mine {
			t.step(uint64(k))
			if k%2 == 0 {
				jobs[k/2].encode(t.Case)
			} else {
				jobs[k/2].decode(t.Case)
			}
		}
	})
	c.Sig("jobs", h, order)
	c.Count("types first used together", 1)
}

func (r *Rng) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.N(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

var freshTag = struct {
	sync.Mutex
	n int
}{}

// freshType makes a struct type that was not used before in this process.
func freshType(c *Case, inner reflect.Type) reflect.Type {
	freshTag.Lock()
	defer freshTag.Unlock()
	freshTag.n++
	return reflect.StructOf([]reflect.StructField{
		{Name: "X", Type: inner, Tag: `json:"x"`},
		{Name: "F", Type: reflect.TypeOf(0), Tag: reflect.StructTag(fmt.Sprintf(`json:"fresh%d"`, freshTag.n))},
		{Name: "P", Type: reflect.PtrTo(inner), Tag: `json:"p"`},
	})
}

func c20First(c *Case) {
	g := newTypeGen(c.R)
	g.named = plainNamed
	var cache unjson.Cache
	var jobs []*codecJob
	h := uint64(0)
	for i := c.R.Range(1, 4); i > 0; i-- {
		t := freshType(c, g.typ(c.R.Range(1, 4)))
		if c.R.P(1, 4) {
			t = reflect.SliceOf(t)
		}
		h = mix(h, hashStr(t.String()))
		j := newJob(c, t, unjson.Options{})
		if c.R.P(2, 3) {
			jobs = append(jobs, defaultFuncs(j))
		}
		if c.R.P(1, 2) || len(jobs) == 0 {
			jobs = append(jobs, cacheFuncs(j, "a shared cache", &cache))
		}
	}
	runJobs(c, jobs, h)
	c.Sample("first uses", "%d jobs on types like %s", len(jobs), typeName(jobs[0].t))
}

// c20Instances shares encoders and decoders.
func c20Instances(c *Case) {
	g := newTypeGen(c.R)
	g.named = plainNamed
	var jobs []*codecJob
	h := uint64(0)
	for i := c.R.Range(1, 3); i > 0; i-- {
		t := g.typ(c.R.Range(1, 5))
		if t.Kind() == reflect.Ptr || t.Kind() == reflect.Interface {
			t = g.structType(4)
		}
		if c.R.P(1, 3) {
			t = plainNamed[6+c.R.N(len(plainNamed)-6)]
			if t.Kind() == reflect.Interface {
				t = typeOf((*Rec)(nil))
			}
		}
		h = mix(h, hashStr(t.String()))
		enc, err := unjson.NewTypeEncoder(t, unjson.DefaultOptions())
		if err != nil {
			c.Failf("%v", err)
		}
		dec, err := unjson.NewTypeDecoder(reflect.PtrTo(t), "")
		if err != nil {
			c.Failf("%v", err)
		}
		for k := c.R.Range(1, 3); k > 0; k-- {
			jobs = append(jobs, newJob(c, t, unjson.Options{}).with("a shared encoder and decoder", enc.Encode, func(s string, x interface{}) error {
				return decodeText(dec, s, x)
			}))
		}
	}
	runJobs(c, jobs, h)
}

// twins are different types of the same name.
var twins = func() (l []reflect.Type) {
	{
		type T struct {
			A int `json:"a"`
		}
		l = append(l, reflect.TypeOf(T{}))
	}
	{
		type T struct {
			B string `json:"b"`
		}
		l = append(l, reflect.TypeOf(T{}))
	}
	{
		type T []int
		l = append(l, reflect.TypeOf(T{}))
	}
	{
		type T map[string]string
		l = append(l, reflect.TypeOf(T{}))
	}
	{
		type T float64
		l = append(l, reflect.TypeOf(T(0)))
	}
	{
		type T struct {
			C []bool
		}
		l = append(l, reflect.TypeOf(T{}))
	}
	return
}()

// c20Many uses very many types with one cache.
func c20Many(c *Case) {
	max := c.R.Pick2(5, 40, 70, 150, 300, 600, 1100)
	var list []reflect.Type
	var texts []string
	add := func(t reflect.Type, text string) {
		list = append(list, t)
		texts = append(texts, text)
	}
	for i, s := range []string{`{"a":1}`, `{"b":"x"}`, `[1,2]`, `{"k":"v"}`, `0.5`, `{"C":[true]}`} {
		// and types made of them, which have the same names too
		add(twins[i], s)
		add(reflect.SliceOf(twins[i]), "["+s+"]")
		add(reflect.MapOf(typString, twins[i]), `{"m":`+s+`}`)
		add(reflect.StructOf([]reflect.StructField{{Name: "X", Type: twins[i]}}), `{"X":`+s+`}`)
	}
	for n := c.R.N(1000); len(list) < max; n++ {
		switch n % 4 {
		case 0:
			k := n%400 + 1
			add(reflect.ArrayOf(k, reflect.TypeOf(int8(0))), "["+strings.Repeat("7,", k-1)+"7]")
		case 1:
			freshTag.Lock()
			freshTag.n++
			key := fmt.Sprint("many", freshTag.n)
			freshTag.Unlock()
			add(reflect.StructOf([]reflect.StructField{{Name: "F", Type: typString, Tag: reflect.StructTag(`json:"` + key + `"`)}}), fmt.Sprintf(`{"%s":"%d"}`, key, n))
		case 2:
			t, s := reflect.TypeOf(0.0), fmt.Sprint(n)
			for k := n / 4 % 9; k >= 0; k-- {
				if n>>k&1 == 0 {
					t, s = reflect.SliceOf(t), "["+s+"]"
				} else {
					t, s = reflect.MapOf(typString, t), `{"k":`+s+`}`
				}
			}
			add(t, s)
		default:
			add(reflect.StructOf([]reflect.StructField{{Name: fmt.Sprint("G", n), Type: reflect.TypeOf(true)}}), fmt.Sprintf(`{"G%d":true}`, n))
		}
	}
	cache := &unjson.Cache{}
	def := c.R.P(1, 3)
	order := c.parallel(c.R.Pick2(1, 2, 4), func(t *team) {
		for round := 0; round < 2; round++ {
			for _, k := range t.R.perm(len(list)) {
				t.step(uint64(k))
				p := reflect.New(list[k])
				var err error
				var b []byte
				if def {
					err = unjson.UnmarshalFromString(texts[k], p.Interface())
				} else if dec, e := cache.Decoder(p.Type()); e != nil {
					err = e
				} else {
					err = decodeText(dec, texts[k], p.Interface())
				}
				if err != nil {
					t.Failf("decoding %s to %s, one of %d types: %v", clip(texts[k], 100), list[k], len(list), err)
				}
				if def {
					b, err = unjson.Marshal(p.Elem().Interface())
				} else if enc, e := cache.Encoder(list[k]); e != nil {
					err = e
				} else {
					b, err = enc.Encode(nil, p.Elem().Interface())
				}
				if err != nil || string(b) != texts[k] {
					t.Failf("%s to %s and back, one of %d types: %q, %v", clip(texts[k], 100), list[k], len(list), clip(string(b), 100), err)
				}
				t.Eval(2)
			}
		}
		t.Count("types used with one cache", len(list))
	})
	c.Sig("many", order)
}

// c20Caches uses the same types through caches with different options at the same time.
func c20Caches(c *Case) {
	g := newTypeGen(c.R)
	g.named = plainNamed[:6]
	g.tag = c.R.Pick("json", "njson")
	t := freshType(c, g.structType(3))
	options := []unjson.Options{{}, {Tag: "njson"}, {Tag: g.tag, OmitEmpty: true}, {Tag: "third"}, unjson.DefaultOptions(), {Tag: "njson", OmitMethod: "Skip"}}
	var jobs []*codecJob
	for i := c.R.Range(2, 4); i > 0; i-- {
		o := options[c.R.N(len(options))]
		cache := &unjson.Cache{Options: o}
		j := newJob(c, t, o)
		jobs = append(jobs, cacheFuncs(j, fmt.Sprintf("a cache with %+v", o), cache))
		if o.Tag == "json" && !o.OmitEmpty || o == (unjson.Options{}) {
			jobs = append(jobs, defaultFuncs(j))
		}
	}
	if len(jobs) < 4 {
		jobs = append(jobs, defaultFuncs(newJob(c, t, unjson.Options{})))
	}
	runJobs(c, jobs, hashStr(t.String()))
}

// c20Own has caches with options of their own encode the same values at the same time.
func c20Own(c *Case) {
	freshTag.Lock()
	freshTag.n++
	t := reflect.StructOf([]reflect.StructField{
		{Name: "A", Type: reflect.TypeOf(OmV(0)), Tag: `json:"a,omitempty" njson:"b,omitempty" third:"c"`},
		{Name: "F", Type: reflect.TypeOf(0.5), Tag: `json:"f" njson:"-" third:"a,omitempty"`},
		{Name: "S", Type: reflect.TypeOf(""), Tag: `json:"s" njson:"a,omitempty"`},
		{Name: "X", Type: reflect.TypeOf(0), Tag: reflect.StructTag(fmt.Sprintf(`json:"fresh%d"`, freshTag.n))},
	})
	freshTag.Unlock()
	type user struct {
		o     unjson.Options
		cache *unjson.Cache
	}
	var users []user
	for i := c.R.Range(1, 4); i > 0; i-- {
		o := unjson.Options{Tag: c.R.Pick("", "json", "njson", "third"), OmitEmpty: c.R.P(1, 3), OmitMethod: c.R.Pick("", "Omit", "Skip", "Empty"), AllowNaN: c.R.P(1, 2), AllowInf: c.R.P(1, 2)}
		users = append(users, user{o, &unjson.Cache{Options: o}})
	}
	order := c.parallel(c.R.Range(2, 6), func(tm *team) {
		for i := 0; i < 4; i++ {
			u := users[tm.R.N(len(users))]
			v := reflect.New(t)
			v.Elem().Field(0).SetInt(int64(tm.R.N(7)))
			f := []float64{0, 0.5, -1e30, math.NaN(), math.Inf(1), math.Inf(-1)}[tm.R.N(6)]
			v.Elem().Field(1).SetFloat(f)
			v.Elem().Field(2).SetString(tm.R.Pick("", "x", "y"))
			want, ok := ownEncoding(t, v.Elem(), u.o)
			tm.step(uint64(i))
			enc, err := u.cache.Encoder(v.Type())
			if err != nil {
				tm.Failf("cache with %+v: %v", u.o, err)
			}
			b, err := enc.Encode(nil, v.Interface())
			if ok != (err == nil) || ok && string(b) != want {
				tm.Failf("a cache with %+v encodes %+v as %s, %v, want %s %v", u.o, v.Elem(), b, err, want, ok)
			}
			// Decoding keeps to the tag of the cache
			p := reflect.New(t)
			dec, err := u.cache.Decoder(p.Type())
			if err != nil {
				tm.Failf("cache with %+v: %v", u.o, err)
			}
			tag := u.o.Tag
			if tag == "" {
				tag = "json"
			}
			text := fmt.Sprintf(`{"%s":7,"X":1}`, strings.Split(t.Field(0).Tag.Get(tag), ",")[0])
			if err := decodeText(dec, text, p.Interface()); err != nil || p.Elem().Field(0).Int() != 7 {
				tm.Failf("a cache with %+v decodes %s as %+v, %v", u.o, text, p.Elem(), err)
			}
			tm.Eval(2)
			tm.Count("encoded with own options", 1)
		}
	})
	c.Sig("own", order)
}

// ownEncoding is the text a struct of c20Own encodes to.
func ownEncoding(t reflect.Type, v reflect.Value, o unjson.Options) (string, bool) {
	tag := o.Tag
	if tag == "" {
		tag = "json"
	}
	var parts []string
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tags := strings.Split(f.Tag.Get(tag), ",")
		name := tags[0]
		if name == "-" {
			continue
		}
		if name == "" {
			name = f.Name
		}
		val, empty := "", false
		switch i {
		case 0:
			n := v.Field(0).Int()
			val = strconv.FormatInt(n, 10)
			switch o.OmitMethod {
			case "Skip":
				empty = n%3 == 0
			case "Empty":
				empty = n == 0
			default:
				empty = n%2 == 0
			}
		case 1:
			x := v.Field(1).Float()
			val, empty = map[float64]string{0: "0", 0.5: "0.5", -1e30: "-1e+30", math.Inf(1): "+Inf", math.Inf(-1): "-Inf"}[x], x == 0
			if x != x {
				val = "NaN"
			}
		case 2:
			val, empty = `"`+v.Field(2).String()+`"`, v.Field(2).Len() == 0
		case 3:
			val, empty = strconv.FormatInt(v.Field(3).Int(), 10), v.Field(3).Int() == 0
		}
		if empty && (o.OmitEmpty || len(tags) > 1) {
			continue
		}
		if val == "NaN" && !o.AllowNaN || (val == "+Inf" || val == "-Inf") && !o.AllowInf {
			return "", false
		}
		parts = append(parts, `"`+name+`":`+val)
	}
	return "{" + strings.Join(parts, ",") + "}", true
}

// Inner encodes and decodes what it holds through the package functions, from within them.
type Inner struct{ X interface{} }

func (i Inner) MarshalJSON() ([]byte, error) { return unjson.Marshal(i.X) }

func (i *Inner) UnmarshalJSON(b []byte) error {
	if i.X == nil {
		return unjson.Unmarshal(b, &i.X)
	}
	return unjson.Unmarshal(b, i.X)
}

// c20Nested has hooks that use the functions again, with other fresh types.
func c20Nested(c *Case) {
	g := newTypeGen(c.R)
	g.named = plainNamed
	depth := c.R.Range(1, 4)
	var cache unjson.Cache
	// Every goroutine has a value of its own of the same fresh types
	types := []reflect.Type{}
	for i := 0; i <= depth; i++ {
		types = append(types, freshType(c, g.typ(2)))
	}
	workers := c.R.Range(2, 6)
	wants := []*Tree{}
	values := [][]*codecJob{}
	for i := 0; i < workers; i++ {
		var js []*codecJob
		want := &Tree{Kind: 'n', Raw: "null"}
		for _, t := range types {
			j := newJob(c, t, unjson.Options{})
			js = append(js, j)
			want = &Tree{Kind: 'a', Kids: []*Tree{j.want, want}}
		}
		values, wants = append(values, js), append(wants, want)
	}
	order := c.parallel(workers, func(t *team) {
		t.step(uint64(t.who))
		var x interface{}
		for _, j := range values[t.who] {
			x = []interface{}{j.v.Interface(), Inner{x}}
		}
		var b []byte
		var err error
		if t.R.P(1, 2) {
			b, err = unjson.Marshal(x)
		} else if enc, e := cache.Encoder(reflect.TypeOf(x)); e != nil {
			err = e
		} else {
			b, err = enc.Encode(nil, x)
		}
		if err != nil {
			t.Failf("nested encoding: %v", err)
		}
		t.step(uint64(t.who) + 100)
		tr, err := refDoc(string(b))
		if err != nil {
			t.Failf("nested encoding: %v: %s", err, clip(string(b), 300))
		}
		if d := meaning(tr, wants[t.who]); d != "" {
			t.Failf("nested encoding: %s\n%s", d, clip(string(b), 400))
		}
		for _, j := range values[t.who] {
			p := reflect.New(j.t)
			s := `{"in":` + j.text + `}`
			m := struct {
				In Inner `json:"in"`
			}{Inner{p.Interface()}}
			if err := unjson.UnmarshalFromString(s, &m); err != nil {
				t.Failf("nested decoding: %v\n%s", err, clip(s, 300))
			}
			if d := diffValues(p.Elem(), j.dec.Elem(), eqOpt{}); d != "" {
				t.Failf("nested decoding: %s\n%s", d, clip(s, 300))
			}
			t.Eval(2)
		}
	})
	c.Sig("nested", order)
}
