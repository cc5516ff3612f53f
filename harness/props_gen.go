package main

import (
	"bytes"
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	gotoken "go/token"
	"go/types"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/unjson"
)

func init() {
	register(&Prop{ID: "C29", MinSig: 500, Needs: genNeeds,
		Rule: "a case is a struct type of a generated package whose generated methods were compiled into the monitor, with a block of values and JSON texts, or a package with an unsupported type given to the generator; distinct by type, shape and fault",
		Stages: []Stage{
			{Name: "decode", Quick: 12000, Thorough: 300000, Fn: c29Decode},
			{Name: "reuse", Quick: 8000, Thorough: 200000, Fn: c29Reuse},
			{Name: "partial", Quick: 8000, Thorough: 200000, Fn: c29Partial},
			{Name: "faults", Quick: 12000, Thorough: 300000, Fn: c29Faults},
			{Name: "append", Quick: 12000, Thorough: 300000, Fn: c29Append},
			{Name: "hooks", Quick: 6000, Thorough: 150000, Fn: c29HookErrors},
			{Name: "bulk-decode", Quick: 900, Thorough: 60000, Fn: bulk(c29Decode, 2, 1<<16)},
			{Name: "bulk-faults", Quick: 600, Thorough: 60000, Fn: bulk(c29Faults, 2, 1<<15)},
			{Name: "bulk-append", Quick: 900, Thorough: 60000, Fn: bulk(c29Append, 2, 1<<16)},
			{Name: "compiles", Quick: 160, Thorough: 4000, Fn: c29Compiles},
			{Name: "names", Quick: 160, Thorough: 3000, Fn: c29Names},
			{Name: "unsupported", Quick: 160, Thorough: 1500, Fn: c29Unsupported},
		}})
	register(&Prop{ID: "C30", MinSig: 200, Needs: genNeeds,
		Rule: "a case is a package given to the generator again and again under different circumstances, or a type of a package generated with random options whose compiled methods show which keys they read and write; distinct by package, options and type",
		Stages: []Stage{
			{Name: "repeat", Quick: 48, Thorough: 1200, Fn: c30Repeat},
			{Name: "options", Quick: 4000, Thorough: 60000, Fn: c30Options},
			{Name: "refuse", Quick: 112, Thorough: 1120, Fn: c30Refuse},
		}})
}

// genType is a type whose methods were generated and compiled into this program. Filled by a generated file.
type genType struct {
	pkg  int
	name string
	typ  reflect.Type
}

var genTypes []genType

// genFail makes a call of a hook fail, the n-th from now. genFailed tells if it did.
var (
	genFail   func(n int)
	genFailed func() error
)

func genPkgs(prop, tier string) int {
	n := map[string]int{"C29": 8, "C30": 24}[prop]
	if tier == "thorough" {
		n *= 8
	}
	return n
}

// ---- sources ----

const gthSource = `package gth

import (
	"encoding/json"
	"errors"
	"fmt"
	"strings"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/strjson"
)

// Tree is recursive, without methods.
type Tree struct {
	L, R *Tree
}

// Priv has a field that other packages cannot use.
type Priv struct {
	a int
	B string
	c *priv
	D []int "json:\"d\""
}

type priv struct {
	x int
	Y string
}

// Mixed has fields promoted by a struct that other packages cannot name.
type Mixed struct {
	mixed
	M int
	n string
}

type mixed struct {
	O string "json:\"o\""
	p int
}

// FailAt is the number of hook calls until one fails.
var FailAt int

// Failed is set when a hook call failed.
var Failed error

func call() error {
	FailAt--
	if FailAt == 0 {
		Failed = fmt.Errorf("hook failed")
		return Failed
	}
	return nil
}

func enc(s string) ([]byte, error) {
	if err := call(); err != nil {
		return nil, err
	}
	return json.Marshal(map[string]string{"hook": s})
}

func dec(b []byte) (string, error) {
	if err := call(); err != nil {
		return "", err
	}
	var m map[string]string
	if err := json.Unmarshal(b, &m); err != nil {
		return "", err
	}
	if s, ok := m["hook"]; ok {
		return s, nil
	}
	return "", errors.New("no hook member")
}

func encT(s string) ([]byte, error) {
	if err := call(); err != nil {
		return nil, err
	}
	return []byte("<" + s + ">"), nil
}

func decT(b []byte) (string, error) {
	if err := call(); err != nil {
		return "", err
	}
	s := string(b)
	if !strings.HasPrefix(s, "<") || !strings.HasSuffix(s, ">") || len(s) < 2 {
		return "", errors.New("bad text")
	}
	return s[1 : len(s)-1], nil
}

// HJ has JSON hooks
type HJ struct{ P string }

func (h HJ) MarshalJSON() ([]byte, error) { return enc(h.P) }
func (h *HJ) UnmarshalJSON(b []byte) (err error) { h.P, err = dec(b); return }

// HJP has JSON hooks of the pointer
type HJP struct{ P string }

func (h *HJP) MarshalJSON() ([]byte, error) { return enc(h.P) }
func (h *HJP) UnmarshalJSON(b []byte) (err error) { h.P, err = dec(b); return }

// HT has text hooks
type HT struct{ P string }

func (h HT) MarshalText() ([]byte, error) { return encT(h.P) }
func (h *HT) UnmarshalText(b []byte) (err error) { h.P, err = decT(b); return }

// HTP has text hooks of the pointer
type HTP struct{ P string }

func (h *HTP) MarshalText() ([]byte, error) { return encT(h.P) }
func (h *HTP) UnmarshalText(b []byte) (err error) { h.P, err = decT(b); return }

// HB has JSON hooks and text hooks: the JSON hooks come first
type HB struct{ P string }

func (h HB) MarshalJSON() ([]byte, error) { return enc(h.P) }
func (h *HB) UnmarshalJSON(b []byte) (err error) { h.P, err = dec(b); return }
func (h HB) MarshalText() ([]byte, error) { return nil, errors.New("not the hook to call") }
func (h *HB) UnmarshalText(b []byte) error { return errors.New("not the hook to call") }

// HN has njson hooks. The JSON hooks are for encoding/json.
type HN struct{ P string }

func (h HN) AppendJSON(out []byte) ([]byte, error) {
	if err := call(); err != nil {
		return nil, err
	}
	out = append(out, "{\"hook\":\""...)
	out = strjson.AppendEscaped(out, h.P, false)
	return append(out, "\"}"...), nil
}
func (h *HN) UnmarshalNodeJSON(n njson.Node) (err error) {
	b, err := n.AppendJSON(nil)
	if err != nil {
		return err
	}
	h.P, err = dec(b)
	return
}
func (h HN) MarshalJSON() ([]byte, error) { return json.Marshal(map[string]string{"hook": h.P}) }
func (h *HN) UnmarshalJSON(b []byte) (err error) { h.P, err = dec(b); return }

// OM decides itself when it is omitted
type OM struct{ N int }

func (o OM) Omit() bool { return o.N == 0 }
`

type srcGen struct {
	r    *Rng
	n    int
	out  []string // declarations
	refs int
}

// typ returns the source of a type and if it can be omitted when empty.
func (g *srcGen) typ(depth int, byValue, byRef []string) (src string, omit bool) {
	basic := []string{"bool", "string", "string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64",
		"NStr", "NInt8", "NUint", "NFloat", "NBool", "Text"}
	if depth <= 0 {
		return g.r.Pick(basic...), true
	}
	switch g.r.N(16) {
	case 0, 1, 2, 3:
		return g.r.Pick(basic...), true
	case 4:
		return "interface{}", true
	case 5:
		return g.r.Pick("NSlice", "NMap", "NPtr", "url.Values", "NTexts", "map[string]int", "[]string"), true
	case 6:
		if g.r.P(1, 3) {
			return "time.Duration", true
		}
		return g.r.Pick("time.Time", "sql.NullString", "gth.Priv", "gth.Mixed", "MyTime", "gsc.Error", "scanner.Position", "gth.HJ", "gth.HJP", "gth.HT", "gth.HTP", "gth.HN", "gth.HB", "LT"), false
	case 7:
		if g.r.P(1, 2) {
			if g.r.P(1, 3) {
				return g.r.Pick("iv.S", "ivalues.S", "[]ir.S", "[]iv.K", "map[ivalues.K]inode.S", "*iout.S", "map[string]iv.S", "map[iv.K]string"), false
			}
			return g.r.Pick("values", "node", "r", "m", "[]v", "[]size", "map[s]values", "[]*node", "map[i]n", "*out", "[]typ", "more", "data", "map[string]r"), false
		}
		return "gth.OM", true
	case 8, 9:
		s, _ := g.typ(depth-1, append(append([]string(nil), byValue...), byRef...), byRef)
		if s != "gth.OM" && g.r.P(1, 4) {
			// a named pointer type, that has no methods of what it points to
			g.n++
			n := fmt.Sprintf("NPt%d", g.n)
			g.out = append(g.out, "type "+n+" *"+s+"\n")
			return n, true
		}
		return "*" + s, true
	case 10, 11:
		s, _ := g.typ(depth-1, append(append([]string(nil), byValue...), byRef...), byRef)
		if s == "uint8" {
			s = "uint16"
		}
		return "[]" + s, true
	case 12, 13:
		s, _ := g.typ(depth-1, append(append([]string(nil), byValue...), byRef...), byRef)
		return "map[" + g.r.Pick("string", "string", "NStr") + "]" + s, true
	case 14:
		return "struct {\n" + g.fields(g.r.N(4), depth-1, nil, nil, nil) + "}", false
	default:
		if len(byValue) > 0 && g.refs > 0 {
			g.refs--
			return byValue[g.r.N(len(byValue))], false
		}
		return g.r.Pick(basic...), true
	}
}

// fields makes the fields of a struct. hidden are keys of embedded fields that may be hidden.
func (g *srcGen) fields(n, depth int, byValue, byRef, hidden []string) string {
	var b strings.Builder
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		g.n++
		t, omit := g.typ(depth, byValue, byRef)
		name, tag := fmt.Sprintf("F%d", g.n), ""
		key := ""
		if g.r.P(2, 3) {
			key = g.r.Pick("a", "key.", "ключ", "x-", "KEY", "日本", "<&>", "id_", "$", "data@", "/", "omitempty", "100%", "%s", "a b", "[]", "{}", "raw", "ſ") + strconv.Itoa(g.n)
		}
		if len(hidden) > 0 && g.r.P(1, 2) {
			if k := hidden[g.r.N(len(hidden))]; !used[k] {
				used[k] = true
				key = k
			}
		}
		opts := ""
		if omit && g.r.P(1, 3) {
			opts = ",omitempty"
		}
		if g.r.P(1, 20) && opts == "" {
			opts = g.r.Pick(",", ",unknown", ",omitempt", ",other=1")
		}
		if g.r.P(1, 25) {
			key, opts = "-", ""
		}
		if g.r.P(1, 15) && key != "-" {
			// Only the strings of the values are raw, keys are escaped
			t, opts = g.r.Pick("RawS", "RawS", "[]RawS", "*RawS", "map[string]RawS", "map[NStr][]RawS"), opts+",raw"
		}
		if key != "" || opts != "" {
			tag = fmt.Sprintf("json:\"%s%s\"", key, opts)
		}
		switch g.r.N(8) {
		case 0:
			other := fmt.Sprintf("other:\"y%d\" ", g.n)
			if omit {
				other = fmt.Sprintf("other:\"y%d,omitempty\" ", g.n)
			}
			tag = strings.TrimSpace(other + tag)
		case 1:
			tag = strings.TrimSpace(tag + " other:\"-\"")
		}
		b.WriteString("\t" + name + " " + t)
		if tag != "" {
			b.WriteString(" `" + tag + "`")
		}
		b.WriteString("\n")
	}
	return b.String()
}

var rxJSONKey = regexp.MustCompile("json:\"([^\",]+)")

// cluster declares a few struct types that refer to each other.
func (g *srcGen) cluster(id int) {
	names := []string{fmt.Sprintf("P%dA", id), fmt.Sprintf("P%dB", id), fmt.Sprintf("G%dA", id), fmt.Sprintf("G%dB", id), fmt.Sprintf("G%dC", id)}
	bodies := map[string]string{}
	for i, name := range names {
		g.refs = 2
		var byValue, byRef, hidden []string
		if i > 0 {
			byValue = names[:i]
		}
		// Types without methods cannot be recursive
		if i >= 2 {
			byRef = names[2:]
		}
		body := ""
		if i > 0 && g.r.P(1, 2) {
			// embed one of the types before
			e := names[g.r.N(i)]
			for _, m := range rxJSONKey.FindAllStringSubmatch(bodies[e], -1) {
				if m[1] != "-" && !strings.Contains(bodies[e], "struct {") {
					hidden = append(hidden, m[1])
				}
			}
			plain := bodies[e]
			if g.r.P(1, 4) {
				// by the name of an alias
				g.n++
				alias := fmt.Sprintf("GAlias%d", g.n)
				if g.r.P(1, 2) {
					g.out = append(g.out, "type "+alias+" = "+e+"\n")
					e = g.r.Pick("", "*") + alias
				} else {
					g.out = append(g.out, "type "+alias+" = *"+e+"\n")
					e = alias
				}
				body += "\t" + e
			} else {
				body += "\t" + g.r.Pick("", "*") + e
			}
			if g.r.P(1, 6) && strings.Contains(plain, "\tF") {
				g.n++
				body += fmt.Sprintf(" `json:\"emb%d\"`", g.n)
				hidden = nil
			}
			body += "\n"
		}
		fields := g.fields(g.r.N(8), 3, byValue, byRef, hidden)
		if g.r.P(1, 2) {
			body += fields
		} else {
			body = fields + body
		}
		if i > 1 && g.r.P(1, 12) {
			body += "\tNStr\n"
		}
		if g.r.P(1, 12) {
			body += "\t_ int\n"
		}
		bodies[name] = body
		g.out = append(g.out, "type "+name+" struct {\n"+body+"}\n")
	}
}

// large declares types with many fields, long keys, long chains of embedded structs and deep nesting.
func (g *srcGen) large() []string {
	body := g.fields(g.r.Pick2(40, 66, 129, 260), 1, nil, nil, nil)
	for i := g.r.N(3); i >= 0; i-- {
		g.n++
		body += fmt.Sprintf("\tF%d %s `json:\"%s%d\"`\n", g.n, g.r.Pick("int", "string", "[]int"), strings.Repeat(g.r.Pick("k", "long key ", "é", "日本"), g.r.Pick2(20, 64, 129, 300)), g.n)
	}
	g.out = append(g.out, "type GxA struct {\n"+body+"}\n")
	// A chain of embedded structs
	n := g.r.Range(4, 14)
	for i := 0; i < n; i++ {
		body := ""
		if i > 0 {
			body = fmt.Sprintf("\t%sPx%d\n", g.r.Pick("", "*"), i-1)
		}
		if g.r.P(1, 4) {
			body += g.fields(1, 1, nil, nil, nil)
		} else {
			body = g.fields(1, 1, nil, nil, nil) + body
		}
		g.out = append(g.out, fmt.Sprintf("type Px%d struct {\n%s}\n", i, body))
	}
	g.out = append(g.out, fmt.Sprintf("type GxB struct {\n\t%sPx%d\n%s}\n", g.r.Pick("", "*"), n-1, g.fields(2, 1, nil, nil, nil)))
	// Deep types
	body = ""
	for i := 0; i < 2; i++ {
		t := g.r.Pick("int", "string", "NStr", "float64", "interface{}")
		for k := g.r.Range(5, 16); k > 0; k-- {
			switch g.r.N(5) {
			case 0:
				t = "*" + t
			case 1, 2:
				t = "[]" + t
			case 3:
				t = "map[string]" + t
			case 4:
				g.n++
				t = fmt.Sprintf("struct {\nD%d %s\n}", g.n, t)
			}
		}
		g.n++
		body += fmt.Sprintf("\tF%d %s\n", g.n, t)
	}
	g.out = append(g.out, "type GxC struct {\n"+body+"}\n")
	// The fields of one embedded struct hide those of another, which is deeper
	shallow, deep := g.r.Range(0, 2), 0
	for deep = g.r.Range(0, 4); deep == shallow; deep = g.r.Range(0, 4) {
	}
	chain := func(name string, depth int) string {
		g.n++
		decl := fmt.Sprintf("F%d %s `json:\"hidden\"`\n\tX%s %s\n", g.n, g.r.Pick("int", "string", "[]int", "*bool"), name, g.r.Pick("int", "string"))
		for i := 0; i <= depth; i++ {
			g.out = append(g.out, fmt.Sprintf("type %s%d struct {\n\t%s}\n", name, i, decl))
			decl = g.r.Pick("", "*") + name + strconv.Itoa(i) + "\n"
		}
		return "\t" + decl
	}
	a, b := chain("Pa", shallow), chain("Pb", deep)
	if g.r.P(1, 2) {
		a, b = b, a
	}
	g.out = append(g.out, "type GxD struct {\n"+a+g.fields(1, 1, nil, nil, nil)+b+"}\n")
	return []string{"GxA", "GxB", "GxC", "GxD"}
}

const srcCommon = `
type (
	MyTime time.Time

	values struct { A int; B []string }
	node   struct { Values values; R map[string]r }
	r      struct { R []bool }
	m      map[s]n
	s      string
	n      int
	v      *size
	size   float64
	i      string
	out    []more
	more   struct { Err s }
	typ    []*typs
	typs   struct { N *n }
	data   interface{}

	NStr   string
	NInt8  int8
	NUint  uint
	NFloat float64
	NBool  bool
	NSlice []NInt8
	NMap   map[NStr]NFloat
	NPtr   *NStr
	NTexts []LT
	RawS   string
	Text   string
	LT     string
)

// MarshalText wraps the text
func (t LT) MarshalText() ([]byte, error) { return []byte("(" + string(t) + ")"), nil }

// UnmarshalText unwraps the text
func (t *LT) UnmarshalText(b []byte) error {
	if len(b) < 2 || b[0] != '(' || b[len(b)-1] != ')' {
		return errors.New("not in parentheses")
	}
	*t = LT(b[1 : len(b)-1])
	return nil
}

`

// genPackage returns the files of package gtN and the names of the types to generate.
func genPackage(r *Rng, name string, clusters int) (files map[string]string, types []string) {
	g := &srcGen{r: r}
	for i := 0; i < clusters; i++ {
		g.cluster(i)
		types = append(types, fmt.Sprintf("G%dA", i), fmt.Sprintf("G%dB", i), fmt.Sprintf("G%dC", i))
	}
	types = append(types, g.large()...)
	files = map[string]string{"common.go": "package " + name + "\n\nimport \"errors\"\nimport \"time\"\n" + srcCommon}
	n := r.Range(1, 4)
	parts := make([]string, n)
	for _, d := range g.out {
		parts[r.N(n)] += d + "\n"
	}
	for i, p := range parts {
		imports := genImports(p)
		files[fmt.Sprintf("types%d.go", i)] = "package " + name + "\n\n" + imports + "\n" + p
	}
	return
}

var gthOthers = []string{"values", "node", "v", "out", "r"}

// genImports returns the imports of declarations. Two packages have the same name.
func genImports(decl string) (imports string) {
	for _, name := range gthOthers {
		if strings.Contains(decl, "i"+name+".") {
			imports += fmt.Sprintf("import i%s \"vmon/gth/%s\"\n", name, name)
		}
	}
	for _, path := range []string{"database/sql", "net/url", "time", "vmon/gth", "text/scanner"} {
		if strings.Contains(decl, filepath.Base(path)+".") {
			imports += fmt.Sprintf("import %q\n", path)
		}
	}
	if strings.Contains(decl, "gsc.") {
		imports += "import gsc \"go/scanner\"\n"
	}
	return
}

func writeFiles(dir string, files map[string]string) error {
	if err := os.MkdirAll(dir, 0755); err != nil {
		return err
	}
	for name, src := range files {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(src), 0644); err != nil {
			return err
		}
	}
	return nil
}

// ---- the generator ----

// njsonTool runs the generator built from the repository.
func njsonTool(env *Env, dir string, args ...string) (stdout, stderr string, err error) {
	// A generator that does not end is stopped by the CPU time or memory it uses
	cmd := exec.Command("/bin/sh", append([]string{"-c", `ulimit -t 20; ulimit -v 4000000; exec "$0" "$@"`, filepath.Join(env.Scratch, "njson")}, args...)...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOPATH="+filepath.Join(env.Scratch, "gopath"), "GOMODCACHE="+os.Getenv("VMON_MODCACHE"))
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	err = cmd.Run()
	return ob.String(), eb.String(), err
}

// refused checks that the generator reported an error and did not crash.
func (c *Case) refused(err error, stderr string) {
	if ee, ok := err.(*exec.ExitError); ok && (ee.ExitCode() != 1 || strings.Contains(stderr, "goroutine ")) {
		c.Failf("the generator crashes: %v\n%s", err, clip(stderr, 600))
	}
	if strings.TrimSpace(stderr) == "" {
		c.Failf("the generator fails and does not say why: %v", err)
	}
}

func goTool(dir string, args ...string) (string, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	err := cmd.Run()
	if err != nil {
		return eb.String(), fmt.Errorf("go %s: %v\n%s", args[0], err, eb.String())
	}
	return ob.String(), nil
}

func copyFile(dst, src string) error {
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(dst), 0755); err != nil {
		return err
	}
	return os.WriteFile(dst, b, 0755)
}

// genNeeds builds the generator, makes random packages, generates their methods and builds
// a monitor with the packages compiled in, which then runs the cases.
func genNeeds(p *Prop, env *Env) ([]Violation, error) {
	repo := os.Getenv("VMON_REPO")
	harness := os.Getenv("VMON_HARNESS")
	if repo == "" || harness == "" {
		return nil, errors.New("VMON_REPO and VMON_HARNESS are not set")
	}
	if out, err := goTool(repo, "env", "GOMODCACHE"); err == nil {
		os.Setenv("VMON_MODCACHE", strings.TrimSpace(out))
	}
	if _, err := goTool(repo, "build", "-o", filepath.Join(env.Scratch, "njson"), "./cmd/njson"); err != nil {
		return nil, err
	}
	if err := writeFiles(filepath.Join(harness, "gth"), map[string]string{"gth.go": gthSource}); err != nil {
		return nil, err
	}
	// packages named as variables of the generated code
	for _, name := range gthOthers {
		src := "package " + name + "\n\ntype S struct {\n\tA int\n\tB []K\n\tc bool\n}\n\ntype K string\n"
		if err := writeFiles(filepath.Join(harness, "gth", name), map[string]string{name + ".go": src}); err != nil {
			return nil, err
		}
	}
	// The generator loads packages from $GOPATH/pkg
	pkgDir := filepath.Join(env.Scratch, "gopath", "pkg", runtimeOSArch())
	for _, dir := range []string{repo, harness} {
		pattern := "./..."
		if dir == harness {
			pattern = "./gth/..."
		}
		out, err := goTool(dir, "list", "-e", "-export", "-deps", "-f", "{{if and (not .Standard) .Export}}{{.ImportPath}} {{.Export}}{{end}}", pattern)
		if err != nil {
			return nil, err
		}
		for _, line := range strings.Split(out, "\n") {
			if f := strings.Fields(line); len(f) == 2 {
				if err := copyFile(filepath.Join(pkgDir, f[0]+".a"), f[1]); err != nil {
					return nil, err
				}
			}
		}
	}
	out, err := goTool(harness, "list", "-export", "-deps", "-f", "{{if .Export}}{{.ImportPath}} {{.Export}}{{end}}", "./gth/...", "time", "net/url", "database/sql", "errors", "math", "strconv", "go/scanner", "text/scanner", "sync", "container/list", "encoding/json", "encoding", "fmt", "strings")
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(env.Scratch, "exports.txt"), []byte(out), 0644); err != nil {
		return nil, err
	}
	n := genPkgs(p.ID, env.Tier)
	type made struct {
		dir, src string
		v        *Violation
		err      error
		types    []string
	}
	all := make([]made, n)
	parallel(n, func(i int) {
		m := &all[i]
		name := fmt.Sprintf("gt%d", i)
		m.dir = filepath.Join(harness, name)
		var args []string
		var files map[string]string
		if p.ID == "C29" {
			files, m.types = genPackage(&Rng{s: caseSeed(env.Seed, "C29", "package", i)}, name, 10)
			args = []string{"-w", "-p", m.dir, name, "^G"}
		} else {
			o := newOptPackage(env.Seed, i)
			files = o.source(name)
			args = append(append([]string{"-w", "-p", m.dir}, o.args...), name)
			if o.typeArg != "" {
				args = append(args, o.typeArg)
			}
			for _, t := range o.types {
				m.types = append(m.types, t.name)
			}
		}
		if m.err = writeFiles(m.dir, files); m.err != nil {
			return
		}
		names := []string{}
		for f := range files {
			names = append(names, f)
		}
		sort.Strings(names)
		for _, f := range names {
			m.src += files[f] + "\n"
		}
		fail := func(kind, msg string) {
			m.v = &Violation{Property: p.ID, Stage: "generate", Case: i, Seed: env.Seed, Tier: env.Tier, Kind: kind, Message: msg,
				Trace: strings.Split("njson "+strings.Join(args, " ")+"\n"+m.src, "\n")}
		}
		// The package must compile on its own
		if out, err := goTool(harness, "build", "./"+name); err != nil {
			m.err = fmt.Errorf("generated types do not compile: %s\n%s", out, m.src)
			return
		}
		if _, stderr, err := njsonTool(env, harness, args...); err != nil {
			fail("oracle", fmt.Sprintf("generation fails for supported types (%v): %s", err, clip(stderr, 1500)))
			return
		}
		if out, err := goTool(harness, "build", "./"+name); err != nil {
			fail("oracle", "generated code does not compile: "+clip(out, 1500))
		}
	})
	var vs []Violation
	reg := "package main\n\nimport \"reflect\"\nimport \"vmon/gth\"\n"
	body := "\nfunc init() {\n\tgenFail = func(n int) { gth.FailAt, gth.Failed = n, nil }\n\tgenFailed = func() error { return gth.Failed }\n"
	for i, m := range all {
		if m.err != nil {
			return nil, m.err
		}
		if m.v != nil {
			vs = append(vs, *m.v)
		}
		reg += fmt.Sprintf("import \"vmon/gt%d\"\n", i)
		for _, t := range m.types {
			if t[0] >= 'A' && t[0] <= 'Z' {
				body += fmt.Sprintf("\tgenTypes = append(genTypes, genType{%d, %q, reflect.TypeOf(gt%d.%s{})})\n", i, t, i, t)
			}
		}
	}
	if len(vs) > 0 {
		return vs, nil
	}
	if err := writeFiles(harness, map[string]string{"zz_generated.go": reg + body + "}\n"}); err != nil {
		return nil, err
	}
	env.Self = filepath.Join(env.Scratch, "vmon-gen")
	if _, err := goTool(harness, "build", "-o", env.Self, "."); err != nil {
		return nil, err
	}
	return nil, nil
}

func parallel(n int, fn func(i int)) {
	next := make(chan int, n)
	for i := 0; i < n; i++ {
		next <- i
	}
	close(next)
	done := make(chan bool)
	for w := 0; w < 8; w++ {
		go func() {
			for i := range next {
				fn(i)
			}
			done <- true
		}()
	}
	for w := 0; w < 8; w++ {
		<-done
	}
}

// ---- C29 ----

var (
	typTime     = reflect.TypeOf(time.Time{})
	typDuration = reflect.TypeOf(time.Duration(0))
	typIP       = reflect.TypeOf(net.IP{})
	typTextU    = typeOf((*encoding.TextUnmarshaler)(nil))
	typJSONU    = typeOf((*json.Unmarshaler)(nil))
)

// hookKind tells which hook decodes values of a type: time, duration, text, json or none.
func hookKind(t reflect.Type) string {
	switch {
	case t == typTime:
		return "time"
	case t == typDuration:
		return "duration"
	case t.Kind() == reflect.Interface || t.Kind() == reflect.Ptr:
		return ""
	case strings.HasSuffix(t.PkgPath(), "/gth") && t.Name() != "OM" && !strings.HasPrefix(strings.ToLower(t.Name()), "priv") && !strings.HasSuffix(strings.ToLower(t.Name()), "mixed"), t.Name() == "LT":
		if reflect.PtrTo(t).Implements(typJSONU) {
			return "json"
		}
		return "text"
	case t.Name() == "RawS":
		return "raw"
	}
	return ""
}

func genFill(r *Rng) func(v reflect.Value) bool {
	return func(v reflect.Value) bool {
		switch k := hookKind(v.Type()); k {
		case "time":
			tm := time.Unix(int64(r.U64()%250000000000)-62000000000, 0).UTC()
			if r.P(1, 2) {
				tm = tm.Add(time.Duration(r.N(1e9)))
			}
			if r.P(1, 3) {
				tm = tm.In(time.FixedZone("", r.Range(-14*60, 14*60)*60))
			}
			if y := tm.Year(); y < 1 || y > 9998 || r.P(1, 6) {
				tm = time.Time{}
			}
			v.Set(reflect.ValueOf(tm))
		case "duration":
			d := genInt(r)
			if r.P(1, 4) {
				d = 0
			}
			v.SetInt(d)
		case "text", "json":
			s := toValidUTF8(genString(r, 40))
			if v.Kind() == reflect.String {
				v.SetString(s)
			} else {
				v.Field(0).SetString(s)
			}
		case "raw":
			v.SetString(r.Pick("", "plain", "ünï code", "日本", "a/b", "two words"))
		default:
			return false
		}
		return true
	}
}

func genText(r *Rng) func(t reflect.Type) *Tree {
	fill := genFill(r)
	return func(t reflect.Type) *Tree {
		if hookKind(t) == "" {
			return nil
		}
		p := reflect.New(t)
		fill(p.Elem())
		b, err := json.Marshal(p.Interface())
		if err != nil {
			panic(broken(err.Error()))
		}
		tr, err := refDoc(string(b))
		if err != nil {
			panic(broken(err.Error()))
		}
		if k := hookKind(t); k == "text" || k == "json" {
			respell(r, tr)
		}
		return tr
	}
}

// respell spells the strings of a tree in another way.
func respell(r *Rng, t *Tree) {
	if t.Kind == 's' {
		t.Raw = rawOf(r, refUnescape(t.Raw))
	}
	for i, k := range t.Keys {
		t.Keys[i] = rawOf(r, refUnescape(k))
	}
	for _, k := range t.Kids {
		respell(r, k)
	}
}

// genNull tells the types of values for which null is accepted by generated code as by encoding/json.
func genNull(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Interface, reflect.String:
		return hookKind(t) == ""
	}
	return false
}

func (c *Case) genType() reflect.Type {
	if len(genTypes) == 0 {
		c.Broken("no generated types")
	}
	return genTypes[c.Idx%len(genTypes)].typ
}

// genDecode decodes through the generated method, directly or through the codecs of the module.
func genDecode(c *Case, t reflect.Type, s string) (reflect.Value, error) {
	d := freshDoc(c.R)
	n, _, err := d.Parse(s)
	if err != nil {
		c.Failf("%v\n%s", err, s)
	}
	p := reflect.New(t)
	u, ok := p.Interface().(njson.Unmarshaler)
	if !ok {
		c.Failf("%s has no UnmarshalNodeJSON method", t)
	}
	err = u.UnmarshalNodeJSON(n)
	c.Eval(1)
	if c.R.P(1, 4) {
		p2 := reflect.New(t)
		err2 := unjson.UnmarshalFromString(s, p2.Interface())
		if (err == nil) != (err2 == nil) {
			c.Failf("the generated method returns %v, UnmarshalFromString %v\n%s %s", err, err2, t, s)
		}
		if err == nil {
			if d := diffValues(p.Elem(), p2.Elem(), eqOpt{}); d != "" {
				c.Failf("the generated method and UnmarshalFromString differ: %s\n%s %s", d, t, s)
			}
		}
	}
	return p, err
}

func c29Decode(c *Case) {
	t := c.genType()
	for i := 0; i < 4; i++ {
		g := TextGen{r: c.R, tag: "json", nulls: c.R.P(1, 2), nullOK: genNull, dups: true, hook: genText(c.R), budget: c.R.Range(5, 100)}
		tr := g.tree(t, c.R.Range(2, 8))
		if tr.Kind == 'n' {
			continue
		}
		s := tr.spaced(c.R, c.R.N(2))
		c.Logf("type %s text %s", t, s)
		want := reflect.New(t)
		if err := json.Unmarshal([]byte(s), want.Interface()); err != nil {
			c.Broken("encoding/json: %v\ntype %s\n%s", err, t, s)
		}
		got, err := genDecode(c, t, s)
		if err != nil {
			c.Failf("generated code of %s: %v\n%s", t, err, clip(s, 600))
		}
		if d := diffValues(got.Elem(), want.Elem(), eqOpt{}); d != "" {
			c.Failf("generated code of %s differs from encoding/json: %s\n%s", t, d, clip(s, 600))
		}
		c.Count("values decoded", len(g.sites))
		c.Count("nulls", g.Nulls)
		c.Sig("decode", hashStr(t.String()), shapeOf(s))
		c.Sample("decode", "%s %s", t, clip(s, 200))
	}
}

// c29Reuse decodes texts with members for all fields into variables that hold other values.
func c29Reuse(c *Case) {
	t := c.genType()
	p := reflect.New(t)
	u, ok := p.Interface().(njson.Unmarshaler)
	if !ok {
		c.Failf("%s has no UnmarshalNodeJSON method", t)
	}
	for i := 0; i < 4; i++ {
		g := TextGen{r: c.R, tag: "json", nulls: c.R.P(1, 2), nullOK: genNull, hook: genText(c.R), budget: c.R.Range(5, 100), full: i > 0}
		tr := g.tree(t, c.R.Range(2, 8))
		if tr.Kind == 'n' {
			continue
		}
		s := tr.spaced(c.R, c.R.N(2))
		c.Logf("type %s text %s", t, s)
		fresh, err := genDecode(c, t, s)
		d := freshDoc(c.R)
		n, _, perr := d.Parse(s)
		if perr != nil {
			c.Failf("%v\n%s", perr, s)
		}
		err2 := u.UnmarshalNodeJSON(n)
		d.Close()
		c.Eval(1)
		if err != nil || err2 != nil {
			c.Failf("generated code of %s: %v, into a used variable: %v\n%s", t, err, err2, clip(s, 600))
		}
		if i == 0 {
			continue
		}
		if d := diffValues(p.Elem(), fresh.Elem(), eqOpt{reused: true}); d != "" {
			c.Failf("generated code of %s decoding into a used variable: %s\n%s", t, d, clip(s, 600))
		}
		c.Sig("reuse", hashStr(t.String()), shapeOf(s))
	}
}

// c29Partial decodes texts that lack members into variables that hold other values.
func c29Partial(c *Case) {
	t := c.genType()
	for i := 0; i < 4; i++ {
		g := TextGen{r: c.R, tag: "json", nullOK: genNull, hook: genText(c.R), budget: c.R.Range(10, 100), full: true}
		tr := g.tree(t, c.R.Range(3, 8))
		g = TextGen{r: c.R, tag: "json", nullOK: genNull, hook: genText(c.R), budget: c.R.Range(5, 80)}
		tr2 := g.tree(t, c.R.Range(2, 8))
		if tr.Kind == 'n' || tr2.Kind == 'n' {
			continue
		}
		before, s := tr.spaced(c.R, 0), tr2.spaced(c.R, c.R.N(2))
		c.Logf("type %s text %s used for %s", t, s, before)
		got, want := reflect.New(t), reflect.New(t)
		for _, p := range []reflect.Value{got, want} {
			if err := json.Unmarshal([]byte(before), p.Interface()); err != nil {
				c.Broken("encoding/json: %v\ntype %s\n%s", err, t, before)
			}
			dropSlices(p.Elem())
		}
		old, oldWant := pointees(got.Elem()), pointees(want.Elem())
		if err := json.Unmarshal([]byte(s), want.Interface()); err != nil {
			c.Broken("encoding/json: %v\ntype %s\n%s", err, t, s)
		}
		d := freshDoc(c.R)
		n, _, err := d.Parse(s)
		if err != nil {
			c.Failf("%v\n%s", err, s)
		}
		err = got.Interface().(njson.Unmarshaler).UnmarshalNodeJSON(n)
		d.Close()
		c.Eval(1)
		if err != nil {
			c.Failf("generated code of %s into a used variable: %v\n%s", t, err, clip(s, 600))
		}
		if d := diffValues(got.Elem(), want.Elem(), eqOpt{}); d != "" {
			c.Failf("generated code of %s decoding into a used variable differs from encoding/json: %s\n%s\nit was used for\n%s", t, d, clip(s, 600), clip(before, 600))
		}
		now, nowWant := pointees(got.Elem()), pointees(want.Elem())
		for k, p := range old {
			if oldWant[k] == nowWant[k] && now[k] != p {
				c.Failf("generated code of %s replaces the variable of %s\n%s\nit was used for\n%s", t, k, clip(s, 600), clip(before, 600))
			}
		}
		c.Count("pointers kept", len(old))
		c.Sig("partial", hashStr(t.String()), shapeOf(s))
	}
}

func c29Faults(c *Case) {
	t := c.genType()
	for i := 0; i < 4; i++ {
		g := TextGen{r: c.R, tag: "json", nulls: c.R.P(1, 4), nullOK: genNull, hook: genText(c.R), budget: c.R.Range(5, 60)}
		tr := g.tree(t, c.R.Range(2, 8))
		s := g.sites[c.R.N(len(g.sites))]
		var bad *Tree
		num := &Tree{Kind: '0', Raw: "12"}
		obj := &Tree{Kind: 'o'}
		arr := &Tree{Kind: 'a'}
		str := &Tree{Kind: 's', Raw: c.R.Pick("bad", "", "2020", "12h")}
		leaf := s.typ
		for leaf.Kind() == reflect.Ptr {
			leaf = leaf.Elem()
		}
		switch hookKind(leaf) {
		case "time", "text":
			bad = []*Tree{num, obj, arr, str}[c.R.N(4)]
		case "json":
			bad = []*Tree{num, obj, arr, str}[c.R.N(4)]
		case "duration":
			bad = []*Tree{obj, arr, {Kind: 'b', Raw: "true"}, {Kind: 's', Raw: "soon"}, {Kind: '0', Raw: c.R.Pick("9223372036854775808", "1e30", "-1e19", "-9223372036854775809", "1e400")}}[c.R.N(5)]
		case "raw":
			continue
		default:
			bad = g.wrong(leaf)
		}
		if bad == nil {
			continue
		}
		*s.node = *bad
		text := tr.spaced(c.R, c.R.N(2))
		c.Logf("type %s text %s fault %s for %s", t, text, bad.text(), s.typ)
		if err := json.Unmarshal([]byte(text), reflect.New(t).Interface()); err == nil {
			c.Count("fault accepted by encoding/json too", 1)
			continue
		}
		if _, err := genDecode(c, t, text); err == nil {
			c.Failf("%s decoded to %s without an error by generated code of %s\n%s", bad.text(), s.typ, t, clip(text, 600))
		}
		c.Count("faults injected", 1)
		c.Sig("fault", hashStr(t.String()), kindTag(s.typ), hashStr(bad.text()), shapeOf(text))
		c.Sample("fault "+s.typ.Kind().String(), "%s in %s", bad.text(), clip(text, 150))
	}
}

// c29Hook is what generated code appends in its own way: values with hooks, generic values, nil maps and floats.
func c29Hook(v reflect.Value) (*Tree, bool) {
	t := v.Type()
	pt := reflect.PtrTo(t)
	switch {
	case v.Kind() == reflect.Ptr:
		return nil, false
	case v.Kind() == reflect.Float32:
		return &Tree{Kind: '0', Raw: strconv.FormatFloat(v.Float(), 'g', -1, 64)}, true
	case v.Kind() == reflect.Map && v.IsNil():
		return &Tree{Kind: 'o'}, true
	case v.Kind() == reflect.Interface, pt.Implements(reflect.TypeOf((*json.Marshaler)(nil)).Elem()), pt.Implements(reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()):
		p := reflect.New(t)
		p.Elem().Set(v)
		b, err := json.Marshal(p.Interface())
		if err != nil {
			panic(broken(err.Error()))
		}
		tr, err := refDoc(string(b))
		if err != nil {
			panic(broken(err.Error()))
		}
		return tr, true
	}
	return nil, false
}

func c29Append(c *Case) {
	t := c.genType()
	for i := 0; i < 4; i++ {
		p := reflect.New(t)
		vg := newValueGen(c.R)
		vg.hook = genFill(c.R)
		vg.nilSlices = true
		vg.iface = func(depth int) interface{} { return vg.generic(depth) }
		vg.fill(p.Elem(), c.R.Range(2, 7))
		a, ok := p.Interface().(njson.Appender)
		if !ok {
			c.Failf("%s has no AppendJSON method", t)
		}
		prefix := genBefore(c.R)
		buf := append(make([]byte, 0, c.R.Pick2(0, 20, 30, 4000)), prefix...)
		out, err := a.AppendJSON(buf)
		c.Eval(2)
		if err != nil {
			c.Failf("%s: AppendJSON: %v\n%s", t, err, mustJSON(p.Interface()))
		}
		if string(buf) != prefix || !bytes.HasPrefix(out, buf) {
			c.Failf("AppendJSON of %s changed the bytes before its output: %q", t, clip(string(out), 200))
		}
		out = out[len(prefix):]
		c.Logf("type %s out %s", t, out)
		if _, err := refDoc(string(out)); err != nil {
			c.Failf("AppendJSON of %s is not valid JSON: %v\n%s", t, err, clip(string(out), 600))
		}
		back := reflect.New(t)
		if err := json.Unmarshal(out, back.Interface()); err != nil {
			c.Failf("AppendJSON of %s is not decoded by encoding/json: %v\n%s", t, err, clip(string(out), 600))
		}
		if d := diffValues(back.Elem(), p.Elem(), eqOpt{tag: "json", roundTrip: true, nilMaps: true}); d != "" {
			c.Failf("AppendJSON of %s decodes to another value: %s\n%s\n%s", t, d, clip(string(out), 600), mustJSON(p.Interface()))
		}
		// It holds exactly the members of the fields that are not omitted
		tr, _ := refDoc(string(out))
		m := EncModel{tag: "json", dropNil: true, hook: c29Hook}
		if d := meaning(tr, m.encode(p.Elem(), false, false)); d != "" {
			c.Failf("AppendJSON of %s: %s\n%s\n%s", t, d, clip(string(out), 600), mustJSON(p.Interface()))
		}
		c.Count("fields left out", m.Omitted)
		c.Count("fields appended", m.Kept)
		// and as a whole by the generated decoder, unless it holds a null for something that takes none
		if m, err := unjson.Marshal(p.Interface()); err != nil {
			c.Failf("Marshal of %s: %v", t, err)
		} else if d := sameMeaning(string(m), string(out)); d != "" {
			c.Failf("Marshal and AppendJSON of %s differ: %s\n%s\n%s", t, d, clip(string(m), 400), clip(string(out), 400))
		}
		c.Sig("append", hashStr(t.String()), shapeOf(string(out)))
		c.Sample("append", "%s %s", t, clip(string(out), 200))
	}
	// A nil pointer and a null
	if out, err := reflect.Zero(reflect.PtrTo(t)).Interface().(njson.Appender).AppendJSON(nil); err != nil || string(out) != "null" {
		c.Failf("AppendJSON of a nil *%s: %q %v", t, out, err)
	}
}

// c29HookErrors checks that an error of a hook method is returned by the generated methods.
func c29HookErrors(c *Case) {
	t := c.genType()
	if genFail == nil {
		c.Broken("no generated types")
	}
	defer genFail(0)
	for i := 0; i < 4; i++ {
		p := reflect.New(t)
		vg := newValueGen(c.R)
		vg.hook = genFill(c.R)
		vg.fill(p.Elem(), c.R.Range(2, 7))
		genFail(c.R.Range(1, 6))
		out, err := p.Interface().(njson.Appender).AppendJSON(nil)
		c.Eval(2)
		if genFailed() != nil {
			if err == nil {
				c.Failf("AppendJSON of %s: a hook failed and no error is returned\n%s", t, clip(string(out), 400))
			}
			if err != genFailed() {
				c.Failf("AppendJSON of %s: error %v, want the error of the hook", t, err)
			}
			c.Count("hook errors", 1)
			c.Sig("append error", hashStr(t.String()), uint64(i))
		} else if err != nil {
			c.Failf("AppendJSON of %s: %v", t, err)
		}
		g := TextGen{r: c.R, tag: "json", hook: genText(c.R), budget: c.R.Range(5, 60)}
		genFail(0)
		s := g.tree(t, c.R.Range(2, 8)).text()
		n, _, err := freshDoc(c.R).Parse(s)
		if err != nil {
			c.Failf("%v\n%s", err, s)
		}
		genFail(c.R.Range(1, 6))
		err = reflect.New(t).Interface().(njson.Unmarshaler).UnmarshalNodeJSON(n)
		if genFailed() != nil {
			if err == nil {
				c.Failf("UnmarshalNodeJSON of %s: a hook failed and no error is returned\n%s", t, s)
			}
			c.Count("hook errors", 1)
			c.Sig("unmarshal error", hashStr(t.String()), uint64(i))
		} else if err != nil {
			c.Failf("UnmarshalNodeJSON of %s: %v\n%s", t, err, s)
		}
	}
}

var exportFiles map[string]string

// typeCheck checks Go files as the compiler does.
func typeCheck(c *Case, dir, pkg string) error {
	if exportFiles == nil {
		b, err := os.ReadFile(filepath.Join(c.Env.Scratch, "exports.txt"))
		if err != nil {
			c.Broken("%v", err)
		}
		exportFiles = map[string]string{}
		for _, line := range strings.Split(string(b), "\n") {
			if f := strings.Fields(line); len(f) == 2 {
				exportFiles[f[0]] = f[1]
			}
		}
	}
	fset := gotoken.NewFileSet()
	list, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		c.Broken("%v", err)
	}
	var files []*ast.File
	for _, name := range list {
		f, err := parser.ParseFile(fset, name, nil, 0)
		if err != nil {
			return err
		}
		files = append(files, f)
	}
	cfg := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		name := exportFiles[path]
		if name == "" {
			return nil, fmt.Errorf("package %q is not available", path)
		}
		return os.Open(name)
	})}
	_, err = cfg.Check(pkg, fset, files, nil)
	return err
}

// c29Compiles generates code for small packages, in which an import that is missing or not used shows.
func c29Compiles(c *Case) {
	dir := filepath.Join(c.Env.Scratch, fmt.Sprintf("co-%d-%d", os.Getpid(), c.Idx), "co")
	defer os.RemoveAll(filepath.Dir(dir))
	g := &srcGen{r: c.R}
	var names []string
	decl := ""
	for i := c.R.Range(1, 3); i > 0; i-- {
		g.refs = 1
		name := fmt.Sprintf("G%d", i)
		n := c.R.Pick2(0, 1, 1, 1, 2, 3)
		decl += "type " + name + " struct {\n" + g.fields(n, 3, names, nil, nil) + "}\n\n"
		names = append(names, name)
	}
	decl += strings.Join(g.out, "\n")
	imports := genImports(decl)
	files := map[string]string{"types.go": "package co\n\n" + imports + "\n" + decl, "common.go": "package co\n\nimport \"errors\"\nimport \"time\"\n" + srcCommon}
	if err := writeFiles(dir, files); err != nil {
		c.Broken("%v", err)
	}
	if err := typeCheck(c, dir, "co"); err != nil {
		c.Broken("%v\n%s", err, mapText(files))
	}
	args := []string{"-w", "-p", dir}
	switch c.R.N(4) {
	case 0:
		args = append(args, "-append")
	case 1:
		args = append(args, "-unmarshal")
	}
	if c.R.P(1, 4) {
		args = append(args, "-only-tagged")
	}
	if c.R.P(1, 4) {
		args = append(args, "-k", "other")
	}
	if c.R.P(1, 4) {
		args = append(args, "-match", c.R.Pick("[13579]$", "2", "X"))
	}
	if c.R.P(1, 4) {
		args = append(args, "-case", c.R.Pick("snake", "lower", "camel"))
	}
	args = append(args, "co", c.R.Pick("G1", "^G", "^G"))
	c.Logf("njson %v\n%s", args, decl)
	_, stderr, err := njsonTool(c.Env, dir, args...)
	c.Eval(1)
	if err != nil {
		c.Failf("njson %v: %v %s\n%s", args, err, clip(stderr, 500), decl)
	}
	if err := typeCheck(c, dir, "co"); err != nil {
		c.Failf("generated code does not compile: %v\nnjson %v\n%s", err, args, decl)
	}
	c.Count("packages compiled", 1)
	c.Sig("compiles", hashStr(decl), hashStr(fmt.Sprint(args[2:])))
	c.Sample("compiles", "%v %s", args[2:], decl)
}

func mustJSON(x interface{}) string {
	b, _ := json.Marshal(x)
	return clip(string(b), 600)
}

var c29Locals = strings.Fields("node typ r n values size s i b u f t x ok err m v out more data k d")

var c29Imports = strings.Fields("njson strjson numjson json strconv math time scanner url gth")

// c29Names generates code for packages whose declarations have names that the generated code uses too,
// or that are not plain ASCII.
func c29Names(c *Case) {
	pkg := c.R.Pick("nm", "nm", "time", "math", "strconv", "json", "njson", "scanner", "url", "gth", "node", "values", "r", "main", "errors", "encoding")
	dir := filepath.Join(c.Env.Scratch, fmt.Sprintf("nm-%d-%d", os.Getpid(), c.Idx), pkg)
	defer os.RemoveAll(filepath.Dir(dir))
	used := map[string]bool{}
	name := func() string {
		for {
			n := ""
			switch c.R.N(8) {
			case 0, 1, 2, 3:
				n = c.R.Pick(c29Locals...)
			case 4, 5:
				n = c.R.Pick(c29Imports...)
			case 6:
				n = c.R.Pick("Éa", "é", "_T", "_", "__", "世界", "Ω", "T世", "X_", "T1", "_1", "ñ", "ǅ", "İx")
			default:
				n = c.R.Pick("Node", "R", "N", "Values", "V", "Out", "Json", "Type", "Error", "Interface", "Func", "Range", "Map")
			}
			if !used[n] && n != "_" {
				used[n] = true
				return n
			}
		}
	}
	var decl strings.Builder
	// names of imports are free in another file
	imp := map[string]string{"time": "itime", "net/url": "iurl", "vmon/gth": "igth", "text/scanner": "iscan", "go/scanner": "igscan", "container/list": "ilist", "sync": "isync"}
	for _, name := range gthOthers {
		imp["vmon/gth/"+name] = "i" + name
	}
	var structs, others []string
	for i := c.R.Range(1, 5); i > 0; i-- {
		structs = append(structs, name())
	}
	for i := c.R.N(4); i > 0; i-- {
		n := name()
		t := c.R.Pick("string", "int", "float64", "bool", "interface{}", "[]string", "map[string]int", "*int", "[]"+c.R.Pick(structs...), "*"+c.R.Pick(structs...), "map[string]"+c.R.Pick(structs...), "[][]"+c.R.Pick(structs...))
		fmt.Fprintf(&decl, "type %s %s\n\n", n, t)
		others = append(others, n)
	}
	for i := c.R.N(4); i > 0; i-- {
		switch n := name(); c.R.N(6) {
		case 0:
			fmt.Fprintf(&decl, "var %s = 1\n\n", n)
		case 1:
			fmt.Fprintf(&decl, "const %s = \"x\"\n\n", n)
		case 2:
			fmt.Fprintf(&decl, "func %s() {}\n\n", n)
		case 3:
			fmt.Fprintf(&decl, "type %s = %s\n\n", n, c.R.Pick(structs...))
			others = append(others, n)
		case 4:
			fmt.Fprintf(&decl, "type %s = %s\n\n", n, c.R.Pick("*"+c.R.Pick(structs...), "[]int", "string", "iurl.URL", "iscan.Position"))
			others = append(others, n)
		default:
			fmt.Fprintf(&decl, "type %s string\n\n", n)
			others = append(others, "map["+n+"]"+c.R.Pick(structs...), n)
		}
	}
	field := 0
	var fields func(depth, i int) string
	typ := func(depth, i int) string {
		t := ""
		switch c.R.N(9) {
		case 0, 1, 2:
			t = c.R.Pick(structs...)
			if c.R.P(1, 3) && i > 0 {
				t = structs[c.R.N(i)]
			} else {
				t = c.R.Pick("*", "[]", "map[string]", "[]*") + t
			}
		case 3, 4:
			t = "int"
			if len(others) > 0 {
				// by reference, for they may contain this one
				t = c.R.Pick("*", "[]", "map[string]") + others[c.R.N(len(others))]
			}
		case 5:
			t = c.R.Pick("string", "int8", "float32", "interface{}", "uint", "bool", "float64", "interface{}")
		case 6, 7:
			t = c.R.Pick("itime.Time", "itime.Duration", "itime.Month", "iurl.URL", "iurl.Values", "igth.HJ", "igth.HT", "igth.Priv", "igth.Mixed", "iscan.Position", "igscan.Error", "isync.Mutex", "[]iscan.Position", "[]igscan.Error", "map[string]igscan.Error",
				"iv.S", "[]ivalues.S", "map[inode.K]*ir.S", "[][]iout.K", "*iv.S")
		default:
			if depth > 0 {
				t = c.R.Pick("", "*", "[]", "map[string]") + "struct {\n" + fields(depth-1, i) + "}"
			} else {
				t = "[]string"
			}
		}
		return t
	}
	fields = func(depth, i int) string {
		b := ""
		for k := c.R.N(4); k > 0; k-- {
			field++
			b += fmt.Sprintf("\t%s %s\n", c.R.Pick("F", "f", "Ж", "_", "r", "values", "node")+strconv.Itoa(field), typ(depth, i))
		}
		return b
	}
	for i, n := range structs {
		embed := ""
		if i > 0 && c.R.P(1, 3) {
			embed = "\t" + structs[c.R.N(i)] + "\n"
		}
		fmt.Fprintf(&decl, "type %s struct {\n%s%s}\n\n", n, embed, fields(2, i))
	}
	src := decl.String()
	imports := ""
	for path, alias := range imp {
		if strings.Contains(src, alias+".") {
			imports += fmt.Sprintf("import %s %q\n", alias, path)
		}
	}
	files := map[string]string{"types.go": "package " + pkg + "\n\n" + imports + "\n" + src}
	if err := writeFiles(dir, files); err != nil {
		c.Broken("%v", err)
	}
	if err := typeCheck(c, dir, "x/"+pkg); err != nil {
		// by chance a type contains itself
		c.Count("packages left out, a type contains itself", 1)
		return
	}
	args := []string{"-w", "-p", dir}
	switch c.R.N(4) {
	case 0:
		args = append(args, "-append")
	case 1:
		args = append(args, "-unmarshal")
	}
	args = append(args, pkg)
	c.Logf("njson %v\n%s", args, src)
	_, stderr, err := njsonTool(c.Env, dir, args...)
	c.Eval(1)
	if err != nil {
		c.Failf("njson %v: %v %s\n%s", args, err, clip(stderr, 500), src)
	}
	if err := typeCheck(c, dir, "x/"+pkg); err != nil {
		b, _ := os.ReadFile(filepath.Join(dir, pkg+"_njson.go"))
		c.Logf("%s", b)
		c.Failf("generated code does not compile: %v\nnjson %v\n%s", err, args, src)
	}
	b, err := os.ReadFile(filepath.Join(dir, pkg+"_njson.go"))
	if err != nil {
		c.Failf("no output: %v", err)
	}
	for _, n := range structs {
		if !strings.Contains(string(b), "*"+n+") ") {
			c.Failf("no method of %s was generated\n%s", n, src)
		}
	}
	c.Count("packages compiled", 1)
	c.Sig("names", hashStr(src))
	c.Sample("names", "%s: %s", pkg, clip(src, 300))
}

func c29Unsupported(c *Case) {
	bad := c.R.Pick("NList", "NTree", "NRing", "NSelf", "NLoop", "gth.Tree",
		"chan int", "func()", "complex128", "complex64", "[3]int", "[0]string", "interface{ M() }", "map[int]string", "map[bool]int", "map[float64]string", "error", "map[[2]int]int", "unsafe.Pointer", "<-chan string", "NChan", "NArr", "NIface")
	t := bad
	for i := c.R.N(4); i > 0; i-- {
		t = c.R.Pick("*", "[]", "map[string]") + t
	}
	if c.R.P(1, 4) {
		t = "struct { X string; Y " + t + " }"
	}
	if c.R.P(1, 4) {
		t = "Inner"
	}
	tag := c.R.Pick("", " `json:\"bad\"`", " `json:\"bad,omitempty\"`", " `json:\",omitempty\"`")
	src := "package bad\n\nimport \"unsafe\"\n\nvar _ unsafe.Pointer\n\ntype NChan chan int\n\ntype NArr [2]int\n\ntype NIface interface { M() }\n\n" +
		"type NList []NList\n\ntype NTree map[string][]NTree\n\ntype NRing *NRing\n\n"
	src += "type Good struct {\n\tA string\n\tB []int\n}\n\ntype T struct {\n\tA string\n\tBad " + t + tag + "\n\tC int\n}\n"
	if t == "Inner" {
		src += "\ntype Inner struct {\n\tBad " + bad + "\n}\n"
	}
	switch bad {
	case "gth.Tree":
		src = strings.Replace(src, "import \"unsafe\"\n", "import \"unsafe\"\nimport \"vmon/gth\"\n\nvar _ gth.Tree\n", 1)
	case "NSelf", "NLoop":
		src += "\ntype NSelf struct {\n\tX int\n\t*NSelf\n}\n\ntype NLoop struct {\n\tX int\n\t*NBack\n}\n\ntype NBack struct {\n\tNLoop\n}\n"
	}
	dir := filepath.Join(c.Env.Scratch, fmt.Sprintf("bad-%d-%d", os.Getpid(), c.Idx))
	if err := writeFiles(dir, map[string]string{"bad.go": src}); err != nil {
		c.Broken("%v", err)
	}
	defer os.RemoveAll(dir)
	args := []string{"-w", "-p", dir}
	if c.R.P(1, 2) {
		args = append(args, "-append")
	}
	// A struct that is fine is generated
	stdout, stderr, err := njsonTool(c.Env, dir, "-p", dir, "bad", "Good")
	if err != nil || !strings.Contains(stdout, "Good") {
		c.Failf("no code for a supported type next to an unsupported one: %v %s", err, stderr)
	}
	args = append(args, "bad", c.R.Pick("T", "", "^T$", "*"))
	_, stderr, err = njsonTool(c.Env, dir, args...)
	c.Eval(2)
	if err == nil {
		c.Failf("code is generated for a field of type %s (%v)\n%s", t, args[2:], src)
	}
	c.refused(err, stderr)
	if _, err := os.Stat(filepath.Join(dir, "bad_njson.go")); err == nil {
		c.Failf("an output file is written for a field of type %s, that is refused\n%s", t, src)
	}
	c.Count("unsupported types refused", 1)
	c.Sig("unsupported", hashStr(t), hashStr(tag))
	c.Sample("unsupported", "%s: %s", t, clip(stderr, 150))
}

// ---- C30 ----

type optField struct {
	name, kind string
	tags       map[string]string // by tag key
	promoted   bool              // a field of the embedded type
}

type optType struct {
	name   string
	fields []optField
	embed  string // how the type that others embed is embedded
}

type optPackage struct {
	args, words                     []string
	typeArg, tagKey, match, mode    string
	onlyTagged, onlyExported, force bool
	app, unm                        bool
	types                           []optType
}

var optWords = []string{"Alpha", "Beta", "Gamma", "Delta", "Kilo", "Lima", "Mike", "Oscar", "Papa", "Romeo", "Sierra", "Tango", "Victor", "Zulu", "Echo", "Hotel"}

var optBaseWords = []string{"Xray", "Yankee", "Quebec", "Uniform", "Whiskey", "Foxtrot", "Juliet", "November", "Amber", "Bravo"}

// optFieldOf returns a field of a struct, or an invalid value when it is promoted through a nil pointer.
func optFieldOf(v reflect.Value, f *optField) reflect.Value {
	if f.promoted {
		v = v.FieldByName("BaseOne")
		if v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return reflect.Value{}
			}
			v = v.Elem()
		}
	}
	return v.FieldByName(f.name)
}

// newOptPackage makes package number i: its types and the options it is generated with.
func newOptPackage(seed uint64, i int) *optPackage {
	r := &Rng{s: caseSeed(seed, "C30", "package", i)}
	o := &optPackage{tagKey: "json", app: true, unm: true}
	if r.P(1, 2) {
		o.tagKey = "alt"
		o.args = append(o.args, "-k", "alt")
	}
	if r.P(1, 3) {
		o.onlyTagged = true
		o.args = append(o.args, "-only-tagged")
	}
	if r.P(1, 3) {
		o.onlyExported = true
		o.args = append(o.args, "-only-exported")
	}
	if r.P(1, 3) {
		o.force = true
		o.args = append(o.args, "-omitempty")
	}
	if r.P(1, 3) {
		o.match = r.Pick("^[A-Ma-m]", "Beta", "a$", "^.{5}$", "^[A-Z]", "(?i)o", "NOTHING", "^Alpha")
		o.args = append(o.args, "-match", o.match)
	}
	switch r.N(6) {
	case 0:
		o.mode = "snake"
	case 1:
		o.mode = "camel"
	case 2:
		o.mode = "lower"
	case 3:
		o.args = append(o.args, "-case", "none")
	}
	if o.mode != "" {
		o.args = append(o.args, "-case", o.mode)
	}
	switch r.N(4) {
	case 0:
		o.unm = false
		o.args = append(o.args, "-append")
	case 1:
		o.app = false
		o.args = append(o.args, "-unmarshal")
	case 2:
		if r.P(1, 2) {
			o.args = append(o.args, "-append", "-unmarshal")
		}
	}
	names := []string{"Tree", "TreeNode", "Node", "Leaf", "leaf", "subTree", "BaseOne"}
	embeds := map[string]string{}
	for _, name := range names[:6] {
		if r.P(1, 2) {
			embeds[name] = r.Pick("", "*") + "BaseOne"
			if r.P(1, 4) {
				embeds[name] += " `" + map[string]string{"json": "alt", "alt": "json"}[o.tagKey] + `:"based"` + "`"
			}
		}
	}
	for k, name := range names {
		t := optType{name: name}
		words := append([]string(nil), optWords...)
		if name == "BaseOne" {
			words = append([]string(nil), optBaseWords...)
		}
		for j := len(words) - 1; j > 0; j-- {
			x := r.N(j + 1)
			words[j], words[x] = words[x], words[j]
		}
		for j := r.N(8); j > 0; j-- {
			f := optField{name: words[j], tags: map[string]string{}}
			if r.P(1, 2) {
				f.name += words[len(words)-1-j%7]
			}
			if r.P(1, 4) {
				f.name = strings.ToLower(f.name[:1]) + f.name[1:]
			}
			f.kind = r.Pick("int", "string", "float64", "*int", "[]int", "map[string]int", "Named", "uint8")
			if j == 1 && k < 6 && r.P(1, 3) {
				// An embedded type that is not a struct
				f.name, f.kind = "Named", "Named"
			} else if !o.force && k > 0 && k < 6 && r.P(1, 6) {
				f.kind = names[r.N(k)]
			}
			for _, key := range []string{"json", "alt"} {
				if r.P(1, 2) {
					continue
				}
				tag := key + r.Pick("_", "-", ".", "é") + strings.ToUpper(f.name)
				switch r.N(6) {
				case 0:
					tag = ""
				case 1:
					tag = "-"
				}
				if _, isType := o.lookup(f.kind); tag != "-" && r.P(1, 3) && !isType && !contains(names, f.kind) {
					tag += r.Pick(",omitempty", ",omitempty", ",x=1,omitempty", ",omitempty,other")
				} else if tag != "-" && r.P(1, 5) {
					tag += r.Pick(",other", ",x=1", ",", ",omitempt", ",omitzero", ",other,x=2")
				}
				f.tags[key] = tag
			}
			t.fields = append(t.fields, f)
		}
		o.types = append(o.types, t)
	}
	base := o.types[6]
	for k := range o.types[:6] {
		t := &o.types[k]
		if t.embed = embeds[t.name]; t.embed == "" {
			continue
		}
		for _, f := range base.fields {
			f.promoted = true
			t.fields = append(t.fields, f)
		}
	}
	o.typeArg = r.Pick("", "", "*", "Tree", "^Tree", "Node$", "Leaf", "leaf", "(?i)leaf", "Node", ".*", "BaseOne", "[^e]$", "L")
	if o.typeArg == "L" {
		o.typeArg = "Leaf"
	}
	return o
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (o *optPackage) lookup(name string) (*optType, bool) {
	for i := range o.types {
		if o.types[i].name == name {
			return &o.types[i], true
		}
	}
	return nil, false
}

func (o *optPackage) source(pkg string) map[string]string {
	files := map[string]string{}
	for i, t := range o.types {
		name := fmt.Sprintf("f%d.go", i%3)
		if files[name] == "" {
			files[name] = "package " + pkg + "\n\n"
		}
		s := "type " + t.name + " struct {\n"
		embed := ""
		if t.embed != "" {
			embed = "\t" + t.embed + "\n"
		}
		if i%2 == 0 {
			s, embed = s+embed, ""
		}
		for _, f := range t.fields {
			if f.promoted {
				continue
			}
			s += "\t" + f.name + " " + f.kind
			if f.name == f.kind {
				s = strings.TrimSuffix(s, " "+f.kind)
			}
			tag := ""
			for _, key := range []string{"json", "alt"} {
				if v, ok := f.tags[key]; ok {
					tag += fmt.Sprintf(" %s:\"%s\"", key, v)
				}
			}
			if tag != "" {
				s += " `" + tag[1:] + "`"
			}
			s += "\n"
		}
		files[name] += s + embed + "}\n\n"
	}
	files["f0.go"] += "type Named string\n"
	return files
}

func (o *optPackage) selected(name string) bool {
	switch {
	case o.typeArg == "" || o.typeArg == "*":
		return true
	case regexp.QuoteMeta(o.typeArg) == o.typeArg:
		return name == o.typeArg
	}
	return regexp.MustCompile(o.typeArg).MatchString(name)
}

func changeCase(name, mode string) string {
	var words []string
	for _, c := range name {
		if c >= 'A' && c <= 'Z' || len(words) == 0 {
			words = append(words, "")
		}
		words[len(words)-1] += string(c)
	}
	for i, w := range words {
		words[i] = strings.ToLower(w)
		if mode == "camel" && i > 0 {
			words[i] = strings.ToUpper(w[:1]) + w[1:]
		}
	}
	switch mode {
	case "snake":
		return strings.Join(words, "_")
	case "camel", "lower":
		return strings.Join(words, "")
	}
	return name
}

// key returns the key of a field under the options, if it has one.
func (o *optPackage) key(f *optField) (key string, omit, ok bool) {
	if o.match != "" && !regexp.MustCompile(o.match).MatchString(f.name) {
		return
	}
	if o.onlyExported && f.name[0] >= 'a' {
		return
	}
	tag, tagged := f.tags[o.tagKey]
	if o.onlyTagged && !tagged || tag == "-" {
		return
	}
	parts := strings.Split(tag, ",")
	key = parts[0]
	if key == "" {
		key = changeCase(f.name, o.mode)
	}
	return key, o.force || contains(parts[1:], "omitempty"), true
}

// candidates are the keys a field could have under any options.
func (o *optPackage) candidates(f *optField) []string {
	all := []string{f.name, changeCase(f.name, "snake"), changeCase(f.name, "camel"), changeCase(f.name, "lower")}
	for _, tag := range f.tags {
		if name := strings.Split(tag, ",")[0]; name != "" {
			all = append(all, name)
		}
	}
	sort.Strings(all)
	out := all[:0]
	for i, k := range all {
		if i == 0 || all[i-1] != k {
			out = append(out, k)
		}
	}
	return out
}

// optCode numbers the values of keys.
func optCode(key string) int { return 1 + int(hashStr(key)%250) }

func optJSON(kind string, code int) string {
	switch kind {
	case "int", "*int", "uint8":
		return strconv.Itoa(code)
	case "float64":
		return strconv.Itoa(code) + ".5"
	case "string", "Named":
		return fmt.Sprintf(`"s%d"`, code)
	case "[]int":
		return fmt.Sprintf("[%d]", code)
	case "map[string]int":
		return fmt.Sprintf(`{"m":%d}`, code)
	}
	return ""
}

// optGet reads the code of a field, 0 when it is zero.
func optGet(v reflect.Value) int {
	switch v.Kind() {
	case reflect.Int:
		return int(v.Int())
	case reflect.Uint8:
		return int(v.Uint())
	case reflect.Float64:
		return int(v.Float())
	case reflect.String:
		n, _ := strconv.Atoi(strings.TrimPrefix(v.String(), "s"))
		return n
	case reflect.Ptr:
		if !v.IsNil() {
			return optGet(v.Elem())
		}
	case reflect.Slice:
		if v.Len() == 1 {
			return optGet(v.Index(0))
		}
	case reflect.Map:
		if x := v.MapIndex(reflect.ValueOf("m")); x.IsValid() {
			return optGet(x)
		}
	}
	return 0
}

// text is an object with all keys the fields of a type could have.
func (o *optPackage) text(r *Rng, t *optType) string {
	var parts []string
	for i := range t.fields {
		f := &t.fields[i]
		for _, k := range o.candidates(f) {
			val := optJSON(f.kind, optCode(k))
			if sub, ok := o.lookup(f.kind); ok {
				val = o.text(r, sub)
			}
			parts = append(parts, fmt.Sprintf("%q:%s", k, val))
		}
	}
	for j := len(parts) - 1; j > 0; j-- {
		x := r.N(j + 1)
		parts[j], parts[x] = parts[x], parts[j]
	}
	return "{" + strings.Join(parts, ",") + "}"
}

// read checks that exactly the selected fields were decoded from text.
func (o *optPackage) read(v reflect.Value, t *optType) string {
	for i := range t.fields {
		f := &t.fields[i]
		key, _, ok := o.key(f)
		fv := optFieldOf(v, f)
		if !fv.IsValid() {
			if ok {
				return f.name + " was not decoded, the pointer to its struct is nil"
			}
			continue
		}
		if sub, isType := o.lookup(f.kind); isType {
			if !ok {
				if !fv.IsZero() {
					return f.name + " was decoded"
				}
			} else if d := o.read(fv, sub); d != "" {
				return f.name + "." + d
			}
			continue
		}
		want := 0
		if ok {
			want = optCode(key)
		}
		if got := optGet(fv); got != want {
			return fmt.Sprintf("%s has the value of code %d, want %d (key %q, %v)", f.name, got, want, key, ok)
		}
	}
	return ""
}

// set fills a struct, leaving some fields zero.
func (o *optPackage) set(r *Rng, v reflect.Value, t *optType) {
	if strings.HasPrefix(t.embed, "*") && !r.P(1, 4) {
		e := v.FieldByName("BaseOne")
		e.Set(reflect.New(e.Type().Elem()))
	}
	for i := range t.fields {
		f := &t.fields[i]
		fv := optFieldOf(v, f)
		if !fv.IsValid() {
			continue
		}
		fv = settable(fv)
		if sub, ok := o.lookup(f.kind); ok {
			o.set(r, fv, sub)
			continue
		}
		if r.P(1, 3) {
			if r.P(1, 2) {
				// Empty but not nil
				switch f.kind {
				case "[]int":
					fv.Set(reflect.MakeSlice(fv.Type(), 0, 1))
				case "map[string]int":
					fv.Set(reflect.MakeMap(fv.Type()))
				}
			}
			continue
		}
		code := 1 + r.N(200)
		p := reflect.New(fv.Type())
		if err := json.Unmarshal([]byte(optJSON(f.kind, code)), p.Interface()); err != nil {
			panic(broken(err.Error()))
		}
		fv.Set(p.Elem())
	}
}

// wrote checks that a tree holds exactly the selected fields of a struct.
func (o *optPackage) wrote(tr *Tree, v reflect.Value, t *optType) string {
	if tr.Kind != 'o' {
		return "not an object"
	}
	got := map[string]*Tree{}
	for i, k := range tr.Keys {
		k = refUnescape(k)
		if got[k] != nil {
			return fmt.Sprintf("repeated key %q", k)
		}
		got[k] = tr.Kids[i]
	}
	for i := range t.fields {
		f := &t.fields[i]
		key, omit, ok := o.key(f)
		if !ok {
			continue
		}
		fv := optFieldOf(v, f)
		if !fv.IsValid() {
			if got[key] != nil {
				return fmt.Sprintf("key %q of a nil embedded struct", key)
			}
			continue
		}
		x := got[key]
		delete(got, key)
		if sub, isType := o.lookup(f.kind); isType {
			if x == nil {
				return fmt.Sprintf("no key %q for %s", key, f.name)
			}
			if d := o.wrote(x, fv, sub); d != "" {
				return f.name + "." + d
			}
			continue
		}
		code := optGet(fv)
		switch {
		case code == 0 && omit:
			if x != nil {
				return fmt.Sprintf("empty field %s is not omitted", f.name)
			}
		case code == 0 && f.kind == "*int":
		case x == nil:
			return fmt.Sprintf("no key %q for %s", key, f.name)
		case code != 0 && x.text() != optJSON(f.kind, code):
			return fmt.Sprintf("%s is %s, want %s", f.name, x.text(), optJSON(f.kind, code))
		}
	}
	for k := range got {
		return fmt.Sprintf("unexpected key %q", k)
	}
	return ""
}

func c30Options(c *Case) {
	if len(genTypes) == 0 {
		c.Broken("no generated types")
	}
	gt := genTypes[c.Idx%len(genTypes)]
	o := newOptPackage(c.Env.Seed, gt.pkg)
	t, _ := o.lookup(gt.name)
	about := fmt.Sprintf("njson %s gt %s\n%s", strings.Join(o.args, " "), o.typeArg, mapText(o.source("gt")))
	c.Logf("type %s: %s", gt.name, about)
	p := reflect.New(gt.typ)
	a, hasA := p.Interface().(njson.Appender)
	u, hasU := p.Interface().(njson.Unmarshaler)
	c.Eval(2)
	// Methods of an embedded struct are promoted
	own, promoted := o.selected(gt.name), t.embed != "" && o.selected("BaseOne")
	if want := o.app && (own || promoted); hasA != want {
		c.Failf("%s has AppendJSON: %v, want %v\n%s", gt.name, hasA, want, about)
	}
	if want := o.unm && (own || promoted); hasU != want {
		c.Failf("%s has UnmarshalNodeJSON: %v, want %v\n%s", gt.name, hasU, want, about)
	}
	c.Sig("methods", uint64(gt.pkg), hashStr(gt.name))
	if !own {
		return
	}
	if hasU {
		text := o.text(c.R, t)
		n, _, err := freshDoc(c.R).Parse(text)
		if err != nil {
			c.Failf("%v\n%s", err, text)
		}
		c.Eval(1)
		if err := u.UnmarshalNodeJSON(n); err != nil {
			c.Failf("decoding %s: %v\n%s\n%s", gt.name, err, text, about)
		}
		if d := o.read(p.Elem(), t); d != "" {
			c.Failf("decoding %s: %s\n%s\n%s", gt.name, d, text, about)
		}
		c.Sig("read", uint64(gt.pkg), hashStr(gt.name), hashStr(text))
		c.Count("types read", 1)
	}
	if hasA {
		p = reflect.New(gt.typ)
		a = p.Interface().(njson.Appender)
		if !c.R.P(1, 5) {
			o.set(c.R, p.Elem(), t)
		}
		out, err := a.AppendJSON(nil)
		if err != nil {
			c.Failf("AppendJSON of %s: %v\n%s", gt.name, err, about)
		}
		tr, err := refDoc(string(out))
		if err != nil {
			c.Failf("AppendJSON of %s: %v\n%s\n%s", gt.name, err, out, about)
		}
		c.Eval(1)
		if d := o.wrote(tr, p.Elem(), t); d != "" {
			c.Failf("AppendJSON of %s: %s\n%s\n%s", gt.name, d, out, about)
		}
		c.Sig("wrote", uint64(gt.pkg), hashStr(gt.name), tr.shape())
		c.Count("types written", 1)
	}
	c.Sample("options", "%s gt %s", strings.Join(o.args, " "), o.typeArg)
}

func mapText(m map[string]string) string {
	var names []string
	for k := range m {
		names = append(names, k)
	}
	sort.Strings(names)
	s := ""
	for _, k := range names {
		s += "// " + k + "\n" + m[k] + "\n"
	}
	return s
}

// body strips the first line of generated code, which holds the time.
func genBody(c *Case, src string) string {
	i := strings.IndexByte(src, '\n')
	if i < 0 || !strings.HasPrefix(src, "// Code generated by njson") || !strings.Contains(src[:i], "DO NOT EDIT.") {
		c.Failf("output does not begin with the comment that marks it as generated: %q", clip(src, 200))
	}
	return src[i:]
}

func c30Repeat(c *Case) {
	dir := filepath.Join(c.Env.Scratch, fmt.Sprintf("rp-%d-%d", os.Getpid(), c.Idx), "rp")
	defer os.RemoveAll(filepath.Dir(dir))
	pkg := "rp"
	out := filepath.Join(dir, "rp_njson.go")
	files, _ := genPackage(c.R, pkg, c.R.Range(1, 4))
	doc := false
	if c.R.P(1, 6) {
		// the tests of a package
		pkg = "rp_test"
		out = filepath.Join(dir, "rp_njson_test.go")
		renamed := map[string]string{}
		for name, src := range files {
			renamed[strings.Replace(name, ".go", "_test.go", 1)] = strings.Replace(src, "package rp", "package rp_test", 1)
		}
		files = renamed
		files["rp.go"] = "package rp\n\ntype GOther struct{ A int }\n"
	} else if c.R.P(1, 3) {
		// Types of files that are not output of this tool, whatever they say
		doc = true
		files["doc.go"] = c.R.Pick("// This file was not generated by njson\n\n", "// Package rp has types. Code generated by njson goes to another file.\n", "// Code generated by protoc-gen-go. DO NOT EDIT.\n\n",
			"// Copyright of someone\n\n// Code not generated by njson; DO NOT EDIT.\n\n", "/* generated by njson? no */\n\n", "// code generated by njson DO NOT EDIT\n\n", "// Code generated by hand, DO NOT EDIT.\n\n", "//go:generate njson rp\n\n") +
			"package rp\n\n// GDoc is not generated by njson\ntype GDoc struct{ A int }\n"
	} else if c.R.P(1, 4) {
		files["extra_test.go"] = "package rp\n\ntype GTestOnly struct{ A int }\n"
	}
	if err := writeFiles(dir, files); err != nil {
		c.Broken("%v", err)
	}
	flags := [][]string{{}, {"-append"}, {"-unmarshal"}, {"-only-tagged"}, {"-k", "other"}, {"-case", "snake"}, {"-only-exported"}, {"-match", "[1-5]$"}, {"-case", "lower", "-unmarshal"}}[c.R.N(9)]
	filter := c.R.Pick("^G", "^G0", "^G[0-3][AB]$", "G0A")
	run := func(where string, args ...string) string {
		stdout, stderr, err := njsonTool(c.Env, where, args...)
		if err != nil {
			c.Failf("njson %v: %v %s\n%s", args, err, clip(stderr, 500), mapText(files))
		}
		return stdout
	}
	full := append(append([]string(nil), flags...), "-p", dir)
	want := genBody(c, run("/", append(full, pkg, filter)...))
	same := func(how, got string) {
		c.Eval(1)
		if got = genBody(c, got); got != want {
			c.Failf("generated code differs %s\nnjson %v %s %s\n%s\n%s", how, flags, pkg, filter, firstDiff(got, want), mapText(files))
		}
		c.Count("runs compared", 1)
	}
	file := func() string {
		b, err := os.ReadFile(out)
		if err != nil {
			c.Failf("no output file: %v", err)
		}
		return string(b)
	}
	fullW := append(append([]string{"-w"}, full...), pkg, filter)
	same("in another run", run("/", append(full, pkg, filter)...))
	if c.R.P(1, 2) {
		// Files that do not belong to the package in this environment
		suffix := ".go"
		if pkg == "rp_test" {
			suffix = "_test.go"
		}
		again := "package " + pkg + "\n\ntype G0A struct{ Again, Other int }\n\ntype G1B int\n\ntype GElse struct{ A int }\n"
		for i := c.R.Range(1, 3); i > 0; i-- {
			switch c.R.N(5) {
			case 0:
				files[c.R.Pick("x_windows", "types_plan9", "a_darwin", "z_arm64", "types_windows_386")+suffix] = again
			case 1:
				files["gen"+suffix] = "// +build ignore\n\n" + again
			case 2:
				files["tagged"+suffix] = "//go:build " + c.R.Pick("ignore", "never", "windows", "!"+runtime.GOOS, "linux && never", "go1.999") + "\n\n" + again
			case 3:
				files[c.R.Pick("_", ".")+"skipped"+suffix] = again
			case 4:
				files["README.md"] = again
			}
		}
		if err := writeFiles(dir, files); err != nil {
			c.Broken("%v", err)
		}
		same("when there are files that do not belong to the package", run("/", append(full, pkg, filter)...))
	}
	run("/", fullW...)
	same("when written to a file", file())
	same("when there is output of an earlier run", run("/", append(full, pkg, filter)...))
	run("/", fullW...)
	same("when output is replaced", file())
	// output of other options, and stale output
	run("/", "-w", "-p", dir, c.R.Pick("-append", "-unmarshal", "-only-tagged", "-d=false"), pkg, c.R.Pick("^G", "G0A", "^G0B"))
	run("/", fullW...)
	same("after a run with other options", file())
	stale := "// Code generated by njson on Thu, 01 Jan 1970 00:00:00 UTC; DO NOT EDIT.\n\npackage " + pkg + "\n\ntype G0A struct{ Old int }\n\nfunc (g *GGone) AppendJSON(out []byte) ([]byte, error) { return out, nil }\n" + strings.Repeat("\n// padding", 20000)
	if err := os.WriteFile(out, []byte(stale), 0644); err != nil {
		c.Broken("%v", err)
	}
	run("/", fullW...)
	same("after stale output", file())
	if pkg == "rp" {
		// from within the directory
		if c.R.P(1, 2) {
			run(dir, append(append([]string{"-w"}, flags...), pkg, filter)...)
		} else {
			run(dir, append(append([]string{"-w"}, flags...), "-p", ".", pkg, filter)...)
		}
		same("when run in the directory", file())
	}
	if c.R.P(1, 3) {
		// a run for debugging prints and writes nothing else
		if err := os.Remove(out); err != nil {
			c.Broken("%v", err)
		}
		if stdout := run("/", append([]string{"-d", "-w"}, append(full, pkg, filter)...)...); stdout != "" {
			c.Failf("njson -d prints %q", clip(stdout, 300))
		}
		if _, err := os.Lstat(out); err == nil {
			c.Failf("njson -d -w writes a file")
		}
		if pkg == "rp" {
			// without a package, it is named after the directory
			all, _, err := njsonTool(c.Env, "/", append(full, pkg)...)
			if err == nil {
				want = genBody(c, all)
				same("when the package is not named", run(dir, flags...))
				same("when all types are asked for", run(dir, append(flags, pkg, c.R.Pick("*", ".", "^.*$", ""))...))
				same("when the package is not named", run(dir, append([]string{"-w"}, flags...)...)+file())
				c.Count("all types", 1)
				want = genBody(c, run("/", append(full, pkg, filter)...))
			}
		}
		run("/", fullW...)
	}
	for name, src := range files {
		b, err := os.ReadFile(filepath.Join(dir, name))
		if err != nil || string(b) != src {
			c.Failf("source file %s was changed", name)
		}
	}
	if list, _ := os.ReadDir(dir); len(list) != len(files)+1 {
		c.Failf("%d files in the directory, want %d", len(list), len(files)+1)
	}
	if has := strings.Contains(want, "*GDoc)") || strings.Contains(want, " GDoc)"); has != (doc && filter == "^G") {
		c.Failf("methods of GDoc were generated: %v; njson %v %s %s\n%s", has, flags, pkg, filter, files["doc.go"])
	}
	if strings.Contains(want, "GTestOnly") || strings.Contains(want, "GOther") {
		c.Failf("types of another package or of tests were generated")
	}
	c.Sig("repeat", hashStr(want))
	c.Sample("repeat", "%v %s %s: %d bytes", flags, pkg, filter, len(want))
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range la {
		if i >= len(lb) || la[i] != lb[i] {
			w := "<end>"
			if i < len(lb) {
				w = lb[i]
			}
			return fmt.Sprintf("line %d: %q, was %q", i+1, la[i], w)
		}
	}
	return "shorter than before"
}

func c30Refuse(c *Case) {
	dir := filepath.Join(c.Env.Scratch, fmt.Sprintf("rf-%d-%d", os.Getpid(), c.Idx), "rf")
	defer os.RemoveAll(filepath.Dir(dir))
	src := "package rf\n\ntype Foo struct{ A int }\n\ntype FooBar struct{ B string }\n\ntype N int\n"
	var args []string
	what := c.Idx % 14
	switch what {
	case 12, 13:
		args = []string{"rf", c.R.Pick("Foo", "FooBar", "^Foo", "")}
	case 8, 9:
		// A type that is not supported, after others that are
		src += "\ntype Sub struct { X " + c.R.Pick("[3]int", "chan int", "map[int]string", "func()", "complex128", "interface{ M() }", "struct { Y [][2]string }") + " }\n\ntype Zoo struct { Foo; X Sub }\n"
		args = []string{"rf"}
		if what == 9 {
			args = append(args, c.R.Pick("Zoo", "Sub", "*", "^.*$"))
		}
	case 10:
		args = []string{"-p", c.R.Pick("missing", "rf.go/x", "../missing"), "rf"}
	case 11:
		// Fields that cannot be left out when empty
		src += "\ntype Sub struct { X FooBar }\n"
		args = []string{"-omitempty", "rf", c.R.Pick("", "Sub")}
	case 0:
		args = []string{"rf", "Fo"} // a plain name is no prefix
	case 1:
		args = []string{"rf", "N"} // not a struct
	case 2:
		args = []string{"rf", "^Bar"}
	case 3:
		args = []string{"rf", "(Foo"} // bad expression
	case 4:
		args = []string{"other", "Foo"}
	case 5:
		args = []string{"-match", "(", "rf", "Foo"}
	case 6:
		src += "\ntype {"
		args = []string{"rf", "Foo"}
	case 7:
		src += "\ntype Undef struct { X Missing }\n"
		args = []string{"rf"}
	}
	if err := writeFiles(dir, map[string]string{"rf.go": src}); err != nil {
		c.Broken("%v", err)
	}
	out := filepath.Join(dir, "rf_njson.go")
	earlier := ""
	if what >= 12 {
		// The output can not be written
		if err := os.Mkdir(out, 0755); err != nil {
			c.Broken("%v", err)
		}
	} else if what != 6 && what != 7 && c.R.P(1, 2) {
		// There is output of an earlier run
		if _, stderr, err := njsonTool(c.Env, dir, "-w", "rf", c.R.Pick("Foo", "FooBar", "^Foo")); err != nil {
			c.Failf("njson: %v %s\n%s", err, stderr, src)
		}
		b, err := os.ReadFile(out)
		if err != nil {
			c.Failf("no output file: %v", err)
		}
		earlier = string(b)
	}
	write := c.R.P(2, 3) || what >= 12
	if write {
		args = append([]string{"-w"}, args...)
	}
	stdout, stderr, err := njsonTool(c.Env, dir, args...)
	c.Eval(1)
	if what >= 12 {
		os.Remove(out)
	}
	if err == nil {
		c.Failf("njson %v succeeds\n%s", args, src)
	}
	c.refused(err, stderr)
	if stdout != "" {
		c.Failf("njson %v fails but prints %q", args, clip(stdout, 200))
	}
	if list, _ := os.ReadDir(dir); len(list) != 1+boolInt(earlier != "") {
		c.Failf("njson %v fails but writes a file", args)
	}
	if earlier != "" {
		if b, err := os.ReadFile(out); err != nil || string(b) != earlier {
			c.Failf("njson %v fails but changes the output of an earlier run to %q (%v)", args, clip(string(b), 200), err)
		}
		c.Count("earlier output kept", 1)
	}
	c.Sig("refuse", uint64(what), uint64(boolInt(write)), uint64(boolInt(earlier != "")))
}

func runtimeOSArch() string { return runtime.GOOS + "_" + runtime.GOARCH }

// settable makes a field that is not exported settable.
func settable(v reflect.Value) reflect.Value {
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}
