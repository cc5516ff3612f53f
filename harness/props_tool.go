package main

import (
	"bytes"
	"errors"
	"fmt"
	gotoken "go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

// The generator of byte tables.

func init() {
	register(&Prop{ID: "C34", MinSig: 200, Needs: mapperNeeds,
		Rule: "a case runs the byte table generator with many random lists of classes and sets, compiles what it wrote and calls every function with every byte, or gives it sets it cannot understand; distinct by list of arguments",
		Stages: []Stage{
			{Name: "tables", Quick: 96, Thorough: 2400, Fn: c34Tables},
			{Name: "refuse", Quick: 1600, Thorough: 24000, Fn: c34Refuse},
		}})
}

func mapperNeeds(p *Prop, env *Env) ([]Violation, error) {
	repo := os.Getenv("VMON_REPO")
	if repo == "" {
		return nil, errors.New("VMON_REPO is not set")
	}
	_, err := goTool(repo, "build", "-o", filepath.Join(env.Scratch, "bytemaper"), "./internal/bytemaper")
	return nil, err
}

func mapperTool(env *Env, dir string, args ...string) (stdout, stderr string, err error) {
	cmd := exec.Command("/bin/sh", append([]string{"-c", `ulimit -t 20; ulimit -v 4000000; exec "$0" "$@"`, filepath.Join(env.Scratch, "bytemaper")}, args...)...)
	cmd.Dir = dir
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	err = cmd.Run()
	return ob.String(), eb.String(), err
}

// byteClasses are the classes the tool knows by name, described apart from the unicode package.
var byteClasses = []struct {
	name string
	fn   func(b int) int
}{
	{"ToJSON", func(b int) int {
		switch {
		case b >= 0x80:
			return 0xff
		case strings.IndexByte("<>&", byte(b)) >= 0:
			return 1
		case strings.IndexByte("\\/\"", byte(b)) >= 0:
			return '\\'
		case strings.IndexByte("\r\n\t\f\b", byte(b)) >= 0:
			return int("rntfb"[strings.IndexByte("\r\n\t\f\b", byte(b))])
		case b < 0x20 || b == 0x7f:
			return 0
		}
		return 0x80
	}},
	{"ToISO3166", func(b int) int {
		if isUpperByte(b) {
			return b
		}
		if isLowerByte(b) {
			return b - 32
		}
		return 'Z'
	}},
	{"ToISO639", func(b int) int {
		if isUpperByte(b) {
			return b + 32
		}
		if isLowerByte(b) {
			return b
		}
		return 'z'
	}},
	{"ToHex", func(b int) int {
		if b < 16 {
			return int("0123456789abcdef"[b])
		}
		return 0xff
	}},
	{"FromHex", func(b int) int {
		if i := strings.IndexByte("0123456789abcdef", byte(b)); i >= 0 {
			return i
		}
		if i := strings.IndexByte("ABCDEF", byte(b)); i >= 0 {
			return 10 + i
		}
		return 0xff
	}},
	{"IsControl", func(b int) int { return boolInt(b < 0x20 || b >= 0x7f && b < 0xa0) }},
	{"IsPunct", func(b int) int {
		return boolInt(strings.IndexByte("!\"#%&'()*,-./:;?@[\\]_{}\xa1\xa7\xab\xb6\xb7\xbb\xbf", byte(b)) >= 0)
	}},
	{"IsDigit", func(b int) int { return boolInt(b >= '0' && b <= '9') }},
	{"IsSpace", func(b int) int { return boolInt(b >= 9 && b <= 13 || b == ' ' || b == 0x85 || b == 0xa0) }},
	{"IsPrint", func(b int) int { return boolInt(b >= ' ' && b < 0x7f || b > 0xa0 && b != 0xad) }},
	{"ToLower", func(b int) int {
		if b >= 0x80 {
			return 0
		}
		if isUpperByte(b) {
			return b + 32
		}
		return b
	}},
	{"ToUpper", func(b int) int {
		if b >= 0x80 {
			return 0
		}
		if isLowerByte(b) {
			return b - 32
		}
		return b
	}},
	{"ToTitle", func(b int) int {
		if b >= 0x80 {
			return 0
		}
		if isLowerByte(b) {
			return b - 32
		}
		return b
	}},
}

func isUpperByte(b int) bool { return b >= 'A' && b <= 'Z' }
func isLowerByte(b int) bool { return b >= 'a' && b <= 'z' }

// byteMap is an argument of the tool and the function it stands for.
type byteMap struct {
	arg, name string
	fn        func(b int) int
}

// mapName makes a name for a function that is not taken.
func mapName(r *Rng, used map[string]bool, is bool) string {
	for {
		name := ""
		if is {
			name = "Is"
		} else {
			name = r.Pick("to", "To", "is", "has", "I", "s", "S", "x", "_", "é", "Ø")
		}
		for n := r.N(8); n > 0; n-- {
			name += string("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"[r.N(63)])
		}
		if strings.HasPrefix(name, "Is") != is || used[name] || !gotoken.IsIdentifier(name) || name == "_" || name == "init" || name == "main" {
			continue
		}
		used[name] = true
		return name
	}
}

// byteSet makes a set of bytes and a way to write it, quoted or not.
func byteSet(r *Rng) (string, [256]bool) {
	var set [256]bool
	quoted := r.P(1, 3)
	n := r.N(6)
	if r.P(1, 6) {
		n = r.N(60)
	}
	if !quoted && n == 0 && r.P(1, 2) {
		n = 1
	}
	text := ""
	for ; n > 0; n-- {
		b := byte(r.N(256))
		switch {
		case r.P(1, 2):
			b = byte(' ' + r.N(95))
		case r.P(1, 4):
			b = "\"'\\:`,% {}"[r.N(10)]
		}
		switch {
		case r.P(1, 12):
			// a character that is more than one byte
			ch := r.Pick("é", "ß", "€", "中", "\U0001F600", "\u2028")
			for i := 0; i < len(ch); i++ {
				set[ch[i]] = true
			}
			if r.P(1, 2) {
				ch = strings.Trim(strconv.QuoteToASCII(ch), `"`)
			}
			text += ch
			continue
		case b == '"' || b == '\\':
			text += "\\" + string(rune(b))
		case b < ' ' || b >= 0x7f || r.P(1, 8):
			if r.P(1, 2) {
				text += fmt.Sprintf("\\x%02x", b)
			} else {
				text += fmt.Sprintf("\\%03o", b)
			}
		default:
			text += string(rune(b))
		}
		set[b] = true
	}
	if quoted {
		text = `"` + text + `"`
	}
	return text, set
}

func byteMaps(r *Rng) []byteMap {
	used := map[string]bool{}
	var ms []byteMap
	for n := 1 + r.N(7); n > 0; n-- {
		var m byteMap
		if r.P(1, 2) {
			cl := byteClasses[r.N(len(byteClasses))]
			m.name, m.arg, m.fn = cl.name, cl.name, cl.fn
			if r.P(1, 2) || used[m.name] {
				m.name = mapName(r, used, strings.HasPrefix(cl.name, "Is") && r.P(3, 4))
				m.arg = cl.name + ":" + m.name
				if r.P(1, 4) {
					m.arg = cl.name + `:"` + m.name + `"`
				}
			} else if r.P(1, 8) {
				m.arg += ":"
			}
			used[m.name] = true
		} else {
			m.name = mapName(r, used, r.P(2, 3))
			text, set := byteSet(r)
			m.arg = m.name
			if text != "" || r.P(1, 2) {
				m.arg += ":" + text
			}
			m.fn = func(b int) int { return boolInt(set[b]) }
		}
		ms = append(ms, m)
	}
	return ms
}

func c34Tables(c *Case) {
	root := filepath.Join(c.Env.Scratch, fmt.Sprintf("bm-%d-%d", os.Getpid(), c.Idx))
	defer os.RemoveAll(root)
	files := map[string]string{"go.mod": "module bm\n\ngo 1.21\n"}
	body := "package main\n\nimport \"os\"\n"
	calls := ""
	type run struct {
		args []string
		ms   []byteMap
	}
	var runs []run
	if err := os.MkdirAll(root, 0755); err != nil {
		c.Broken("%v", err)
	}
	for i := 0; i < 20; i++ {
		ms := byteMaps(c.R)
		if i == 0 {
			// every class under its own name
			ms = nil
			for _, cl := range byteClasses {
				ms = append(ms, byteMap{cl.name, cl.name, cl.fn})
			}
			for j := range ms {
				k := j + c.R.N(len(ms)-j)
				ms[j], ms[k] = ms[k], ms[j]
			}
		}
		pkg := fmt.Sprintf("p%d", i)
		dir := filepath.Join(root, pkg)
		if err := os.MkdirAll(dir, 0755); err != nil {
			c.Broken("%v", err)
		}
		args := []string{"-pkg", pkg}
		prefix := "bytemap"
		if c.R.P(1, 2) {
			prefix = c.R.Pick("b", "table", "zz", "mask_", "É")
			args = append(args, "-prefix", prefix)
		}
		out := filepath.Join(dir, "tables.go")
		write := c.R.P(1, 2)
		if write {
			args = append(args, c.R.Pick("-w", "--w"), c.R.Pick("tables.go", out, "./tables.go"))
			if c.R.P(1, 3) {
				// There is a longer file already
				if err := os.WriteFile(out, []byte(strings.Repeat("old ", 5000)), 0644); err != nil {
					c.Broken("%v", err)
				}
			}
		}
		var list []string
		for _, m := range ms {
			list = append(list, m.arg)
		}
		args = append(args, list...)
		c.Logf("bytemaper %q", args)
		stdout, stderr, err := mapperTool(c.Env, dir, args...)
		c.Eval(1)
		if err != nil {
			c.Failf("bytemaper %q: %v %s", args, err, clip(stderr, 600))
		}
		text := stdout
		if write {
			if stdout != "" {
				c.Failf("bytemaper %q writes a file and prints %q", args, clip(stdout, 200))
			}
			b, err := os.ReadFile(out)
			if err != nil {
				c.Failf("bytemaper %q writes no file: %v", args, err)
			}
			text = string(b)
			if names, _ := os.ReadDir(dir); len(names) != 1 {
				c.Failf("bytemaper %q leaves other files", args)
			}
		}
		// The same arguments give the same text
		if again, _, err := mapperTool(c.Env, dir, append([]string{"-pkg", pkg, "-prefix", prefix}, list...)...); err != nil || again != text {
			c.Failf("bytemaper %q: the next run differs (%v): %s", args, err, firstDiff(again, text))
		}
		files[pkg+"/tables.go"] = text
		fs := "package " + pkg + "\n\nfunc Print(p func(string, int)) {\n\tfor i := 0; i < 256; i++ {\n\t\tc := byte(i)\n"
		for _, m := range ms {
			if strings.HasPrefix(m.name, "Is") {
				fs += fmt.Sprintf("\t\tif %s(c) {\n\t\t\tp(%q, 1)\n\t\t} else {\n\t\t\tp(%q, 0)\n\t\t}\n", m.name, m.name, m.name)
			} else {
				fs += fmt.Sprintf("\t\tp(%q, int(%s(c)))\n", m.name, m.name)
			}
		}
		files[pkg+"/print.go"] = fs + "\t}\n}\n"
		body += fmt.Sprintf("import \"bm/p%d\"\n", i)
		calls += fmt.Sprintf("\tpkg = %d\n\tp%d.Print(p)\n", i, i)
		runs = append(runs, run{args, ms})
	}
	files["main.go"] = body + "import \"bufio\"\nimport \"fmt\"\n\nvar pkg int\n\nfunc main() {\n\tw := bufio.NewWriter(os.Stdout)\n\tp := func(name string, v int) { fmt.Fprintln(w, pkg, name, v) }\n" + calls + "\tw.Flush()\n}\n"
	if err := writeFiles(root, files); err != nil {
		c.Broken("%v", err)
	}
	if out, err := goTool(root, "build", "-o", "bm", "."); err != nil {
		msg := clip(out, 1500)
		for i, r := range runs {
			if strings.Contains(out, fmt.Sprintf("p%d/", i)) {
				msg += fmt.Sprintf("\nbytemaper %q", r.args)
			}
		}
		c.Failf("generated tables do not compile: %s", msg)
	}
	b, err := exec.Command(filepath.Join(root, "bm")).Output()
	if err != nil {
		c.Failf("the generated tables fail: %v", err)
	}
	lines := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
	pos := 0
	for i, r := range runs {
		for x := 0; x < 256; x++ {
			for _, m := range r.ms {
				want := fmt.Sprintf("%d %s %d", i, m.name, m.fn(x))
				if pos >= len(lines) || lines[pos] != want {
					got := "nothing"
					if pos < len(lines) {
						got = lines[pos]
					}
					c.Failf("bytemaper %q: %s(%q): got %q, want %q", r.args, m.name, byte(x), got, want)
				}
				pos++
				c.Eval(1)
			}
		}
		c.Count("tables", len(r.ms))
		c.Sig("tables", hashStr(strings.Join(r.args, "\x00")))
	}
	c.Sample("args", "%q", runs[len(runs)-1].args)
}

func c34Refuse(c *Case) {
	dir := filepath.Join(c.Env.Scratch, fmt.Sprintf("br-%d-%d", os.Getpid(), c.Idx))
	if err := os.MkdirAll(dir, 0755); err != nil {
		c.Broken("%v", err)
	}
	defer os.RemoveAll(dir)
	var args []string
	for _, m := range byteMaps(c.R) {
		args = append(args, m.arg)
	}
	ok := c.R.Pick("abc", "a", "", "0")
	bad := c.R.Pick(`IsX:`+ok+`\`, `IsX:\x4`, `IsX:`+ok+`\q`, `IsX:\8`, `IsX:"`+ok, `IsX:`+ok+`"`, `IsX:a"b`+ok, `IsX:"a"b"`, `IsX:\u12`, `IsX:\400`, "IsX:a\nb", `:`+ok, `IsX:"`, `IsX:\`, "")
	at := c.R.N(len(args) + 1)
	var opts []string
	earlier := c.R.P(1, 2)
	out := filepath.Join(dir, "tables.go")
	what := c.R.N(8)
	switch what {
	case 0: // the file can not be made
		opts = []string{"-w", c.R.Pick("missing/tables.go", ".", filepath.Join(dir, "no", "tables.go"), "/dev/full")}
	default:
		args = append(args[:at:at], append([]string{bad}, args[at:]...)...)
		if c.R.P(1, 2) {
			opts = []string{"-w", "tables.go"}
		}
	}
	if earlier {
		if err := os.WriteFile(out, []byte("earlier"), 0644); err != nil {
			c.Broken("%v", err)
		}
	}
	args = append(opts, args...)
	stdout, stderr, err := mapperTool(c.Env, dir, args...)
	c.Eval(1)
	if err == nil {
		c.Failf("bytemaper %q succeeds", args)
	}
	if ee, ok := err.(*exec.ExitError); ok && (ee.ExitCode() != 1 || strings.Contains(stderr, "goroutine ")) {
		c.Failf("bytemaper %q crashes: %v\n%s", args, err, clip(stderr, 600))
	}
	if strings.TrimSpace(stderr) == "" {
		c.Failf("bytemaper %q fails and does not say why: %v", args, err)
	}
	if stdout != "" {
		c.Failf("bytemaper %q fails but prints %q", args, clip(stdout, 200))
	}
	if list, _ := os.ReadDir(dir); len(list) != boolInt(earlier) {
		c.Failf("bytemaper %q fails but writes a file", args)
	}
	if earlier {
		if b, err := os.ReadFile(out); err != nil || string(b) != "earlier" {
			c.Failf("bytemaper %q fails but changes the file of an earlier run to %q (%v)", args, clip(string(b), 200), err)
		}
	}
	c.Sig("refuse", hashStr(bad), uint64(len(args)), uint64(at), uint64(what), uint64(boolInt(earlier)))
}
