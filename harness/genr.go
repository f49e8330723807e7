package harness

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
)

// The generator is judged from outside: its command is run on scratch
// directories and the files it leaves are compared.

type directive struct{ recv, rw, kind, size, end string }

func (d directive) line() string {
	return fmt.Sprintf("//generator:complex %s %s %s %s %s", d.recv, d.rw, d.kind, d.size, d.end)
}

func (d directive) method() string { return d.rw + d.kind + d.size + d.end }

var allDirectives = func() (o []directive) {
	for _, r := range []string{"Buffer", "MiniBuffer"} {
		for _, rw := range []string{"Read", "Write"} {
			for _, ks := range []string{"U16", "U32", "U64", "I16", "I32", "I64", "F32", "F64"} {
				for _, e := range []string{"LE", "BE"} {
					o = append(o, directive{r, rw, ks[:1], ks[1:], e})
				}
			}
		}
	}
	return
}()

func scratch() string {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		panic("VERIF_SCRATCH not set")
	}
	d, err := os.MkdirTemp(base, "g")
	if err != nil {
		panic(err)
	}
	return d
}

// runGenerator runs the command; dir may be relative to cwd, "" leaves the
// flag out.
func runGenerator(cwd, dir string, args ...string) error {
	return runGeneratorAs(0, cwd, dir, args...)
}

// runGeneratorAs is runGenerator for another user, where file permissions mean something.
func runGeneratorAs(uid uint32, cwd, dir string, args ...string) error {
	var a []string
	if dir != "" {
		a = append(a, "-directory", dir)
	}
	cmd := exec.Command(os.Getenv("VERIF_GENBIN"), append(a, args...)...)
	cmd.Dir = cwd
	if uid != 0 {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uid, Gid: uid}}
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			if uid != 0 {
				return err
			}
			panic(err)
		}
		s := string(out)
		if len(s) > 400 {
			s = s[len(s)-400:]
		}
		return fmt.Errorf("%v: %s", err, s)
	}
	return nil
}

const nobody = 65534

// canDrop tells whether the generator can be run as an unprivileged user here.
var canDrop = sync.OnceValue(func() bool {
	if os.Getuid() != 0 {
		return false
	}
	d := scratch()
	defer os.RemoveAll(d)
	os.Chmod(d, 0o755)
	f := filepath.Join(d, "_t.go")
	must(os.WriteFile(f, []byte("package t\n"), 0o644))
	must(os.Chown(d, nobody, nobody))
	if runGeneratorAs(nobody, d, d, "-generation", "complex") != nil {
		return false
	}
	_, err := os.Stat(filepath.Join(d, "t.generated.go"))
	return err == nil
})

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// generate runs the generator on templates alone in a directory and returns
// their outputs.
func generate(tmpl map[string]string) (map[string]string, error) {
	d := scratch()
	defer os.RemoveAll(d)
	for n, t := range tmpl {
		must(os.WriteFile(filepath.Join(d, n), []byte(t), 0o644))
	}
	entering(true)
	err := runGenerator(d, d, "-generation", "complex")
	entering(false)
	if err != nil {
		return nil, err
	}
	out := map[string]string{}
	for n := range tmpl {
		b, err := os.ReadFile(filepath.Join(d, outputName(n)))
		if err == nil {
			out[n] = string(b)
		}
	}
	return out, nil
}

func outputName(n string) string {
	return strings.TrimSuffix(strings.TrimPrefix(n, "_"), ".go") + ".generated.go"
}

/* C22 */

// pieces of a template: "d<i>" a valid directive line, "i<text>" a directive
// line with an invalid argument, "t<text>" text. All end their line, except
// possibly the last ("!" appended to the tag), and "f<n>" n bytes of filler lines.
func genPiece(g g) string {
	switch g.n(8) {
	case 0, 1, 2:
		return fmt.Sprintf("d%d", g.n(len(allDirectives)))
	case 3:
		d := allDirectives[g.n(len(allDirectives))]
		switch g.n(5) {
		case 0:
			d.recv = pickS(g, []string{"buffer", "Bufferr", "MinBuffer", "X", "MiniBufferBuffer", "Buf", "Reader"})
		case 1:
			d.rw = pickS(g, []string{"read", "write", "Reads", "W", "ReadWrite"})
		case 2:
			d.kind = pickS(g, []string{"u", "S", "UI", "C", "float", "II"})
		case 3:
			d.size = pickS(g, []string{"8", "24", "128", "0", "164", "3", "640", "99999999999999999999", "016"})
		case 4:
			d.end = pickS(g, []string{"le", "EB", "LEE", "ME", "B", "LEBE"})
		}
		return "i" + d.line()
	case 4, 5: // near misses
		l := allDirectives[g.n(len(allDirectives))].line()
		switch g.n(16) {
		case 0:
			l = " " + l
		case 1:
			l = "\t" + l
		case 2:
			l += " "
		case 3:
			l += "\r"
		case 4:
			l = strings.Replace(l, "//", "// ", 1)
		case 5:
			l = strings.Replace(l, "complex", "Complex", 1)
		case 6:
			l = strings.Replace(l, " ", "  ", 1)
		case 7:
			l += " LE"
		case 8:
			l = l[:strings.LastIndexByte(l, ' ')]
		case 9:
			l = "/" + l
		case 10:
			l = l + " // note"
		case 11:
			l = strings.Replace(l, "generator:complex", "generator", 1)
		case 12:
			l = "var s = \"" + l + "\""
		case 13:
			l = "x := 1 " + l
		case 14:
			l = strings.Replace(l, " ", "\t", 1)
		case 15:
			l = l[1:]
		}
		return "t" + l
	}
	if g.n(4) == 0 { // around the generator's own words
		x := pickS(g, dict.Strings)
		switch g.n(8) {
		case 0:
			x = strings.Repeat(" ", g.n(4)) + x
		case 1:
			x += strings.Repeat("x", int(minI(3000, pickS(g, dict.GenInts))))
		case 2:
			x += pickS(g, dict.Strings)
		case 3:
			x = "//" + x
		case 4:
			x = string(g.bytes(g.n(4))) + x + string(g.bytes(g.n(4)))
		}
		if x = strings.Map(noNewline, x); directiveLike.MatchString(x) {
			x += " "
		}
		return "t" + x
	}
	switch g.n(10) {
	case 0:
		return "t"
	case 1:
		return "tfunc f() { return } // $1 ${2} \\1 $0"
	case 2:
		return "t/* comment */ import \"unsafe\"\r"
	case 3:
		return "t\x00\xff\xfe not utf8 \xc3"
	case 4:
		return "tpackage crunch"
	case 5:
		if g.pct(20) { // a very long line
			return "t" + strings.Repeat("x = 0 ", 10000+g.n(4000))
		}
		return "t// generator: complex"
	case 6:
		return "t`raw string"
	case 7:
		return "t\u00e9\u4e16\u754c // \u2028"
	case 8:
		return "t" + strings.Repeat("\t", g.n(5)) + "}"
	}
	b := g.bytes(g.n(30))
	return "t" + strings.Map(noNewline, string(b))
}

func noNewline(r rune) rune {
	if r == '\n' {
		return 'n'
	}
	return r
}

var directiveLike = regexp.MustCompile(`^//generator:complex [A-z]+ [A-z]+ [A-z]+ [0-9]+ [A-z]+$`)

func pieceText(p string, last bool) string {
	nl := "\n"
	if last && strings.HasPrefix(p, "!") {
		nl = ""
	}
	p = strings.TrimPrefix(p, "!")
	switch p[0] {
	case 'd':
		var i int
		fmt.Sscanf(p[1:], "%d", &i)
		return allDirectives[i].line() + nl
	case 'f':
		var n int
		fmt.Sscanf(p[1:], "%d", &n)
		line := "// " + strings.Repeat("f", 60) + "\n"
		t := strings.Repeat(line, n/len(line))
		if n -= len(t); n > 0 {
			t += strings.Repeat("x", n-1) + "\n"
		}
		return t
	}
	return p[1:] + nl
}

func genTemplate(g g) *Case {
	c := &Case{P: map[string]int64{}}
	n := g.n(12)
	if g.pct(10) {
		n += g.n(80)
		if g.pct(30) {
			n = int(minI(700, pickS(g, dict.GenInts)))
		}
	}
	for i := 0; i < n; i++ {
		if len(c.Text) > 0 && g.pct(15) { // repeat an earlier one
			c.Text = append(c.Text, strings.TrimPrefix(pickS(g, c.Text), "!"))
			continue
		}
		c.Text = append(c.Text, genPiece(g))
	}
	if n > 0 && g.pct(30) {
		c.Text[n-1] = "!" + c.Text[n-1]
	}
	if n > 0 && g.pct(6) { // the very beginning may be special
		t := pickS(g, []string{"\ufeff", "\ufeff", "\ufffe", "\xff\xfe", "\xfe\xff", "\x00", "\r", " ", "\t", "\f", "\v", "#!", "//go:build ignore", "// Code generated by x. DO NOT EDIT.", "//"})
		if g.pct(25) {
			t = strings.Map(noNewline, pickS(g, dict.Strings))
		}
		if old := strings.TrimPrefix(c.Text[0], "!"); old[0] == 't' && g.pct(50) {
			t += old[1:]
		}
		if directiveLike.MatchString(t) {
			t += " "
		}
		at := 0
		if g.pct(20) {
			at = n - 1
		}
		keep := ""
		if strings.HasPrefix(c.Text[at], "!") {
			keep = "!"
		}
		c.Text[at] = keep + "t" + t
		r := g.n(4)
		for ; r == 1 && len(c.Text) < 12; r = g.n(4) { // empty lines in front
			c.Text = append([]string{"t"}, c.Text...)
		}
	}
	if n > 0 && g.n(64) == 0 { // something stands at, or across, a round or otherwise special position
		v := pickS(g, []int64{1 << 12, 1 << 15, 1 << 16, 1 << 16, 1 << 17, 1 << 20})
		if g.pct(50) {
			v = pickS(g, dict.GenInts)
		}
		if v -= g.in(-3, 70); v > 0 {
			at := g.n(minInt(3, len(c.Text)))
			c.Text = append(c.Text[:at:at], append([]string{"f" + fmt.Sprint(v)}, c.Text[at:]...)...)
		}
	}
	if g.pct(25) {
		c.P["twice"] = 1
	}
	return c
}

// expansionOK checks that the expansion of one directive is exactly its two methods.
func expansionOK(d directive, out string) string {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", "package p\n\n"+out, 0)
	if err != nil {
		return fmt.Sprintf("expansion of %q is not Go code: %v", d.line(), err)
	}
	want := map[string]bool{d.method(): true, d.method() + "Next": true}
	for _, dl := range f.Decls {
		fn, ok := dl.(*ast.FuncDecl)
		if !ok || fn.Recv == nil || len(fn.Recv.List) != 1 {
			return fmt.Sprintf("expansion of %q holds something besides methods", d.line())
		}
		st, ok := fn.Recv.List[0].Type.(*ast.StarExpr)
		if !ok {
			return fmt.Sprintf("expansion of %q: method %s is not on a pointer receiver", d.line(), fn.Name.Name)
		}
		if id, ok := st.X.(*ast.Ident); !ok || id.Name != d.recv {
			return fmt.Sprintf("expansion of %q: method %s is on another receiver", d.line(), fn.Name.Name)
		}
		if !want[fn.Name.Name] {
			return fmt.Sprintf("expansion of %q holds method %s", d.line(), fn.Name.Name)
		}
		delete(want, fn.Name.Name)
	}
	for m := range want {
		return fmt.Sprintf("expansion of %q lacks method %s", d.line(), m)
	}
	return ""
}

func onlyComments(s string) bool {
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l != "" && !strings.HasPrefix(l, "//") {
			return false
		}
	}
	return true
}

func runTemplate(c *Case, r *Run) *Failure {
	// the whole template, and every piece of it alone
	tmpl := map[string]string{}
	whole := ""
	hasText, hasDir := false, false
	for i, p := range c.Text {
		t := pieceText(p, i == len(c.Text)-1)
		whole += t
		switch strings.TrimPrefix(p, "!")[0] {
		case 't', 'f':
			hasText = true
			r.label("text line")
		case 'd':
			hasDir = true
			r.label("directive")
			tmpl[fmt.Sprintf("_p%d.go", i)] = t
		case 'i':
			hasDir = true
			r.label("invalid directive")
			tmpl[fmt.Sprintf("_p%d.go", i)] = t
		}
	}
	tmpl["_whole.go"] = whole
	out, err := generate(tmpl)
	if err != nil {
		return failf(-1, "the generator failed: %v", err)
	}
	r.steps++
	r.judged += len(c.Text)
	r.trivial = !hasText || !hasDir
	want := ""
	var bounds []int
	for i, p := range c.Text {
		bounds = append(bounds, len(want))
		name := fmt.Sprintf("_p%d.go", i)
		t := pieceText(p, i == len(c.Text)-1)
		p = strings.TrimPrefix(p, "!")
		if p[0] == 't' || p[0] == 'f' {
			want += t
			continue
		}
		o, ok := out[name]
		if !ok {
			return failf(i, "no output for a template holding only %q", t)
		}
		if p[0] == 'd' {
			var k int
			fmt.Sscanf(p[1:], "%d", &k)
			if bad := expansionOK(allDirectives[k], o); bad != "" {
				return failf(i, "%s", bad)
			}
		} else if !onlyComments(o) {
			return failf(i, "directive with an invalid argument %q is replaced by more than comments: %.80q", t, o)
		}
		if strings.HasSuffix(t, "\n") && !strings.HasSuffix(o, "\n") {
			return failf(i, "the line after %q would be joined to its expansion", t)
		}
		want += o
	}
	got, ok := out["_whole.go"]
	if !ok {
		return failf(-1, "no output for the template")
	}
	if got != want {
		at := 0
		for at < len(got) && at < len(want) && got[at] == want[at] {
			at++
		}
		i := sort.SearchInts(bounds, at+1) - 1
		return failf(i, "output differs from the concatenation of the outputs of its parts at byte %d (part %d of %d: %.100q): got %.60q, expected %.60q", at, i, len(c.Text), pieceText(c.Text[i], false), from(got, at), from(want, at))
	}
	if c.P["twice"] != 0 {
		again, err := generate(map[string]string{"_whole.go": whole})
		if err != nil || again["_whole.go"] != got {
			return failf(-1, "running the generator again on the same template gives another output")
		}
	}
	return nil
}

func from(s string, i int) string {
	if i > len(s) {
		return ""
	}
	return s[i:]
}

/* C23 */

// The directory under test is a map from path to content; a content of "/"
// stands for a directory.

var dirNames = []string{"dir", "_dir", "_a.go", "a.generated.go", "a b", "x_y.go", "d\u00e9", "[ab]*", "_", "--"}

var baseNames = []string{"a", "b", "buffer", "minibuf", "x_y", "a.b", "v_", "Z9", "go", "a_test", "longer-name", "_z", "a_linux", "x_arm64", "a.generated", "generated", "__b", "a b", "\u00fc_\u4e16", "-x", "%s", "[ab]*", "a$b", "A", "..."}

func genDir(g g) *Case {
	c := &Case{P: map[string]int64{}}
	// Text: a script. "put <name>\n<content>", "mkdir <name>", "rm <name>",
	// "run <style>", "bad <mode>"
	content := func() string {
		var b strings.Builder
		for n := g.n(5); n > 0; n-- {
			b.WriteString(pieceText(genPiece(g), false))
		}
		if g.pct(8) {
			b.WriteString(strings.Repeat("// filler "+fmt.Sprint(g.n(9))+"\n", 200+g.n(9000)))
		}
		return b.String()
	}
	var bases []string // of the templates so far
	put := func() {
		base := pickS(g, baseNames)
		if g.n(8) == 0 {
			x := strings.Map(func(r rune) rune {
				if r < 33 || r > 126 || r == '/' || r == '\\' {
					return -1
				}
				return r
			}, pickS(g, dict.Strings))
			if len(x) > 40 {
				x = x[:40]
			}
			if g.pct(50) {
				base += x
			} else {
				base = x + base
			}
		}
		name := ""
		switch g.n(16) {
		case 0, 1, 2, 3, 4, 5, 6:
			name = "_" + base + ".go"
			bases = append(bases, base)
		case 7, 8, 9:
			name = base + ".generated.go"
		case 10:
			name = base + ".go"
		case 11:
			name = "_" + base + pickS(g, []string{".txt", ".go.bak", ".GO", "", ".goo", ".g"})
		case 12:
			name = base + pickS(g, []string{"_.go", ".txt", "", "generated.go"})
		case 13:
			name = "sub/_" + base + ".go"
		case 14:
			name = "_dir.go/_" + base + ".go"
		case 15:
			name = "." + base + ".go"
		}
		c.Text = append(c.Text, "put "+name+"\n"+content())
	}
	if g.pct(40) {
		c.P["dir"] = int64(g.n(len(dirNames)))
	}
	bystander := func() { // a file that could be mistaken for a temporary or backup one
		if len(bases) == 0 {
			return
		}
		b := pickS(g, bases)
		name := pickS(g, []string{b + ".generated.go", b + ".generated.go", "_" + b + ".go", b + ".go"})
		x := pickS(g, []string{".tmp", ".new", ".bak", "~", ".orig", ".old", ".lock", ".swp", ".temp", ".1", "#"})
		if g.pct(60) {
			x = strings.Map(func(r rune) rune {
				if r < 33 || r > 126 || r == '/' || r == '\\' {
					return -1
				}
				return r
			}, pickS(g, dict.Strings))
			if len(x) > 40 {
				x = x[:40]
			}
		}
		if g.pct(70) {
			name += x
		} else {
			name = pickS(g, []string{".", "", "#", "~"}) + x + name
		}
		c.Text = append(c.Text, "put "+name+"\n"+content())
	}
	if g.pct(3) { // many templates
		for n := 10 + g.n(60); n > 0; n-- {
			c.Text = append(c.Text, fmt.Sprintf("put _t%d.go\n%s", n, pieceText(genPiece(g), false)))
		}
	}
	if g.pct(15) {
		c.P["user"] = 1
	}
	if g.pct(40) {
		c.Text = append(c.Text, "mkdir "+pickS(g, []string{"_sub.go", "sub", "_empty", "sub.generated"}))
	}
	for n := 1 + g.n(6); n > 0; n-- {
		put()
	}
	for g.pct(35) {
		bystander()
	}
	if g.pct(15) && len(bases) > 0 { // an output that cannot be written
		c.Text = append(c.Text, "mkdir "+pickS(g, bases)+".generated.go")
	}
	for n := 1 + g.n(4); n > 0; n-- {
		for k := g.n(3); k > 0; k-- {
			switch g.n(6) {
			case 0:
				c.Text = append(c.Text, "rm "+pickS(g, baseNames))
			case 1:
				if c.P["user"] != 0 {
					if len(bases) > 0 {
						b := pickS(g, bases)
						c.Text = append(c.Text, pickS(g, []string{"lock _" + b + ".go", "lock " + b + ".generated.go"}))
					}
					break
				}
				put()
			default:
				put()
			}
		}
		if g.pct(8) {
			c.Text = append(c.Text, "nodir "+pickS(g, []string{"missing", "file", "template", "empty"}))
		} else if g.pct(15) {
			c.Text = append(c.Text, "bad "+pickS(g, []string{"", "Complex", "complexx", "none", "simple", "COMPLEX", " "}))
		} else {
			c.Text = append(c.Text, "run "+pickS(g, []string{"abs", "rel", "cwd", "dot", "slash"}))
			if g.pct(30) {
				c.Text = append(c.Text, "run abs")
			}
		}
	}
	return c
}

func snapshot(d string) map[string]string {
	m := map[string]string{}
	must(filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
		must(err)
		rel, _ := filepath.Rel(d, p)
		if rel == "." {
			return nil
		}
		if fi.IsDir() {
			m[rel] = "/"
			return nil
		}
		if !fi.Mode().IsRegular() {
			m[rel] = "?" + fi.Mode().String()
			return nil
		}
		b, err := os.ReadFile(p)
		must(err)
		m[rel] = "=" + string(b)
		return nil
	}))
	return m
}

func isTemplate(name, content string) bool {
	return strings.HasPrefix(name, "_") && strings.HasSuffix(name, ".go") && !strings.Contains(name, "/") && strings.HasPrefix(content, "=")
}

func runDir(c *Case, r *Run) *Failure {
	top := scratch()
	defer os.RemoveAll(top)
	dirName := dirNames[c.P["dir"]%int64(len(dirNames))]
	d := filepath.Join(top, "work", dirName)
	other := filepath.Join(top, "elsewhere")
	must(os.MkdirAll(d, 0o755))
	must(os.MkdirAll(other, 0o755))
	must(os.WriteFile(filepath.Join(other, "_a.go"), []byte("package other\n"), 0o644))
	model := map[string]string{}
	world := snapshot(top)
	uid := uint32(0)
	if c.P["user"] != 0 && canDrop() {
		uid = nobody
		for _, p := range []string{top, filepath.Join(top, "work"), other} {
			must(os.Chmod(p, 0o755))
		}
		must(os.Chown(d, nobody, nobody))
		r.label("as an unprivileged user")
	}
	own := func(p string) {
		if uid != 0 {
			must(os.Chown(p, nobody, nobody))
		}
	}
	locked := map[string]bool{}
	runs, outputs, stale := 0, 0, 0
	for i, line := range c.Text {
		cmd, arg, _ := strings.Cut(line, " ")
		switch cmd {
		case "put":
			name, content, _ := strings.Cut(arg, "\n")
			p := filepath.Join(d, name)
			if model[name] == "/" {
				continue
			}
			if dir := filepath.Dir(name); dir != "." {
				if m, ok := model[dir]; ok && m != "/" {
					continue
				}
				must(os.MkdirAll(filepath.Join(d, dir), 0o755))
				own(filepath.Join(d, dir))
				model[dir] = "/"
			}
			must(os.WriteFile(p, []byte(content), 0o644))
			own(p)
			model[name] = "=" + content
		case "mkdir":
			if _, ok := model[arg]; !ok {
				must(os.Mkdir(filepath.Join(d, arg), 0o755))
				own(filepath.Join(d, arg))
				model[arg] = "/"
			}
		case "rm":
			name := "_" + arg + ".go"
			if m, ok := model[name]; ok && m != "/" {
				must(os.Remove(filepath.Join(d, name)))
				delete(model, name)
				delete(locked, name)
			}
		case "lock":
			if m, ok := model[arg]; ok && m != "/" && uid != 0 {
				mode := os.FileMode(0)
				if strings.HasSuffix(arg, ".generated.go") {
					mode = 0o444
				}
				must(os.Chmod(filepath.Join(d, arg), mode))
				locked[arg] = true
			}
		case "bad", "run", "nodir":
			cwd, dir := other, d
			args := []string{"-generation", "complex"}
			if cmd == "nodir" {
				cwd = d
				switch arg {
				case "missing":
					dir = filepath.Join(top, "missing")
				case "file":
					dir = filepath.Join(other, "_a.go")
				case "template":
					dir = filepath.Join(d, "_missing")
					for k, v := range model {
						if isTemplate(k, v) && filepath.Join(d, k) > dir {
							dir = filepath.Join(d, k)
						}
					}
				case "empty":
					dir = filepath.Join(top, "\x01")
				}
			} else if cmd == "bad" {
				args = []string{"-generation", arg}
				if arg == " " {
					args = nil
				}
			} else {
				switch arg {
				case "rel":
					cwd, dir = filepath.Join(top, "work"), dirName
				case "cwd":
					cwd, dir = d, ""
				case "dot":
					cwd, dir = d, "."
				case "slash":
					dir = d + "/"
				}
			}
			// what each output has to be: that of its template alone
			want := map[string]string{}
			for k, v := range model {
				want[k] = v
			}
			alone := map[string]string{}
			faulty := false
			unjudged := map[string]bool{} // outputs that cannot be made
			if cmd == "run" {
				for k, v := range model {
					if isTemplate(k, v) {
						alone[k] = v[1:]
					}
				}
				for k := range alone {
					if _, ok := alone[outputName(k)]; ok {
						return nil // one file is both a template and an output
					}
					if locked[k] || locked[outputName(k)] {
						unjudged[outputName(k)] = true
						r.label("unreadable template or unwritable output")
					}
				}
				for k, v := range alone {
					if unjudged[outputName(k)] {
						continue
					}
					o, err := generate(map[string]string{k: v})
					if err != nil {
						return failf(i, "the generator failed on %s alone: %v", k, err)
					}
					txt, ok := o[k]
					if !ok {
						return failf(i, "template %s alone gets no output file %s", k, outputName(k))
					}
					if l := missingLine(v, txt); l != "" {
						return failf(i, "the output of template %s alone lacks its line %.100q", k, l)
					}
					if old, ok := model[outputName(k)]; ok {
						if old == "/" { // the output's name is taken by a directory
							r.label("output name taken by a directory")
							faulty = true
							continue
						}
						if len(old)-1 > len(txt) {
							stale++
						}
					}
					want[outputName(k)] = "=" + txt
					outputs++
				}
				runs++
			}
			entering(true)
			err := runGeneratorAs(uid, cwd, dir, args...)
			entering(false)
			r.steps++
			r.judged++
			if err != nil && cmd == "run" && !faulty && len(unjudged) == 0 {
				return failf(i, "the generator failed: %v", err)
			}
			got := snapshot(d)
			for k := range unjudged {
				delete(want, k)
				if v, ok := got[k]; ok {
					want[k] = v
				}
			}
			if f := compareDirs(want, got, i, line); f != nil {
				return f
			}
			model = got
			for k, v := range snapshot(top) {
				if strings.HasPrefix(k, "work/"+dirName+"/") {
					continue
				}
				if w, ok := world[k]; !ok || w != v {
					return failf(i, "step %q: the generator touched %s outside of the directory it was given", line, k)
				}
			}
		}
	}
	r.label(fmt.Sprintf("%d runs", runs))
	if stale > 0 {
		r.label("longer old output")
	}
	r.trivial = outputs == 0
	return nil
}

// missingLine returns the first line of a template, other than a possible
// directive, that is not in out in its place.
func missingLine(tmpl, out string) string {
	ls := strings.Split(out, "\n")
	for _, l := range strings.Split(tmpl, "\n") {
		if strings.HasPrefix(l, "//generator:complex ") {
			continue
		}
		for len(ls) > 0 && ls[0] != l {
			ls = ls[1:]
		}
		if len(ls) == 0 {
			if l == "" {
				l = "\n"
			}
			return l
		}
		ls = ls[1:]
	}
	return ""
}

func compareDirs(want, got map[string]string, i int, line string) *Failure {
	var names []string
	for k := range want {
		names = append(names, k)
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	for _, k := range names {
		w, inW := want[k]
		g, inG := got[k]
		switch {
		case !inG:
			return failf(i, "after step %q: %s is missing", line, k)
		case !inW:
			return failf(i, "after step %q: %s appeared", line, k)
		case w != g:
			at := 0
			for at < len(g) && at < len(w) && g[at] == w[at] {
				at++
			}
			return failf(i, "after step %q: %s has unexpected content at byte %d (%d bytes, expected %d)", line, k, at-1, len(g)-1, len(w)-1)
		}
	}
	return nil
}

// minimising for cases that are lists of texts
func dropText(c *Case, i, n int) *Case {
	e := *c
	e.Text = append(append([]string(nil), c.Text[:i]...), c.Text[i+n:]...)
	return &e
}

func initGen() {
	properties["C22"] = &property{id: "C22", rule: "One case is a template made of generated lines: valid directives, directives with one invalid argument, near misses, text (CRLF, not UTF-8, very long lines, no final newline). The generator runs on it and on each directive line alone; its output has to be the lines in order with each directive replaced by what it gives alone, valid ones by exactly their two methods, invalid ones by comments. Non-trivial: at least one directive and one other line; distinct by hash of the case.",
		modes: []*mode{{name: "template", weight: 100, gen: genTemplate, run: runTemplate}}}
	properties["C23"] = &property{id: "C23", rule: "One case is a script on a scratch directory: files put and removed (templates, look-alikes, subdirectories, stale outputs), generator runs with different ways to name the directory, runs without a valid mode or directory, and (for some, as an unprivileged user) files that cannot be read and outputs that cannot be written. After each run the directory has to hold exactly what it held plus, for each template, the output that template gets alone (which has to hold all its ordinary lines in order); nothing outside may change. Non-trivial: at least one output expected; distinct by hash of the case.",
		modes: []*mode{{name: "directory", weight: 100, gen: genDir, run: runDir}}}
	for _, id := range []string{"C22", "C23"} {
		for _, m := range properties[id].modes {
			gen, name, id := m.gen, m.name, id
			m.gen = func(g g) *Case {
				c := gen(g)
				c.Prop, c.Mode = id, name
				return c
			}
		}
	}
}
