package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	register(&Check{
		ID:    "C37",
		Rule:  "PO documents with one broken message or reference (active or obsolete, at any position, in any layout), damaged MO files, Go sources with a syntax error or a bad call, under hostile names, given to the library and to the tools among sound inputs; the errors are searched for the name and the line; non-trivial: every case with an error",
		Quick: 60000, Thorough: 800000,
		Run:  runC37,
		Need: map[string]int{"po": 30000, "po-obsolete": 8000, "po-reference": 3000, "mo": 8000, "go-syntax": 5000, "go-call": 5000, "tools": 5000, "unreadable": 500, "go-several": 4000, "late": 4000},
		Assume: []string{
			"the line may be anywhere from the begin of the broken message to the end of the next message of its kind (active or obsolete), or two lines behind the end of the document",
			"Go sources without line directives",
		},
	})
}

var errorNames = []string{"f.po", "dir/f.po", "a:3.po", "x y.po", "50%d.po", "ñ.po", "1:2:3", "é\"q\".po", "%s", "f.po:7"}

// brokenDoc is a document with one defect.
type brokenDoc struct {
	text        string
	kind        string
	obsolete    bool
	first, last int // the line of the defect is between these
	optional    bool
}

// brokenPO writes a PO document with one defect.
func (t *T) brokenPO() brokenDoc {
	n := t.count(t.Intn(8), 9)
	es := t.entries(n, entryOpt{})
	w := t.layout()
	var docs []string
	for _, e := range es {
		w.b.Reset()
		w.entry(e)
		docs = append(docs, w.b.String())
	}
	d := brokenDoc{}
	var text string
	at := t.Intn(n + 1)
	off := 0 // of the defect within the text
	if t.p(10) {
		d.kind, d.optional = "reference", true
		ref := "#: big.go:" + pick(t.G, []string{"9223372036854775808", "99999999999999999999", "1" + strings.Repeat("0", 20+t.Intn(300))})
		text = "# c\n" + ref + "\nmsgid \"x\"\nmsgstr \"y\"\n"
		off = 1
		if t.p(40) {
			d.obsolete = true
			text = "# c\n" + ref + "\n#~ msgid \"x\"\n#~ msgstr \"y\"\n"
		}
	} else {
		var lines []string
		lines, d.kind = t.brokenMessage()
		if d.obsolete = t.p(40); d.obsolete {
			for i := range lines {
				lines[i] = "#~ " + lines[i]
			}
		}
		text = strings.Join(lines, "\n") + "\n"
		if t.p(30) {
			text = "# comment\n#, fuzzy\n" + text
			off = 2
		}
	}
	text += pick(t.G, []string{"", "\n", "\n\n"})
	if w.nl != "\n" {
		text = strings.ReplaceAll(text, "\n", w.nl)
	}
	line := 1
	for _, x := range docs[:at] {
		line += strings.Count(x, "\n")
	}
	d.first = line + off
	line += strings.Count(text, "\n")
	end := true
	for i := at; i < n; i++ {
		line += strings.Count(docs[i], "\n")
		if es[i].Obsolete == d.obsolete {
			end = false
			break
		}
	}
	d.last = line
	if d.kind == "reference" {
		d.last = d.first
	} else if end {
		d.last += 2
	}
	d.text = strings.Join(docs[:at], "") + text + strings.Join(docs[at:], "")
	if d.first > 50 {
		t.Ev("late")
	}
	return d
}

// named checks that an error names the document and a line.
func (t *T) named(how, msg, name string, first, last int, ctx func() string) {
	if !strings.Contains(msg, name) {
		t.Fail("no-name", "%s: error %q doesn't name %q\n%s", how, msg, name, ctx())
	}
	if first == 0 {
		return
	}
	ms := regexp.MustCompile(regexp.QuoteMeta(name)+`:(?:[^:]*line )?(\d+)\b`).FindAllStringSubmatch(msg, -1)
	if len(ms) == 0 {
		ms = regexp.MustCompile(`\bline (\d+)\b`).FindAllStringSubmatch(msg, -1)
	}
	if len(ms) == 0 {
		t.Fail("no-line", "%s: error %q names no line, expected %d to %d\n%s", how, msg, first, last, ctx())
	}
	for _, m := range ms {
		if n, err := strconv.Atoi(m[1]); err == nil && n >= first && n <= last {
			return
		}
	}
	t.Fail("wrong-line", "%s: error %q names another line than %d to %d\n%s", how, msg, first, last, ctx())
}

func runC37(t *T) {
	switch k := t.Case % 20; {
	case k < 11:
		t.poErrors()
	case k < 14:
		t.moErrors()
	case k < 18:
		t.goErrors()
	default:
		t.toolErrors()
	}
}

func (t *T) poErrors() {
	d := t.brokenPO()
	name := pick(t.G, errorNames)
	ctx := func() string {
		return fmt.Sprintf("%s (obsolete: %v), lines %d to %d of\n%s\n%q", d.kind, d.obsolete, d.first, d.last, d.text, d.text)
	}
	t.Note("%q", d.text)
	var err error
	var errs []error
	switch t.Intn(6) {
	case 0:
		_, err = parse.PoFromString(d.text, name)
	case 4, 5:
		f := t.fileNamed(&name, d.text)
		defer t.drop(f)
		if t.p(50) {
			_, err = parse.PoFromFile(f)
			break
		}
		var p *parse.PoParser
		if p, err = parse.NewPoFromFile(f); err == nil {
			p.Parse()
			p.Parse()
			err, errs = p.Error(), p.Errors()
		}
	case 1:
		_, err = parse.PoFromReader(strings.NewReader(d.text), name, parse.PoWithCleanDuplicates(t.p(50)))
	case 2:
		p := filepath.Join(t.Dir, strings.ReplaceAll(name, "/", "_"))
		must(os.WriteFile(p, []byte(d.text), 0o644))
		defer os.Remove(p)
		name = p
		_, err = parse.Po(p)
	default:
		p := parse.NewPoFromBytes([]byte(d.text), name, parse.PoWithSkipHeader(t.p(50)), parse.PoWithIgnoreComments(t.p(50)))
		p.Parse()
		err, errs = p.Error(), p.Errors()
	}
	if err == nil {
		if d.optional {
			return
		}
		t.Fail("silent", "no error\n%s", ctx())
	}
	t.Ev("po")
	if d.obsolete {
		t.Ev("po-obsolete")
	}
	if d.optional {
		t.Ev("po-reference")
	}
	t.Sig(d.text)
	t.Sample(func() string { return fmt.Sprintf("%v\nfor %s", err, ctx()) })
	for _, err := range append(errs, err) {
		t.named("PO", err.Error(), name, d.first, d.last, ctx)
	}
}

// fileNamed opens a file with about the name, which becomes its path.
func (t *T) fileNamed(name *string, text string) *os.File {
	*name = filepath.Join(t.Dir, strings.ReplaceAll(*name, "/", "_"))
	must(os.WriteFile(*name, []byte(text), 0o644))
	f, err := os.Open(*name)
	must(err)
	return f
}

func (t *T) drop(f *os.File) {
	f.Close()
	os.Remove(f.Name())
}

func (t *T) moErrors() {
	mo := compile.MoToBytes(t.entries(t.Intn(6), entryOpt{}), compile.MoWithHashTable(t.p(50)))
	what := t.damageMO(&mo)
	name := pick(t.G, errorNames)
	p := parse.NewMoFromBytes(mo, name)
	switch t.Intn(4) {
	case 0:
		f := t.fileNamed(&name, string(mo))
		defer t.drop(f)
		var err error
		p, err = parse.NewMoFromFile(f)
		must(err)
	case 1:
		f := t.fileNamed(&name, string(mo))
		defer t.drop(f)
		var err error
		p, err = parse.NewMo(name)
		must(err)
	case 2:
		var err error
		p, err = parse.NewMoFromReader(strings.NewReader(string(mo)), name)
		must(err)
	}
	f := p.Parse()
	if p.Error() == nil {
		if f == nil {
			t.Fail("silent", "neither file nor error: %s", what)
		}
		return
	}
	t.Ev("mo")
	t.Sig(mo)
	for _, err := range p.Errors() {
		t.named("MO ("+what+")", err.Error(), name, 0, 0, func() string { return fmt.Sprintf("%q", mo) })
	}
}

// damageMO damages a file in a way that is mostly noticed.
func (t *T) damageMO(mo *[]byte) string {
	b := *mo
	switch t.Intn(4) {
	case 0:
		*mo = b[:t.Intn(len(b))]
		return "truncated"
	case 1:
		b[t.Intn(4)] ^= byte(1 + t.Intn(255))
		return "magic number"
	case 2:
		b[4+t.Intn(4)] ^= byte(1 + t.Intn(255))
		return "version"
	}
	b[8+t.Intn(len(b)-8)] ^= byte(1 + t.Intn(255))
	return "another byte"
}

// brokenGo writes a Go source with one defect.
func (t *T) brokenGo() brokenDoc {
	s := &goSrc{G: t.G, line: 1, simple: true}
	s.file(true, t.Intn(6))
	d := brokenDoc{}
	// Without another import name.
	s.w(pick(t.G, []string{"", "\n", "\n\n// c\n"}))
	d.first = s.line
	name := s.names[0]
	if t.p(50) {
		d.kind = "syntax"
		s.w(pick(t.G, []string{"func {\n", "var x = \"a\nb\"\n", "}\n", "var x = \"\\q\"\n", "packag p\n", "func f() { gotext.Get(\"x\" \"y\") }\n", "var y = (1\n", "x\n", "import \"fmt\n", "var 1x int\n"}))
		d.last = s.line
		d.text = s.b.String()
		return d
	}
	d.kind = "call"
	call := pick(t.G, []string{"Get()", "GetN(\"a\")", "GetN(1, \"b\", 1)", "GetD(\"d\")", "GetC(\"x\")", "GetC(\"x\", 3)", "GetNC(\"a\", \"b\", 1)", "GetND(\"d\", \"a\")", "GetNDC(\"d\", \"a\", \"b\", 1)", "Get('x')", "GetN(\"a\", 2, 1)", "GetDC(\"d\", \"a\")"})
	if t.p(30) {
		call = strings.ReplaceAll(strings.ReplaceAll(call, "(", "(\n"), ", ", ",\n")
		call = strings.Replace(call, ")", ",\n)", 1)
		call = strings.Replace(call, "(\n,\n)", "(\n)", 1)
	}
	s.w("var zz = " + name + "." + call + "\n")
	d.last = s.line - 1
	s.w(pick(t.G, []string{"", "\n", "var zzz = \"end\"\n\n"}))
	d.text = s.b.String()
	return d
}

func (t *T) goErrors() {
	d := t.brokenGo()
	name := pick(t.G, errorNames)
	ctx := func() string { return fmt.Sprintf("%s, lines %d to %d of\n%s", d.kind, d.first, d.last, d.text) }
	t.Note("%q", d.text)
	t.Sig(d.text)
	t.Ev("go-" + d.kind)
	var err error
	var errs []error
	switch t.Intn(7) {
	case 0:
		_, err = goparse.FromString(d.text, name)
	case 3:
		_, err = goparse.FromReader(strings.NewReader(d.text), name, goparse.WithCleanDuplicates(t.p(50)))
	case 4, 5, 6: // among others
		var fs []*os.File
		var paths []string
		at, n := t.Intn(4), 1+t.Intn(3)
		for i := 0; i < n || i <= at; i++ {
			x, text := "f.po", "package p\n\nimport \""+gotextPath+"\"\n\nvar x = gotext.Get(\"a\")\n"
			if i == at {
				x, text = name, d.text
			}
			x = fmt.Sprintf("%d%s.go", i, x)
			f := t.fileNamed(&x, text)
			defer t.drop(f)
			if i == at {
				name = x
			}
			fs, paths = append(fs, f), append(paths, x)
		}
		t.Ev("go-several")
		var p *goparse.Parser
		switch t.Intn(4) {
		case 0:
			_, err = goparse.FromFiles(fs)
		case 1:
			_, err = goparse.FromPaths(paths)
		case 2:
			p, err = goparse.NewParserFromFiles(fs)
		default:
			p, err = goparse.NewParserFromPaths(paths)
		}
		if p != nil && err == nil {
			p.Parse()
			err, errs = p.Error(), p.Errors()
		}
	case 1:
		p := filepath.Join(t.Dir, strings.ReplaceAll(name, "/", "_")+".go")
		must(os.WriteFile(p, []byte(d.text), 0o644))
		defer os.Remove(p)
		name = p
		_, err = goparse.FromPath(p)
	default:
		var p *goparse.Parser
		p, err = goparse.NewParserFromBytes([]byte(d.text), name)
		if err == nil {
			p.Parse()
			err, errs = p.Error(), p.Errors()
		}
	}
	if err == nil {
		t.Fail("silent", "no error\n%s", ctx())
	}
	t.Sample(func() string { return fmt.Sprintf("%v\nfor %s", err, ctx()) })
	for _, err := range append(errs, err) {
		t.named("Go", err.Error(), name, d.first, d.last, ctx)
	}
}

// toolErrors gives a tool a broken input among sound ones.
func (t *T) toolErrors() {
	c := t.cli()
	defer c.done()
	var d brokenDoc
	name := pick(t.G, []string{"broken.po", "sub/broken.po", "x y b.po", "ñ-b.po", "50%d.po", "bb:3.po"})
	good := func() string { return compile.PoToString(c.catalogue(c.Intn(4))) }
	var tool string
	var args []string
	po := func() {
		for d = t.brokenPO(); d.optional; d = t.brokenPO() {
		}
		c.put(name, d.text)
	}
	// others are sound inputs around the broken one.
	others := func(f func(string)) []string {
		l := []string{name}
		for i, n := 0, c.Intn(4); i < n; i++ {
			x := fmt.Sprintf("good%d%s", i, filepath.Ext(name))
			f(x)
			k := c.Intn(len(l) + 1)
			l = append(l[:k:k], append([]string{x}, l[k:]...)...)
		}
		return l
	}
	goodPO := func(x string) { c.put(x, good()) }
	goodGo := func(x string) { c.put(x, "package p\n\nimport \""+gotextPath+"\"\n\nvar x = gotext.Get(\"a\")\n") }
	k := c.Intn(9)
	switch k {
	case 0:
		tool = "msgofmt"
		po()
		args = append([]string{"-o", "-"}, others(goodPO)...)
	case 1:
		tool = "msgocat"
		po()
		args = others(goodPO)
	case 2:
		tool = "msgocat"
		po()
		c.put("list", strings.Join(others(goodPO), "\n")+"\n")
		args = []string{"-f", "list"}
	case 3:
		tool = "msgocat"
		name = "dir/" + filepath.Base(name)
		po()
		others(func(x string) { c.put("dir/"+x, good()) })
		args = []string{"-D", "dir"}
	case 4:
		tool = "msgomerge"
		po()
		goodPO("g.po")
		args = []string{name, "g.po"}
		if c.p(50) {
			args = []string{"g.po", name}
		}
	case 5:
		tool = "msgomerge"
		po()
		goodPO("g.po")
		goodPO("h.po")
		args = []string{"g.po", "h.po", "--compendium", name}
	case 6:
		tool = "xgotext"
		po()
		goodGo("a.go")
		args = []string{"a.go", "-o", "-", "-x", name}
		if c.p(50) {
			args = []string{"a.go", "-j", "-o", name}
		}
	case 7:
		tool = "xgotext"
		name = strings.TrimSuffix(name, ".po") + ".go"
		d = t.brokenGo()
		c.put(name, d.text)
		args = append([]string{"-o", "-"}, others(goodGo)...)
	case 8:
		tool = "msgounfmt"
		name = strings.TrimSuffix(name, ".po") + ".mo"
		mo := compile.MoToBytes(c.catalogue(1 + c.Intn(4)))
		d.kind = "mo"
		for {
			b := append([]byte(nil), mo...)
			d.kind = t.damageMO(&b)
			if _, err := parse.MoFromBytes(b, "x"); err != nil {
				c.put(name, string(b))
				break
			}
		}
		args = others(func(x string) { c.put(x, string(compile.MoToBytes(c.catalogue(c.Intn(4))))) })
	}
	if c.p(20) && !(k == 3 || k == 6 && args[1] == "-j") { // missing or a directory
		must(os.Remove(name))
		d = brokenDoc{kind: "missing"}
		if c.p(50) && (tool != "xgotext" || k == 6) {
			must(os.Mkdir(name, 0o755))
			d.kind = "directory"
		}
		t.Ev("unreadable")
	}
	c.Sig(tool, fmt.Sprint(args), d.kind, d.text)
	r := c.run("", tool, args...)
	t.Ev("tools")
	t.Ev("tool-" + tool)
	if r.status == 0 {
		t.Fail("silent", "no error\n%s\n%s", c.what(r), d.text)
	}
	c.Sample(func() string { return c.what(r) })
	// The name may stand in a longer path.
	t.named(tool, r.err, name, d.first, d.last, func() string { return d.kind + "\n" + c.what(r) })
}
