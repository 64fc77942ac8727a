package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

func init() {
	register(&Check{
		ID:    "C19",
		Rule:  "random directory trees of Go sources with known messages, extracted from random path lists and exclusions and compared with an independent walk, with broken sources and missing paths injected, and single sources through every constructor; non-trivial: at least one file visited or error injected",
		Quick: 40000, Thorough: 600000,
		Run:  runC19,
		Need: map[string]int{"visited": 15000, "excluded": 5000, "again": 5000, "messages": 40000, "constructors": 20000, "missing-path": 400, "syntax-error": 400, "bad-call": 400, "scale-files": 60, "scale-paths": 50, "scale-exclude": 20, "scale-depth": 25},
		Assume: []string{
			"trees without symbolic links and devices; file names in references are compared after cleaning",
		},
	})
}

// goTree is a directory tree with Go sources.
type goTree struct {
	root  string
	files map[string]*goSrc // absolute path
	dirs  []string          // relative to the root
	names []string          // all files, relative to the root
}

func (t *T) goTree(root string) *goTree {
	g := &goTree{root: root, files: map[string]*goSrc{}, dirs: []string{"."}}
	if t.scale == "references" {
		t.Ev("scale-depth")
		d := "."
		for i, n := 0, t.large(7); i < n; i++ {
			d = filepath.Join(d, pick(t.G, []string{"a", "b", "x.go"}))
			g.dirs = append(g.dirs, d)
		}
		must(os.MkdirAll(filepath.Join(root, d), 0o755))
	}
	for i, n := 0, t.Intn(6); i < n; i++ {
		d := filepath.Join(pick(t.G, g.dirs), pick(t.G, []string{"a", "b", "cmd", "vendor", "testdata", ".hidden", "x.go", "a b", "ñ", "n\u0303", "ab", "A", "B", "_x", "..c", "internal", "node_modules", "CMD", "a.", "a "}))
		if _, err := os.Stat(filepath.Join(root, d)); err == nil {
			continue
		}
		must(os.MkdirAll(filepath.Join(root, d), 0o755))
		g.dirs = append(g.dirs, d)
	}
	files := t.Intn(16)
	if t.scale == "messages" {
		t.Ev("scale-files")
		files = t.large(9)
	}
	for i := 0; i < files; i++ {
		f := filepath.Join(pick(t.G, g.dirs), pick(t.G, []string{"a.go", "b.go", "m.go", "z.go", "a_test.go", "ñ.go", ".go", "b.go.txt", "go", "C.GO", "a.g", "x.y.go", "a b.go", "..go", "A.go", "M.go", "n\u0303.go", "a.go~", "#a.go", "a.go.go", "a_windows.go", "doc.go", "z_generated.go", "a.pb.go", "a.GO", "a.go ", "_a.go", "mock_a.go", "100.go"}))
		if files > 16 {
			f = filepath.Join(filepath.Dir(f), fmt.Sprintf("%d%s", i, filepath.Base(f)))
		}
		abs := filepath.Join(root, f)
		if _, err := os.Stat(abs); err == nil {
			continue
		}
		s := &goSrc{G: t.G, line: 1, simple: true, ids: []string{"a", "b", "c", "hello", "a\nb"}}
		s.file(!t.p(8), 1+t.Intn(6))
		must(os.WriteFile(abs, []byte(s.b.String()), 0o644))
		g.names = append(g.names, f)
		g.files[abs] = s
	}
	return g
}

// spell writes a path below the root (the working directory) in some way.
func (t *T) spell(g *goTree, p string) string {
	switch t.Intn(7) {
	case 0:
		return filepath.Join(g.root, p)
	case 1:
		return "./" + p
	case 2:
		return "../" + filepath.Base(g.root) + "/" + p
	case 3:
		return strings.ReplaceAll(p, "/", "//")
	case 4:
		return p + string(filepath.Separator)
	case 5:
		if d := filepath.Dir(p); d != "." {
			return d + "/../" + p[:0] + filepath.Base(d) + "/" + filepath.Base(p)
		}
		return p
	}
	return p
}

type visit struct {
	name string
	src  *goSrc
}

// walk visits the files below a path in order.
func (g *goTree) walk(p string, f func(name, abs string)) bool {
	st, err := os.Lstat(p)
	if err != nil {
		return false
	}
	if !st.IsDir() {
		abs, err := filepath.Abs(p)
		must(err)
		f(p, abs)
		return true
	}
	l, err := os.ReadDir(p)
	must(err)
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	for _, e := range l {
		g.walk(filepath.Join(p, e.Name()), f)
	}
	return true
}

func (t *T) below(abs, dir string) bool {
	return abs == dir || strings.HasPrefix(abs, strings.TrimSuffix(dir, "/")+"/")
}

// goEntries are the entries that the visits must give.
func goEntries(vs []visit, all, clean bool) po.Entries {
	var es po.Entries
	at := map[string]int{}
	for _, v := range vs {
		for _, f := range v.src.wantedInOrder(all) {
			e := po.Entry{ID: f.id, Plural: f.plural, Context: f.ctx, Locations: po.Locations{{File: filepath.Clean(v.name), Line: f.line}}}
			if i, ok := at[uid(e)]; ok && clean {
				es[i].Locations = append(es[i].Locations, e.Locations...)
				if es[i].Plural == "" {
					es[i].Plural = e.Plural
				}
				continue
			}
			at[uid(e)] = len(es)
			es = append(es, e)
		}
	}
	return es
}

// wantedInOrder is what must be found in the order of the text.
func (s *goSrc) wantedInOrder(all bool) []found {
	l := append([]found(nil), s.wanted(all)...)
	sort.SliceStable(l, func(i, j int) bool { return l[i].off < l[j].off })
	return l
}

func cleanNames(es po.Entries) po.Entries {
	es = cloneEntries(es)
	for i := range es {
		for j := range es[i].Locations {
			es[i].Locations[j].File = filepath.Clean(es[i].Locations[j].File)
		}
	}
	return es
}

var errRead = errors.New("read failure")

func runC19(t *T) {
	if t.Case%3 == 0 {
		t.goConstructors()
		return
	}
	root := filepath.Join(t.Dir, fmt.Sprintf("t%d", t.Case))
	must(os.Mkdir(root, 0o755))
	defer func() {
		must(os.Chdir(t.Dir))
		must(os.RemoveAll(root))
	}()
	must(os.Chdir(root))
	g := t.goTree(root)
	var paths []string
	some := func() string {
		if len(g.names) > 0 && t.p(50) {
			n := pick(t.G, g.names)
			s := t.spell(g, n)
			return strings.TrimSuffix(s, "/") // a file with a slash at its end doesn't exist
		}
		return t.spell(g, pick(t.G, g.dirs))
	}
	npaths := 1 + t.Intn(4)
	if t.scale == "forms" || t.scale == "messages" && t.p(30) {
		t.Ev("scale-paths")
		npaths = t.large(9)
	}
	for i := 0; i < npaths; i++ {
		paths = append(paths, some())
	}
	if t.p(50) {
		paths = append(paths, ".")
	}
	var exclude []string
	if t.p(50) {
		n, nothing := 1+t.Intn(3), 15
		if t.scale == "flags" || t.scale == "messages" && t.p(30) {
			t.Ev("scale-exclude")
			n = t.large(9)
			if t.p(70) {
				nothing = 99
			}
		}
		for i := 0; i < n; i++ {
			x := some()
			if t.p(nothing) {
				x = pick(t.G, []string{"nothing", "a/nothing", "a.g", "m", "/nowhere"})
			}
			exclude = append(exclude, x)
		}
	}
	// A fault.
	fault := ""
	faultFile := ""
	if t.p(25) {
		switch t.Intn(3) {
		case 0:
			fault = "missing-path"
			p := pick(t.G, []string{"missing.go", "missing", "./a/missing/x.go", filepath.Join(root, "gone")})
			k := t.Intn(len(paths) + 1)
			paths = append(paths[:k], append([]string{p}, paths[k:]...)...)
		case 1:
			fault = "syntax-error"
			faultFile = pick(t.G, g.dirs) + "/broken.go"
			src := pick(t.G, []string{
				"package p\nfunc f() {\n", "package p\nvar x = \"a\nb\"\n", "", "packag p\n", "package p\nimport \"fmt\n", "package p\nvar x = `a\n",
				"package p\nimport \"" + gotextPath + "\"\nvar x = gotext.Get(\"a\"\n", "\x00", "package p\nvar x = \"\\q\"\n", "package p\nfunc f() { gotext.Get(\"x\" \"y\") }\n",
			})
			must(os.WriteFile(filepath.Join(root, faultFile), []byte(src), 0o644))
		case 2:
			fault = "bad-call"
			faultFile = pick(t.G, g.dirs) + "/bad.go"
			call := pick(t.G, []string{"Get()", "GetN(\"a\")", "GetN(1, \"b\", 1)", "GetD(\"d\")", "GetC(\"x\")", "GetC(\"x\", 3)", "GetNC(\"a\", \"b\", 1)", "GetND(\"d\", \"a\")", "GetNDC(\"d\", \"a\", \"b\", 1)", "Get('x')", "GetN(\"a\", 2, 1)", "GetDC(\"d\", \"a\")"})
			src := "package p\n\nimport \"" + gotextPath + "\"\n\nvar x = gotext." + call + "\n"
			must(os.WriteFile(filepath.Join(root, faultFile), []byte(src), 0o644))
		}
	}
	// The independent walk.
	abs := func(p string) string {
		a, err := filepath.Abs(p)
		must(err)
		return a
	}
	var vs []visit
	seen := map[string]bool{}
	wantErr := ""
	for _, p := range paths {
		ok := g.walk(p, func(name, a string) {
			if filepath.Ext(a) != ".go" {
				return
			}
			if seen[a] {
				t.Ev("again")
				return
			}
			seen[a] = true
			for _, x := range exclude {
				if t.below(a, abs(x)) {
					t.Ev("excluded")
					return
				}
			}
			if faultFile != "" && a == filepath.Join(root, faultFile) {
				wantErr = fault
				vs = append(vs, visit{name, nil})
				return
			}
			vs = append(vs, visit{name, g.files[a]})
			t.Ev("visited")
		})
		if !ok {
			wantErr = "missing-path"
		}
	}
	ctx := func() string {
		var b strings.Builder
		fmt.Fprintf(&b, "paths %q exclude %q fault %q %q\nexpected visits:", paths, exclude, fault, faultFile)
		for _, v := range vs {
			fmt.Fprintf(&b, " %q", v.name)
		}
		b.WriteString("\ntree:")
		for _, d := range g.dirs {
			fmt.Fprintf(&b, " %s/", d)
		}
		for _, f := range g.names {
			fmt.Fprintf(&b, "\n== %s\n%s", f, g.files[filepath.Join(root, f)].b.String())
		}
		return b.String()
	}
	t.Note("%q %q", paths, exclude)
	all, clean := t.p(20), t.p(60)
	opts := []goparse.Option{goparse.WithExclude(exclude...), goparse.WithExtractAll(all), goparse.WithCleanDuplicates(clean)}
	opts = append(opts, goparse.WithNoHeader(true))
	if len(vs) > 0 || wantErr != "" {
		t.Sig(ctx())
	}
	t.Sample(ctx)
	parse := func() (*po.File, []error) {
		var p *goparse.Parser
		var err error
		if len(paths) == 1 && t.p(50) {
			p, err = goparse.NewParser(paths[0], opts...)
		} else {
			p, err = goparse.NewParserFromPaths(paths, opts...)
		}
		if err != nil {
			return nil, []error{err}
		}
		if wantErr == "" && len(p.Files()) != len(vs) {
			t.Fail("visits", "%d files visited, want %d\n%s", len(p.Files()), len(vs), ctx())
		}
		f := p.Parse()
		if (p.Error() == nil) != (len(p.Errors()) == 0) {
			t.Fail("errors", "Error() = %v, Errors() = %v\n%s", p.Error(), p.Errors(), ctx())
		}
		if t.p(20) { // asked again
			if f2 := p.Parse(); diffEntries(f2.Entries, f.Entries) != "" {
				t.Fail("again", "parsed again: %s\n%s", diffEntries(f2.Entries, f.Entries), ctx())
			}
		}
		return f, p.Errors()
	}
	f, errs := parse()
	if wantErr != "" {
		t.Ev(wantErr)
		if len(errs) == 0 {
			t.Fail("silent-"+wantErr, "no error, got %s\n%s", ids(f.Entries), ctx())
		}
		var f2 *po.File
		var err error
		if len(paths) == 1 {
			f2, err = goparse.FromPath(paths[0], opts...)
		} else {
			f2, err = goparse.FromPaths(paths, opts...)
		}
		if err == nil {
			t.Fail("silent-"+wantErr, "no error, got %s\n%s", ids(f2.Entries), ctx())
		}
		return
	}
	if len(errs) > 0 {
		t.Fail("error", "unexpected error: %v\n%s", errs[0], ctx())
	}
	want := goEntries(vs, all, clean)
	t.EvN("messages", len(want))
	if clean {
		seenID := map[string]bool{}
		for _, e := range f.Entries {
			if seenID[uid(e)] {
				t.Fail("duplicate", "%q is there twice\n%s", uid(e), ctx())
			}
			seenID[uid(e)] = true
		}
	}
	if d := diffEntries(cleanNames(f.Entries), want); d != "" {
		t.Fail("entries", "%s\n--- got\n%s--- want\n%s%s", d, show(f.Entries), show(want), ctx())
	}
}

// goConstructors checks headers and that the constructors agree.
func (t *T) goConstructors() {
	s := t.goFile(!t.p(5), t.Intn(8))
	src := s.b.String()
	p := filepath.Join(t.Dir, fmt.Sprintf("c%d.go", t.Case))
	must(os.WriteFile(p, []byte(src), 0o644))
	defer os.Remove(p)
	ctx := func() string { return src }
	t.Note("%s", src)
	all, clean := t.p(30), t.p(60)
	opts := []goparse.Option{goparse.WithExtractAll(all), goparse.WithCleanDuplicates(clean)}
	var header *po.Entry
	cfg := po.DefaultTemplateHeaderConfig()
	cfg.ProjectIDVersion, cfg.Language, cfg.Nplurals = pick(t.G, []string{"", "x 1.0"}), pick(t.G, []string{"", "es"}), uint(1+t.Intn(4))
	kind := t.Intn(5)
	switch kind {
	case 0:
		opts = append(opts, goparse.WithNoHeader(true))
		if t.p(50) {
			opts = append(opts, goparse.WithHeaderConfig(&cfg))
		}
	case 1: // default
	case 2:
		cfg.Template = t.p(50)
		opts = append(opts, goparse.WithHeaderConfig(&cfg))
		c := cfg
		c.XGenerator = "xgotext"
		h := c.ToHeader().ToEntry()
		header = &h
	default:
		h := po.Header{Template: t.p(50)}
		for i, n := 0, t.Intn(4); i < n; i++ {
			h.Fields = append(h.Fields, po.HeaderField{Key: fmt.Sprintf("X-%d", i), Value: t.fieldValue()})
		}
		e := po.Entry{}
		for _, f := range h.Fields {
			e.Str += f.Key + ": " + f.Value + "\n"
		}
		if h.Template {
			e.Flags = []string{"fuzzy"}
		}
		header = &e
		opts = append(opts, goparse.WithCustomHeader(&h))
		if kind == 4 {
			opts = append(opts, goparse.WithHeaderConfig(&cfg))
		}
	}
	want := goEntries([]visit{{p, s}}, all, clean)
	type res struct {
		how  string
		file *po.File
		err  error
	}
	var rs []res
	add := func(how string, f *po.File, err error) {
		rs = append(rs, res{how, f, err})
		t.Ev("constructors")
	}
	open := func() *os.File {
		f, err := os.Open(p)
		must(err)
		return f
	}
	f, err := goparse.FromString(src, p, opts...)
	add("FromString", f, err)
	f, err = goparse.FromBytes([]byte(src), p, opts...)
	add("FromBytes", f, err)
	f, err = goparse.FromReader(strings.NewReader(src), p, opts...)
	add("FromReader", f, err)
	h := open()
	f, err = goparse.FromFile(h, opts...)
	add("FromFile", f, err)
	h.Close()
	h = open()
	f, err = goparse.FromFiles([]*os.File{h}, opts...)
	add("FromFiles", f, err)
	h.Close()
	f, err = goparse.FromPath(p, opts...)
	add("FromPath", f, err)
	f, err = goparse.FromPaths([]string{p, p}, opts...)
	add("FromPaths", f, err)
	if ps, err := goparse.NewParserFromString(src, p); err == nil {
		f = ps.ParseWithOptions(opts...)
		add("ParseWithOptions", f, ps.Error())
	} else {
		add("NewParserFromString", nil, err)
	}
	t.Sig(src, all, clean, kind)
	for _, r := range rs {
		if r.err != nil {
			t.Fail("error", "%s: unexpected error: %v\n%s", r.how, r.err, ctx())
		}
		es := r.file.Entries
		if kind != 0 {
			if len(es) == 0 || !es[0].IsHeader() {
				t.Fail("header", "%s: the header isn't first: %s\n%s", r.how, ids(es), ctx())
			}
			if header != nil {
				if d := diffEntry(es[0], *header); d != "" {
					t.Fail("header", "%s: not the configured header: %s\n%s", r.how, d, ctx())
				}
			} else if !isFuzzy(es[0]) || !strings.Contains(es[0].Str, "X-Generator: xgotext\n") {
				t.Fail("header", "%s: not a template header of xgotext: %s\n%s", r.how, show(es[:1]), ctx())
			}
			es = es[1:]
		}
		var got, wf []found
		if !clean {
			t.checkFound(es, s.wanted(all), p, ctx)
			continue
		}
		flat := func(es po.Entries) (l []found) {
			for _, e := range es {
				for _, x := range e.Locations {
					l = append(l, found{id: e.ID, ctx: e.Context, line: x.Line})
				}
			}
			sortFound(l)
			return l
		}
		got, wf = flat(es), flat(want)
		if len(es) != len(want) || fmt.Sprint(got) != fmt.Sprint(wf) {
			t.Fail("entries", "%s:\n--- got\n%s--- want\n%s%s", r.how, show(es), show(want), ctx())
		}
	}
	if t.p(20) {
		_, err := goparse.FromReader(io.MultiReader(strings.NewReader(src), failingReader{}), p, opts...)
		if err == nil {
			t.Fail("silent-read", "a failing reader isn't reported\n%s", ctx())
		}
	}
}

type failingReader struct{}

func (failingReader) Read([]byte) (int, error) { return 0, errRead }
