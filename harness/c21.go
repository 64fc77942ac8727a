package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	register(&Check{
		ID:    "C21",
		Rule:  "processes of the five tools, alone and through the wrapper, on random files with random options in random spelling; standard output, status and all files are compared with what the library yields in the harness; non-trivial: every run",
		Quick: 30000, Thorough: 500000,
		Run:  runC21,
		Need: map[string]int{"runs": 29000, "wrapper": 6000, "runs-msgofmt": 5000, "runs-msgounfmt": 5000, "runs-msgocat": 5000, "runs-msgomerge": 5000, "runs-xgotext": 5000, "stdin": 4000, "directory": 4000, "list": 2000, "to-file": 8000, "coloured": 2000, "many-files": 80},
		Assume: []string{
			"the library operations themselves are judged by the other properties",
			"file names without commas and quotes where an option takes a list",
		},
	})
}

func runC21(t *T) {
	c := t.cli()
	defer c.done()
	switch t.Case % 5 {
	case 0:
		c.msgofmt()
	case 1:
		c.msgounfmt()
	case 2:
		c.msgocat()
	case 3:
		c.msgomerge()
	case 4:
		c.xgotext()
	}
}

var cliNames = []string{"a.po", "b.po", "sub/c.po", "x y.po", "ñ.po", "sub/deep/d.po", "z.pot", "e", ".h.po", "#h.po", " lead.po", "sub/.x/y.po", "A.PO", "q;r.po"}

func (c *cli) names(n int) []string {
	l := append([]string{}, cliNames...)
	c.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	for i := 0; len(l) < n; i++ {
		l = append(l, fmt.Sprintf("more/%d.po", i))
	}
	return l[:n]
}

// output chooses where the output goes; it returns the file, if any.
func (c *cli) output(long, short, def string, names []string, opts *[][]string) string {
	switch {
	case c.p(35):
		f := pick(c.G, names)
		if d := filepath.Dir(f); d != "." {
			must(os.MkdirAll(d, 0o755))
		}
		*opts = append(*opts, c.valued(long, short, f))
		c.Ev("to-file")
		return f
	case c.p(50) || def != "-":
		if def != "-" && c.p(30) {
			c.Ev("to-file")
			return def
		}
		*opts = append(*opts, c.valued(long, short, "-"))
	}
	return ""
}

func sortedNames(docs map[string]string) []string {
	var l []string
	for n := range docs {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

// color adds the color option; the result tells whether there are colours.
func (c *cli) color(opts *[][]string) bool {
	if c.p(70) {
		return false
	}
	w := pick(c.G, []string{"always", "always", "never", "auto"})
	*opts = append(*opts, c.valued("color", "", w))
	return w == "always"
}

// colors checks coloured output and removes the colours.
func (c *cli) colors(out string, want string, always bool) string {
	if !always {
		return out
	}
	plain := sgr.ReplaceAllString(out, "")
	if strings.Contains(want, "msgid") {
		if plain == out {
			c.Fail("no-colour", "no colours with --color=always: %q", out)
		}
		c.Ev("coloured")
	}
	return plain
}

func (c *cli) finish(stdin, tool string, args []string, out string, want string, coloured bool) {
	before := c.snapshot()
	c.Sig(c.log.String(), fmt.Sprint(args))
	r := c.run(stdin, tool, args...)
	c.Sample(func() string { return r.cmd + "\n" + c.log.String() })
	if r.status != 0 {
		c.Fail("status", "failed\n%s", c.what(r))
	}
	if !coloured {
		if out == "" {
			c.good(r, before, want, nil)
		} else {
			c.good(r, before, "", map[string]string{out: want})
		}
		return
	}
	want = sgr.ReplaceAllString(want, "")
	if out == "" {
		if got := c.colors(r.out, want, true); got != want {
			c.Fail("stdout", "%s\n--- wanted on standard output\n%s\n(%q)\n--- got\n%q", c.what(r), want, want, got)
		}
		c.good(r, before, r.out, nil)
		return
	}
	b, err := os.ReadFile(out)
	if err != nil {
		c.Fail("file", "%v\n%s", err, c.what(r))
	}
	if got := c.colors(string(b), want, true); got != want {
		c.Fail("file", "%s: %s\n--- got\n%q\n--- want\n%q", out, c.what(r), got, want)
	}
	c.good(r, before, "", map[string]string{out: string(b)})
}

func (c *cli) msgofmt() {
	es := c.catalogue(c.Intn(12))
	n := 1 + c.Intn(3)
	parts := make([]po.Entries, n)
	for _, e := range es {
		i := c.Intn(n)
		parts[i] = append(parts[i], e)
	}
	var opts [][]string
	var lib []compile.MoOption
	if c.p(40) {
		e := pick(c.G, []string{"big", "little", "native"})
		opts = append(opts, c.valued("endianness", "", e))
		lib = append(lib, compile.MoWithEndianness(map[string]compile.Endianness{"big": compile.BigEndian, "little": compile.LittleEndian, "native": compile.NativeEndian}[e]))
	}
	if c.p(30) {
		opts = append(opts, c.on("no-hash", ""))
		lib = append(lib, compile.MoWithHashTable(false))
	} else {
		lib = append(lib, compile.MoWithHashTable(true))
	}
	force := c.p(40)
	if force {
		opts = append(opts, c.on("force", "f"))
	}
	if c.p(10) {
		opts = append(opts, c.on("verbose", "v"))
	}
	parsed := func(doc string) po.Entries {
		f, err := parse.PoFromString(doc, "f.po", parse.PoWithCleanDuplicates(false))
		if err != nil {
			c.Fail("harness", "own document isn't valid: %v\n%s", err, doc)
		}
		return f.Entries
	}
	if c.p(20) { // a whole directory
		c.Ev("directory")
		dir := pick(c.G, []string{"d", ".", "d/e", "d f"})
		opts = append(opts, c.valued("directory", "D", dir))
		files := map[string]string{}
		for i, p := range parts {
			doc := c.doc(p)
			base := filepath.Join(dir, pick(c.G, []string{"a", "b.c", "ñ", "x y"})+fmt.Sprint(i))
			c.put(base+".po", doc)
			if force && c.p(50) {
				c.put(base+".mo", "old content")
			}
			files[base+".mo"] = string(compile.MoToBytes(parsed(doc), lib...))
		}
		c.put(filepath.Join(dir, pick(c.G, []string{"README", "x.pot", "po", "x.po~", "x.PO"})), "no catalogue")
		if c.p(30) {
			must(os.MkdirAll(filepath.Join(dir, "dir.po"), 0o755))
		}
		before := c.snapshot()
		args := c.line(opts, nil)
		c.Sig(c.log.String(), fmt.Sprint(args))
		c.good(c.run("", "msgofmt", args...), before, "", files)
		return
	}
	var all po.Entries
	names := c.names(n)
	args := []string{}
	stdin := ""
	dir := ""
	if c.p(25) {
		dir = pick(c.G, []string{"d", "d/e", "./d", "../" + filepath.Base(c.dir)})
		opts = append(opts, c.valued("directory", "D", dir))
		c.Ev("directory")
	}
	in := -1
	if c.p(35) {
		in = c.Intn(n)
	}
	for i, p := range parts {
		doc := c.doc(p)
		all = append(all, parsed(doc)...)
		if i == in {
			stdin = doc
			args = append(args, "-")
			c.Ev("stdin")
			continue
		}
		c.put(filepath.Join(dir, names[i]), doc)
		c.decoy(dir, names[i])
		args = append(args, names[i])
	}
	if n == 1 && in == 0 && dir == "" && c.p(50) {
		args = nil
	}
	want := string(compile.MoToBytes(all, lib...))
	out := c.output("output-file", "o", "messages.mo", []string{"out.mo", "o/p.mo", "x y.mo"}, &opts)
	if out != "" {
		out = filepath.Join(dir, out)
		must(os.MkdirAll(filepath.Dir(out), 0o755))
		if force && c.p(60) {
			c.put(out, strings.Repeat("old content", c.Intn(200)))
		}
	}
	c.finish(stdin, "msgofmt", c.line(opts, args), out, want, false)
}

func (c *cli) msgounfmt() {
	n := 1 + c.Intn(2)
	var all po.Entries
	var args []string
	stdin := ""
	names := c.names(n)
	in := -1
	if c.p(35) {
		in = c.Intn(n)
	}
	var opts [][]string
	ignore := c.p(30)
	if ignore {
		opts = append(opts, c.on("ignore-errors", ""))
	}
	for i := 0; i < n; i++ {
		es := c.catalogue(c.Intn(10))
		bo := pick(c.G, []compile.Endianness{compile.BigEndian, compile.LittleEndian, compile.NativeEndian})
		mo := string(compile.MoToBytes(es, compile.MoWithEndianness(bo), compile.MoWithHashTable(c.p(70))))
		if c.p(30) { // a layout of another tool
			m, err := readMO([]byte(mo))
			must(err)
			var o binary.ByteOrder = binary.BigEndian
			if c.p(50) {
				o = binary.LittleEndian
			}
			mo = string(moLayout(c.G, o, m.orig, m.trans))
		}
		f, err := parse.MoFromBytes([]byte(mo), "x.mo")
		if err != nil {
			c.Fail("harness", "own file isn't valid: %v", err)
		}
		if len(f.Validate()) > 0 && !ignore {
			c.Fail("harness", "own file isn't valid: %v", f.Validate())
		}
		all = append(all, f.Entries...)
		if i == in {
			stdin = mo
			args = append(args, "-")
			c.Ev("stdin")
			continue
		}
		c.put(names[i], mo)
		args = append(args, names[i])
	}
	if n == 1 && in == 0 && c.p(50) {
		args = nil
	}
	lib := []compile.PoOption{compile.PoWithWordWrap(true)}
	if c.p(40) {
		opts = append(opts, c.on("no-wrap", ""))
		lib[0] = compile.PoWithWordWrap(false)
	}
	if c.p(40) {
		opts = append(opts, c.on("sort-output", "s"))
		all = all.SortFunc(po.CompareEntryByID)
		c.Ev("sorted")
	}
	force := c.p(40)
	if force {
		opts = append(opts, c.on("force-po", "f"))
	}
	coloured := c.color(&opts)
	out := c.output("output", "o", "-", []string{"out.po", "o/p.po", "x y out"}, &opts)
	if out != "" && force && c.p(60) {
		c.put(out, strings.Repeat("old content", c.Intn(200)))
	}
	c.finish(stdin, "msgounfmt", c.line(opts, args), out, compile.PoToString(all, lib...), coloured)
}

// locations adds the options for references.
func (c *cli) locationOpts(short, long string, both bool, opts *[][]string) (lib []compile.PoOption) {
	no := c.p(15)
	if no {
		*opts = append(*opts, c.on("no-location", short))
		lib = append(lib, compile.PoWithNoLocation(true))
	}
	if c.p(30) && (both || !no) {
		m := pick(c.G, []string{"full", "file", "never"})
		*opts = append(*opts, c.valued("add-location", long, m))
		lib = append(lib, compile.PoWithAddLocation(compile.PoLocationMode(m)))
	}
	return
}

func (c *cli) msgocat() {
	n := 1 + c.Intn(4)
	if c.p(2) {
		n = 4 + c.Intn(40)
		c.Ev("many-files")
	}
	var opts [][]string
	names := c.names(n)
	docs := map[string]string{}
	for _, f := range names {
		docs[f] = c.doc(c.catalogue(c.Intn(8)))
	}
	// The files come from the arguments, then from the list, then from the
	// directory.
	var order, args, list []string
	stdin := ""
	rest := append([]string{}, names...)
	k := c.Intn(n + 1)
	useList, useDir := c.p(35), c.p(25)
	if !useList && !useDir {
		k = n
	}
	for _, f := range rest[:k] {
		if stdin == "" && docs[f] != "" && c.p(15) {
			stdin = docs[f]
			args = append(args, "-")
			docs["-"] = stdin
			order = append(order, "-")
			c.Ev("stdin")
		} else {
			c.put(f, docs[f])
			args = append(args, f)
			order = append(order, f)
		}
	}
	rest = rest[k:]
	if useList {
		j := len(rest)
		if useDir {
			j = c.Intn(j + 1)
		}
		nl := pick(c.G, []string{"\n", "\r\n", "\n\n"})
		for _, f := range rest[:j] {
			c.put(f, docs[f])
			list = append(list, f)
			order = append(order, f)
		}
		rest = rest[j:]
		text := strings.Join(list, nl)
		if c.p(70) {
			text += nl
		}
		if stdin == "" && text != "" && c.p(30) {
			stdin = text
			opts = append(opts, c.valued("files-from", "f", "-"))
		} else {
			c.put("list.txt", text)
			opts = append(opts, c.valued("files-from", "f", "list.txt"))
		}
		c.Ev("list")
	}
	if useDir {
		dir := pick(c.G, []string{"d", "d/e", "./dd"})
		must(os.MkdirAll(dir, 0o755))
		m := map[string]string{}
		for i, f := range rest {
			b := fmt.Sprintf("%s%d.po", pick(c.G, []string{"q", "Z", "é", "10", "9", ".", "#", " ", "~"}), i)
			b = filepath.Join(dir, b)
			c.put(b, docs[f])
			docs[b] = docs[f]
			m[b] = f
		}
		order = append(order, sortedNames(m)...)
		opts = append(opts, c.valued("directory", "D", dir))
		c.Ev("directory")
	}
	if len(order) == 0 {
		return
	}
	var files []*po.File
	for _, f := range order {
		p, err := parse.PoFromString(docs[f], f)
		if err != nil {
			c.Fail("harness", "own document isn't valid: %v\n%s", err, docs[f])
		}
		if len(p.Validate()) > 0 {
			return
		}
		files = append(files, p)
	}
	var lib []po.MsgcatMergeOption
	if c.p(30) {
		opts = append(opts, c.on("use-first", ""))
		lib = append(lib, po.MsgcatMergeWithUseFirst(true))
	}
	if c.p(25) {
		v := c.Intn(3)
		opts = append(opts, c.valued("more-than", ">", fmt.Sprint(v)))
		lib = append(lib, po.MsgcatMergeWithMoreThan(uint(v)))
	}
	if c.p(15) {
		opts = append(opts, c.on("unique", "u"))
		lib = append(lib, po.MsgcatMergeWithLessThan(2))
	} else if c.p(20) {
		v := 2 + c.Intn(3)
		opts = append(opts, c.valued("less-than", "<", fmt.Sprint(v)))
		lib = append(lib, po.MsgcatMergeWithLessThan(uint(v)))
	}
	es := po.MsgcatMergeFiles(files, lib...)
	if c.p(20) {
		l := pick(c.G, []string{"es", "pt_BR", "zh_Hans"})
		opts = append(opts, c.valued("lang", "", l))
		if i := es.Index("", ""); i >= 0 {
			es = cloneEntries(es)
			h := es.HeaderFromIndex(i)
			h.Set("Language", l)
			es[i].Str = h.ToEntry().Str
			c.Ev("lang")
		}
	}
	switch c.Intn(5) {
	case 0:
		opts = append(opts, c.on("sort-output", "s"))
		es = es.Sort()
		c.Ev("sorted")
	case 1:
		opts = append(opts, c.on("sort-by-file", "F"))
		es = es.SortFunc(po.CompareEntryByFile)
		c.Ev("sorted")
	}
	out := []compile.PoOption{compile.PoWithWordWrap(true)}
	if c.p(30) {
		opts = append(opts, c.on("no-wrap", ""))
		out[0] = compile.PoWithWordWrap(false)
	}
	out = append(out, c.locationOpts("", "", false, &opts)...)
	coloured := c.color(&opts)
	o := c.output("output-file", "o", "-", []string{"out.po", "o/p.po", "x y out"}, &opts)
	if o != "" && c.p(50) {
		c.put(o, strings.Repeat("old content", c.Intn(200)))
	}
	c.finish(stdin, "msgocat", c.line(opts, args), o, compile.PoToString(es, out...), coloured)
}

func (c *cli) msgomerge() {
	var opts [][]string
	def, ref := c.doc(c.catalogue(c.Intn(10))), c.doc(c.catalogue(c.Intn(10)))
	names := c.names(2)
	dir := ""
	if c.p(20) {
		dir = pick(c.G, []string{"d", "d/e", "./d"})
		opts = append(opts, c.valued("directory", "D", dir))
		c.Ev("directory")
	}
	c.put(filepath.Join(dir, names[0]), def)
	c.put(filepath.Join(dir, names[1]), ref)
	c.decoy(dir, names...)
	d, err := parse.PoFromString(def, "def")
	must(err)
	r, err := parse.PoFromString(ref, "ref")
	must(err)
	cfg := po.MergeConfig{FuzzyMatch: true, Sort: true}
	if c.p(40) {
		opts = append(opts, c.on("no-fuzzy-matching", "N"))
		cfg.FuzzyMatch = false
	}
	es := po.MergeWithConfig(cfg, d.Entries, r.Entries)
	if c.p(25) {
		l := pick(c.G, []string{"es", "pt_BR", "en"})
		opts = append(opts, c.valued("lang", "", l))
		if i := es.Index("", ""); i >= 0 {
			es = cloneEntries(es)
			h := es.HeaderFromIndex(i)
			h.Set("Language", l)
			es[i].Str = h.ToEntry().Str
			c.Ev("lang")
		}
	}
	lib := []compile.PoOption{compile.PoWithWordWrap(true)}
	if c.p(30) {
		opts = append(opts, c.on("no-wrap", ""))
		lib[0] = compile.PoWithWordWrap(false)
	}
	if c.p(10) {
		opts = append(opts, c.on(pick(c.G, []string{"force-po", "verbose"}), ""))
	}
	lib = append(lib, c.locationOpts("", "n", true, &opts)...)
	coloured := c.color(&opts)
	o := c.output("output-file", "o", "-", []string{"out.po", "o/p.po", "x y out"}, &opts)
	if o != "" && c.p(50) {
		c.put(o, strings.Repeat("old content", c.Intn(200)))
	}
	c.finish("", "msgomerge", c.line(opts, names), o, compile.PoToString(es, lib...), coloured)
}

// goPut writes Go sources into files.
func (c *cli) goPut(names ...string) {
	for _, n := range names {
		s := &goSrc{G: c.G, line: 1, simple: c.p(70), ids: cliIDs}
		s.file(!c.p(8), 1+c.Intn(5))
		c.put(n, s.b.String())
	}
}

func (c *cli) xgotext() {
	var opts [][]string
	dir := ""
	if c.p(25) {
		dir = pick(c.G, []string{"d", "d/e", "./d"})
		opts = append(opts, c.valued("directory", "D", dir))
		c.Ev("directory")
	}
	all := []string{"a.go", "b.go", "cmd/c.go", "cmd/x/d.go", "v/e.go", "x y.go", "ñ.go"}
	c.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	all = all[:1+c.Intn(len(all))]
	for _, n := range all {
		c.goPut(filepath.Join(dir, n))
		c.decoy(dir, n)
	}
	for _, d := range []string{"cmd", "v"} {
		must(os.MkdirAll(filepath.Join(dir, d), 0o755))
	}
	var paths []string
	for i, n := 0, c.Intn(4); i < n; i++ {
		paths = append(paths, pick(c.G, append([]string{".", "cmd", "v", "./cmd/"}, all...)))
	}
	if len(paths) == 0 && c.p(70) {
		paths = []string{"."}
	}
	var exclude []string
	for c.p(25) {
		exclude = append(exclude, pick(c.G, append([]string{"cmd", "v", "cmd/x", "nothing"}, all...)))
	}
	join := func(l []string) (r []string) {
		for _, p := range l {
			r = append(r, filepath.Join(dir, p))
		}
		return
	}
	h := po.DefaultTemplateHeaderConfig()
	h.Language, h.Nplurals, h.ProjectIDVersion, h.ReportMsgidBugsTo, h.XGenerator = "en", 2, "PACKAGE VERSION", "", "xgotext"
	cfg := []goparse.Option{goparse.WithCleanDuplicates(true), goparse.WithExclude(join(exclude)...), goparse.WithHeaderConfig(&h)}
	for len(exclude) > 0 {
		k := 1 + c.Intn(len(exclude))
		opts = append(opts, c.valued("exclude", "X", strings.Join(exclude[:k], ",")))
		exclude = exclude[k:]
	}
	if c.p(25) {
		opts = append(opts, c.on("extract-all", "a"))
		cfg = append(cfg, goparse.WithExtractAll(true))
	}
	if c.p(20) {
		h.Language = pick(c.G, []string{"es", "pt_BR"})
		opts = append(opts, c.valued("lang", "l", h.Language))
	}
	if c.p(20) {
		h.Nplurals = uint(1 + c.Intn(4))
		opts = append(opts, c.valued("nplurals", "", fmt.Sprint(h.Nplurals)))
	}
	if c.p(20) {
		h.ProjectIDVersion = pick(c.G, []string{"1.0", "proj 2"})
		opts = append(opts, c.valued("package-version", "", h.ProjectIDVersion))
	}
	if c.p(20) {
		h.ReportMsgidBugsTo = "bugs@example.org"
		opts = append(opts, c.valued("msgid-bugs-address", "", h.ReportMsgidBugsTo))
	}
	lib := []compile.PoOption{compile.PoWithWordWrap(false), compile.PoWithAddLocation(compile.PoLocationModeFull)}
	lib = append(lib, c.locationOpts("n", "", true, &opts)...)
	if c.p(15) {
		opts = append(opts, c.on("omit-header", ""))
		lib = append(lib, compile.PoWithOmitHeader(true))
	}
	if c.p(15) {
		opts = append(opts, c.on("word-wrap", ""))
		lib = append(lib, compile.PoWithWordWrap(true))
	}
	if c.p(15) {
		x := pick(c.G, []string{"<", "=", "\n", "a b"})
		opts = append(opts, c.valued("msgstr-prefix", "m", x))
		lib = append(lib, compile.PoWithMsgstrPrefix(x))
	}
	if c.p(15) {
		x := pick(c.G, []string{">", "\"", "z"})
		opts = append(opts, c.valued("msgstr-suffix", "M", x))
		lib = append(lib, compile.PoWithMsgstrSuffix(x))
	}
	if c.p(10) {
		opts = append(opts, c.on(pick(c.G, []string{"force-po", "verbose", "foreign-user"}), ""))
	}
	// What the library extracts.
	p, err := goparse.NewParserFromPaths(join(paths), append([]goparse.Option{goparse.WithNoHeader(true), goparse.WithCleanDuplicates(false)}, cfg[1:]...)...)
	if err != nil {
		c.Fail("harness", "own sources aren't valid: %v\n%s", err, c.log.String())
	}
	f := p.Parse()
	if p.Error() != nil {
		c.Fail("harness", "own sources aren't valid: %v\n%s", p.Error(), c.log.String())
	}
	hdr := h.ToHeader().ToEntry()
	stdin := ""
	args := append([]string{}, paths...)
	list := c.p(25) && len(args) > 0
	var extra po.Entries
	if c.p(20) {
		s := &goSrc{G: c.G, line: 1, simple: true, ids: cliIDs}
		s.file(true, 1+c.Intn(5))
		stdin = s.b.String()
		all := false
		for _, o := range opts {
			all = all || strings.Contains(o[0], "extract-all") || o[0] == "-a"
		}
		g, err := goparse.FromString(stdin, "/dev/stdin", goparse.WithNoHeader(true), goparse.WithCleanDuplicates(false), goparse.WithExtractAll(all))
		must(err)
		extra = g.Entries
		k := c.Intn(len(args) + 1)
		args = append(args[:k:k], append([]string{"-"}, args[k:]...)...)
		c.Ev("stdin")
	}
	es := append(po.Entries{hdr}, append(f.Entries, extra...)...).CleanDuplicates()
	if list {
		text := strings.Join(args, pick(c.G, []string{"\n", "\r\n", "\n\n"}))
		if c.p(70) {
			text += "\n"
		}
		c.put("list.txt", text)
		opts = append(opts, c.valued("files-from", "f", "list.txt"))
		args = nil
		c.Ev("list")
	}
	if c.p(20) {
		x := c.doc(c.catalogue(c.Intn(8)))
		c.put("excluded.po", x)
		opts = append(opts, c.valued("exclude-file", "x", "excluded.po"))
		xf, err := parse.PoFromString(x, "x")
		must(err)
		un := map[string]bool{}
		for _, e := range xf.Entries {
			un[uid(e)] = !e.IsHeader()
		}
		var kept po.Entries
		for _, e := range es {
			if !un[uid(e)] {
				kept = append(kept, e)
			} else {
				c.Ev("excluded")
			}
		}
		es = kept
	}
	coloured := c.color(&opts)
	out := ""
	outDir := ""
	if c.p(25) {
		outDir = pick(c.G, []string{"o", "o/p", "o p"})
		must(os.MkdirAll(outDir, 0o755))
		opts = append(opts, c.valued("output-dir", "p", outDir))
	}
	switch c.Intn(5) {
	case 0:
		opts = append(opts, c.valued("output", "o", "-"))
	case 1, 2:
		out = pick(c.G, []string{"out.pot", "x y", "m.po"})
		opts = append(opts, c.valued("output", "o", out))
	case 3:
		d := "messages"
		if c.p(50) {
			d = pick(c.G, []string{"dom", "x y"})
			opts = append(opts, c.valued("default-domain", "d", d))
		}
		opts = append(opts, pick(c.G, [][]string{{"-o", ""}, {"--output="}, {"--output", ""}}))
		out = d + ".pot"
	}
	if out != "" {
		c.Ev("to-file")
		out = filepath.Join(outDir, out)
		if c.p(40) {
			c.put(out, strings.Repeat("old content", c.Intn(200)))
		}
	}
	c.finish(stdin, "xgotext", c.line(opts, args), out, compile.PoToString(es, lib...), coloured)
}
