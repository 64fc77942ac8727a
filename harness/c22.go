package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
)

func init() {
	register(&Check{
		ID:    "C22",
		Rule:  "processes of the five tools that cannot succeed because of one injected fault (input, messages, options, output, full device, size limit in the middle of a write), and runs whose output is one of their inputs; status, report and all files are observed; non-trivial: every run",
		Quick: 20000, Thorough: 400000,
		Run:  runC22,
		Need: map[string]int{"failed-msgofmt": 1200, "failed-msgounfmt": 1200, "failed-msgocat": 1200, "failed-msgomerge": 1200, "failed-xgotext": 1200, "existing-output": 3000, "same-file": 3000, "write-fault": 700, "bad-directory": 300, "wrapper": 3000},
		Assume: []string{
			"the harness runs as root, so permissions are no fault; a file whose overwriting fails in the middle is not larger than what can be written; msgomerge isn't used with an update and another output at once",
		},
	})
}

func runC22(t *T) {
	c := t.cli()
	defer c.done()
	if t.Case%4 == 3 {
		c.sameFile()
		return
	}
	c.failing()
}

// cliRun is a command that works.
type cliRun struct {
	tool  string
	opts  [][]string
	args  []string
	stdin string
	in    []string // input files
	outLS [2]string
	def   string // output if none is given
}

// working prepares a command that works.
func (c *cli) working(tool string, big bool) *cliRun {
	w := &cliRun{tool: tool, outLS: [2]string{"output-file", "o"}, def: "-"}
	n := 1 + c.Intn(8)
	if big {
		n = 60
	}
	cat := func() po.Entries {
		es := append(c.catalogue(n), po.Entry{ID: "always there", Str: "translated"})
		if big { // enough text
			for i := 0; i < 60; i++ {
				es = append(es, po.Entry{ID: fmt.Sprintf("message %d", i), Str: fmt.Sprintf("translation %d", i)})
			}
		}
		return es
	}
	switch tool {
	case "msgofmt":
		f := c.names(1)[0]
		c.put(f, compile.PoToString(cat()))
		w.args, w.def = []string{f}, "messages.mo"
	case "msgounfmt":
		f := c.names(1)[0]
		c.put(f, string(compile.MoToBytes(cat())))
		w.args, w.outLS[0] = []string{f}, "output"
	case "msgocat":
		w.args = c.names(1 + c.Intn(3))
		for _, f := range w.args {
			es := cat()
			for i := range es {
				if es[i].IsPlural() { // can't become invalid
					es[i].Str = ""
				}
			}
			c.put(f, compile.PoToString(es))
		}
	case "msgomerge":
		w.args = c.names(2)
		for _, f := range w.args {
			c.put(f, compile.PoToString(cat()))
		}
		if c.p(30) {
			c.put("comp.po", compile.PoToString(cat()))
			w.opts = append(w.opts, c.valued("compendium", "C", "comp.po"))
			w.in = append(w.in, "comp.po")
		}
	case "xgotext":
		w.outLS[0] = "output"
		for _, f := range []string{"a.go", "cmd/b.go"}[:1+c.Intn(2)] {
			if big {
				var b strings.Builder
				b.WriteString("package p\n\nimport \"" + gotextPath + "\"\n\nfunc f() {\n")
				for i := 0; i < 90; i++ {
					fmt.Fprintf(&b, "\tgotext.Get(\"message %d\")\n", i)
				}
				b.WriteString("}\n")
				c.put(f, b.String())
			} else {
				c.goPut(f)
			}
			w.args = append(w.args, f)
		}
		if c.p(30) {
			c.put("excl.po", compile.PoToString(c.catalogue(c.Intn(5))))
			w.opts = append(w.opts, c.valued("exclude-file", "x", "excl.po"))
			w.in = append(w.in, "excl.po")
		}
	}
	w.in = append(w.in, w.args...)
	return w
}

var forceOpt = map[string][2]string{"msgofmt": {"force", "f"}, "msgounfmt": {"force-po", "f"}}

func (c *cli) failing() {
	tool := []string{"msgofmt", "msgounfmt", "msgocat", "msgomerge", "xgotext"}[c.Case%5]
	if tool == "msgofmt" && c.p(20) {
		c.failingDirectory()
		return
	}
	writeFault := c.p(15)
	w := c.working(tool, writeFault)
	limit := -1
	var fault string
	toStdout := false
	// The output: often a file that exists.
	out := ""
	forced := false
	update := tool == "msgomerge" && c.p(35)
	join := false
	if update {
		w.opts = append(w.opts, c.on("update", "U"))
		out = w.args[0]
	} else if c.p(85) || writeFault {
		out = pick(c.G, []string{"out", "o/out.x"})
		must(os.MkdirAll(filepath.Dir(out), 0o755))
		if c.p(75) {
			c.put(out, "msgid \"existing\"\nmsgstr \"content\"\n")
			c.Ev("existing-output")
			join = tool == "xgotext" && c.p(40)
			if join {
				w.opts = append(w.opts, c.on("join-existing", "j"))
			}
			if f, ok := forceOpt[tool]; ok {
				forced = true
				w.opts = append(w.opts, c.on(f[0], f[1]))
			}
		}
	}
	malformed := func() string {
		if tool == "msgounfmt" {
			b := compile.MoToBytes(append(c.catalogue(1+c.Intn(5)), po.Entry{ID: "a message", Str: "translated"}))
			switch c.Intn(3) {
			case 0:
				return string(b[:c.Intn(len(b))])
			case 1:
				b[c.Intn(8)] ^= 0x40
				return string(b)
			}
			return pick(c.G, []string{"", "x", "msgid \"a\"\nmsgstr \"b\"\n"})
		}
		if tool == "xgotext" {
			return pick(c.G, []string{"package", "package p\nfunc f() {\n", "", "x", "package p\nimport \"" + gotextPath + "\"\nvar x = gotext.Get()\n"})
		}
		l, _ := c.brokenMessage()
		if c.p(15) { // a reference that cannot be kept
			l = []string{"#: a.go:99999999999999999999", `msgid "x"`, `msgstr ""`}
			if c.p(50) {
				for i := 1; i < 3; i++ {
					l[i] = "#~ " + l[i]
				}
			}
		}
		return c.doc(c.catalogue(c.Intn(3))) + "\n" + strings.Join(l, "\n") + "\n" + compile.PoToString(c.catalogue(c.Intn(2)))
	}
	replace := func(with string) { // one of the inputs
		i := c.Intn(len(w.in))
		f := w.in[i]
		if with == "" {
			must(os.Remove(f))
			fmt.Fprintf(&c.log, "=== %s is removed\n", f)
			return
		}
		if tool == "xgotext" && strings.HasSuffix(f, ".po") {
			l, _ := c.brokenMessage()
			with = strings.Join(l, "\n")
		}
		c.put(f, with)
	}
	kinds := []string{"missing", "malformed", "malformed", "directory", "stdin", "option", "option"}
	switch tool {
	case "msgofmt", "msgounfmt":
		kinds = append(kinds, "invalid", "invalid")
	}
	if tool == "msgocat" || tool == "xgotext" {
		kinds = append(kinds, "list")
	}
	if !update {
		kinds = append(kinds, "output", "output")
	}
	fault = pick(c.G, kinds)
	if writeFault {
		fault = "write"
	}
	switch fault {
	case "missing":
		replace("")
	case "malformed":
		if m := malformed(); m != "" {
			replace(m)
		} else {
			c.put(w.args[0], "")
			if tool != "msgounfmt" && tool != "xgotext" {
				return
			}
		}
	case "directory":
		if tool == "xgotext" { // directories are fine
			w.args = append(w.args, "missing/dir")
			break
		}
		f := pick(c.G, w.args)
		must(os.Remove(f))
		must(os.Mkdir(f, 0o755))
		fmt.Fprintf(&c.log, "=== %s is a directory\n", f)
	case "stdin":
		if update {
			replace("")
			break
		}
		w.stdin = malformed()
		if w.stdin == "" && tool != "msgounfmt" && tool != "xgotext" {
			return
		}
		switch tool {
		case "msgomerge":
			w.args = append(w.args, "third.po") // no standard input here
		default:
			w.args = append(w.args, "-")
		}
	case "invalid":
		switch tool {
		case "msgofmt":
			es := po.Entries{{ID: "twice", Str: "1"}, {ID: "other"}, {ID: "twice", Str: "2"}}
			if c.p(50) {
				c.put("dup.po", compile.PoToString(es))
				w.args = append(w.args, "dup.po")
			} else {
				c.put("dup1.po", compile.PoToString(es[:1]))
				c.put("dup2.po", compile.PoToString(es[1:]))
				w.args = append(w.args, "dup1.po", "dup2.po")
			}
		case "msgounfmt":
			f := pick(c.G, w.args)
			o, tr := []string{"a", "a"}, []string{"x", "y"}
			m := moLayout(c.G, moOrder(c.G), o, tr)
			if _, err := readMO(m); err != nil {
				return
			}
			c.put(f, string(m))
		}
	case "list":
		switch c.Intn(3) {
		case 0:
			w.opts = append(w.opts, c.valued("files-from", "f", "missing.txt"))
		case 1:
			c.put("list.txt", "missing.po\n")
			w.opts = append(w.opts, c.valued("files-from", "f", "list.txt"))
		default:
			if tool == "msgocat" {
				w.opts = append(w.opts, c.valued("directory", "D", "missing"))
			} else {
				w.opts = append(w.opts, c.valued("files-from", "f", "missing/x"))
			}
		}
	case "option":
		o := [][]string{{"--no-such-option"}, {"-Q"}, {"--color"}}
		switch tool {
		case "msgocat":
			o = append(o, []string{"--less-than=1"}, []string{"--less-than", "0"}, []string{"-<", "1"}, []string{"-u", "--less-than=3"}, []string{"--no-location", "--add-location=file"}, []string{"-s", "-F"}, []string{"--more-than=-1"}, []string{"--more-than=x"})
			if c.p(10) {
				w.args = nil
				o = [][]string{{"-s"}}
			}
		case "msgomerge":
			if c.p(40) {
				w.args = pick(c.G, [][]string{w.args[:1], nil, append(w.args, "x.po"), append(w.args, w.args[0])})
				o = [][]string{{"-N"}}
			}
		case "xgotext":
			o = append(o, []string{"--nplurals=x"}, []string{"--nplurals=-1"})
			if out == "" {
				o = append(o, []string{"-j"}, []string{"-j", "-o", "-"})
			}
		}
		x := pick(c.G, o)
		if x[0] == "--color" { // without a value, so it must come last
			if out != "" && !update {
				w.opts = append(w.opts, c.valued(w.outLS[0], w.outLS[1], out))
			}
			before := c.snapshot()
			args := append(c.line(w.opts, w.args), "--color")
			if tool == "msgofmt" {
				args[len(args)-1] = "--endianness"
			}
			c.failed(c.run(w.stdin, tool, args...), before, fault)
			return
		}
		w.opts = append(w.opts, x)
	case "output", "write":
		if fault == "write" && (out != "" && c.p(80) || update) {
			c.Ev("write-fault")
			limit = 1
			if update { // what must stay can't be larger than the limit
				c.put(out, "msgid \"existing\"\nmsgstr \"content\"\n")
			}
			break
		}
		switch k := c.Intn(5); {
		case k == 0:
			out = "isdir"
			must(os.MkdirAll(out, 0o755))
			if c.p(50) {
				c.put("isdir/f", "content")
			}
		case k == 1:
			out = "missing/dir/out"
		case k == 2:
			c.put("regular", "content")
			out = "regular/out"
		case k == 3 && fault != "write" && !join: // it's endless to read
			out = "/dev/full"
			if f, ok := forceOpt[tool]; ok && !forced {
				w.opts = append(w.opts, c.on(f[0], f[1]))
			}
		case (tool == "msgofmt" || tool == "msgounfmt") && c.p(60):
			// It exists and isn't forced.
			out = "exists"
			switch c.Intn(4) {
			case 0:
				must(os.Symlink("nowhere", out))
			case 1:
				c.put("target", "content")
				must(os.Symlink("target", out))
			default:
				c.put(out, pick(c.G, []string{"", "content"}))
			}
			var opts [][]string
			for _, o := range w.opts {
				if !strings.HasPrefix(o[0], "-f") && !strings.HasPrefix(o[0], "--force") {
					opts = append(opts, o)
				}
			}
			w.opts = opts
		case join, tool == "msgofmt":
			out = "missing/dir/out"
		default:
			out = "" // standard output
			toStdout = true
		}
		c.Ev("bad-output")
	}
	if out != "" && !update {
		w.opts = append(w.opts, c.valued(w.outLS[0], w.outLS[1], out))
	} else if !update && w.def != "-" && c.p(50) {
		w.opts = append(w.opts, c.valued(w.outLS[0], w.outLS[1], "-"))
	}
	before := c.snapshot()
	args := c.line(w.opts, w.args)
	c.full = toStdout
	defer func() { c.full = false }()
	c.failed(c.exec(w.stdin, limit, tool, args...), before, fault)
}

// failed checks a run that can't succeed.
func (c *cli) failed(r ran, before map[string]string, fault string) {
	c.Ev("failed-" + filepath.Base(strings.Fields(r.cmd)[0]))
	c.Ev("fault-" + fault)
	c.Sig(r.cmd, c.log.String())
	c.Sample(func() string { return fault + ": " + r.cmd + "\n" + c.log.String() })
	if r.status == 0 {
		c.Fail("status-"+fault, "fault %q, but the status is 0\n%s", fault, c.what(r))
	}
	if strings.TrimSpace(r.err) == "" {
		c.Fail("silent", "fault %q, but nothing is reported\n%s", fault, c.what(r))
	}
	after := c.snapshot()
	for p, x := range before {
		if y, ok := after[p]; !ok || x != y {
			c.Fail("lost", "fault %q: %s\n%s", fault, changes(map[string]string{p: x}, map[string]string{p: y}), c.what(r))
		}
	}
}

// sameFile uses an input as output.
func (c *cli) sameFile() {
	tool := []string{"msgofmt", "msgounfmt", "msgocat", "msgomerge", "xgotext"}[c.Intn(5)]
	w := c.working(tool, c.p(10))
	if f, ok := forceOpt[tool]; ok {
		w.opts = append(w.opts, c.on(f[0], f[1]))
	}
	f := pick(c.G, w.in)
	spelled := f
	switch c.Intn(5) {
	case 0:
		spelled = "./" + f
	case 1:
		spelled = filepath.Join(c.dir, f)
	case 2:
		must(os.Symlink(f, "link"))
		spelled = "link"
	case 3:
		must(os.Link(f, "hard"))
		spelled = "hard"
	}
	if len(w.in) == 1 && (tool == "msgofmt" || tool == "msgounfmt" || tool == "msgocat" || tool == "xgotext") && c.p(40) {
		w.stdin = "file:" + f
		w.args = []string{"-"}
	}
	args := c.line(append([][]string{}, w.opts...), w.args)
	stdout := append(append([]string{}, args...), c.valued(w.outLS[0], w.outLS[1], "-")...)
	if tool == "msgomerge" && spelled == w.args[0] && c.p(60) {
		args = append(args, c.on("update", "U")...)
	} else {
		args = append(args, c.valued(w.outLS[0], w.outLS[1], spelled)...)
	}
	before := c.snapshot()
	first := c.run(w.stdin, tool, stdout...)
	if first.status != 0 {
		c.Fail("harness", "the prepared command fails\n%s", c.what(first))
	}
	if d := changes(before, c.snapshot()); d != "" {
		c.Fail("stdout-writes", "%s\n%s", d, c.what(first))
	}
	r := c.run(w.stdin, tool, args...)
	c.Ev("same-file")
	c.Sig(r.cmd, c.log.String())
	if r.status != 0 {
		c.Fail("same-status", "failed\n%s", c.what(r))
	}
	b, err := os.ReadFile(spelled)
	must(err)
	if string(b) != first.out {
		c.Fail("same-file", "the result isn't the one of the original content\n%s\n--- got\n%q\n--- want\n%q", c.what(r), b, first.out)
	}
	if d := changes(before, c.snapshot(), f, "hard"); d != "" {
		c.Fail("other-files", "%s\n%s", d, c.what(r))
	}
}

// failingDirectory compiles a directory of which one catalogue is broken.
func (c *cli) failingDirectory() {
	dir := pick(c.G, []string{"d", "d/e", "."})
	opts := [][]string{c.valued("directory", "D", dir)}
	force := c.p(70)
	if force {
		opts = append(opts, c.on("force", "f"))
	}
	n := 2 + c.Intn(4)
	bad := c.Intn(n)
	for i := 0; i < n; i++ {
		base := filepath.Join(dir, fmt.Sprintf("%s%d", pick(c.G, []string{"a", "b", "ñ"}), i))
		doc := compile.PoToString(c.catalogue(c.Intn(4)))
		if i == bad {
			switch {
			case !force:
				c.put(base+".mo", "old content")
			case c.p(40):
				doc += "\nmsgid \"both\"\nmsgstr \"a\"\nmsgid_plural \"b\"\n"
			default:
				l, _ := c.brokenMessage()
				doc += "\n" + strings.Join(l, "\n") + "\n"
			}
		}
		if force && c.p(60) {
			c.put(base+".mo", "old content")
		}
		c.put(base+".po", doc)
	}
	before := c.snapshot()
	c.Ev("bad-directory")
	c.failed(c.run("", "msgofmt", c.line(opts, nil)...), before, "directory-member")
}
