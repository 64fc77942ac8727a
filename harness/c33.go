package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

func init() {
	register(&Check{
		ID:    "C33",
		Rule:  "the documentation commands of the wrapper for random commands, formats, destinations and prior contents of them, compared with the help texts of the tools; non-trivial: every case",
		Quick: 1500, Thorough: 30000,
		Run:    runC33,
		Need:   map[string]int{"pages": 500, "trees": 100, "refused": 250, "options-described": 3000, "wrapped-tools": 600},
		Assume: []string{"the help text of a command, written by the cobra library, lists its options"},
	})
}

var (
	docTools    = []string{"msgofmt", "msgounfmt", "msgocat", "msgomerge", "xgotext"}
	docCommands = append([]string{"gotext-tools", "docs", "doc-tree"}, docTools...)
	helpOption  = regexp.MustCompile(`(?m)^ +(?:(-\w), +)?(--[\w-]+)`)
	generatedOn = regexp.MustCompile(`(?m)^.*Auto generated by spf13/cobra.*$`)
)

type commandHelp struct {
	long    []string // lines of the description
	options [][2]string
}

// help is the help text of a command, and its options.
func (c *cli) help(tool string, args ...string) commandHelp {
	r := c.run("", tool, append(args, "--help")...)
	if r.status != 0 || r.err != "" {
		c.Fail("help", "%s", c.what(r))
	}
	var h commandHelp
	i := strings.Index(r.out, "\nUsage:\n")
	if i < 0 {
		c.Fail("help", "no usage\n%s", c.what(r))
	}
	for _, l := range strings.Split(r.out[:i], "\n") {
		if l = strings.TrimSpace(l); l != "" {
			h.long = append(h.long, l)
		}
	}
	rest := r.out[i:]
	j := strings.Index(rest, "\nFlags:\n")
	if j < 0 {
		c.Fail("help", "no flags\n%s", c.what(r))
	}
	for _, m := range helpOption.FindAllStringSubmatch(rest[j:], -1) {
		h.options = append(h.options, [2]string{m[1], m[2]})
	}
	if len(h.options) == 0 {
		c.Fail("help", "no options\n%s", c.what(r))
	}
	return h
}

func squeeze(s string) string {
	return strings.Join(strings.Fields(strings.ReplaceAll(s, `\`, "")), " ")
}

// page checks the documentation of a command.
func (c *cli) page(page, command, format string, h commandHelp, ctx func() string) {
	text := squeeze(page)
	name := command
	if command != "gotext-tools" {
		name = "gotext-tools " + command
	}
	title := "## " + name
	if format == "man" {
		title = ".TH \"" + strings.ToUpper(strings.ReplaceAll(name, " ", "-")) + "\""
	}
	if !strings.Contains(text, title) {
		c.Fail("title", "the page has no title %q\n%s\n%s", title, ctx(), page)
	}
	for _, l := range h.long {
		if !strings.Contains(text, squeeze(l)) {
			c.Fail("description", "%q isn't in the page\n%s\n%s", l, ctx(), page)
		}
	}
	for _, o := range h.options {
		c.Ev("options-described")
		want := o[1]
		if format == "man" {
			want = `fB` + o[1] + `fP`
		}
		if o[0] != "" {
			if format == "man" {
				want = `fB` + o[0] + `fP, ` + want
			} else {
				want = o[0] + ", " + want
			}
		}
		if !strings.Contains(text, want) {
			c.Fail("option", "option %q isn't in the page\n%s\n%s", want, ctx(), page)
		}
	}
}

func runC33(t *T) {
	c := t.cli()
	defer c.done()
	command := pick(t.G, docCommands)
	format := pick(t.G, []string{"markdown", "man"})
	t.Sig(command, format, t.Case)
	helpOf := func(command string) commandHelp {
		if command == "gotext-tools" {
			return c.help("gotext-tools")
		}
		return c.help("gotext-tools", command)
	}
	generate := func(stdin string, command, format string, out ...string) ran {
		opts := [][]string{t.valued("command", "c", command)}
		if len(out) > 0 {
			opts = append(opts, t.valued("output", "o", out[0]))
		}
		t.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		args := []string{"docs", format}
		for _, o := range opts {
			args = append(args, o...)
		}
		return c.run(stdin, "gotext-tools", args...)
	}

	// Something that must stay.
	c.put("keep.md", "keep\n")
	c.put("d/keep.txt", "keep\n")
	before := c.snapshot()

	switch kind := t.Intn(10); {
	case kind < 5: // one page
		t.Ev("pages")
		h := helpOf(command)
		r := generate("", command, format)
		if r.status != 0 || r.err != "" {
			t.Fail("status", "%s", c.what(r))
		}
		c.page(r.out, command, format, h, func() string { return c.what(r) })
		t.Sample(func() string { return c.what(r) })
		if d := changes(before, c.snapshot()); d != "" {
			t.Fail("other-files", "%s\n%s", d, c.what(r))
		}
		// To a file, which may exist and be longer, and to '-'.
		out := pick(t.G, []string{"out.md", "d/out", "sp ace.1", "-"})
		if out != "-" && t.p(50) {
			c.put(out, strings.Repeat("old content\n", t.Intn(2000)))
		}
		before = c.snapshot()
		x := generate("", command, format, out)
		want, files := r.out, map[string]string{}
		if out != "-" {
			want, files[out] = "", r.out
		}
		c.good(x, before, want, files)
		// The wrapped tool describes itself alike.
		for _, tool := range docTools {
			if tool == command {
				alone := c.help(tool)
				t.Ev("wrapped-tools")
				if fmt.Sprint(alone) != fmt.Sprint(h) {
					t.Fail("wrapper", "%s: the help of the tool and of the wrapper differ\n%q\n%q", tool, alone, h)
				}
			}
		}
	case kind < 6: // all of them
		t.Ev("trees")
		dir := pick(t.G, []string{"new", "d", "a/b c/d", "."})
		r := c.run("", "gotext-tools", append([]string{"doc-tree"}, t.valued("dir", "D", dir)...)...)
		if r.status != 0 || r.out != "" || r.err != "" {
			t.Fail("status", "%s", c.what(r))
		}
		var but []string
		if dir == "a/b c/d" {
			but = []string{"a", "a/b c"}
		}
		but = append(but, dir)
		for p := range c.snapshot() {
			if filepath.Dir(p) == dir && strings.HasPrefix(filepath.Base(p), "gotext-tools") && strings.HasSuffix(p, ".md") {
				but = append(but, p)
			}
		}
		if d := changes(before, c.snapshot(), but...); d != "" {
			t.Fail("other-files", "%s\n%s", d, c.what(r))
		}
		pages := 0
		for _, command := range docCommands {
			name := "gotext-tools_" + command
			if command == "gotext-tools" {
				name = command
			}
			b, err := os.ReadFile(filepath.Join(dir, name+".md"))
			if err != nil {
				t.Fail("tree", "no page of %s: %v\n%s", command, err, c.what(r))
			}
			pages++
			if t.p(30) {
				c.page(string(b), command, "markdown", helpOf(command), func() string { return c.what(r) })
				x := generate("", command, "markdown")
				if x.status != 0 {
					t.Fail("status", "%s", c.what(x))
				}
				if got, want := generatedOn.ReplaceAllString(x.out, ""), generatedOn.ReplaceAllString(string(b), ""); got != want {
					t.Fail("tree-page", "the page of %s isn't the one that docs generates\n%s\n--- tree\n%s\n--- docs\n%s", command, c.what(r), want, got)
				}
			}
		}
		for _, sub := range []string{"man", "markdown"} {
			if _, err := os.Stat(filepath.Join(dir, "gotext-tools_docs_"+sub+".md")); err != nil {
				t.Fail("tree", "no page of docs %s: %v\n%s", sub, err, c.what(r))
			}
		}
	default: // what can't be done
		t.Ev("refused")
		c.put("file", "old content\n")
		before = c.snapshot()
		var r ran
		switch t.Intn(6) {
		case 0, 1:
			bad := pick(t.G, []string{"nothing", "msgfmtt", "MSGOFMT", "msgofmt ", "gotext-tools msgofmt", "man", "--", "Docs"})
			if t.p(50) { // a part of a name, or a bit more than a name
				name := pick(t.G, docCommands)
				bad = pick(t.G, []string{name[:len(name)-1], name[:1+t.Intn(len(name)-1)], name[1:], strings.ToUpper(name), name + "s", " " + name, name + " man"})
				for _, name := range docCommands {
					if bad == name {
						bad = "no"
					}
				}
			}
			r = generate("", bad, format, pick(t.G, []string{"file", "other", "-"}))
		case 2:
			r = generate("", command, format, pick(t.G, []string{"d", "missing/out", "file/out", "."}))
		case 3:
			c.full = true
			r = generate("", command, format)
			c.full = false
		case 4:
			r = c.run("", "gotext-tools", append([]string{"doc-tree"}, t.valued("dir", "D", pick(t.G, []string{"file", "file/sub"}))...)...)
		case 5:
			r = c.run("", "gotext-tools", "docs", format, "-c", command, "-o", "file", "extra")
		}
		if r.status == 0 || strings.TrimSpace(r.err) == "" {
			t.Fail("unreported", "%s", c.what(r))
		}
		if d := changes(before, c.snapshot()); d != "" {
			t.Fail("changed", "%s\n%s", d, c.what(r))
		}
	}
}
