package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
)

// cli runs the command line tools in a scratch directory, which is also the
// working directory of the worker meanwhile.
type cli struct {
	*T
	dir  string
	log  strings.Builder
	full bool      // standard output is a full device
	env  []string  // more of the environment
	rec  *[]string // results are kept here
	mix  func()    // called before every run
}

func (t *T) cli() *cli {
	c := &cli{T: t, dir: filepath.Join(t.Dir, fmt.Sprintf("x%d", t.Case))}
	must(os.RemoveAll(c.dir))
	must(os.MkdirAll(c.dir, 0o755))
	must(os.Chdir(c.dir))
	return c
}

func (c *cli) done() {
	must(os.Chdir(c.Dir))
	must(os.RemoveAll(c.dir))
}

func (c *cli) put(name, content string) {
	must(os.MkdirAll(filepath.Dir(name), 0o755))
	must(os.WriteFile(name, []byte(content), 0o644))
	fmt.Fprintf(&c.log, "=== %s\n%s\n", name, content)
}

// decoy puts other files with the names of those that are in a directory into
// the current directory, which nobody asks for.
func (c *cli) decoy(dir string, names ...string) {
	if filepath.Clean(dir) == "." || !c.p(40) {
		return
	}
	for _, n := range names {
		if _, err := os.Lstat(n); err == nil {
			continue
		}
		if os.MkdirAll(filepath.Dir(n), 0o755) != nil {
			continue
		}
		s := "msgid \"decoy\"\nmsgstr \"decoy\"\n"
		if filepath.Ext(n) == ".go" {
			s = "package p\n\nimport \"" + gotextPath + "\"\n\nvar _ = gotext.Get(\"decoy\")\n"
		}
		c.put(n, s)
		c.Ev("decoys")
	}
}

type ran struct {
	out, err string
	status   int
	cmd      string
}

// exec runs a tool, alone or through the wrapper. limit: the greatest size of
// a file it can write in units of 1024 bytes, or -1.
func (c *cli) exec(stdin string, limit int, tool string, args ...string) ran {
	if c.mix != nil {
		c.mix()
	}
	bin := os.Getenv("VMON_BIN")
	if bin == "" {
		panic("VMON_BIN is not set")
	}
	name := filepath.Join(bin, tool)
	argv := append([]string{}, args...)
	if tool != "gotext-tools" && c.p(30) {
		sub := tool
		if c.p(40) {
			sub = map[string]string{"msgofmt": "msgfmt", "msgounfmt": "msgunfmt", "msgocat": "msgcat", "msgomerge": "msgmerge", "xgotext": "xgettext"}[tool]
		}
		argv = append([]string{sub}, argv...)
		name = filepath.Join(bin, "gotext-tools")
		c.Ev("wrapper")
	}
	r := ran{cmd: fmt.Sprintf("%s %q", filepath.Base(name), argv)}
	if limit >= 0 {
		argv = append([]string{"-c", fmt.Sprintf(`ulimit -f %d; exec "$@"`, limit), "sh", name}, argv...)
		name = "/bin/bash"
		r.cmd += fmt.Sprintf(" (with files of at most %d KiB)", limit)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, argv...)
	cmd.Dir = c.dir
	cmd.Env = []string{"HOME=" + c.dir, "PATH=/usr/bin:/bin", "LC_ALL=C.UTF-8", "TZ=UTC", "COLORTERM=truecolor", "TMPDIR=" + c.dir, "PWD=" + c.dir}
	if c.env != nil {
		cmd.Env = c.env
	}
	if f, ok := strings.CutPrefix(stdin, "file:"); ok {
		in, err := os.Open(f)
		must(err)
		defer in.Close()
		cmd.Stdin = in
		r.cmd += " < " + f
	} else if stdin != "" || c.p(50) {
		cmd.Stdin = strings.NewReader(stdin)
		if stdin != "" {
			r.cmd += fmt.Sprintf(" <<< %q", stdin)
		}
	}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if c.full {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		must(err)
		defer f.Close()
		cmd.Stdout = f
		r.cmd += " > /dev/full"
	}
	c.Note("%s", r.cmd)
	err := cmd.Run()
	r.out, r.err, r.status = o.String(), e.String(), cmd.ProcessState.ExitCode()
	if ctx.Err() != nil {
		c.Fail("timeout", "%s: no result after 120 s", c.what(r))
	}
	if err != nil && r.status < 0 {
		c.Fail("killed", "%s: %v", c.what(r), err)
	}
	if strings.Contains(r.err, "goroutine ") && strings.Contains(r.err, "panic") || strings.Contains(r.err, "runtime error") {
		c.Fail("tool-panic", "%s", c.what(r))
	}
	c.Ev("runs")
	c.Ev("runs-" + tool)
	c.record(r)
	return r
}

func (c *cli) run(stdin, tool string, args ...string) ran { return c.exec(stdin, -1, tool, args...) }

func (c *cli) what(r ran) string {
	e := r.err
	if i := strings.Index(e, "\nUsage:"); i > 0 {
		e = e[:i]
	}
	return fmt.Sprintf("command: %s\nstatus: %d\nstderr: %s\nstdout: %s\n--- files\n%s", r.cmd, r.status, clip(e, 600), clip(r.out, 1500), c.log.String())
}

// snapshot is the content of everything in the scratch directory.
func (c *cli) snapshot() map[string]string {
	m := map[string]string{}
	filepath.WalkDir(c.dir, func(p string, d fs.DirEntry, err error) error {
		must(err)
		rel, err := filepath.Rel(c.dir, p)
		must(err)
		switch {
		case d.IsDir():
			m[rel] = "directory"
		case d.Type()&fs.ModeSymlink != 0:
			l, err := os.Readlink(p)
			must(err)
			m[rel] = "link to " + l
		case d.Type().IsRegular():
			b, err := os.ReadFile(p)
			must(err)
			m[rel] = "file " + string(b)
		default:
			m[rel] = d.Type().String()
		}
		return nil
	})
	return m
}

// changes compares two snapshots, but for some (clean) paths.
func changes(before, after map[string]string, but ...string) string {
	skip := map[string]bool{}
	for _, b := range but {
		skip[b] = true
	}
	var l []string
	for p, x := range before {
		y, ok := after[p]
		switch {
		case skip[p] || ok && x == y:
		case !ok:
			l = append(l, fmt.Sprintf("%s is gone", p))
		default:
			l = append(l, fmt.Sprintf("%s changed: %q, was %q", p, clip(y, 600), clip(x, 600)))
		}
	}
	for p := range after {
		if _, ok := before[p]; !ok && !skip[p] {
			l = append(l, fmt.Sprintf("%s is new: %q", p, clip(after[p], 600)))
		}
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// valued spells an option with a value.
func (t *T) valued(long, short, v string) []string {
	switch t.Intn(4) {
	case 0:
		return []string{"--" + long + "=" + v}
	case 1:
		if short != "" {
			return []string{"-" + short, v}
		}
	case 2:
		if short != "" && v != "" && v[0] != '=' {
			return []string{"-" + short + v}
		}
	}
	return []string{"--" + long, v}
}

// on spells a flag.
func (t *T) on(long, short string) []string {
	switch t.Intn(3) {
	case 0:
		if short != "" {
			return []string{"-" + short}
		}
	case 1:
		return []string{"--" + long + "=true"}
	}
	return []string{"--" + long}
}

// line mixes options and arguments, whose order is kept.
func (t *T) line(opts [][]string, args []string) []string {
	t.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	var l []string
	for len(opts) > 0 || len(args) > 0 {
		if len(args) == 0 || len(opts) > 0 && t.p(60) {
			l = append(l, opts[0]...)
			opts = opts[1:]
		} else {
			l = append(l, args[0])
			args = args[1:]
		}
	}
	return l
}

// doc writes messages in some layout.
func (t *T) doc(es po.Entries) string {
	if t.p(40) {
		return t.layout().write(es)
	}
	return compile.PoToString(es)
}

var cliIDs = []string{"a", "b", "Hello", "Hello World", "Hello Word", "%d file", "Open the file", "Open a file", "Close", "x\ny", "ñ"}

// catalogue is a list of messages, which often has a header.
func (t *T) catalogue(n int) po.Entries {
	es := t.entries(t.count(n, 8), entryOpt{ids: cliIDs, ctxs: []string{"", "menu", "ñ"}, maxForm: 3, text: t.text})
	var l po.Entries
	if t.p(65) {
		h := t.header()
		if t.p(25) {
			h.ExtractedComments = t.lines(t.comment, 2)
			h.Flags = append(h.Flags, t.flags()...)
			h.Previous = t.lines(t.previous, 2)
			if t.p(30) {
				h.Locations = po.Locations{{File: "a.go", Line: 1}}
			}
		}
		l = append(l, h)
	}
	for _, e := range es {
		if !e.IsHeader() {
			l = append(l, e)
		}
	}
	return l
}

// good checks the result of a run that must succeed.
func (c *cli) good(r ran, before map[string]string, stdout string, files map[string]string) {
	if r.status != 0 {
		c.Fail("status", "failed\n%s", c.what(r))
	}
	if r.out != stdout {
		c.Fail("stdout", "%s\n--- wanted on standard output\n%s\n(%q)\n--- got\n%q", c.what(r), stdout, stdout, r.out)
	}
	after := c.snapshot()
	var but []string
	for p, want := range files {
		p, err := filepath.Abs(p)
		must(err)
		p, err = filepath.Rel(c.dir, p)
		must(err)
		but = append(but, p)
		if got, ok := after[p]; got != "file "+want {
			c.Fail("file", "file %s (there: %v) isn't what it must be\n%s\n--- got\n%s\n--- want\n%s", p, ok, c.what(r), got, want)
		}
	}
	if d := changes(before, after, but...); d != "" {
		c.Fail("other-files", "%s\n%s", d, c.what(r))
	}
}

func moOrder(g *G) binary.ByteOrder {
	if g.p(50) {
		return binary.BigEndian
	}
	return binary.LittleEndian
}
