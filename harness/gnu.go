package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
)

// gnuTool is the path of a GNU gettext program, if it is installed.
func gnuTool(name string) string {
	for _, d := range []string{"/usr/bin/", "/usr/local/bin/"} {
		if _, err := os.Stat(d + name); err == nil {
			return d + name
		}
	}
	return ""
}

// runTool runs a program and returns its output and status.
func runTool(dir, stdin string, env []string, name string, args ...string) (out, errOut string, status int) {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.Env = append(append([]string{}, os.Environ()...), env...)
	cmd.Stdin = strings.NewReader(stdin)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	status = cmd.ProcessState.ExitCode()
	if ctx.Err() != nil {
		return o.String(), e.String() + "\nTIMEOUT", -9
	}
	if err != nil && status <= 0 {
		e.WriteString(fmt.Sprintf("\n%v", err))
		status = -1
	}
	return o.String(), e.String(), status
}

// gnuEntry brings a message into the domain of GNU gettext, whose
// representation of comments and references differs.
func gnuEntry(g *G, e *po.Entry) {
	e.Flags, e.Comments, e.ExtractedComments, e.Previous, e.Locations = nil, nil, nil, nil, nil
	if g.p(30) {
		e.Flags = append(e.Flags, "fuzzy")
		if g.p(60) { // GNU drops those of other messages
			if g.p(30) {
				e.Previous = append(e.Previous, `msgctxt "old"`)
			}
			e.Previous = append(e.Previous, pick(g, []string{`msgid "old id"`, `msgid "a\n"`, `msgid "ñ"`}))
			if g.p(30) {
				e.Previous = append(e.Previous, `msgid_plural "old ids"`)
			}
		}
	}
	if g.p(30) {
		e.Flags = append(e.Flags, "c-format")
	}
	for i, n := 0, g.Intn(3); i < n; i++ {
		e.Comments = append(e.Comments, pick(g, []string{"one", "two words", "ñandú", "msgid x"}))
	}
	for i, n := 0, g.Intn(3); i < n && !e.Obsolete; i++ {
		e.ExtractedComments = append(e.ExtractedComments, pick(g, []string{"one", "two words", "ñandú"}))
	}
	for i, n := 0, g.Intn(3); i < n && !e.Obsolete; i++ {
		e.Locations = append(e.Locations, po.Location{File: pick(g, []string{"a.go", "b/c.go"}), Line: 1 + g.Intn(99)})
	}
	// GNU drops previous ids of messages that aren't fuzzy.
	if len(e.Plurals) == 0 && e.Plural == "" && e.Str == "" {
		e.Str = "t"
	}
	if len(e.Plurals) > 0 && e.Plurals[0].Str == "" {
		e.Plurals[0].Str = "t"
	}
	// msgcat checks that a translation starts and ends like the id only on
	// request, but it requires all forms to be there.
	if e.Plural == "" && len(e.Plurals) > 0 {
		e.Plural = "p"
	}
}

// gnuRead lets GNU msgcat read the text and compares what it understood.
func gnuRead(t *T, text string, es po.Entries, mode compile.PoLocationMode, ctx func() string) {
	out, errOut, st := runTool(t.Dir, text, []string{"LC_ALL=C.UTF-8"}, gnuTool("msgcat"), "--no-wrap", "--force-po", "-")
	if st != 0 {
		t.Fail("gnu-rejects", "msgcat rejects the text (status %d): %s\n%s", st, errOut, ctx())
	}
	t.Ev("gnu-reads")
	got, err := readPO(out, '~')
	if err != nil {
		t.Fail("gnu-output", "can't read the output of msgcat: %v\n%s\n%s", err, out, ctx())
	}
	want := cloneEntries(es)
	norm := func(l po.Entries) {
		for i := range l {
			if mode != compile.PoLocationModeFull {
				l[i].Locations = nil
			}
			sort.Strings(l[i].Flags)
			var ls po.Locations
			for _, x := range l[i].Locations { // msgcat removes repeated references
				dup := false
				for _, y := range ls {
					dup = dup || x == y
				}
				if !dup {
					ls = append(ls, x)
				}
			}
			l[i].Locations = ls
		}
	}
	// msgcat writes several references on one line.
	for i := range got {
		var ls po.Locations
		for _, x := range got[i].Locations {
			for _, w := range strings.Fields(fmt.Sprintf("%s:%d", x.File, x.Line)) {
				l, _ := readRefs(w)
				ls = append(ls, l...)
			}
		}
		got[i].Locations = ls
	}
	got, want = activeFirst(got), activeFirst(want)
	norm(got)
	norm(want)
	if d := diffEntries(got, want); d != "" {
		t.Fail("gnu-meaning", "msgcat understands something else: %s\n%s\n--- msgcat\n%s", d, ctx(), out)
	}
}
