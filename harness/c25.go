package main

import (
	"fmt"
	"os"
	"regexp"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
)

func init() {
	register(&Check{
		ID:    "C25",
		Rule:  "random messages written with random style sheets and output options and compared with the plain output after removing the escape sequences, whose balance is followed message by message; existing texts highlighted; non-trivial: at least one escape sequence",
		Quick: 16000, Thorough: 400000,
		Run:    runC25,
		Need:   map[string]int{"sequences": 200000, "highlighted": 10000, "no-terminal": 1000, "own-colours": 3000, "texts": 10000, "parts": 10000, "parts-string": 1500, "parts-keyword": 1500},
		Assume: []string{"escape sequences that a comment of the input contains are removed from both outputs"},
	})
}

var sgr = regexp.MustCompile("\x1b\\[[0-9;]*m")

// ansi is a colour of a user of the library.
type ansi int

func (a ansi) Sprint(x ...any) string {
	return fmt.Sprintf("\x1b[%dm%s\x1b[0m", int(a), fmt.Sprint(x...))
}
func (a ansi) Sprintf(f string, x ...any) string { return a.Sprint(fmt.Sprintf(f, x...)) }

var classNames = []string{
	"msgid", "msgstr", "fuzzy", "obsolete", "translated", "untranslated", "comment", "translator-comment", "extracted-comment", "reference-comment", "reference",
	"flag-comment", "flag", "fuzzy-flag", "previous-comment", "previous", "keyword", "string", "text", "escape-sequence", "format-directive", "msgid text", "msgstr text",
	"fuzzy msgstr text", "msgid string", "msgstr string", "string text", "", "text string",
}

func (t *T) styles() compile.CSSClassesHighlighting {
	switch t.Intn(4) {
	case 0:
		return compile.TestHighlight
	case 1:
		return compile.DefaultHighlight
	}
	own := t.p(50)
	if own {
		t.Ev("own-colours")
	}
	var lib []compile.TermColorer
	for _, k := range classNames {
		if p, ok := compile.TestHighlight[k]; ok && p.Color != nil {
			lib = append(lib, p.Color)
		}
	}
	color := func() compile.TermColorer {
		switch {
		case t.p(40):
			return nil
		case own:
			return ansi(30 + t.Intn(18))
		}
		return pick(t.G, lib)
	}
	m := compile.CSSClassesHighlighting{}
	for _, k := range classNames {
		if t.p(50) {
			m[k] = compile.HighlightCSSProperties{
				Color: color(), BackgroundColor: color(), FontWeight: compile.HighlightFontWeight(t.Intn(2)),
				FontStyle: compile.HighlightFontStyle(t.Intn(3)), TextDecoration: compile.HighlightTextDecoration(t.Intn(2)),
			}
		}
	}
	return m
}

func runC25(t *T) {
	es := t.entries(t.count(1+t.Case%6, 10), entryOpt{})
	if t.p(40) {
		var rest po.Entries
		for _, e := range es {
			if !e.IsHeader() {
				rest = append(rest, e)
			}
		}
		es = append(po.Entries{t.header()}, rest...)
	}
	for i := range es {
		if t.p(30) && !isFuzzy(es[i]) {
			es[i].Flags = append(es[i].Flags, "fuzzy")
		}
	}
	var opts []compile.PoOption
	var names []string
	for _, o := range []struct {
		n string
		o compile.PoOption
	}{
		{"wrap", compile.PoWithWordWrap(true)}, {"omit", compile.PoWithOmitHeader(true)}, {"manage", compile.PoWithManageHeader(true)}, {"fields", compile.PoWithHeaderFields(true)},
		{"comments", compile.PoWithHeaderComments(true)}, {"fuzzy", compile.PoWithCommentFuzzy(true)}, {"prefix", compile.PoWithMsgstrPrefix("<<")}, {"suffix", compile.PoWithMsgstrSuffix("\n>>")},
		{"file", compile.PoWithAddLocation(compile.PoLocationModeFile)}, {"noloc", compile.PoWithNoLocation(true)},
		{"marker", compile.PoWithUseCustomObsoletePrefix(true)}, {"rune", compile.PoWithCustomObsoletePrefixRune(pick(t.G, poRunes))},
	} {
		if t.p(25) {
			opts = append(opts, o.o)
			names = append(names, o.n)
		}
	}
	st := t.styles()
	terminal := !t.p(15)
	if !terminal {
		t.Ev("no-terminal")
		old, oldTerm := os.Getenv("COLORTERM"), os.Getenv("TERM")
		os.Unsetenv("COLORTERM")
		os.Setenv("TERM", "dumb")
		defer os.Setenv("COLORTERM", old)
		defer os.Setenv("TERM", oldTerm)
	}
	plain := compile.PoToString(es, opts...)
	withHl := append(opts[:len(opts):len(opts)], compile.PoWithHighlight(st))
	high := compile.PoToString(es, withHl...)
	t.Ev("highlighted")
	ctx := func() string {
		return fmt.Sprintf("options %v, styles %v\n--- plain\n%q\n--- highlighted\n%q", names, st, plain, high)
	}
	if b := string(compile.PoToBytes(es, withHl...)); b != high {
		t.Fail("methods", "ToBytes gives another text\n%s\n%q", ctx(), b)
	}
	if !terminal && !strings.Contains(fmt.Sprintf("%v", st), "ansi") {
		own := false
		for _, p := range st {
			_, a := p.Color.(ansi)
			_, b := p.BackgroundColor.(ansi)
			own = own || a || b
		}
		if !own && high != plain {
			t.Fail("no-terminal", "%s", ctx())
		}
	}
	got, want := sgr.ReplaceAllString(high, ""), sgr.ReplaceAllString(plain, "")
	if got != want {
		t.Fail("text", "%s", ctx())
	}
	if !strings.Contains(plain, "\x1b") && strings.Contains(got, "\x1b") {
		t.Fail("sequence", "a sequence is broken\n%s", ctx())
	}
	seqs := sgr.FindAllString(high, -1)
	t.EvN("sequences", len(seqs))
	// Every message closes what it opened.
	if !strings.Contains(plain, "\x1b") {
		open := 0
		for i, l := range strings.SplitAfter(high, "\n") {
			for _, s := range sgr.FindAllString(l, -1) {
				if s == "\x1b[0m" {
					open = 0
				} else {
					open++
				}
			}
			if l == "\n" && open > 0 || i == strings.Count(high, "\n") && open > 0 {
				t.Fail("open", "a sequence is open at the end of the message, line %d\n%s", i, ctx())
			}
		}
	}
	t.parts()
	// Existing texts.
	for _, in := range []string{plain, t.layout().write(es)} {
		for i, f := range []func() ([]byte, error){
			func() ([]byte, error) { return compile.Highlight(st, "n", in) },
			func() ([]byte, error) { return compile.HighlightFromBytes(st, "n", []byte(in)) },
			func() ([]byte, error) { return compile.HighlightFromReader(st, "n", strings.NewReader(in)) },
		} {
			t.Ev("texts")
			out, err := f()
			if err != nil {
				t.Fail("highlight-error", "function %d: %v\n%q", i, err, in)
			}
			if sgr.ReplaceAllString(string(out), "") != sgr.ReplaceAllString(in, "") {
				t.Fail("highlight-text", "function %d\nin  %q\nout %q", i, in, out)
			}
		}
	}
	if len(seqs) > 0 {
		t.Sig(high)
	}
	t.Sample(func() string { return high })
}

// coloured removes the sequences and tells which bytes are coloured.
func coloured(s string) (text string, on []bool) {
	var b strings.Builder
	state := false
	for s != "" {
		m := sgr.FindStringIndex(s)
		n := len(s)
		if m != nil {
			n = m[0]
		}
		b.WriteString(s[:n])
		for i := 0; i < n; i++ {
			on = append(on, state)
		}
		if m == nil {
			break
		}
		state = s[m[0]:m[1]] != "\x1b[0m"
		s = s[m[1]:]
	}
	return b.String(), on
}

// parts checks what a style of one class colours.
func (t *T) parts() {
	class := pick(t.G, []string{"keyword", "string", "text", "comment", "msgid string", "msgstr string", "msgid text", "msgstr text"})
	o := entryOpt{plain: true}
	if class == "comment" {
		o = entryOpt{noObs: true}
	}
	var es po.Entries
	for _, e := range t.entries(1+t.Intn(4), o) {
		if !e.IsHeader() {
			es = append(es, e)
		}
	}
	var opts []compile.PoOption
	wrap := t.p(50)
	opts = append(opts, compile.PoWithWordWrap(wrap))
	if t.p(30) {
		opts = append(opts, compile.PoWithMsgstrPrefix("<"), compile.PoWithMsgstrSuffix("\n>"))
	}
	marker := "#~ "
	if t.p(30) {
		opts = append(opts, compile.PoWithUseCustomObsoletePrefix(true), compile.PoWithCustomObsoletePrefixRune('%'))
		marker = "#% "
	}
	if t.p(30) && class != "comment" {
		opts = append(opts, compile.PoWithCommentFuzzy(true))
	}
	plain := compile.PoToString(es, opts...)
	if strings.Contains(plain, "\x1b") {
		return
	}
	high := compile.PoToString(es, append(opts, compile.PoWithHighlight(compile.CSSClassesHighlighting{class: {Color: ansi(35)}}))...)
	var want []bool
	mark := func(n int, on bool) {
		for ; n > 0; n-- {
			want = append(want, on)
		}
	}
	inID := false
	lines := strings.SplitAfter(plain, "\n")
	for i, l := range lines {
		if class == "comment" {
			body := strings.TrimSuffix(l, "\n")
			comment := strings.HasPrefix(body, "#")
			mark(len(body), comment)
			mark(len(l)-len(body), comment && i+1 < len(lines) && strings.HasPrefix(lines[i+1], "#"))
			continue
		}
		rest := l
		if strings.HasPrefix(rest, "#,") {
			mark(len(rest), false)
			continue
		}
		for _, m := range []string{marker, "# "} {
			if strings.HasPrefix(rest, m) {
				mark(len(m), false)
				rest = rest[len(m):]
				break
			}
		}
		if k := strings.IndexByte(rest, ' '); k > 0 && rest[0] == 'm' {
			inID = !strings.HasPrefix(rest, "msgstr")
			mark(k, class == "keyword")
			mark(1, false)
			rest = rest[k+1:]
		}
		body := strings.TrimSuffix(rest, "\n")
		if len(body) >= 2 {
			str := class == "string" || class == "msgid string" && inID || class == "msgstr string" && !inID
			mark(1, str)
			mark(len(body)-2, str || class == "text" || class == "msgid text" && inID || class == "msgstr text" && !inID)
			mark(1, str)
		} else {
			mark(len(body), false)
		}
		mark(len(rest)-len(body), false)
	}
	text, on := coloured(high)
	if text != plain {
		t.Fail("text", "style of %s\n%q\n%q", class, plain, high)
	}
	for i := range want {
		if want[i] != on[i] {
			t.Fail("parts-"+class, "a style of class %s: byte %d (%q) should be coloured: %v\n%q\n%q", class, i, plain[i], want[i], plain, high)
		}
	}
	t.Ev("parts")
	t.Ev("parts-" + class)
}
