package main

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

// G generates hostile but legal data.
type G struct {
	*rand.Rand
	logLong int // 2^logLong is the length of the longest texts (default: 2^15)
	huge    int // number of texts of more than 1 MiB
	textTop int // 2^textTop is the length of the longest one if texts are large (default: 2^18)

	// The dimension that is far larger than usual in this case, and how often
	// it still has to be used.
	scale     string
	scaleLeft int
	scaleTop  int // 2^scaleTop is the largest number of messages, if set
}

// scales are the dimensions of messages and lists of them that can be large.
var scales = []string{"messages", "messages", "references", "comments", "extracted", "previous", "flags", "forms", "lines", "text"}

// setScale makes one dimension large in one of 48 cases.
func (g *G) setScale(seed int64) {
	g.scale = ""
	if h := uint64(seed) * 0x9e3779b97f4a7c15 >> 40; h%48 == 0 {
		g.scale = scales[h/48%uint64(len(scales))]
		g.scaleLeft = 2
	}
}

// large is a number between 2^5 and 2^top, evenly distributed over the magnitudes.
func (g *G) large(top int) int {
	n := 1 << (5 + g.Intn(max(1, top-5)))
	return n + g.Intn(n)
}

// count is the number of messages of a list: n, or up to 2^top of them.
func (t *T) count(n, top int) int {
	if t.scale != "messages" {
		return n
	}
	if t.scaleTop != 0 && top > t.scaleTop {
		top = t.scaleTop
	}
	n = t.large(top)
	t.Ev("scale-messages")
	if n > 1000 {
		t.Ev("scale-messages>1000")
	}
	return n
}

// enlarge makes one list or text of a message large.
func (g *G) enlarge(e *po.Entry, o entryOpt) {
	top := 11
	list := func(f func() string) []string {
		var l []string
		for i, n := 0, g.large(top); i < n; i++ {
			s := f()
			if len(s) > 100 {
				s = "cut"
			}
			l = append(l, s)
		}
		return l
	}
	s := o.text
	if s == nil {
		s = g.str
	}
	texts := []*string{&e.Str, &e.ID, &e.Context}
	if isPlural(*e) {
		texts = []*string{&e.ID, &e.Plural, &e.Context}
		for i := range e.Plurals {
			texts = append(texts, &e.Plurals[i].Str)
		}
	}
	if e.ID == "" && e.Context == "" {
		texts = texts[:1] // stay a header
	}
	switch {
	case g.scale == "forms":
		if len(e.Plurals) == 0 {
			return
		}
		for i, n := len(e.Plurals), g.large(top); i < n; i++ {
			p := po.PluralEntry{ID: i}
			if g.p(80) {
				if p.Str = s(); len(p.Str) > 100 {
					p.Str = "cut"
				}
			}
			e.Plurals = append(e.Plurals, p)
		}
	case g.scale == "lines" && g.logLong == 0 && o.text == nil:
		var b strings.Builder
		for i, n := 0, g.large(top); i < n; i++ {
			if g.p(70) {
				b.WriteString(pick(g, words))
			}
			b.WriteByte('\n')
		}
		*pick(g, texts) = b.String()
	case g.scale == "text" && g.logLong == 0 && o.text == nil:
		g.logLong = 18
		if g.textTop != 0 {
			g.logLong = g.textTop
		}
		s := g.long()
		if len(s) > 1<<20 {
			g.huge++
		}
		*pick(g, texts) = s
		g.logLong = 0
	case g.scale == "flags" && !o.plain:
		e.Flags = list(func() string {
			if g.p(50) {
				return fmt.Sprintf("flag-%d", g.Intn(5000))
			}
			return g.flag()
		})
	case o.plain:
		return
	case g.scale == "references":
		e.Locations = nil
		for i, n := 0, g.large(top); i < n; i++ {
			e.Locations = append(e.Locations, g.location())
		}
	case g.scale == "comments":
		e.Comments = list(g.comment)
	case g.scale == "extracted":
		e.ExtractedComments = list(g.comment)
	case g.scale == "previous":
		e.Previous = list(g.previous)
	default:
		return
	}
	g.scaleLeft--
}

func (g *G) p(n int) bool { return g.Intn(100) < n }

func pick[E any](g *G, s []E) E { return s[g.Intn(len(s))] }

var words = []string{
	"Hello", "hello", "World", "file", "files", "%d file", "%d files", "Open", "Close", "the", "a", "Zürich",
	"naïve", "日本語", "привет", "مرحبا", "👩‍👩‍👧", "e\u0301", "%s", "%[1]d", "C:\\path", "\\n", "\\\\", "\\\"", "\"quoted\"",
	"it's", "x", "y", "#", "##", "# no comment", "#~ msgid", "#, fuzzy", "#: a.go:1", "#| msgid \"x\"", "#.", "#-#-#-#-#",
	"msgid", "msgid \"a\"", "msgstr \"b\"", "msgctxt", "msgid_plural", "msgstr[0]", "[", "]", "[0]", "12", "007", "---",
	"\\x41", "\\101", "\\u0041", "\\0", "=", ":", ";", ",", "|", "~", "fuzzy", "c-format", "<b>", "&amp;", "\u00a0", "\u2028", "\ufeff", "\ufffd", "\u200b",
}

var atoms = []string{
	"\n", "\n\n", "\t", "\r", "\r\n", "\"", "\\", "\a", "\b", "\f", "\v", "\x01", "\x02", "\x03", "\x05", "\x1b", "\x1b[0m", "\x1f", "\x7f",
	"\x80", "\xff", "\xc3", "\xe2\x82", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x80", " ", "  ", "0", "1", "7", "9", "a", "f", "A", "n", "u", "U", "x", "'", "`", "$", "%", "%%",
	"\u0085", "\U0010ffff", "\ud7ff", "ß", "İ", "ı", "ǆ",
}

// str is any text without NUL and EOT.
func (g *G) str() string {
	switch g.Intn(12) {
	case 0:
		return ""
	case 1:
		return pick(g, words)
	case 2:
		return pick(g, atoms)
	case 3, 4: // words
		var b strings.Builder
		for i, n := 0, 1+g.Intn(8); i < n; i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(pick(g, words))
		}
		return b.String()
	case 5: // raw bytes
		b := make([]byte, g.Intn(20))
		for i := range b {
			for b[i] == 0 || b[i] == 4 {
				b[i] = byte(g.Intn(256))
			}
		}
		return string(b)
	case 6: // runes
		var b strings.Builder
		for i, n := 0, g.Intn(12); i < n; i++ {
			r := rune(g.Intn(0x3000))
			if g.p(10) {
				r = rune(g.Intn(0x110000))
			}
			if r == 0 || r == 4 || r >= 0xd800 && r < 0xe000 {
				r = 'x'
			}
			b.WriteRune(r)
		}
		return b.String()
	case 7: // several lines
		var b strings.Builder
		for i, n := 0, 1+g.Intn(5); i < n; i++ {
			b.WriteString(pick(g, words))
			b.WriteByte('\n')
		}
		if g.p(50) {
			b.WriteString(pick(g, words))
		}
		return b.String()
	case 8: // long
		if g.Intn(60) == 0 { // longer than any usual buffer
			return g.long()
		}
		if g.p(20) {
			return strings.Repeat(pick(g, words)+" ", 1+g.Intn(60))
		}
		fallthrough
	default: // mixture
		var b strings.Builder
		for i, n := 0, 1+g.Intn(10); i < n; i++ {
			switch g.Intn(3) {
			case 0:
				b.WriteString(pick(g, words))
			default:
				b.WriteString(pick(g, atoms))
			}
		}
		return b.String()
	}
}

// long is a text of some kilobytes without a period.
func (g *G) long() string {
	var b strings.Builder
	top := g.logLong
	if top == 0 {
		top = 15
	}
	for n := 1 << (10 + g.Intn(top-9)); b.Len() < n; {
		b.WriteString(pick(g, words))
		fmt.Fprintf(&b, "%d", g.Intn(1000))
		if g.p(5) {
			b.WriteString(pick(g, atoms))
		}
		b.WriteByte(' ')
	}
	return b.String()
}

// size is a length of a list: usually 1 to max, now and then many times more.
func (g *G) size(max int) int {
	if g.Intn(150) == 0 {
		return 1 + g.Intn(12*max)
	}
	return 1 + g.Intn(max)
}

// nstr is a non-empty str.
func (g *G) nstr() string {
	for {
		if s := g.str(); s != "" {
			return s
		}
	}
}

// text is printable UTF-8 in the domain of GNU gettext: no control
// characters but newlines and tabs.
func (g *G) text() string {
	var b strings.Builder
	for i, n := 0, g.Intn(7); i < n; i++ {
		if i > 0 {
			b.WriteString(pick(g, []string{" ", " ", "\n", "\t", "\\", "\"", ""}))
		}
		w := pick(g, words)
		b.WriteString(w)
	}
	return strings.Map(func(r rune) rune {
		switch {
		case r == '\n' || r == '\t':
			return r
		case r < ' ' || r == 0x7f || r == 0x85 || r == 0x2028 || r == 0xfeff || r == 0xfffd:
			return -1
		}
		return r
	}, b.String())
}

// comment is a line of a comment.
func (g *G) comment() string {
	var s string
	switch g.Intn(6) {
	case 0:
		s = ""
	case 1:
		s = strings.Repeat(" ", g.Intn(4)) + pick(g, words)
	case 2:
		s = pick(g, []string{"~ msgid \"x\"", ", fuzzy", ": a.go:1", "| old", ". x", "~", "!", "#", "msgid \"a\"", "\"", "---", "\\", "\t tab", "~| x"})
	default:
		s = g.str()
	}
	s = strings.ReplaceAll(s, "\n", " ")
	for strings.HasSuffix(s, "\r") {
		s = s[:len(s)-1]
	}
	return s
}

func (g *G) lines(f func() string, max int) []string {
	if max == 0 || g.p(55) {
		return nil
	}
	var l []string
	for i, n := 0, g.size(max); i < n; i++ {
		l = append(l, f())
	}
	return l
}

func (g *G) flag() string {
	return pick(g, []string{"fuzzy", "c-format", "no-c-format", "go-format", "my-flag lol", "range: 0..9", "python-brace-format", "x", "ñ", "no-wrap", "%", "\"q\"", "#", "a.b"})
}

func (g *G) flags() []string {
	if g.p(60) {
		return nil
	}
	var l []string
	for i, n := 0, 1+g.Intn(3); i < n; i++ {
		l = append(l, g.flag())
	}
	return l
}

var fileNames = []string{
	"main.go", "a.go", "A.go", "b.go", "pkg/a.go", "./a.go", "../x/y.go", "/abs/z.go", "C:\\dir\\f.go", "dir with space/f.go", "ñandú.go",
	"日本.c", "a-b_c.d.e", "x", "f:g", "f:1", "#x.go", "~.go", "a,b.go", "a#b.go", "\"q\".go", "0", "9:", "%s.go", "a.go:",
}

// location is a reference; withSpace allows names that contain blanks.
func (g *G) location() po.Location {
	l := po.Location{File: pick(g, fileNames), Line: g.Intn(50)}
	switch g.Intn(12) {
	case 0:
		l.Line = 0
	case 1:
		l.Line = g.Intn(1 << 31)
	case 2, 3:
		l.Line = -1
		for !lineless(l.File) {
			l.File = pick(g, fileNames)
		}
	}
	return l
}

// lineless reports whether the name can be written without line number.
func lineless(f string) bool {
	if f == "" || strings.HasSuffix(f, ":") || strings.ContainsFunc(f, unicode.IsSpace) {
		return false
	}
	i := strings.LastIndexByte(f, ':')
	return i < 0 || strings.Trim(f[i+1:], "0123456789") != ""
}

func (g *G) locations(max int) po.Locations {
	if g.p(40) || max == 0 {
		return nil
	}
	var l po.Locations
	for i, n := 0, g.size(max); i < n; i++ {
		l = append(l, g.location())
	}
	return l
}

// previous is a line with previous ids.
func (g *G) previous() string {
	s := pick(g, []string{`msgid "old"`, `msgctxt "old ctx"`, `msgid_plural "olds"`, `"continued"`, "", `msgid "a\"b\\n"`, "free text", `msgid ""`})
	if g.p(20) {
		s = strings.TrimLeft(g.comment(), " ")
	}
	return s
}

type entryOpt struct {
	text    func() string // for strings
	ids     []string      // pool of ids, optional
	ctxs    []string
	plain   bool // no comments
	noObs   bool
	maxForm int // plural forms, 0: 6
	small   bool
}

func (g *G) entry(o entryOpt) po.Entry {
	s := o.text
	if s == nil {
		s = g.str
	}
	var e po.Entry
	if o.ids != nil && g.p(70) {
		e.ID = pick(g, o.ids)
	} else {
		e.ID = s()
	}
	if g.p(30) {
		if o.ctxs != nil && g.p(70) {
			e.Context = pick(g, o.ctxs)
		} else {
			e.Context = s()
		}
	}
	if e.ID == "" && e.Context == "" && !g.p(10) {
		e.ID = pick(g, words)
	}
	if g.p(30) && !e.IsHeader() {
		e.Plural = s()
		mf := o.maxForm
		if mf == 0 {
			mf = 6
		}
		n := 1 + g.Intn(mf)
		if g.p(50) && mf >= 2 {
			n = 2
		} else if o.maxForm == 0 && g.p(4) {
			n = 10 + g.Intn(12) // indices of several digits
			if g.Intn(20) == 0 {
				n = 101
			}
		}
		for i := 0; i < n; i++ {
			pe := po.PluralEntry{ID: i}
			if g.p(80) {
				pe.Str = s()
			}
			e.Plurals = append(e.Plurals, pe)
		}
	} else if g.p(80) {
		e.Str = s()
	}
	if !o.noObs && !e.IsHeader() && g.p(20) {
		e.Obsolete = true
	}
	if !o.plain {
		e.Flags = g.flags()
		e.Comments = g.lines(g.comment, 3)
		e.ExtractedComments = g.lines(g.comment, 3)
		e.Previous = g.lines(g.previous, 3)
		e.Locations = g.locations(4)
	} else if g.p(20) {
		e.Flags = g.flags()
	}
	if g.scaleLeft > 0 && !o.small && g.p(40) {
		g.enlarge(&e, o)
	}
	return e
}

// entries are n messages with distinct (context, id).
func (g *G) entries(n int, o entryOpt) po.Entries {
	seen := map[string]bool{}
	var es po.Entries
	for try := 0; len(es) < n && try < 20*n+20; try++ {
		e := g.entry(o)
		if u := uid(e); !seen[u] {
			seen[u] = true
			es = append(es, e)
		}
	}
	return es
}

func (g *G) header() po.Entry {
	e := po.Entry{}
	keys := []string{"Project-Id-Version", "Report-Msgid-Bugs-To", "POT-Creation-Date", "PO-Revision-Date", "Last-Translator", "Language-Team", "Language", "MIME-Version", "X-Generator", "X-Custom"}
	var b strings.Builder
	for _, k := range keys {
		if g.p(60) {
			fmt.Fprintf(&b, "%s: %s\n", k, strings.TrimSpace(strings.ReplaceAll(pick(g, words), "\n", " ")))
		}
	}
	b.WriteString("Content-Type: text/plain; charset=UTF-8\nContent-Transfer-Encoding: 8bit\n")
	if g.p(60) {
		b.WriteString("Plural-Forms: nplurals=2; plural=(n != 1);\n")
	}
	e.Str = b.String()
	if g.p(20) {
		e.Flags = []string{"fuzzy"}
	}
	e.Comments = g.lines(g.comment, 2)
	return e
}

// uid is an unambiguous key of a message.
func uid(e po.Entry) string {
	if e.Context == "" {
		return e.ID
	}
	return e.Context + "\x04" + e.ID
}

// activeFirst is the order in which a PO file lists messages.
func activeFirst(es po.Entries) po.Entries {
	var a, o po.Entries
	for _, e := range es {
		if e.Obsolete {
			o = append(o, e)
		} else {
			a = append(a, e)
		}
	}
	return append(a, o...)
}

// cloneEntry is a deep copy.
func cloneEntry(e po.Entry) po.Entry {
	c := e
	c.Flags = append([]string(nil), e.Flags...)
	c.Comments = append([]string(nil), e.Comments...)
	c.ExtractedComments = append([]string(nil), e.ExtractedComments...)
	c.Previous = append([]string(nil), e.Previous...)
	c.Plurals = append(po.PluralEntries(nil), e.Plurals...)
	c.Locations = append(po.Locations(nil), e.Locations...)
	return c
}

func cloneEntries(es po.Entries) po.Entries {
	if es == nil {
		return nil
	}
	c := make(po.Entries, len(es))
	for i := range es {
		c[i] = cloneEntry(es[i])
	}
	return c
}

func diffStrings(name string, a, b []string) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%s: %q != %q", name, a, b)
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("%s[%d]: %q != %q", name, i, a[i], b[i])
		}
	}
	return ""
}

// diffEntry compares field by field, nil and empty lists are the same.
func diffEntry(a, b po.Entry) string {
	for _, f := range []struct{ n, a, b string }{
		{"ID", a.ID, b.ID}, {"Context", a.Context, b.Context}, {"Plural", a.Plural, b.Plural}, {"Str", a.Str, b.Str},
	} {
		if f.a != f.b {
			return fmt.Sprintf("%s: %q != %q", f.n, f.a, f.b)
		}
	}
	if a.Obsolete != b.Obsolete {
		return fmt.Sprintf("Obsolete: %v != %v", a.Obsolete, b.Obsolete)
	}
	if len(a.Plurals) != len(b.Plurals) {
		return fmt.Sprintf("Plurals: %q != %q", a.Plurals, b.Plurals)
	}
	for i := range a.Plurals {
		if a.Plurals[i].ID != b.Plurals[i].ID || a.Plurals[i].Str != b.Plurals[i].Str {
			return fmt.Sprintf("Plurals[%d]: {%d %q} != {%d %q}", i, a.Plurals[i].ID, a.Plurals[i].Str, b.Plurals[i].ID, b.Plurals[i].Str)
		}
	}
	for _, f := range []struct {
		n    string
		a, b []string
	}{
		{"Flags", a.Flags, b.Flags}, {"Comments", a.Comments, b.Comments},
		{"ExtractedComments", a.ExtractedComments, b.ExtractedComments}, {"Previous", a.Previous, b.Previous},
	} {
		if d := diffStrings(f.n, f.a, f.b); d != "" {
			return d
		}
	}
	if len(a.Locations) != len(b.Locations) {
		return fmt.Sprintf("Locations: %s != %s", locs(a.Locations), locs(b.Locations))
	}
	for i := range a.Locations {
		if a.Locations[i] != b.Locations[i] {
			return fmt.Sprintf("Locations[%d]: %s != %s", i, locs(a.Locations), locs(b.Locations))
		}
	}
	return ""
}

func locs(l po.Locations) string {
	var s []string
	for _, x := range l {
		s = append(s, fmt.Sprintf("%q:%d", x.File, x.Line))
	}
	return "[" + strings.Join(s, " ") + "]"
}

// diffEntries describes the first difference (got, want).
func diffEntries(got, want po.Entries) string {
	for i := 0; i < len(got) && i < len(want); i++ {
		if d := diffEntry(got[i], want[i]); d != "" {
			return fmt.Sprintf("entry %d (got %q, want %q): %s", i, uid(got[i]), uid(want[i]), d)
		}
	}
	if len(got) != len(want) {
		return fmt.Sprintf("got %d entries %s, want %d %s", len(got), ids(got), len(want), ids(want))
	}
	return ""
}

func ids(es po.Entries) string {
	var s []string
	for _, e := range es {
		x := fmt.Sprintf("%q", uid(e))
		if e.Obsolete {
			x = "~" + x
		}
		s = append(s, x)
	}
	return "[" + strings.Join(s, " ") + "]"
}

func show(es po.Entries) string {
	var b strings.Builder
	for i, e := range es {
		fmt.Fprintf(&b, "%d: ctx=%q id=%q plural=%q str=%q", i, e.Context, e.ID, e.Plural, e.Str)
		for _, p := range e.Plurals {
			fmt.Fprintf(&b, " [%d]=%q", p.ID, p.Str)
		}
		if e.Obsolete {
			b.WriteString(" OBSOLETE")
		}
		if len(e.Flags) > 0 {
			fmt.Fprintf(&b, " flags=%q", e.Flags)
		}
		if len(e.Comments) > 0 {
			fmt.Fprintf(&b, " comments=%q", e.Comments)
		}
		if len(e.ExtractedComments) > 0 {
			fmt.Fprintf(&b, " extracted=%q", e.ExtractedComments)
		}
		if len(e.Previous) > 0 {
			fmt.Fprintf(&b, " previous=%q", e.Previous)
		}
		if len(e.Locations) > 0 {
			fmt.Fprintf(&b, " locs=%s", locs(e.Locations))
		}
		b.WriteByte('\n')
	}
	return b.String()
}

// features counts what a list of messages contains.
func (t *T) features(es po.Entries) {
	for _, e := range es {
		t.Ev("messages")
		if e.Obsolete {
			t.Ev("obsolete")
		}
		if e.IsHeader() {
			t.Ev("headers")
		}
		if e.Plural != "" || len(e.Plurals) > 0 {
			t.Ev("plural")
		}
		if e.Context != "" {
			t.Ev("with-context")
		}
		if len(e.Previous) > 0 {
			t.Ev("with-previous")
		}
		if len(e.Locations) > 0 {
			t.Ev("with-references")
		}
		if len(e.Comments)+len(e.ExtractedComments) > 0 {
			t.Ev("with-comments")
		}
	}
}
