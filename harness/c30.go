package main

import (
	"errors"
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	register(&Check{
		ID:    "C30",
		Rule:  "documents of random messages in which one message (active or obsolete, at any position) gets a syntax error of a known kind, and documents with random edits judged by an independent token reader; non-trivial: every edited document",
		Quick: 160000, Thorough: 4000000,
		Run:  runC30,
		Need: map[string]int{"broken": 80000, "broken-obsolete": 16000, "broken-last": 16000, "edits-rejected": 15000, "edits-accepted": 10000, "huge-references": 3500},
		Assume: []string{
			"the token reader in c30.go reads PO text as the grammar defines; comments between the tokens of a message are legal",
		},
	})
}

// brokenMessage writes a message with a syntax error: its lines.
func (t *T) brokenMessage() (lines []string, kind string) {
	q := func() string {
		return `"` + pick(t.G, []string{"a", "b c", "", "%d", "x\\n", "\\\"q\\\"", "ñ", "\\\\"}) + `"`
	}
	ctx, plural := t.p(40), t.p(40)
	type tok struct{ kw, str string }
	var m []tok
	if ctx {
		m = append(m, tok{"msgctxt", q()})
	}
	m = append(m, tok{"msgid", q()})
	if plural {
		m = append(m, tok{"msgid_plural", q()})
		for i, n := 0, 1+t.Intn(3); i < n; i++ {
			m = append(m, tok{fmt.Sprintf("msgstr[%d]", i), q()})
		}
	} else {
		m = append(m, tok{"msgstr", q()})
	}
	i := t.Intn(len(m))
	join := func() (l []string) {
		for j, x := range m {
			l = append(l, x.kw+" "+x.str)
			for (kind != "no-string" || j != i) && t.p(15) {
				l = append(l, q())
			}
		}
		return
	}
	at := func(kw string) int {
		for j, x := range m {
			if x.kw == kw {
				return j
			}
		}
		return -1
	}
	switch t.Intn(13) {
	case 0:
		kind = "unterminated"
		m[i].str = m[i].str[:len(m[i].str)-1]
	case 1:
		kind = "unopened"
		m[i].str = pick(t.G, []string{`a"`, `"`, `abc def"`, `msgid"`})
	case 2:
		kind = "escape"
		e := pick(t.G, []string{`\q`, `\8`, `\u12`, `\ud800`, `\U00110000`, `\x`, `\xg1`, `\'`, `\ `, `\400`, `\N`, `\-`})
		m[i].str = `"` + pick(t.G, []string{"", "a", "\\n"}) + e + pick(t.G, []string{"", " b", "\\n"}) + `"`
	case 3:
		kind = "escaped-end"
		m[i].str = pick(t.G, []string{`"\"`, `"abc\"`, `"a\\\"`})
	case 4:
		kind = "line-break"
		m[i].str = pick(t.G, []string{"\"a\nb\"", "\"\n\"", "\"a\n\"", "\"\nb\"", "\"a\n\nb\""})
		if t.p(40) { // in a string that continues another one
			m[i].str = `"c" ` + m[i].str
		}
	case 5:
		kind = "no-msgid"
		j := at("msgid")
		m = append(m[:j], m[j+1:]...)
	case 6:
		kind = "no-msgstr"
		for j := range m {
			if strings.HasPrefix(m[j].kw, "msgstr") {
				m = m[:j]
				break
			}
		}
	case 7:
		kind = "index"
		b := pick(t.G, []string{"msgstr[x]", "msgstr[-1]", "msgstr[]", "msgstr[99999999999999999999]", "msgstr[0", "msgstr 0]", "msgstr[0 1]", "msgstr[1.5]", "msgstr(0)", "msgstr[[0]]", `msgstr["0"]`, "msgstr[+1]", "msgstr[0x1]", "msgstr[ ]", "[0]", "msgstr[0]]"})
		if plural {
			m[at("msgid_plural")+1+t.Intn(len(m)-at("msgid_plural")-1)].kw = b
		} else {
			m[len(m)-1].kw = b
		}
	case 8:
		kind = "order"
		switch {
		case ctx && t.p(40):
			m[0], m[1] = m[1], m[0]
		case plural:
			switch t.Intn(5) {
			case 0:
				j := at("msgid_plural")
				m[j], m[j-1] = m[j-1], m[j]
			case 1:
				j := at("msgid_plural")
				m[j], m[j+1] = m[j+1], m[j]
			case 2:
				m[len(m)-1].kw = "msgstr"
			case 3:
				m = append(m, tok{"msgid_plural", q()})
			default:
				m = append(m, tok{"msgstr", q()})
			}
		default:
			switch t.Intn(4) {
			case 0:
				j := at("msgid")
				m[j], m[j+1] = m[j+1], m[j]
			case 1:
				m[len(m)-1].kw = "msgstr[0]"
			case 2:
				m = append(m, tok{"msgstr[1]", q()})
			default:
				m = append(m, tok{"msgstr", q()})
			}
		}
	case 9:
		kind = "stray"
		g := pick(t.G, []string{"garbage", `foo "bar"`, "msg", ";", "0", "[", "]", "msgctxt", "=", "'a'", "msgid", "msgstr", "msgid_plural", "domain \"x\"", "\x00", "\xff", "~ msgid", "/* c */", "// x", "-", "\\n", "msgstr[1]"})
		l := join()
		j := t.Intn(len(l) + 1)
		if g == "msgctxt" && j == 0 && !ctx || g == "msgid" && j == len(l) {
			g = "garbage"
		}
		l = append(l[:j:j], append([]string{g}, l[j:]...)...)
		// A keyword followed by a string can be legal: make it two.
		if strings.HasPrefix(g, "msg") && g != "msg" {
			l[j] = g + " " + g
		}
		return l, kind
	case 10:
		kind = "keyword"
		k := m[i].kw
		m[i].kw = pick(t.G, []string{strings.ToUpper(k), strings.Title(k), k + "s", k + ":", k + " =", "x" + k, strings.Replace(k, "msg", "msg ", 1), strings.Replace(k, "msg", "ms", 1), k + "_", k + " " + k})
	case 11:
		kind = "no-string"
		m[i].str = pick(t.G, []string{"", "abc", "'abc'", "0", "“a”", "`a`", "nil"})
	case 12:
		kind = "twice"
		j := t.Intn(i + 1)
		x := m[j]
		if strings.HasPrefix(x.kw, "msgstr[") { // a form more
			x = m[0]
		}
		if x.kw == "msgid" && !ctx && j == 0 && i == len(m)-1 {
			i = 0
		}
		m = append(m[:i+1:i+1], append([]tok{x}, m[i+1:]...)...)
		if x.kw == m[0].kw && i == len(m)-2 { // it would begin another message
			m = append(m, x)
		}
	}
	return join(), kind
}

// references has a message with references whose lines no integer can hold:
// they are reported or kept as text.
func (t *T) references() {
	es := t.entries(t.count(t.Intn(4), 10), entryOpt{})
	w := t.layout()
	at := t.Intn(len(es) + 1)
	num := pick(t.G, []string{"9223372036854775808", "99999999999999999999", "18446744073709551616", "1" + strings.Repeat("0", 20+t.Intn(300))})
	ref := "big.go:" + num
	var l []string
	for i, n := 0, 1+t.Intn(3); i < n; i++ {
		l = append(l, fmt.Sprintf("f%d.go:%d", i, t.Intn(1000)))
	}
	k := t.Intn(len(l) + 1)
	l = append(l[:k:k], append([]string{ref}, l[k:]...)...)
	text := "#: " + strings.Join(l, pick(t.G, []string{" ", "\n#: "})) + "\n"
	text += pick(t.G, []string{"msgid \"x\"\nmsgstr \"y\"\n", "#~ msgid \"x\"\n#~ msgstr \"y\"\n", "# c\n#, fuzzy\nmsgctxt \"c\"\nmsgid \"x\"\nmsgstr \"y\"\n"})
	doc := w.write(es[:at]) + "\n" + text + "\n" + t.layout().write(es[at:])
	t.Sig(doc)
	t.Note("%q", doc)
	t.Ev("huge-references")
	p := parse.NewPoFromString(doc, "f.po", parse.PoWithCleanDuplicates(t.p(50)))
	f := p.Parse()
	if p.Error() != nil {
		return
	}
	for _, e := range f.Entries {
		for _, loc := range e.Locations {
			if strings.Contains(loc.File, num) {
				return
			}
		}
	}
	t.Fail("silent-reference", "reference %q is lost without an error\n--- got\n%s--- document\n%q", ref, show(f.Entries), doc)
}

func runC30(t *T) {
	if t.Case%4 == 3 {
		if t.Case%40 == 39 {
			t.references()
			return
		}
		t.edits()
		return
	}
	n := t.count(t.Intn(6), 10)
	if t.p(1) {
		n = t.Intn(60)
	}
	es := t.entries(n, entryOpt{})
	w := t.layout()
	var docs []string // of each message
	for _, e := range es {
		w.b.Reset()
		w.entry(e)
		docs = append(docs, w.b.String())
	}
	lines, kind := t.brokenMessage()
	obsolete := t.p(35)
	text := strings.Join(lines, "\n") + "\n"
	if obsolete {
		// Every line gets the marker, but what a line break tears off.
		for i := range lines {
			lines[i] = "#~ " + lines[i]
		}
		text = strings.Join(lines, "\n") + "\n"
	}
	if t.p(30) {
		text = "# comment\n#, fuzzy\n" + text
	}
	text += pick(t.G, []string{"", "\n", "\n\n"})
	if w.nl != "\n" {
		text = strings.ReplaceAll(text, "\n", w.nl)
	}
	at := t.Intn(n + 1)
	docs = append(docs[:at:at], append([]string{text}, docs[at:]...)...)
	doc := strings.Join(docs, "")
	if t.p(30) {
		doc = strings.TrimRight(doc, "\r\n")
	}
	t.Ev("broken")
	t.Ev("kind-" + kind)
	if obsolete {
		t.Ev("broken-obsolete")
	}
	if at == n {
		t.Ev("broken-last")
	}
	t.Sig(doc)
	t.Note("%q", doc)
	t.Sample(func() string { return kind + ":\n" + doc })
	f, err := parse.PoFromString(doc, "f.po")
	if err == nil {
		got := "no file"
		if f != nil {
			got = show(f.Entries)
		}
		t.Fail("silent-"+kind, "error of kind %q (obsolete: %v) at message %d of %d isn't reported\n--- broken message\n%s\n--- got\n%s--- document\n%q", kind, obsolete, at, n, text, got, doc)
	}
	if t.p(20) {
		p := parse.NewPoFromString(doc, "f.po", parse.PoWithCleanDuplicates(t.p(50)), parse.PoWithSkipHeader(t.p(50)), parse.PoWithIgnoreComments(t.p(50)))
		p.Parse()
		if p.Error() == nil || len(p.Errors()) == 0 {
			t.Fail("silent-"+kind, "error of kind %q isn't reported with other options\n%q", kind, doc)
		}
	}
}

// edits changes a document at random and compares what is accepted.
func (t *T) edits() {
	es := t.entries(1+t.Intn(5), entryOpt{maxForm: 3})
	var doc string
	if t.p(50) {
		doc = t.layout().write(es)
	} else {
		doc = compile.PoToString(es)
	}
	if doc == "" {
		return
	}
	orig := doc
	b := []byte(doc)
	for k := 1 + t.Intn(3); k > 0 && len(b) > 0; k-- {
		i := t.Intn(len(b))
		switch t.Intn(7) {
		case 0:
			b = append(b[:i:i], b[i+1:]...)
		case 1:
			b[i] = byte(t.Intn(256))
		case 2:
			ins := pick(t.G, []string{"\"", "\\", "\n", "#", "#~ ", "~", "msgid", "msgstr", "msgctxt \"x\"", " ", "\"\"", "[", "0", "]", "\r", "\n#~ ", "\n# ", "|", "\t"})
			b = append(b[:i:i], append([]byte(ins), b[i:]...)...)
		case 3:
			j := i + t.Intn(min(30, len(b)-i)) + 1
			b = append(b[:i:i], b[min(j, len(b)):]...)
		case 4:
			b = b[:i]
		case 5:
			j := t.Intn(len(b))
			b[i], b[j] = b[j], b[i]
		case 6: // lines
			l := strings.SplitAfter(string(b), "\n")
			x, y := t.Intn(len(l)), t.Intn(len(l))
			if t.p(50) {
				l[x], l[y] = l[y], l[x]
			} else {
				l = append(l[:x:x], l[x+1:]...)
			}
			b = []byte(strings.Join(l, ""))
		}
	}
	doc = string(b)
	if doc == orig {
		return
	}
	t.Sig(doc)
	t.Note("%q", doc)
	want, rerr := tokenPO(doc)
	p := parse.NewPoFromString(doc, "f.po", parse.PoWithCleanDuplicates(false))
	f := p.Parse()
	err := p.Error()
	switch {
	case err == nil && f == nil:
		t.Fail("nil", "neither a file nor an error\n%q", doc)
	case err == nil && rerr != nil:
		t.Fail("accepted", "accepted, but %v\n--- got\n%s--- document\n%s\n%q", rerr, show(f.Entries), doc, doc)
	case err != nil:
		t.Ev("edits-rejected")
		return
	}
	t.Ev("edits-accepted")
	got := cloneEntries(f.Entries)
	for i := range got {
		got[i].Flags, got[i].Comments, got[i].ExtractedComments, got[i].Previous, got[i].Locations = nil, nil, nil, nil, nil
	}
	if d := diffEntries(got, want); d != "" {
		t.Fail("misread", "%s\n--- document\n%s\n%q", d, doc, doc)
	}
}

var errToken = errors.New("syntax error")

type poTok struct {
	kind byte // c comment, s string, k keyword, i integer, other: itself
	text string
}

var (
	reWS      = regexp.MustCompile(`^[ \t\r\n\f\v]+`)
	reKeyword = regexp.MustCompile(`^(msgctxt|msgid_plural|msgid|msgstr)`)
	reInt     = regexp.MustCompile(`^[0-9]+`)
)

func lexPO(s string) (ts []poTok, err error) {
	for s != "" {
		switch {
		case reWS.MatchString(s):
			s = s[len(reWS.FindString(s)):]
		case s[0] == '#':
			i := strings.IndexByte(s, '\n')
			if i < 0 {
				i = len(s)
			}
			ts = append(ts, poTok{'c', strings.TrimSuffix(s[:i], "\r")})
			s = s[i:]
		case s[0] == '"':
			i := 1
			for i < len(s) && s[i] != '"' && s[i] != '\n' {
				if s[i] == '\\' {
					i++
				}
				i++
			}
			if i >= len(s) || s[i] == '\n' {
				return nil, fmt.Errorf("%w: unterminated string", errToken)
			}
			x, err := unescapePO(s[1:i])
			if err != nil {
				return nil, err
			}
			ts = append(ts, poTok{'s', x})
			s = s[i+1:]
		case s[0] == '[' || s[0] == ']':
			ts = append(ts, poTok{s[0], ""})
			s = s[1:]
		case reInt.MatchString(s):
			x := reInt.FindString(s)
			ts = append(ts, poTok{'i', x})
			s = s[len(x):]
		case reKeyword.MatchString(s):
			x := reKeyword.FindString(s)
			ts = append(ts, poTok{'k', x})
			s = s[len(x):]
		default:
			return nil, fmt.Errorf("%w: stray text", errToken)
		}
	}
	return ts, nil
}

func unescapePO(s string) (string, error) {
	var b []byte
	bad := fmt.Errorf("%w: invalid escape", errToken)
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' {
			b = append(b, s[i])
			continue
		}
		i++
		if i == len(s) {
			return "", bad
		}
		num := func(n, base int) (uint64, error) {
			if i+n > len(s) {
				return 0, bad
			}
			v, err := strconv.ParseUint(s[i:i+n], base, 32)
			if err != nil || strings.ContainsAny(s[i:i+n], "_+") {
				return 0, bad
			}
			i += n - 1
			return v, nil
		}
		switch c := s[i]; c {
		case 'n', 't', 'r', 'a', 'b', 'f', 'v', '\\', '"':
			b = append(b, map[byte]byte{'n': '\n', 't': '\t', 'r': '\r', 'a': 7, 'b': 8, 'f': 12, 'v': 11, '\\': '\\', '"': '"'}[c])
		case 'x':
			i++
			v, err := num(2, 16)
			if err != nil {
				return "", err
			}
			b = append(b, byte(v))
		case 'u', 'U':
			i++
			n := 4
			if c == 'U' {
				n = 8
			}
			v, err := num(n, 16)
			if err != nil || v > 0x10ffff || v >= 0xd800 && v < 0xe000 {
				return "", bad
			}
			b = append(b, string(rune(v))...)
		default:
			v, err := num(3, 8)
			if err != nil || v > 255 {
				return "", bad
			}
			b = append(b, byte(v))
		}
	}
	return string(b), nil
}

// messagesPO applies the grammar to tokens without comments.
func messagesPO(ts []poTok, obsolete bool) (es po.Entries, err error) {
	i := 0
	next := func(kind byte, text string) bool {
		if i < len(ts) && ts[i].kind == kind && (text == "" || ts[i].text == text) {
			i++
			return true
		}
		return false
	}
	str := func() (string, bool) {
		if !next('s', "") {
			return "", false
		}
		s := ts[i-1].text
		for next('s', "") {
			s += ts[i-1].text
		}
		return s, true
	}
	for i < len(ts) {
		bad := func() (po.Entries, error) {
			return es, fmt.Errorf("%w: message %d of the obsolete (%v) ones", errToken, len(es), obsolete)
		}
		e := po.Entry{Obsolete: obsolete}
		var ok bool
		if next('k', "msgctxt") {
			if e.Context, ok = str(); !ok {
				return bad()
			}
		}
		if !next('k', "msgid") {
			return bad()
		}
		if e.ID, ok = str(); !ok {
			return bad()
		}
		if next('k', "msgid_plural") {
			if e.Plural, ok = str(); !ok {
				return bad()
			}
			for next('k', "msgstr") {
				if !next('[', "") || !next('i', "") {
					return bad()
				}
				n, err := strconv.Atoi(ts[i-1].text)
				if err != nil || !next(']', "") {
					return bad()
				}
				s, ok := str()
				if !ok {
					return bad()
				}
				e.Plurals = append(e.Plurals, po.PluralEntry{ID: n, Str: s})
			}
			if len(e.Plurals) == 0 {
				return bad()
			}
		} else {
			if !next('k', "msgstr") {
				return bad()
			}
			if e.Str, ok = str(); !ok {
				return bad()
			}
		}
		es = append(es, e)
	}
	return es, nil
}

// tokenPO reads the bodies of the messages of a document: first the active
// ones, then those in the obsolete lines.
func tokenPO(doc string) (po.Entries, error) {
	ts, err := lexPO(doc)
	if err != nil {
		return nil, err
	}
	var active []poTok
	var obs strings.Builder
	for _, t := range ts {
		if t.kind != 'c' {
			active = append(active, t)
			continue
		}
		if strings.HasPrefix(t.text, "#~") {
			l := strings.TrimLeft(t.text[2:], " ")
			if !strings.HasPrefix(l, "|") {
				obs.WriteString(l + "\n")
			}
		}
	}
	es, err := messagesPO(active, false)
	if err != nil {
		return nil, err
	}
	ts, err = lexPO(obs.String())
	if err != nil {
		return nil, err
	}
	var old []poTok
	for _, t := range ts {
		if t.kind != 'c' {
			old = append(old, t)
		}
	}
	os, err := messagesPO(old, true)
	return append(es, os...), err
}
