package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing/iotest"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	register(&Check{
		ID:    "C02",
		Rule:  "random messages laid out by an independent writer in random legal layouts, parsed through every constructor; non-trivial: at least one message",
		Quick: 20000, Thorough: 500000,
		Run:    runC02,
		Need:   map[string]int{"messages": 50000, "obsolete": 5000, "plural": 8000, "constructors": 50000, "big-documents": 10, "crlf": 3000, "no-final-newline": 3000},
		Assume: []string{"strings and comments as in C01; numeric escapes with three octal or two hexadecimal digits"},
	})
	register(&Check{
		ID:    "C03",
		Rule:  "random messages, comments of several lines included, written under word wrap and location modes and read back by an independent strict reader, and by GNU msgcat for a sample in its domain; non-trivial: at least one message",
		Quick: 80000, Thorough: 400000,
		Run:    runC03,
		Need:   map[string]int{"messages": 200000, "obsolete": 20000, "independent-reads": 60000, "multi-line-comments": 4000},
		Assume: []string{"the independent reader in refpo.go reads PO text as the format defines; GNU msgcat 0.21 if installed"},
	})
}

func (t *T) layout() *layout {
	w := &layout{G: t.G, nl: "\n"}
	if t.p(30) {
		w.nl = "\r\n"
	}
	return w
}

func runC02(t *T) {
	n := t.count(t.Case%12, 12)
	huge := t.Case%1000 == 999
	if huge {
		n = 200 + t.Intn(400)
		t.Ev("big-documents")
	}
	es := t.entries(n, entryOpt{})
	w := t.layout()
	if w.nl == "\r\n" {
		t.Ev("crlf")
	}
	text := w.write(es)
	if !strings.HasSuffix(text, "\n") {
		t.Ev("no-final-newline")
	}
	want := activeFirst(es)
	ctx := func() string { return fmt.Sprintf("--- messages\n%s--- text\n%q", show(es), text) }
	t.features(es)

	check := func(how string, f *po.File, err error) {
		t.Ev("constructors")
		if err != nil {
			t.Fail("layout-error", "%s: %v\n%s", how, err, ctx())
		}
		if f == nil {
			t.Fail("layout-nil", "%s: no file\n%s", how, ctx())
		}
		if d := diffEntries(f.Entries, want); d != "" {
			t.Fail("layout", "%s: %s\n%s", how, d, ctx())
		}
	}
	path := filepath.Join(t.Dir, "in.po")
	f, err := parse.PoFromString(text, "n.po")
	check("string", f, err)
	if f.Name != "n.po" {
		t.Fail("name", "name %q", f.Name)
	}
	f, err = parse.PoFromBytes([]byte(text), "n.po")
	check("bytes", f, err)
	if huge || t.p(30) {
		f, err = parse.PoFromReader(iotest.OneByteReader(strings.NewReader(text)), "n.po")
		check("one byte reader", f, err)
		f, err = parse.PoFromReader(iotest.DataErrReader(bytes.NewBufferString(text)), "n.po")
		check("reader", f, err)
		must(os.WriteFile(path, []byte(text), 0o600))
		f, err = parse.Po(path)
		check("path", f, err)
		if f.Name != path {
			t.Fail("name", "name %q", f.Name)
		}
		fh, err2 := os.Open(path)
		must(err2)
		f, err = parse.PoFromFile(fh)
		fh.Close()
		check("file", f, err)
		if f.Name != path {
			t.Fail("name", "name %q", f.Name)
		}
		// Parsing again with the same parser.
		p := parse.NewPoFromString(text, "n.po")
		p.Parse()
		f = p.Parse()
		check("second parse", f, p.Error())
	}
	if n > 0 {
		t.Sig(text)
	}
	t.Sample(func() string { return text })
}

func runC03(t *T) {
	t.textTop = 21
	n := t.count(1+t.Case%10, 12)
	gnu := t.Case%40 == 0 && gnuTool("msgcat") != ""
	o := entryOpt{}
	if gnu {
		o.text = t.text
	}
	es := t.entries(n, o)
	if gnu {
		for i := range es {
			gnuEntry(t.G, &es[i])
		}
		h := t.header()
		h.Comments = nil
		var rest po.Entries
		for _, e := range es {
			if !e.IsHeader() && e.ID != "" {
				rest = append(rest, e)
			}
		}
		es = append(po.Entries{h}, rest...)
	}
	// Comments of several lines are written as several comments.
	src := cloneEntries(es)
	for i := range src {
		for _, l := range []*[]string{&src[i].Comments, &src[i].ExtractedComments, &src[i].Previous} {
			if t.p(30) && len(*l) > 1 {
				*l = []string{strings.Join(*l, "\n")}
				t.Ev("multi-line-comments")
			}
		}
	}
	t.features(es)
	wrap := t.p(50)
	opts := []compile.PoOption{compile.PoWithWordWrap(wrap)}
	marker := '~'
	if !gnu && t.p(20) {
		marker = pick(t.G, poRunes)
		opts = append(opts, compile.PoWithUseCustomObsoletePrefix(true), compile.PoWithCustomObsoletePrefixRune(marker))
	}
	mode := pick(t.G, []compile.PoLocationMode{compile.PoLocationModeFull, compile.PoLocationModeFull, compile.PoLocationModeFile, compile.PoLocationModeNever})
	opts = append(opts, compile.PoWithAddLocation(mode))
	want := cloneEntries(es)
	for i := range want {
		switch mode {
		case compile.PoLocationModeNever:
			want[i].Locations = nil
		case compile.PoLocationModeFile:
			// A name that ends in a number looks like a reference with line.
			for j := range want[i].Locations {
				ls, _ := readRefs(want[i].Locations[j].File)
				want[i].Locations[j] = ls[0]
			}
		}
		// A plural message without forms is written with empty forms.
		if want[i].Plural != "" && len(want[i].Plurals) == 0 {
			want[i].Plurals = po.PluralEntries{{ID: 0}, {ID: 1}}
		}
	}
	text := compile.PoToString(src, opts...)
	ctx := func() string {
		return fmt.Sprintf("wrap=%v mode=%v marker=%q\n--- messages\n%s--- text\n%s", wrap, mode, marker, show(src), text)
	}
	got, err := readPO(text, marker)
	t.Ev("independent-reads")
	if err != nil {
		t.Fail("invalid", "not valid PO text: %v\n%s", err, ctx())
	}
	if d := diffEntries(got, want); d != "" {
		t.Fail("meaning", "%s\n%s", d, ctx())
	}
	// Separation: the text of a list is the texts of its messages.
	if !gnu {
		var b strings.Builder
		for i := range src {
			b.WriteString(compile.PoToString(po.Entries{src[i]}, opts...))
		}
		if b.String() != text {
			t.Fail("leak", "the text of the list isn't the texts of its messages\n%s", ctx())
		}
	}
	if gnu {
		gnuRead(t, text, es, mode, ctx)
	}
	t.Sig(text)
	t.Sample(func() string { return text })
}
