package main

import (
	"fmt"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	register(&Check{
		ID:    "C01",
		Rule:  "random lists of distinct messages over hostile strings and every field, written and parsed back under word wrap and custom obsolete markers; non-trivial: at least one message",
		Quick: 24000, Thorough: 600000,
		Run:  runC01,
		Need: map[string]int{"messages": 50000, "obsolete": 5000, "plural": 8000, "with-previous": 5000, "custom-marker": 1000, "word-wrap": 5000, "odd-forms": 1000, "scale": 300, "scale-messages>1000": 15},
		Assume: []string{
			"strings without NUL and EOT; comments and previous lines without line breaks; previous lines without leading blanks; flags without commas and surrounding blanks",
			"reference names without line breaks and leading blanks; names without a line number are one word that does not end in a number or colon",
			"plural messages have at least one form, with distinct numbers in any order",
		},
	})
}

// poRunes can follow '#' to mark obsolete messages without ambiguity.
var poRunes = []rune("~!@$%^&*;<>?+-=()[]{}/\\'`_aZ9жß→日🙂")

func runC01(t *T) {
	t.textTop = 21
	n := t.count(t.Case%14, 13)
	es := t.entries(n, entryOpt{})
	if t.p(30) {
		h := t.header()
		if t.p(30) {
			h.Str = t.str()
		}
		var rest po.Entries
		for _, e := range es {
			if !e.IsHeader() {
				rest = append(rest, e)
			}
		}
		es = append(po.Entries{h}, rest...)
	}
	for _, e := range es {
		if len(e.Plurals) > 1 && t.p(15) {
			t.Ev("odd-forms")
			step := 1 + t.Intn(pick(t.G, []int{2, 3, 1000}))
			first := t.Intn(3)
			for i := range e.Plurals {
				e.Plurals[i].ID = first + i*step
			}
			if t.p(30) {
				t.Shuffle(len(e.Plurals), func(i, j int) { e.Plurals[i], e.Plurals[j] = e.Plurals[j], e.Plurals[i] })
			}
		}
	}
	var co []compile.PoOption
	var pp []parse.PoOption
	wrap := t.p(50)
	co = append(co, compile.PoWithWordWrap(wrap))
	if wrap {
		t.Ev("word-wrap")
	}
	marker := '~'
	if t.p(30) {
		marker = pick(t.G, poRunes)
		co = append(co, compile.PoWithUseCustomObsoletePrefix(true), compile.PoWithCustomObsoletePrefixRune(marker))
		pp = append(pp, parse.PoWithUseCustomObsoletePrefix(true), parse.PoWithCustomObsoletePrefix(marker))
		t.Ev("custom-marker")
	}
	if t.p(50) {
		pp = append(pp, parse.PoWithCleanDuplicates(false))
	}
	want := activeFirst(cloneEntries(es))
	text := compile.PoToString(es, co...)
	ctx := func() string {
		return fmt.Sprintf("wrap=%v marker=%q\n--- messages\n%s--- text\n%s", wrap, marker, show(es), text)
	}
	t.features(es)
	f, err := parse.PoFromString(text, "x.po", pp...)
	if err != nil {
		t.Fail("roundtrip-error", "parsing the emitted text failed: %v\n%s", err, ctx())
	}
	if f == nil {
		t.Fail("roundtrip-nil", "no file\n%s", ctx())
	}
	if d := diffEntries(f.Entries, want); d != "" {
		t.Fail("roundtrip", "%s\n%s", d, ctx())
	}
	// A second round is a fixed point.
	text2 := compile.PoToString(f, co...)
	if want2 := compile.PoToString(want, co...); text2 != want2 {
		t.Fail("fixpoint", "writing the parsed file gives another text\n%s--- text 2\n%s", ctx(), text2)
	}
	if f.Name != "x.po" {
		t.Fail("name", "file name %q", f.Name)
	}
	if n > 0 {
		t.Sig(text)
	}
	t.Sample(func() string { return text })
}
