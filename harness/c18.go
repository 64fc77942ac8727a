package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

func init() {
	register(&Check{
		ID:    "C18",
		Rule:  "random Go source text (every literal form, nesting, imports and aliases, look-alike calls, comments, hidden names, line endings) whose translatable strings are known, extracted with and without extract-all; non-trivial: at least one call of a getter",
		Quick: 40000, Thorough: 500000,
		Run:  runC18,
		Need: map[string]int{"calls": 120000, "literals": 200000, "no-import": 3000, "crlf": 4000, "many-lines": 50, "twice": 8000, "reset": 3000},
		Assume: []string{
			"the source is written by the generator in harness/gosrc.go, which knows the strings and lines",
			"dot imports are not used; number and rune literals don't take the place of a message, plural or context (that is an error, see C19)",
		},
	})
}

func sortFound(l []found) {
	sort.Slice(l, func(i, j int) bool {
		a, b := l[i], l[j]
		if a.line != b.line {
			return a.line < b.line
		}
		return fmt.Sprintf("%q", []string{a.id, a.plural, a.ctx}) < fmt.Sprintf("%q", []string{b.id, b.plural, b.ctx})
	})
}

// checkFound compares extracted entries with what must be found.
func (t *T) checkFound(es po.Entries, want []found, name string, ctx func() string) {
	var got []found
	for _, e := range es {
		if len(e.Locations) != 1 || e.Locations[0].File != name {
			t.Fail("reference", "message %q has the references %s, want one in %q\n%s", e.ID, locs(e.Locations), name, ctx())
		}
		f := found{id: e.ID, plural: e.Plural, ctx: e.Context, line: e.Locations[0].Line}
		got = append(got, f)
		x := po.Entry{ID: e.ID, Plural: e.Plural, Context: e.Context, Locations: e.Locations}
		if d := diffEntry(e, x); d != "" {
			t.Fail("extra-field", "message %q: %s\n%s", e.ID, d, ctx())
		}
	}
	want = append([]found(nil), want...)
	for i := range want {
		want[i].off = 0
	}
	sortFound(got)
	sortFound(want)
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got), i < len(want) && i < len(got) && got[i] != want[i] && want[i].line <= got[i].line:
			t.Fail("missed", "not extracted (or differently): want %v, got %v\n%s", want[i], got[min(i, len(got)):min(i+2, len(got))], ctx())
		case i >= len(want), got[i] != want[i]:
			t.Fail("extra", "extracted, but shouldn't be: %v\n%s", got[i], ctx())
		}
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func runC18(t *T) {
	imports := !t.p(10)
	n := t.count(t.Case%14, 9)
	if t.Case%400 == 399 {
		n = 150
	}
	s := t.goFile(imports, n)
	src := s.b.String()
	if t.Intn(400) == 0 && !strings.HasPrefix(src, "\ufeff") { // far down in the file
		k := t.large(18)
		src = strings.Repeat(pick(t.G, []string{"\n", "//\n", "\t\n"}), k) + src
		for _, l := range [][]found{s.calls, s.lits} {
			for i := range l {
				l[i].line += k
			}
		}
		if t.Ev("many-lines"); k > 1<<16 {
			t.Ev("lines>65536")
		}
	}
	if t.p(15) {
		src = strings.ReplaceAll(src, "\n", "\r\n")
		t.Ev("crlf")
	}
	if t.p(10) {
		src = strings.TrimRight(src, "\r\n")
	}
	name := pick(t.G, []string{"a.go", "dir/b.go", "x y.go", "", "ñ.go", "a.go:3"})
	t.EvN("calls", len(s.calls))
	t.EvN("literals", len(s.lits))
	if !imports {
		t.Ev("no-import")
	}
	if len(s.calls) > 0 {
		t.Sig(src)
	}
	t.Note("%s", src)
	t.Sample(func() string {
		return fmt.Sprintf("%d calls, %d other literals in\n%s", len(s.calls), len(s.lits), src)
	})
	ctx := func() string { return "--- source (" + name + ")\n" + src }
	for _, all := range []bool{false, true} {
		opts := []goparse.Option{goparse.WithNoHeader(true), goparse.WithCleanDuplicates(false), goparse.WithExtractAll(all)}
		c := func() string { return fmt.Sprintf("extract all: %v\n%s", all, ctx()) }
		f, err := goparse.FromString(src, name, opts...)
		if err != nil {
			t.Fail("error", "unexpected error: %v\n%s", err, c())
		}
		want := s.wanted(all)
		t.checkFound(f.Entries, want, name, c)
		// A file can be asked again, and reused for another source.
		cfg := goparse.DefaultConfig(opts...)
		gf, err := goparse.NewFileFromBytes([]byte(src), name, &cfg)
		if err != nil {
			t.Fail("error", "unexpected error: %v\n%s", err, c())
		}
		if t.p(30) {
			for i := 0; i < 2; i++ {
				t.checkFound(gf.Entries(), want, name, c)
				if gf.Error() != nil || len(gf.Errors()) > 0 {
					t.Fail("error", "unexpected error: %v\n%s", gf.Error(), c())
				}
				t.Ev("twice")
			}
		}
		if t.p(10) {
			s2 := t.goFile(t.p(70), t.Intn(8))
			if err := gf.Reset(bytes.NewReader([]byte(s2.b.String())), "n.go", &cfg); err != nil {
				t.Fail("error", "unexpected error: %v\n%s", err, s2.b.String())
			}
			t.checkFound(gf.Entries(), s2.wanted(all), "n.go", func() string {
				return "after another source:\n" + s2.b.String() + "\n--- the other\n" + src
			})
			t.Ev("reset")
		}
	}
	if t.Case%50 == 0 {
		p := filepath.Join(t.Dir, "f.go")
		must(os.WriteFile(p, []byte(src), 0o644))
		f, err := goparse.FromPath(p, goparse.WithNoHeader(true), goparse.WithCleanDuplicates(false))
		if err != nil {
			t.Fail("error", "unexpected error: %v\n%s", err, ctx())
		}
		t.checkFound(f.Entries, s.calls, p, ctx)
	}
}
