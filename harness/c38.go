package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	register(&Check{
		ID:    "C38",
		Rule:  "histories of a project: its Go sources change over several rounds (messages added, removed, changed, moved, brought back), each round extracts, merges, saves, lets a translator work and compiles, in memory or with the tools, with passages through compiled files, concatenation and GNU msgcat; a model of the translator's work is compared with the catalogue after every step and with what the compiled file answers; non-trivial: at least two merges",
		Quick: 16000, Thorough: 800000,
		Run: runC38,
		Need: map[string]int{"rounds": 50000, "kept": 80000, "removed": 12000, "back": 2000, "plural-changed": 4000, "passed-on": 4000, "answers": 45000, "silent": 70000,
			"tools": 1200, "restored": 3000, "concatenated": 4000, "hand": 18000, "gnu": 300, "again": 15000, "set": 4000, "in-place": 4000, "cleaned": 1000},
		Assume: []string{
			"a message is used with one plural id at a time",
			"which of the removed messages passes its translation to a new one, with fuzzy matching, is judged by C08",
		},
	})
}

// lmsg is a message of the sources.
type lmsg struct {
	id, ctx, plural string
	single          bool // it is also used without plural
	files           []int
}

// work is what the translator knows about a message.
type work struct {
	id, ctx, plural string
	kind            bool // plural
	strs            []string
	fuzzy, obsolete bool
	comments        []string
}

func (w *work) done() bool {
	for _, s := range w.strs {
		if s != "" {
			return true
		}
	}
	return false
}

// forms are the translations without empty ones at the end.
func forms(e po.Entry) []string {
	l := []string{e.Str}
	if isPlural(e) {
		l = nil
		for _, p := range e.Plurals {
			for len(l) <= p.ID && p.ID < 100 {
				l = append(l, "")
			}
			if p.ID >= 0 && p.ID < 100 {
				l[p.ID] = p.Str
			}
		}
	}
	for len(l) > 0 && l[len(l)-1] == "" {
		l = l[:len(l)-1]
	}
	return l
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// life is a project.
type life struct {
	*cli
	dir    string // of the sources, empty: in the working directory
	files  []string
	msgs   []*lmsg
	past   []*lmsg
	model  map[string]*work
	cat    po.Entries // the catalogue, nil: there is none yet
	header string
	tools  bool
	po     string // name of the catalogue
	steps  []string
	locs   map[string][]string // of the current sources
	byHand bool                // the text wasn't written by a compiler
	forms  int
}

func lkey(ctx, id string) string { return ctx + "\x04" + id }

func (l *life) step(format string, a ...any) {
	l.steps = append(l.steps, fmt.Sprintf(format, a...))
}

func (l *life) history() string {
	s := "--- catalogue\n" + show(l.cat) + "--- history, latest first"
	for i := len(l.steps) - 1; i >= 0; i-- {
		s += "\n" + l.steps[i]
	}
	return s
}

func (l *life) newID() string {
	switch {
	case l.p(50):
		return pick(l.G, sentences)
	case l.p(50):
		return pick(l.G, sentences) + " " + pick(l.G, sentences)
	}
	return l.text()
}

func (l *life) find(k string) *lmsg {
	for _, m := range l.msgs {
		if lkey(m.ctx, m.id) == k {
			return m
		}
	}
	return nil
}

func (l *life) use(m *lmsg) {
	if m.id == "" || l.find(lkey(m.ctx, m.id)) != nil {
		return
	}
	m.files = nil
	for i, n := 0, 1+l.Intn(5)/3; i < n; i++ {
		m.files = append(m.files, l.Intn(len(l.files)))
	}
	l.msgs = append(l.msgs, m)
}

func (l *life) fresh() *lmsg {
	m := &lmsg{id: l.newID()}
	if l.p(25) {
		m.ctx = pick(l.G, []string{"menu", "dialog", "ñ", "a\nb"})
	}
	if l.p(30) {
		m.plural = pick(l.G, []string{m.id + "s", "many", l.newID()})
		m.single = l.p(15)
	}
	return m
}

// develop changes the sources.
func (l *life) develop(n int) {
	for i := 0; i < n; i++ {
		switch k := l.Intn(10); {
		case k < 4 || len(l.msgs) == 0:
			l.use(l.fresh())
		case k < 5: // removed
			j := l.Intn(len(l.msgs))
			l.past = append(l.past, l.msgs[j])
			l.msgs = append(l.msgs[:j:j], l.msgs[j+1:]...)
		case k < 7: // back again
			if len(l.past) > 0 {
				for j := 0; j < 3; j++ { // most of them are there, under the same id
					m := *pick(l.G, l.past)
					l.use(&m)
				}
			}
		case k < 8: // slightly changed
			j := l.Intn(len(l.msgs))
			m := *l.msgs[j]
			l.past = append(l.past, l.msgs[j])
			l.msgs = append(l.msgs[:j:j], l.msgs[j+1:]...)
			if l.p(20) {
				m.ctx = pick(l.G, []string{"", "menus", "menu"})
			} else {
				m.id += pick(l.G, []string{"!", ".", " now", "?"})
			}
			l.use(&m)
		case k < 9: // moved
			j := l.Intn(len(l.msgs))
			m := l.msgs[j]
			l.msgs = append(l.msgs[:j:j], l.msgs[j+1:]...)
			l.use(m)
		default: // other plural
			j := l.Intn(len(l.msgs))
			m := *l.msgs[j]
			if m.plural != "" && l.p(50) {
				m.plural, m.single = "", false
			} else {
				m.plural = pick(l.G, []string{m.id + "s", "several", l.newID()})
			}
			l.msgs[j] = &m
		}
	}
	if l.p(30) {
		l.Shuffle(len(l.msgs), func(i, j int) { l.msgs[i], l.msgs[j] = l.msgs[j], l.msgs[i] })
	}
}

// sources writes the sources and remembers where the messages are.
func (l *life) sources() []string {
	l.locs = map[string][]string{}
	var texts []string
	for i, f := range l.files {
		s := &goSrc{G: l.G, line: 1, simple: true}
		s.w("package p\n\nimport \"" + gotextPath + "\"\n\nfunc f(n int) {\n")
		for _, m := range l.msgs {
			for _, x := range m.files {
				if x != i {
					continue
				}
				if l.p(20) {
					s.w("\n")
				}
				plural := m.plural != "" && !(m.single && l.p(50))
				if m.single && !plural { // and once with the plural
					l.call(s, m, false, f)
				}
				l.call(s, m, m.plural != "", f)
			}
		}
		s.w("}\n")
		texts = append(texts, s.b.String())
	}
	return texts
}

func (l *life) call(s *goSrc, m *lmsg, plural bool, file string) {
	s.w("\tgotext.Get")
	if plural {
		s.w("N")
	}
	domain := l.p(20)
	if domain {
		s.w("D")
	}
	if m.ctx != "" {
		s.w("C")
	}
	s.w("(")
	if domain {
		s.w("\"dom\", ")
	}
	k := lkey(m.ctx, m.id)
	l.locs[k] = append(l.locs[k], fmt.Sprintf("%s:%d", file, s.line))
	s.literal(m.id)
	if plural {
		s.w(", ")
		s.literal(m.plural)
		s.w(", n")
	}
	if m.ctx != "" {
		s.w(", ")
		s.literal(m.ctx)
	}
	s.w(")\n")
}

// extract gives the template.
func (l *life) extract() po.Entries {
	texts := l.sources()
	var t po.Entries
	how := ""
	if l.tools {
		for i, f := range l.files {
			must(os.MkdirAll(filepath.Dir(f), 0o755))
			must(os.WriteFile(f, []byte(texts[i]), 0o644))
		}
		how = "xgotext"
		args := append([]string{"-o", "messages.pot", "--force-po"}, l.files...)
		os.Remove("messages.pot")
		l.ok(l.run("", "xgotext", args...))
		l.byHand = false
		b, err := os.ReadFile("messages.pot")
		must(err)
		t = l.read(b)
	} else {
		var fs []*po.File
		clean := goparse.WithCleanDuplicates(true)
		if l.p(50) {
			how = "one parser"
			var names []string
			for i, f := range l.files {
				p := filepath.Join(l.Dir, "life", f)
				must(os.MkdirAll(filepath.Dir(p), 0o755))
				must(os.WriteFile(p, []byte(texts[i]), 0o644))
				names = append(names, f)
			}
			must(os.Chdir(filepath.Join(l.Dir, "life")))
			f, err := goparse.FromPaths(names, clean)
			must(os.Chdir(l.Dir))
			if err != nil {
				l.Fail("extract", "%v\n%s\n%s", err, strings.Join(texts, "\n"), l.history())
			}
			fs = append(fs, f)
		} else {
			how = "one parser per file"
			for i, f := range l.files {
				x, err := goparse.FromString(texts[i], f, clean)
				if err != nil {
					l.Fail("extract", "%v\n%s\n%s", err, texts[i], l.history())
				}
				fs = append(fs, x)
			}
		}
		for i, f := range fs {
			for _, e := range f.Entries {
				if !e.IsHeader() || i == 0 {
					t = append(t, e)
				}
			}
		}
		if len(fs) > 1 {
			t = t.CleanDuplicates()
		}
		if l.p(30) { // through a template file
			how += ", saved"
			t = l.read(compile.PoToBytes(t, compile.PoWithForcePo(true)))
		}
	}
	l.step("extracted (%s):\n%s", how, strings.Join(texts, "---\n"))
	ctx := func() string { return "--- template\n" + show(t) + l.history() }
	seen := map[string]bool{}
	headers := 0
	for _, e := range t {
		if e.IsHeader() {
			headers++
			continue
		}
		k := lkey(e.Context, e.ID)
		m := l.find(k)
		if m == nil || seen[k] {
			l.Fail("template-extra", "the template has %q, which the sources don't have (again)\n%s", k, ctx())
		}
		seen[k] = true
		if m.plural != e.Plural || translated(e) || isFuzzy(e) || e.Obsolete {
			l.Fail("template-message", "the template's message %q isn't that of the sources\n%s", k, ctx())
		}
		l.located(e, ctx)
	}
	if len(seen) != len(l.msgs) || headers != 1 {
		l.Fail("template-missing", "the template has %d of %d messages and %d headers\n%s", len(seen), len(l.msgs), headers, ctx())
	}
	return t
}

func (l *life) located(e po.Entry, ctx func() string) {
	var got []string
	for _, x := range e.Locations {
		got = append(got, fmt.Sprintf("%s:%d", x.File, x.Line))
	}
	want := append([]string(nil), l.locs[lkey(e.Context, e.ID)]...)
	sort.Strings(got)
	sort.Strings(want)
	if l.tools { // which gives every reference once
		for i := len(want) - 1; i > 0; i-- {
			if want[i] == want[i-1] {
				want = append(want[:i], want[i+1:]...)
			}
		}
	}
	if !eqStrs(got, want) {
		l.Fail("references", "references of %q: %q, want %q\n%s", uid(e), got, want, ctx())
	}
}

func (l *life) ok(r ran) {
	if r.status != 0 {
		l.Fail("tool-status", "%s\n%s", l.what(r), l.history())
	}
}

// read reads with the library and with the own reader.
func (l *life) read(b []byte) po.Entries {
	f, err := parse.PoFromBytes(b, "life.po")
	if err != nil {
		l.Fail("unreadable", "%v\n%s\n%s", err, b, l.history())
	}
	if l.byHand {
		return f.Entries
	}
	own, err := readPO(string(b), '~')
	if err != nil {
		l.Fail("unreadable", "own reader: %v\n%s\n%s", err, b, l.history())
	}
	for i := range own { // several references in a line
		var ls po.Locations
		for _, x := range own[i].Locations {
			fs := strings.Fields(x.File)
			for j, f := range fs {
				y := x
				if y.File = f; j < len(fs)-1 {
					k := strings.LastIndexByte(f, ':')
					y.File, y.Line = f[:k], 0
					fmt.Sscan(f[k+1:], &y.Line)
				}
				ls = append(ls, y)
			}
		}
		own[i].Locations = ls
	}
	if d := diffEntries(f.Entries, activeFirst(own)); d != "" {
		l.Fail("read-differs", "%s\n%s\n%s", d, b, l.history())
	}
	return f.Entries
}

// agree compares the catalogue with the model.
func (l *life) agree(after string) {
	ctx := func() string { return "after: " + after + "\n" + l.history() }
	seen := map[string]bool{}
	headers := 0
	for _, e := range l.cat {
		if e.IsHeader() {
			headers++
			if e.Str != l.header {
				l.Fail("header", "header %q, want %q\n%s", e.Str, l.header, ctx())
			}
			continue
		}
		k := lkey(e.Context, e.ID)
		w := l.model[k]
		if w == nil || seen[k] {
			l.Fail("extra", "message %q isn't expected (again)\n%s", k, ctx())
		}
		seen[k] = true
		if e.Obsolete != w.obsolete || isFuzzy(e) != w.fuzzy {
			l.Fail("state", "message %q: obsolete %v, fuzzy %v, want %v, %v\n%s", k, e.Obsolete, isFuzzy(e), w.obsolete, w.fuzzy, ctx())
		}
		if e.Plural != w.plural || isPlural(e) != w.kind {
			l.Fail("plural", "message %q: plural %q, want %q\n%s", k, e.Plural, w.plural, ctx())
		}
		if !eqStrs(forms(e), w.strs) {
			l.Fail("translation", "message %q: translation %q, want %q\n%s", k, forms(e), w.strs, ctx())
		}
		if !eqStrs(e.Comments, w.comments) {
			l.Fail("comments", "message %q: comments %q, want %q\n%s", k, e.Comments, w.comments, ctx())
		}
	}
	if headers != 1 {
		l.Fail("header", "%d headers\n%s", headers, ctx())
	}
	for k := range l.model {
		if !seen[k] {
			l.Fail("lost", "message %q is gone\n%s", k, ctx())
		}
	}
}

func (l *life) merge(t po.Entries, first bool) {
	cfg := po.MergeConfig{FuzzyMatch: l.p(50), KeepPreviousIDs: l.p(10), Sort: l.p(60), SortMode: po.SortMode(l.Intn(6))}
	var got po.Entries
	run := func(def po.Entries) po.Entries { return po.MergeWithConfig(cfg, cloneEntries(def), cloneEntries(t)) }
	if l.tools {
		cfg.KeepPreviousIDs = false
		l.store()
		var opts []string
		if !cfg.FuzzyMatch {
			opts = append(opts, "-N")
		}
		run = func(po.Entries) po.Entries {
			out := l.po
			args := append([]string{}, opts...)
			if l.p(60) {
				args = append(args, "-U")
			} else {
				out = "out.po"
				args = append(args, "-o", out, "--force-po")
				os.Remove(out)
			}
			l.ok(l.run("", "msgomerge", append(args, l.po, "messages.pot")...))
			l.byHand = l.byHand && out == l.po // perhaps there was nothing to do
			b, err := os.ReadFile(out)
			must(err)
			if out != l.po {
				must(os.Rename(out, l.po))
			}
			return l.read(b)
		}
	}
	got = run(l.cat)
	l.step("merged (fuzzy matching %v, previous %v)", cfg.FuzzyMatch, cfg.KeepPreviousIDs)
	old := l.cat
	l.cat = got
	ctx := func() string { return "--- before the merge\n" + show(old) + l.history() }
	at := byKey(got)
	next := map[string]*work{}
	gave := map[string]bool{} // translations that were passed on
	// The messages of the sources.
	for _, m := range l.msgs {
		k := lkey(m.ctx, m.id)
		e := at[uid(po.Entry{ID: m.id, Context: m.ctx})]
		if e == nil || e.Obsolete {
			l.Fail("missing", "message %q of the sources isn't there\n%s", k, ctx())
		}
		w := &work{id: m.id, ctx: m.ctx, plural: m.plural, kind: m.plural != ""}
		next[k] = w
		l.located(*e, ctx)
		o := l.model[k]
		if o != nil {
			l.Ev("kept")
			if o.obsolete {
				l.Ev("back")
			}
			w.strs, w.fuzzy, w.comments = o.strs, o.fuzzy, o.comments
			if o.plural != m.plural {
				l.Ev("plural-changed")
				if o.kind != w.kind && len(w.strs) > 1 {
					w.strs = w.strs[:1]
				}
				for len(w.strs) > 0 && w.strs[len(w.strs)-1] == "" {
					w.strs = w.strs[:len(w.strs)-1]
				}
				w.fuzzy = w.fuzzy || len(w.strs) > 0
			}
			continue
		}
		l.Ev("new")
		got := forms(*e)
		if len(got) == 0 && !isFuzzy(*e) {
			w.comments = e.Comments // a removed message without translation can be taken for it
			if len(e.Comments) > 0 && !cfg.FuzzyMatch {
				l.Fail("comments", "new message %q has comments\n%s", k, ctx())
			}
			continue
		}
		if !cfg.FuzzyMatch {
			l.Fail("invented", "new message %q has a translation\n%s", k, ctx())
		}
		if !isFuzzy(*e) {
			l.Fail("confirmed", "new message %q has a confirmed translation\n%s", k, ctx())
		}
		// From another message.
		ok := false
		for ok2, o := range l.model {
			s := o.strs
			if m := l.find(ok2); len(s) > 1 && (o.kind != w.kind || m != nil && o.kind != (m.plural != "")) {
				s = s[:1]
			}
			for len(s) > 0 && s[len(s)-1] == "" {
				s = s[:len(s)-1]
			}
			if eqStrs(s, got) {
				ok = true
				gave[ok2] = true
			}
			if len(s) > 1 && len(got) == 1 && got[0] == s[0] {
				// By way of a singular message that has it now.
				for _, m := range l.msgs {
					x := at[uid(po.Entry{ID: m.id, Context: m.ctx})]
					ok = ok || x != nil && m.plural == "" && x.Str == got[0] && isFuzzy(*x)
				}
			}
		}
		if !ok {
			l.Fail("invented", "new message %q has a translation %q that no message had\n%s", k, got, ctx())
		}
		l.Ev("passed-on")
		w.strs, w.fuzzy, w.comments = got, true, e.Comments
	}
	// The others.
	for k, o := range l.model {
		if next[k] != nil {
			continue
		}
		w := *o
		e := at[uid(po.Entry{ID: o.id, Context: o.ctx})]
		switch {
		case o.obsolete:
		case e == nil && cfg.FuzzyMatch && (gave[k] || !o.done()):
			continue
		case cfg.KeepPreviousIDs && !cfg.FuzzyMatch:
			w.fuzzy = true
		default:
			l.Ev("removed")
			w.obsolete = true
		}
		next[k] = &w
	}
	if first {
		for _, e := range t {
			if e.IsHeader() {
				l.header = e.Str
			}
		}
	}
	l.model = next
	l.agree("merge")
	if cfg.Sort && !l.tools && cfg.SortMode == po.SortByAll && !got.IsSortedFunc(po.CompareEntry) {
		l.Fail("unsorted", "the result isn't sorted\n%s", ctx())
	}
	if l.p(40) {
		if d := diffEntries(run(got), got); d != "" {
			l.Fail("again", "merging again: %s\n%s", d, ctx())
		}
		l.Ev("again")
	}
}

// store puts the catalogue into its file.
func (l *life) store() {
	must(os.WriteFile(l.po, l.write(), 0o644))
}

// write gives the text of the catalogue.
func (l *life) write() []byte {
	l.byHand = l.p(30)
	for _, e := range l.cat {
		if e.Plural != "" && len(e.Plurals) == 0 { // somebody has to write the forms
			l.byHand = false
		}
	}
	if l.byHand {
		l.Ev("hand")
		return []byte(l.layout().write(l.cat))
	}
	var opts []compile.PoOption
	if l.p(30) {
		opts = append(opts, compile.PoWithWordWrap(true))
	}
	return compile.PoToBytes(l.cat, append(opts, compile.PoWithForcePo(true))...)
}

// translate lets the translator work.
func (l *life) translate() {
	rate := pick(l.G, []int{10, 50, 90})
	for i := range l.cat {
		e := &l.cat[i]
		if e.IsHeader() && l.p(40) {
			if !strings.Contains(l.header, "Plural-Forms:") {
				l.forms = 1 + l.Intn(6)
				l.header += fmt.Sprintf("Plural-Forms: nplurals=%d; plural=n%%%d;\n", l.forms, l.forms)
			}
			l.header = strings.ReplaceAll(l.header, "=CHARSET", "=UTF-8")
			e.Str, e.Flags = l.header, nil
		}
		if e.IsHeader() || e.Obsolete || !l.p(rate) {
			continue
		}
		w := l.model[lkey(e.Context, e.ID)]
		fill := func() {
			if w.kind && len(e.Plurals) > 0 && l.p(40) { // in place
				l.Ev("in-place")
				for j := range e.Plurals {
					e.Plurals[j].Str = l.text()
				}
			} else if w.kind {
				e.Plurals = nil
				for j := 0; j < l.forms; j++ {
					p := po.PluralEntry{ID: j}
					if !l.p(10) {
						p.Str = l.text()
					}
					e.Plurals = append(e.Plurals, p)
				}
			} else {
				e.Str = l.text()
			}
			w.strs = forms(*e)
		}
		switch k := l.Intn(10); {
		case k < 6 && !w.done(), k < 2:
			fill()
			w.fuzzy = false
		case k < 5: // confirmed
			w.fuzzy = false
		case k < 6: // in doubt
			w.fuzzy = w.done()
		case k < 7:
			e.Comments = l.lines(func() string { return pick(l.G, []string{"ask", "two words", "ñ", "TODO: \"x\""}) }, 3)
			w.comments = e.Comments
			continue
		default:
			continue
		}
		var flags []string
		for _, f := range e.Flags {
			if f != "fuzzy" {
				flags = append(flags, f)
			}
		}
		e.Flags = flags
		if w.fuzzy {
			e.Flags = append(e.Flags, "fuzzy")
		}
	}
	l.step("translated:\n%s", show(l.cat))
}

// edit changes the catalogue as a program would.
func (l *life) edit() {
	f := &po.File{Name: "es.po", Entries: l.cat}
	for k, w := range l.model {
		if !l.p(20) {
			continue
		}
		i := f.Entries.Index(w.id, w.ctx)
		if i < 0 || f.Entries[i].ID != w.id || f.Entries[i].Context != w.ctx {
			l.Fail("index", "%q is found at %d\n%s", k, i, l.history())
		}
		if got := f.Load(w.id, w.ctx); got != f.Entries[i].Str {
			l.Fail("load", "%q is loaded as %q\n%s", k, got, l.history())
		}
		e := cloneEntry(f.Entries[i])
		if w.kind {
			e.Plurals = nil
			for j := 0; j < l.forms; j++ {
				e.Plurals = append(e.Plurals, po.PluralEntry{ID: j, Str: fmt.Sprint("form ", j)})
			}
		} else {
			e.Str = l.text()
		}
		w.strs = forms(e)
		f.Set(w.id, w.ctx, e)
		l.Ev("set")
	}
	l.cat = f.Entries
	l.step("edited")
	l.agree("editing")
	if !l.p(30) {
		return
	}
	l.Ev("cleaned")
	obs, fuz := l.p(50), strings.Contains(l.header, "UTF-8") && l.p(50) // the header isn't fuzzy any more
	if obs {
		l.cat = l.cat.CleanObsoletes()
	}
	if fuz {
		l.cat = l.cat.CleanFuzzy()
	}
	for k, w := range l.model {
		if w.obsolete && obs || w.fuzzy && fuz {
			delete(l.model, k)
		}
	}
	l.step("cleaned: obsolete %v, fuzzy %v", obs, fuz)
	l.agree("cleaning")
}

// save writes the catalogue and reads it again.
func (l *life) save() {
	b := l.write()
	l.cat = l.read(b)
	l.byHand = false
	l.step("saved:\n%s", b)
	l.agree("saving")
}

// release compiles the catalogue and asks for all messages.
func (l *life) release() []byte {
	var b []byte
	if l.tools {
		l.store()
		l.ok(l.run("", "msgofmt", "-f", "-o", "x.mo", l.po))
		var err error
		b, err = os.ReadFile("x.mo")
		must(err)
	} else {
		var opts []compile.MoOption
		if l.p(30) {
			opts = append(opts, compile.MoWithEndianness(pick(l.G, []compile.Endianness{compile.BigEndian, compile.LittleEndian})))
		}
		b = compile.MoToBytes(l.cat, opts...)
	}
	l.step("compiled")
	m, err := readMO(b)
	if err != nil {
		l.Fail("mo", "%v\n%s", err, l.history())
	}
	n := 0
	for k, w := range l.model {
		key := w.id
		if w.ctx != "" {
			key = k
		}
		i := m.lookupBinary(key)
		h, err := m.lookupHash(key)
		if err != nil || h != i {
			l.Fail("mo-hash", "%q is found at %d and %d (%v)\n%s", key, i, h, err, l.history())
		}
		if w.obsolete || w.fuzzy || !w.done() {
			l.Ev("silent")
			if i >= 0 {
				l.Fail("mo-answer", "the compiled file answers %q for %q, which is obsolete, fuzzy or untranslated\n%s", m.trans[i], key, l.history())
			}
			continue
		}
		n++
		l.Ev("answers")
		if i < 0 {
			l.Fail("mo-silent", "the compiled file doesn't know %q\n%s", key, l.history())
		}
		got := strings.TrimRight(m.trans[i], "\x00")
		want := strings.Join(w.strs, "\x00")
		if got != want {
			l.Fail("mo-answer", "the compiled file answers %q for %q, want %q\n%s", got, key, want, l.history())
		}
	}
	if i := m.lookupBinary(""); i < 0 || m.trans[i] != l.header || len(m.orig) != n+1 {
		l.Fail("mo-header", "%d messages, want %d, or another header\n%s", len(m.orig), n+1, l.history())
	}
	return b
}

// restore takes the catalogue from the compiled file.
func (l *life) restore(b []byte) {
	l.Ev("restored")
	if l.tools {
		must(os.WriteFile("x.mo", b, 0o644))
		l.byHand = false
		l.ok(l.run("", "msgounfmt", "--force-po", "-o", "restored.po", "x.mo"))
		x, err := os.ReadFile("restored.po")
		must(err)
		must(os.Remove("restored.po"))
		l.cat = l.read(x)
	} else {
		f, err := parse.MoFromBytes(b, "x.mo")
		if err != nil {
			l.Fail("mo", "%v\n%s", err, l.history())
		}
		l.cat = cloneEntries(f.Entries)
	}
	l.step("restored from the compiled file")
	for k, w := range l.model {
		if w.obsolete || w.fuzzy || !w.done() {
			delete(l.model, k)
		}
		w.comments = nil
	}
	for i := range l.cat { // what it doesn't keep: the plural id is there, its kind too
		e := &l.cat[i]
		if w := l.model[lkey(e.Context, e.ID)]; w != nil && w.kind != isPlural(*e) {
			l.Fail("restored-kind", "%q is plural: %v\n%s", uid(*e), isPlural(*e), l.history())
		}
	}
	l.agree("restoring")
}

// concatenate splits the catalogue and puts it together again.
func (l *life) concatenate() {
	l.Ev("concatenated")
	n := 2 + l.Intn(2)
	parts := make([]po.Entries, n)
	for _, e := range l.cat {
		i := l.Intn(n)
		if e.IsHeader() {
			i = 0
		}
		parts[i] = append(parts[i], e)
		if l.p(10) && !e.IsHeader() { // also in another file
			if j := l.Intn(n); j != i {
				parts[j] = append(parts[j], cloneEntry(e))
			}
		}
	}
	first := l.p(50)
	if l.tools {
		l.byHand = false
		var names []string
		for i, p := range parts {
			names = append(names, fmt.Sprintf("part%d.po", i))
			must(os.WriteFile(names[i], []byte(l.doc(p)), 0o644))
		}
		args := []string{"-o", "all.po"}
		if first {
			args = append(args, "--use-first")
		}
		os.Remove("all.po")
		l.ok(l.run("", "msgocat", append(args, names...)...))
		b, err := os.ReadFile("all.po")
		must(err)
		l.cat = l.read(b)
	} else {
		var fs []*po.File
		for i, p := range parts {
			fs = append(fs, &po.File{Name: fmt.Sprintf("part%d.po", i), Entries: p})
		}
		l.cat = po.MsgcatMergeFiles(fs, po.MsgcatMergeWithUseFirst(first))
	}
	l.step("split into %d files and concatenated, use first: %v", n, first)
	for i := range l.cat { // comments of all definitions
		e := &l.cat[i]
		if w := l.model[lkey(e.Context, e.ID)]; w != nil && len(e.Comments) > len(w.comments) && !first {
			if len(e.Comments)%max(1, len(w.comments)) != 0 {
				l.Fail("comments", "%q: %q, want those of the definitions, %q\n%s", uid(*e), e.Comments, w.comments, l.history())
			}
			w.comments = e.Comments
		}
	}
	l.agree("concatenating")
}

// gnu passes the catalogue through GNU msgcat.
func (l *life) gnu() {
	if !strings.Contains(l.header, "UTF-8") {
		return
	}
	for _, w := range l.model { // what GNU represents in another way
		for _, f := range w.comments {
			if strings.TrimSpace(f) != f || f == "" {
				return
			}
		}
		if w.kind && len(w.strs) > 0 && w.strs[0] == "" || w.kind != (w.plural != "") {
			return
		}
	}
	l.Ev("gnu")
	b := compile.PoToBytes(l.cat, compile.PoWithForcePo(true))
	out, errOut, st := runTool(l.Dir, string(b), []string{"LC_ALL=C.UTF-8"}, gnuTool("msgcat"), "--force-po", "-")
	if st != 0 {
		l.Fail("gnu-rejects", "msgcat: %s\n%s\n%s", errOut, b, l.history())
	}
	l.cat = l.read([]byte(out))
	for k, w := range l.model { // which it drops, and their flag
		w.fuzzy = w.fuzzy && w.done()
		if w.obsolete && !w.done() {
			delete(l.model, k)
		}
	}
	l.step("through msgcat:\n%s", out)
	l.agree("msgcat")
}

func runC38(t *T) {
	l := &life{model: map[string]*work{}, po: "po/es.po", forms: 2}
	l.tools = t.Case%12 == 0 && os.Getenv("VMON_BIN") != ""
	if l.tools {
		t.Ev("tools")
		l.cli = t.cli()
		defer l.done()
		must(os.MkdirAll("po", 0o755))
	} else {
		l.cli = &cli{T: t}
	}
	l.files = []string{"main.go", "cmd/a.go", "x.go"}[:1+t.Intn(3)]
	rounds := 2 + t.Intn(4)
	if l.tools {
		rounds = 2 + t.Intn(2)
	}
	t.Note("%s", "life")
	l.develop(3 + t.Intn(8) + min(t.count(0, 9), 300))
	for r := 0; r < rounds; r++ {
		t.Ev("rounds")
		tmpl := l.extract()
		first := l.cat == nil
		if first && t.p(70) { // msginit
			l.cat = cloneEntries(tmpl)
			for _, m := range l.msgs {
				l.model[lkey(m.ctx, m.id)] = &work{id: m.id, ctx: m.ctx, plural: m.plural, kind: m.plural != ""}
			}
			for _, e := range tmpl {
				if e.IsHeader() {
					l.header = e.Str
				}
			}
			l.step("copied")
			l.agree("copying")
		} else {
			if l.tools && first {
				must(os.WriteFile(l.po, nil, 0o644))
			}
			l.merge(tmpl, first)
		}
		if t.p(70) {
			l.save()
		}
		l.translate()
		if t.p(80) {
			l.save()
		}
		switch k := t.Intn(20); {
		case k < 3:
			l.concatenate()
		case k < 5:
			l.edit()
		case k < 6:
			l.cat = l.cat.Sort()
			l.step("sorted")
			l.agree("sorting")
		case k < 7:
			l.cat = l.cat.Solve()
			l.step("solved")
			l.agree("solving")
		case k < 8 && t.p(30):
			l.gnu()
		}
		if t.p(70) {
			b := l.release()
			if t.p(12) {
				l.restore(b)
			}
		}
		l.develop(t.Intn(6))
	}
	if rounds > 1 {
		t.Sig(strings.Join(l.steps, "\n"))
	}
	t.Sample(l.history)
}
