package main

import (
	"fmt"
	"os"
	"path/filepath"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	register(&Check{
		ID:    "C23",
		Rule:  "xgotext processes that join random sources with random existing catalogues, repeatedly and with exclude files, whose messages are accounted for one by one; non-trivial: a catalogue with messages",
		Quick: 10000, Thorough: 200000,
		Run:  runC23,
		Need: map[string]int{"kept": 15000, "added": 15000, "referenced": 8000, "reactivated": 1500, "excluded": 1500, "headers": 3000, "again": 9000, "changed-sources": 1500},
		Assume: []string{
			"the library's extraction is judged by C18 and C19, its reader by C02",
			"existing messages are singular where they are extracted as plural and vice versa only in some cases, where their translation alone is followed",
		},
	})
	register(&Check{
		ID:    "C24",
		Rule:  "msgomerge processes that merge random catalogues, templates and compendiums into another file, in place and in place again; non-trivial: messages on both sides",
		Quick: 8000, Thorough: 150000,
		Run:  runC24,
		Need: map[string]int{"updates": 4500, "again": 4500, "compendium": 2500, "supplied": 1200, "not-replaced": 2000, "header": 3000},
		Assume: []string{
			"merging itself is judged by C08",
		},
	})
}

func hasLoc(l po.Locations, x po.Location) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

func runC23(t *T) {
	c := t.cli()
	defer c.done()
	c.joining()
}

func (c *cli) joining() {
	t := c.T
	var names []string
	for i, n := 0, 1+t.Intn(3); i < n; i++ {
		names = append(names, []string{"a.go", "cmd/b.go", "x y.go"}[i])
	}
	c.goPut(names...)
	var opts [][]string
	extract := func(all bool) po.Entries {
		f, err := goparse.FromPaths(names, goparse.WithNoHeader(true), goparse.WithCleanDuplicates(true), goparse.WithExtractAll(all))
		if err != nil {
			c.Fail("harness", "own sources aren't valid: %v\n%s", err, c.log.String())
		}
		return f.Entries
	}
	all := t.p(20)
	if all {
		opts = append(opts, c.on("extract-all", "a"))
	}
	extracted := extract(all)
	// The existing catalogue has some of the messages.
	var old po.Entries
	cat := c.catalogue(t.Intn(8))
	seen := map[string]bool{}
	add := func(e po.Entry) {
		if !seen[uid(e)] {
			seen[uid(e)] = true
			old = append(old, e)
		}
	}
	for _, e := range cat {
		add(e)
	}
	for _, x := range extracted {
		if !t.p(40) {
			continue
		}
		e := t.entry(entryOpt{maxForm: 3})
		e.ID, e.Context = x.ID, x.Context
		if !t.p(15) { // of the same kind
			if x.Plural == "" {
				e.Plural, e.Plurals = "", nil
			} else {
				e.Plural, e.Str = x.Plural, ""
				if len(e.Plurals) == 0 {
					e.Plurals = po.PluralEntries{{ID: 0, Str: t.text()}, {ID: 1, Str: t.text()}}
				}
			}
		}
		if t.p(30) {
			e.Locations = append(e.Locations, x.Locations[0])
		}
		add(e)
	}
	for i := range old { // the tool gives every reference once
		var l po.Locations
		for _, x := range old[i].Locations {
			if !hasLoc(l, x) {
				l = append(l, x)
			}
		}
		old[i].Locations = l
	}
	exists := !t.p(5)
	out := pick(t.G, []string{"cat.pot", "po/es.po", "messages.pot"})
	must(os.MkdirAll(filepath.Dir(out), 0o755))
	if exists {
		c.put(out, c.doc(old))
		// As it is read.
		f, err := parse.Po(out)
		must(err)
		old = f.Entries
	} else {
		old = nil
	}
	excluded := map[string]bool{}
	if t.p(30) {
		x := c.catalogue(t.Intn(4))
		for _, e := range extracted {
			if t.p(30) {
				x = append(x, po.Entry{ID: e.ID, Context: e.Context, Str: "x", Obsolete: t.p(20)})
			}
		}
		c.put("not.po", c.doc(x))
		opts = append(opts, c.valued("exclude-file", "x", "not.po"))
		for _, e := range x {
			excluded[uid(e)] = !e.IsHeader()
		}
	}
	opts = append(opts, c.on("join-existing", "j"))
	if out == "messages.pot" && t.p(50) {
		opts = append(opts, []string{"--output="})
	} else {
		opts = append(opts, c.valued("output", "o", out))
	}
	if t.p(20) {
		opts = append(opts, c.on("word-wrap", ""))
	}
	if t.p(10) {
		opts = append(opts, c.valued("lang", "l", "es"))
	}
	if t.p(10) {
		opts = append(opts, c.valued("nplurals", "", "3"))
	}
	args := c.line(opts, names)
	if len(old) > 0 {
		t.Sig(c.log.String())
	}
	join := func(old, extracted po.Entries, exists bool) po.Entries {
		before := c.snapshot()
		r := c.run("", "xgotext", args...)
		c.Sample(func() string { return r.cmd + "\n" + c.log.String() })
		ctx := func() string {
			b, _ := os.ReadFile(out)
			return fmt.Sprintf("%s\n--- before\n%s--- extracted\n%s--- result\n%s", c.what(r), show(old), show(extracted), b)
		}
		if r.status != 0 {
			c.Fail("status", "failed\n%s", ctx())
		}
		if r.out != "" {
			c.Fail("stdout", "something on standard output\n%s", ctx())
		}
		if d := changes(before, c.snapshot(), out); d != "" {
			c.Fail("other-files", "%s\n%s", d, ctx())
		}
		f, err := parse.Po(out, parse.PoWithCleanDuplicates(false))
		if err != nil {
			c.Fail("unreadable", "%v\n%s", err, ctx())
		}
		c.joined(old, extracted, f.Entries, excluded, exists, ctx)
		b, err := os.ReadFile(out)
		must(err)
		r = c.run("", "xgotext", args...)
		b2, err := os.ReadFile(out)
		must(err)
		if r.status != 0 || string(b) != string(b2) {
			c.Fail("again", "joined again: status %d\n--- first\n%s\n--- second\n%s\n%s", r.status, b, b2, ctx())
		}
		c.Ev("again")
		return f.Entries
	}
	res := join(old, extracted, exists)
	if t.p(25) { // other sources
		c.Ev("changed-sources")
		c.goPut(pick(t.G, names))
		join(res, extract(all), true)
	}
}

// joined accounts for the messages of a joined catalogue.
func (c *cli) joined(old, extracted, got po.Entries, excluded map[string]bool, exists bool, ctx func() string) {
	at := map[string]*po.Entry{}
	for i := range got {
		if at[uid(got[i])] != nil {
			c.Fail("twice", "%q is there twice\n%s", uid(got[i]), ctx())
		}
		at[uid(got[i])] = &got[i]
	}
	ex := map[string]po.Entry{}
	for _, e := range extracted {
		if !excluded[uid(e)] {
			ex[uid(e)] = e
		} else {
			c.Ev("excluded")
		}
	}
	hasHeader := false
	for _, e := range old {
		g := at[uid(e)]
		if g == nil {
			c.Fail("lost", "message %q of the existing catalogue is gone\n%s", uid(e), ctx())
		}
		want := cloneEntry(e)
		x, found := ex[uid(e)]
		if e.IsHeader() {
			hasHeader = true
			c.Ev("headers")
			found = false
		}
		if found {
			c.Ev("referenced")
			if e.Obsolete {
				c.Ev("reactivated")
			}
			want.Obsolete = false
			for _, l := range x.Locations {
				if !hasLoc(want.Locations, l) {
					want.Locations = append(want.Locations, l)
				}
			}
		} else {
			c.Ev("kept")
		}
		if found && (e.Plural != "") != (x.Plural != "") {
			// It's one or the other.
			c.Ev("other-kind")
			str := e.Str
			for _, p := range e.Plurals {
				if str == "" {
					str = p.Str
				}
			}
			gs := []string{g.Str}
			for _, p := range g.Plurals {
				gs = append(gs, p.Str)
			}
			ok := str == ""
			for _, s := range gs {
				ok = ok || s == str
			}
			if !ok {
				c.Fail("translation", "message %q lost its translation %q: %q\n%s", uid(e), str, gs, ctx())
			}
			want.Plural, want.Plurals, want.Str = g.Plural, g.Plurals, g.Str
		}
		// References may be in another order.
		for _, l := range want.Locations {
			if !hasLoc(g.Locations, l) {
				c.Fail("reference", "message %q lacks the reference %v\n%s", uid(e), l, ctx())
			}
		}
		if len(g.Locations) != len(want.Locations) {
			c.Fail("reference", "message %q has the references %s, want %s\n%s", uid(e), locs(g.Locations), locs(want.Locations), ctx())
		}
		want.Locations = g.Locations
		if d := diffEntry(*g, want); d != "" {
			c.Fail("changed", "message %q: %s\n%s", uid(e), d, ctx())
		}
		delete(at, uid(e))
		delete(ex, uid(e))
	}
	for u, x := range ex {
		g := at[u]
		if g == nil {
			c.Fail("missing", "extracted message %q isn't added\n%s", u, ctx())
		}
		c.Ev("added")
		want := x
		var l po.Locations
		for _, y := range x.Locations {
			if !hasLoc(l, y) {
				l = append(l, y)
			}
		}
		if len(l) == len(g.Locations) {
			want.Locations = l
		}
		g2 := *g
		g2.Plurals = nil
		for _, p := range g.Plurals {
			if p.Str != "" {
				g2.Plurals = g.Plurals
			}
		}
		if d := diffEntry(g2, want); d != "" {
			c.Fail("added", "added message %q: %s\n%s", u, d, ctx())
		}
		delete(at, u)
	}
	for u, g := range at {
		if g.IsHeader() && !hasHeader && len(at) == 1 {
			continue
		}
		c.Fail("extra", "message %q comes from nowhere\n%s", u, ctx())
	}
	if !hasHeader && !got.HasHeader() {
		c.Fail("header", "there is no header\n%s", ctx())
	}
}

func runC24(t *T) {
	c := t.cli()
	defer c.done()
	c.updating()
}

func (c *cli) updating() {
	t := c.T
	def := c.catalogue(t.Intn(10))
	ref := c.catalogue(t.Intn(10))
	for i := range def { // The first form is the one that is kept if a message becomes singular.
		if e := &def[i]; len(e.Plurals) > 0 && e.Plurals[0].Str == "" && translated(*e) {
			e.Plurals[0].Str = "x"
		}
	}
	for _, e := range def {
		if t.p(40) && !e.IsHeader() { // the same message
			e.Obsolete = false
			if t.p(50) {
				e.Str = ""
				for i := range e.Plurals {
					e.Plurals[i].Str = ""
				}
			}
			ref = append(ref, e)
		}
	}
	ref = ref.CleanDuplicates()
	names := c.names(2)
	dir := ""
	var opts [][]string
	if t.p(20) {
		dir = pick(t.G, []string{"d", "./d/e"})
		opts = append(opts, c.valued("directory", "D", dir))
	}
	defPath, refPath := filepath.Join(dir, names[0]), filepath.Join(dir, names[1])
	c.put(defPath, c.doc(def))
	c.put(refPath, c.doc(ref))
	c.decoy(dir, names...)
	read := func(p string) po.Entries {
		f, err := parse.Po(p)
		if err != nil {
			c.Fail("unreadable", "%s: %v\n%s", p, err, c.log.String())
		}
		return f.Entries
	}
	def, ref = read(defPath), read(refPath)
	var comps []po.Entries
	var compOpts [][]string
	for i := 0; t.p(50) && i < 3; i++ {
		es := c.catalogue(t.Intn(6))
		for _, e := range ref {
			if t.p(40) && !e.IsHeader() {
				if e.Plural != "" {
					e.Plurals = po.PluralEntries{{ID: 0, Str: t.text()}, {ID: 1, Str: t.text()}}
				} else {
					e.Str = t.text()
				}
				e.Flags = t.flags()
				e.Obsolete = t.p(10)
				es = append(es, e)
			}
		}
		es = es.CleanDuplicates()
		p := fmt.Sprintf("comp%d.po", i)
		c.put(filepath.Join(dir, p), c.doc(es))
		c.decoy(dir, p)
		comps = append(comps, read(filepath.Join(dir, p)))
		compOpts = append(compOpts, c.valued("compendium", "C", p))
	}
	nofuzzy := t.p(50)
	if nofuzzy {
		opts = append(opts, c.on("no-fuzzy-matching", "N"))
	}
	lang := ""
	if t.p(15) {
		lang = pick(t.G, []string{"es", "en"})
		opts = append(opts, c.valued("lang", "", lang))
	}
	if t.p(20) {
		opts = append(opts, c.on("no-wrap", ""))
	}
	plain := len(opts)
	if t.p(15) {
		opts = append(opts, pick(t.G, [][]string{{"--no-location"}, {"-n", "file"}, {"--add-location=never"}, {"--color=always"}}))
	}
	if len(def) > 0 && len(ref) > 0 {
		t.Sig(c.log.String())
	}
	run := func(opts [][]string, extra ...[]string) ran {
		o := append(append([][]string{}, opts...), extra...)
		comp := append([][]string{}, compOpts...) // whose order counts
		args := c.line(o, names)
		for _, x := range comp {
			args = append(args, x...)
		}
		r := c.run("", "msgomerge", args...)
		if r.status != 0 {
			c.Fail("status", "failed\n%s", c.what(r))
		}
		return r
	}
	// Into another file.
	before := c.snapshot()
	r := run(opts, c.valued("output-file", "o", "merged.out"))
	c.Sample(func() string { return r.cmd + "\n" + c.log.String() })
	if d := changes(before, c.snapshot(), "merged.out"); d != "" || r.out != "" {
		c.Fail("other-files", "%s\n%s", d, c.what(r))
	}
	want, err := os.ReadFile("merged.out")
	must(err)
	if plain == len(opts) {
		c.merged(def, ref, comps, read("merged.out"), nofuzzy, lang, func() string {
			return fmt.Sprintf("%s\n--- result\n%s", c.what(r), want)
		})
	}
	// In place, and again.
	before = c.snapshot()
	r = run(opts, c.on("update", "U"))
	c.Ev("updates")
	if r.out != "" {
		c.Fail("update-stdout", "an update writes to standard output\n%s", c.what(r))
	}
	got, err := os.ReadFile(defPath)
	must(err)
	if string(got) != string(want) {
		c.Fail("update", "the update isn't the merge\n%s\n--- got\n%s\n--- want\n%s", c.what(r), got, want)
	}
	abs, err := filepath.Abs(defPath)
	must(err)
	rel, err := filepath.Rel(c.dir, abs)
	must(err)
	if d := changes(before, c.snapshot(), rel); d != "" {
		c.Fail("other-files", "%s\n%s", d, c.what(r))
	}
	if plain != len(opts) {
		return // What it reads then isn't what it merged.
	}
	r = run(opts, c.on("update", "U"))
	c.Ev("again")
	got2, err := os.ReadFile(defPath)
	must(err)
	if string(got2) != string(got) {
		c.Fail("again", "updating again changes something\n%s\n--- first\n%s\n--- second\n%s", c.what(r), got, got2)
	}
}

// sameTranslation compares translations, but for empty forms at the end.
func sameTranslation(a, b po.Entry) bool {
	f := func(e po.Entry) (l []string) {
		l = append(l, e.Str)
		for _, p := range e.Plurals {
			l = append(l, p.Str)
		}
		for len(l) > 1 && l[len(l)-1] == "" {
			l = l[:len(l)-1]
		}
		return
	}
	return diffStrings("", f(a), f(b)) == ""
}

// merged checks headers and what the compendiums supply.
func (c *cli) merged(def, ref po.Entries, comps []po.Entries, got po.Entries, nofuzzy bool, lang string, ctx func() string) {
	find := func(es po.Entries, u string) *po.Entry {
		for i := range es {
			if uid(es[i]) == u {
				return &es[i]
			}
		}
		return nil
	}
	base := po.MergeWithConfig(po.MergeConfig{FuzzyMatch: !nofuzzy, Sort: true}, cloneEntries(def), cloneEntries(ref))
	hu := uid(po.Entry{})
	// The header.
	wh := find(def, hu)
	if wh == nil {
		wh = find(ref, hu)
	}
	gh := find(got, hu)
	if (wh == nil) != (gh == nil) {
		c.Fail("header", "header: %v, want %v\n%s", gh != nil, wh != nil, ctx())
	}
	if wh != nil {
		c.Ev("header")
		w := wh.Str
		if lang != "" {
			h := po.Entries{*wh}.HeaderFromIndex(0)
			h.Set("Language", lang)
			w = h.ToEntry().Str
		}
		if gh.Str != w {
			c.Fail("header", "header %q, want %q\n%s", gh.Str, w, ctx())
		}
	}
	// The messages.
	for _, e := range got {
		if find(base, uid(e)) == nil && find(def, uid(e)) == nil {
			c.Fail("added", "message %q isn't there without the compendiums\n%s", uid(e), ctx())
		}
	}
	for _, b := range base {
		g := find(got, uid(b))
		if g == nil {
			c.Fail("dropped", "message %q is there without the compendiums\n%s", uid(b), ctx())
		}
		if b.IsHeader() {
			continue
		}
		d := find(def, uid(b))
		r := find(ref, uid(b))
		// The first compendium that has it.
		var from *po.Entry
		for _, comp := range comps {
			c.Ev("compendium")
			if x := find(comp, uid(b)); from == nil && x != nil && !x.Obsolete && translated(*x) && r != nil && !r.Obsolete && x.IsPlural() == r.IsPlural() {
				from = x
			}
		}
		inRef := r != nil && !r.Obsolete
		switch {
		case inRef && d != nil && translated(*d):
			if !sameTranslation(*g, b) {
				c.Fail("replaced", "the translation of %q is replaced\n%s", uid(b), ctx())
			}
			if from != nil {
				c.Ev("not-replaced")
			}
		case inRef && from != nil && !translated(*r):
			c.Ev("supplied")
			if !sameTranslation(*g, *from) {
				c.Fail("not-supplied", "the compendium's translation of %q isn't used\n%s", uid(b), ctx())
			}
			if from.IsFuzzy() && !g.IsFuzzy() {
				c.Fail("not-fuzzy", "the compendium's translation of %q is fuzzy\n%s", uid(b), ctx())
			}
		case nofuzzy && (from == nil || !inRef):
			if d := diffEntry(*g, b); d != "" && (len(comps) > 0 || lang == "") {
				c.Fail("other", "message %q: %s\n%s", uid(b), d, ctx())
			}
		case !inRef:
			if !sameTranslation(*g, b) {
				c.Fail("unrelated", "the translation of %q, which the template lacks, changed\n%s", uid(b), ctx())
			}
		}
	}
}
