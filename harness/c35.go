package main

import (
	"math"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

func init() {
	register(&Check{
		ID:    "C35",
		Rule:  "the derived attributes and match ratios of random messages, of near copies of them and of hand made extremes, compared with definitions of their own; non-trivial: every list with two messages",
		Quick: 30000, Thorough: 400000,
		Run:    runC35,
		Need:   map[string]int{"messages": 90000, "pairs": 400000, "similar-pairs": 20000, "identical-pairs": 40000, "unlike-pairs": 30000, "equal-keys": 120000, "best": 60000, "best-ties": 12000, "best-later": 24000, "fuzzy": 18000, "plural": 18000, "header": 6000, "many-forms": 400},
		Assume: []string{"plural messages have a plural id", "an edit distance of one insertion or deletion of a character per step"},
	})
}

func average(l []float64) float64 {
	if len(l) == 0 {
		return 0
	}
	s := 0.0
	for _, x := range l {
		s += x
	}
	return s / float64(len(l))
}

// idRatio and strRatio are the documented match ratios.
func idRatio(a, b po.Entry) float64 {
	var l []float64
	if a.ID != "" || b.ID != "" {
		l = append(l, similar(a.ID, b.ID))
	}
	if a.Context != "" || b.Context != "" {
		l = append(l, similar(a.Context, b.Context))
	}
	if isPlural(a) && isPlural(b) {
		l = append(l, similar(a.Plural, b.Plural))
	}
	return average(l)
}

func strRatio(a, b po.Entry) float64 {
	var l []float64
	if a.Str != "" || b.Str != "" {
		l = append(l, similar(a.Str, b.Str))
	}
	for i := range a.Plurals {
		if i < len(b.Plurals) {
			l = append(l, similar(a.Plurals[i].Str, b.Plurals[i].Str))
		}
	}
	return average(l)
}

// attrEntry is a message with any attributes. Its texts aren't long, since
// comparing two of them takes memory in proportion to the product of their lengths.
func (t *T) attrEntry() po.Entry {
	e := t.anyEntry()
	cut := func(s *string) {
		if r := []rune(*s); len(r) > 300 {
			*s = string(r[:300])
		}
	}
	for _, s := range []*string{&e.ID, &e.Context, &e.Plural, &e.Str} {
		cut(s)
	}
	for i := range e.Plurals {
		cut(&e.Plurals[i].Str)
	}
	return e
}

func (t *T) anyEntry() po.Entry {
	e := t.entry(entryOpt{ids: poolIDs, ctxs: poolCtxs})
	if t.p(50) {
		e = t.entry(entryOpt{})
	}
	if t.p(5) {
		e = t.header()
	}
	if e.Plurals != nil && e.Plural == "" {
		e.Plural = pick(t.G, words)
	}
	if e.Plurals != nil && e.Plural == "" {
		e.Plural = "p"
	}
	// Just one of the five kinds of comments.
	if t.p(30) {
		x := cloneEntry(e)
		e.Flags, e.Comments, e.ExtractedComments, e.Previous, e.Locations = nil, nil, nil, nil, nil
		switch t.Intn(6) {
		case 0:
			e.Flags = x.Flags
		case 1:
			e.Comments = x.Comments
		case 2:
			e.ExtractedComments = x.ExtractedComments
		case 3:
			e.Previous = x.Previous
		case 4:
			e.Locations = x.Locations
		}
	}
	switch t.Intn(12) {
	case 0:
		e.Flags = append(e.Flags, "fuzzy")
	case 1:
		e.Flags = append([]string{"fuzzy"}, e.Flags...)
	case 2:
		e.Flags = []string{pick(t.G, []string{"Fuzzy", "fuzzy ", "not-fuzzy", "fuzzy,c-format", "", "fuzz"})}
	}
	if len(e.Plurals) > 1 && t.p(50) {
		t.Shuffle(len(e.Plurals), func(i, j int) { e.Plurals[i], e.Plurals[j] = e.Plurals[j], e.Plurals[i] })
	}
	return e
}

// nearCopy edits the texts of a message.
func (t *T) nearCopy(e po.Entry) po.Entry {
	e = cloneEntry(e)
	edit := func(s *string) {
		for n := t.Intn(4); n > 0; n-- {
			r := []rune(*s)
			i := t.Intn(len(r) + 1)
			switch {
			case t.p(40) || i == len(r):
				*s = string(r[:i]) + pick(t.G, []string{"a", "é", " ", "日"}) + string(r[i:])
			case t.p(50):
				*s = string(r[:i]) + string(r[i+1:])
			default:
				*s = string(r[:i]) + "z" + string(r[i+1:])
			}
		}
	}
	for _, s := range []*string{&e.ID, &e.Context, &e.Plural, &e.Str} {
		if *s != "" {
			edit(s)
		}
	}
	for i := range e.Plurals {
		edit(&e.Plurals[i].Str)
	}
	return e
}

func (t *T) checkAttributes(e po.Entry) {
	ctx := func() string { return show(po.Entries{e}) }
	is := func(name string, got, want any) {
		if got != want {
			t.Fail(name, "%s is %v, want %v\n%s", name, got, want, ctx())
		}
	}
	t.Ev("messages")
	u := uid(e)
	full := u
	if e.Plural != "" {
		full += "\x00" + e.Plural
	}
	pair := moPairOf(e)
	is("UnifiedID", e.UnifiedID(), u)
	is("FullUnifiedID", e.FullUnifiedID(), full)
	forms := map[int]bool{}
	for _, p := range e.Plurals {
		forms[p.ID] = true
	}
	if len(forms) == len(e.Plurals) {
		is("UnifiedStr", e.UnifiedStr(), pair.trans)
	}
	is("IsPlural", e.IsPlural(), isPlural(e))
	is("HasContext", e.HasContext(), e.Context != "")
	is("IsHeader", e.IsHeader(), e.ID == "" && e.Context == "")
	is("IsFuzzy", e.IsFuzzy(), isFuzzy(e))
	is("HasComments", e.HasComments(), len(e.Flags)+len(e.Comments)+len(e.ExtractedComments)+len(e.Previous)+len(e.Locations) > 0)
	// Hashes depend on the keys alone.
	is("Hash", e.Hash(), po.Entry{ID: e.ID, Context: e.Context}.FullHash())
	is("FullHash", e.FullHash(), po.Entry{ID: e.ID, Context: e.Context, Plural: e.Plural, Str: "x", Obsolete: true}.FullHash())
	if e.Context != "" {
		is("Hash with context", e.Hash(), po.Entry{ID: e.Context + "\x04" + e.ID}.Hash())
	}
	if e.Plural != "" {
		is("FullHash with plural", e.FullHash(), po.Entry{ID: full}.Hash())
	}
	if isFuzzy(e) {
		t.Ev("fuzzy")
	}
	if isPlural(e) {
		t.Ev("plural")
	}
	if e.ID == "" && e.Context == "" {
		t.Ev("header")
	}
	if len(e.Plurals) > 9 {
		t.Ev("many-forms")
	}
}

// unlike changes every character of a text to one that the list doesn't have.
func unlike(s string) string {
	return strings.Map(func(r rune) rune { return 0x100000 + r%0x1000 }, s)
}

// hasUnlike reports whether unlike messages may have something in common with it.
func hasUnlike(e po.Entry) bool {
	s := e.ID + e.Context + e.Plural + e.Str
	for _, p := range e.Plurals {
		s += p.Str
	}
	return strings.ContainsFunc(s, func(r rune) bool { return r >= 0x100000 })
}

func runC35(t *T) {
	var es po.Entries
	for i, n := 0, t.Intn(8); i < n; i++ {
		e := t.attrEntry()
		switch {
		case len(es) == 0:
		case t.p(25):
			e = cloneEntry(pick(t.G, es))
			t.mutate(&e)
		case t.p(40):
			e = t.nearCopy(pick(t.G, es))
		}
		es = append(es, e)
	}
	if len(es) > 1 {
		t.Sig(show(es))
	}
	ctx := func() string { return show(es) }
	t.Sample(ctx)
	t.Note("%s", ctx())
	var before po.Entries
	for _, e := range es {
		before = append(before, cloneEntry(e))
	}
	for _, e := range es {
		t.checkAttributes(e)
	}
	if got := es.HasHeader(); got != hasHeader(es) {
		t.Fail("HasHeader", "HasHeader is %v\n%s", got, ctx())
	}

	near := func(name string, got int, want float64, a, b po.Entry) {
		if got < 0 || got > 100 || math.Abs(float64(got)-want) > 1.6 {
			t.Fail(name, "%s is %d, want %.2f\n%s", name, got, want, show(po.Entries{a, b}))
		}
	}
	check := func(a, b po.Entry) (id, str int) {
		t.Ev("pairs")
		id, str = po.EntryIDMatchRatio(a, b), po.EntryStrMatchRatio(a, b)
		near("EntryIDMatchRatio", id, idRatio(a, b), a, b)
		near("EntryStrMatchRatio", str, strRatio(a, b), a, b)
		if x := po.EntryIDMatchRatio(b, a); x != id {
			t.Fail("id-symmetry", "%d and %d\n%s", id, x, show(po.Entries{a, b}))
		}
		if x := po.EntryStrMatchRatio(b, a); x != str {
			t.Fail("str-symmetry", "%d and %d\n%s", str, x, show(po.Entries{a, b}))
		}
		if uid(a) == uid(b) {
			t.Ev("equal-keys")
			if a.Hash() != b.Hash() {
				t.Fail("equal-hash", "the hashes of one key are %d and %d\n%s", a.Hash(), b.Hash(), show(po.Entries{a, b}))
			}
		}
		if id > 50 && id < 100 {
			t.Ev("similar-pairs")
		}
		return
	}
	for i, a := range es {
		for _, b := range es[i:] {
			check(a, b)
		}
		c := cloneEntry(a)
		t.Ev("identical-pairs")
		id, str := check(a, c)
		if id != 100 && a.ID+a.Context+a.Plural != "" && !(isPlural(a) && a.Plural == "") {
			t.Fail("identical-id", "%d for a copy\n%s", id, show(po.Entries{a}))
		}
		whole := a.Str != "" || len(a.Plurals) > 0
		for _, p := range a.Plurals {
			whole = whole && p.Str != ""
		}
		if str != 100 && whole {
			t.Fail("identical-str", "%d for a copy\n%s", str, show(po.Entries{a}))
		}
		if hasUnlike(a) {
			continue
		}
		c.ID, c.Context, c.Plural, c.Str = unlike(c.ID), unlike(c.Context), unlike(c.Plural), unlike(c.Str)
		for i := range c.Plurals {
			c.Plurals[i].Str = unlike(c.Plurals[i].Str)
		}
		t.Ev("unlike-pairs")
		if id, str := check(a, c); id != 0 || str != 0 {
			t.Fail("unlike", "%d and %d for unlike messages\n%s", id, str, show(po.Entries{a, c}))
		}
	}

	// The best match is the first one with the highest ratio.
	for i := 0; i < 2; i++ {
		x := t.attrEntry()
		if len(es) > 0 && t.p(60) {
			x = cloneEntry(pick(t.G, es))
			if t.p(30) {
				t.mutate(&x)
			} else if t.p(70) {
				x = t.nearCopy(x)
			}
		}
		for _, k := range []struct {
			name  string
			f     func(po.Entry) (int, int)
			ratio func(a, b po.Entry) int
		}{{"BestIDRatio", es.BestIDRatio, po.EntryIDMatchRatio}, {"BestStrRatio", es.BestStrRatio, po.EntryStrMatchRatio}} {
			t.Ev("best")
			best, high, ties := 0, 0, 0
			for i, e := range es {
				switch r := k.ratio(x, e); {
				case r > high:
					best, high, ties = i, r, 0
				case r == high && r > 0:
					ties++
				}
			}
			if ties > 0 {
				t.Ev("best-ties")
			}
			if best > 0 {
				t.Ev("best-later")
			}
			if i, r := k.f(x); i != best || r != high {
				t.Fail(k.name, "%s is message %d with %d, want %d with %d, for\n%s\nin\n%s", k.name, i, r, best, high, show(po.Entries{x}), ctx())
			}
		}
	}

	// Asking changes nothing.
	if was := show(before); was != ctx() {
		t.Fail("changed", "the messages were changed\n%s\nto\n%s", was, ctx())
	}
}
