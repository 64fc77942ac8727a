package main

import (
	"errors"
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

func init() {
	register(&Check{
		ID:    "C10",
		Rule:  "random lists with many definitions per message, resolved, cleaned and filtered, compared with an independent model; non-trivial: at least one duplicate",
		Quick: 180000, Thorough: 2000000,
		Run:    runC10,
		Need:   map[string]int{"lists": 150000, "duplicates": 300000, "merger-calls": 150000, "filtered": 300000, "repeated-forms": 150000, "marked-obsolete": 54000, "prior-base": 12000},
		Assume: []string{"entries are singular or plural, not both; strings without NUL and EOT"},
	})
	register(&Check{
		ID:    "C11",
		Rule:  "random lists (up to some hundred elements) with many ties sorted by every sort; every comparator applied to random pairs and triples; non-trivial: list with at least two elements",
		Quick: 12000, Thorough: 400000,
		Run:  runC11,
		Need: map[string]int{"sorts": 100000, "ties": 100000, "pairs": 200000, "triples": 200000},
	})
	register(&Check{
		ID:    "C12",
		Rule:  "random files compared with deep copies, with aliases and with copies that differ in one field; non-trivial: at least one field was changed",
		Quick: 60000, Thorough: 2000000,
		Run:    runC12,
		Need:   map[string]int{"equal": 100000, "differ": 100000, "aliased": 20000, "entry-equal": 50000},
		Assume: []string{"strings without NUL and EOT, which separate the parts of a key"},
	})
	register(&Check{
		ID:    "C26",
		Rule:  "random sequences of operations on a file, compared with an independent ordered map after each; non-trivial: at least two operations",
		Quick: 100000, Thorough: 3000000,
		Run:    runC26,
		Need:   map[string]int{"set-new": 50000, "set-replace": 50000, "load-hit": 50000, "load-miss": 20000, "fuzzy-similar": 1000, "separators": 10000},
		Assume: []string{"strings without EOT, which separates context and id in a unified id, where unified ids are used; similarity is judged by an own edit distance (60%)"},
	})
	register(&Check{
		ID:    "C27",
		Rule:  "random lists with duplicates and entries both singular and plural, and random header configurations, validated and compared with an independent list of the defects; non-trivial: at least one defect",
		Quick: 240000, Thorough: 2000000,
		Run:  runC27,
		Need: map[string]int{"duplicates": 200000, "bad-plural": 80000, "clean": 12000, "configs": 200000, "rejected": 80000},
	})
}

var poolIDs = []string{"a", "b", "c", "dd", "", "a\nb"}
var poolCtxs = []string{"", "a", "x y", "ctx"}

// dupEntries is a list in which messages are defined several times.
func (t *T) dupEntries(max int) po.Entries {
	o := entryOpt{ids: poolIDs, ctxs: poolCtxs, maxForm: 3}
	n := t.count(t.Intn(max+1), 10)
	var es po.Entries
	for i := 0; i < n; i++ {
		e := t.entry(o)
		if t.p(25) {
			e.Flags = append(e.Flags, "fuzzy")
		}
		if t.p(20) && len(es) > 0 {
			e = cloneEntry(pick(t.G, es))
			if t.p(50) {
				e.Locations = t.locations(3)
			}
		}
		es = append(es, e)
	}
	return es
}

func isPlural(e po.Entry) bool { return e.Plural != "" || len(e.Plurals) > 0 }

func translated(e po.Entry) bool {
	if e.Str != "" {
		return true
	}
	for _, p := range e.Plurals {
		if p.Str != "" {
			return true
		}
	}
	return false
}

func isFuzzy(e po.Entry) bool {
	for _, f := range e.Flags {
		if f == "fuzzy" {
			return true
		}
	}
	return false
}

type group struct {
	key  string
	defs po.Entries
}

func groups(es po.Entries) []*group {
	var gs []*group
	m := map[string]*group{}
	for _, e := range es {
		k := fmt.Sprintf("%q %q", e.Context, e.ID)
		g := m[k]
		if g == nil {
			g = &group{key: k}
			m[k] = g
			gs = append(gs, g)
		}
		g.defs = append(g.defs, e)
	}
	return gs
}

// plain shows translations, in order.
func strs(e po.Entry) []string {
	if !isPlural(e) {
		if e.Str == "" {
			return nil
		}
		return []string{e.Str}
	}
	var s []string
	for _, p := range e.Plurals {
		if p.Str != "" {
			s = append(s, p.Str)
		}
	}
	if e.Str != "" {
		s = append(s, e.Str)
	}
	return s
}

func runC10(t *T) {
	es := t.dupEntries(2 + t.Case%14)
	orig := cloneEntries(es)
	gs := groups(es)
	t.Ev("lists")
	t.EvN("duplicates", len(es)-len(gs))
	ctx := func() string { return "--- list\n" + show(orig) }
	t.solvePlurals()
	if len(gs) < len(es) {
		t.Sig(ctx())
	}
	// Each operation gets its own copy.
	skeleton := func(name string, got po.Entries) {
		if len(got) != len(gs) {
			t.Fail(name+"-count", "%s: %d entries, want %d\n%s--- got\n%s", name, len(got), len(gs), ctx(), show(got))
		}
		for i, g := range gs {
			e := got[i]
			if e.ID != g.defs[0].ID || e.Context != g.defs[0].Context {
				t.Fail(name+"-position", "%s: entry %d is %q, want %s\n%s", name, i, uid(e), g.key, ctx())
			}
		}
	}
	common := func(name string, got po.Entries) {
		skeleton(name, got)
		for i, g := range gs {
			e := got[i]
			var ls po.Locations
			anyPlural := false
			for _, d := range g.defs {
				ls = append(ls, d.Locations...)
				anyPlural = anyPlural || isPlural(d)
			}
			if locs(ls) != locs(e.Locations) {
				t.Fail(name+"-locations", "%s: %s: %s, want %s\n%s", name, g.key, locs(e.Locations), locs(ls), ctx())
			}
			if anyPlural != isPlural(e) {
				t.Fail(name+"-plural", "%s: %s: plural %v, want %v\n%s", name, g.key, isPlural(e), anyPlural, ctx())
			}
			if len(g.defs) == 1 {
				if d := diffEntry(e, g.defs[0]); d != "" {
					t.Fail(name+"-single", "%s: %s: %s\n%s", name, g.key, d, ctx())
				}
			}
		}
	}

	got := cloneEntries(es).CleanDuplicates()
	common("CleanDuplicates", got)
	for i, g := range gs {
		want, e := cloneEntry(g.defs[0]), cloneEntry(got[i])
		want.Locations, e.Locations = nil, nil
		if !isPlural(want) && isPlural(e) {
			// It became plural: the translation is the first form.
			if want.Str != "" && (len(e.Plurals) == 0 || e.Plurals[0].ID != 0 || e.Plurals[0].Str != want.Str) {
				t.Fail("clean-plural-str", "%s: the translation isn't the first form: %q\n%s", g.key, e.Plurals, ctx())
			}
			if e.Str != "" {
				t.Fail("clean-both", "%s: singular and plural: %q %q\n%s", g.key, e.Str, e.Plurals, ctx())
			}
			var first *po.Entry
			for j := range g.defs {
				if isPlural(g.defs[j]) {
					first = &g.defs[j]
					break
				}
			}
			if e.Plural != first.Plural {
				t.Fail("clean-plural-id", "%s: plural id %q, want %q\n%s", g.key, e.Plural, first.Plural, ctx())
			}
			want.Str, want.Plural, want.Plurals = "", e.Plural, e.Plurals
		}
		if d := diffEntry(e, want); d != "" {
			t.Fail("clean-fields", "%s: %s\n%s", g.key, d, ctx())
		}
	}

	got = cloneEntries(es).Solve()
	common("Solve", got)
	for i, g := range gs {
		e := got[i]
		any := false
		known := map[string]bool{}
		for _, d := range g.defs {
			any = any || translated(d)
			for _, s := range strs(d) {
				known[s] = true
			}
		}
		if any && !translated(e) {
			t.Fail("solve-lost", "%s: no translation\n%s", g.key, ctx())
		}
		for _, s := range strs(e) {
			if !known[s] {
				t.Fail("solve-invented", "%s: translation %q of no definition\n%s", g.key, s, ctx())
			}
		}
		// The other fields are those of one of the definitions.
		ok := false
		for _, d := range g.defs {
			x, y := cloneEntry(e), cloneEntry(d)
			x.Str, x.Plural, x.Plurals, x.Locations = "", "", nil, nil
			y.Str, y.Plural, y.Plurals, y.Locations = "", "", nil, nil
			ok = ok || diffEntry(x, y) == ""
		}
		if !ok {
			t.Fail("solve-mixed", "%s: fields of no definition\n%s--- got\n%s", g.key, ctx(), show(po.Entries{e}))
		}
	}

	// A custom function: left to right, nil keeps the entry.
	type call struct{ a, b po.Entry }
	var calls []call
	mode := t.Intn(3)
	merger := func(a, b po.Entry) *po.Entry {
		calls = append(calls, call{cloneEntry(a), cloneEntry(b)})
		t.Ev("merger-calls")
		switch {
		case mode == 0, mode == 1 && len(calls)%2 == 0:
			return nil
		}
		a = cloneEntry(a)
		a.Comments = append(a.Comments, fmt.Sprintf("%d", len(calls)))
		return &a
	}
	got = cloneEntries(es).SolveFunc(merger)
	skeleton("SolveFunc", got)
	cur := map[string]po.Entry{}
	n := 0
	for _, e := range es {
		k := fmt.Sprintf("%q %q", e.Context, e.ID)
		old, ok := cur[k]
		if !ok {
			cur[k] = cloneEntry(e)
			continue
		}
		n++
		if n > len(calls) {
			t.Fail("solvefunc-calls", "%d calls, expected more\n%s", len(calls), ctx())
		}
		if d := diffEntry(calls[n-1].a, old); d != "" {
			t.Fail("solvefunc-first", "call %d: first argument: %s\n%s", n, d, ctx())
		}
		if d := diffEntry(calls[n-1].b, e); d != "" {
			t.Fail("solvefunc-second", "call %d: second argument: %s\n%s", n, d, ctx())
		}
		if mode == 0 || mode == 1 && n%2 == 0 {
			continue
		}
		old.Comments = append(append([]string(nil), old.Comments...), fmt.Sprintf("%d", n))
		cur[k] = old
	}
	if n != len(calls) {
		t.Fail("solvefunc-calls", "%d calls, want %d\n%s", len(calls), n, ctx())
	}
	for i, g := range gs {
		if d := diffEntry(got[i], cur[g.key]); d != "" {
			t.Fail("solvefunc-result", "%s: %s\n%s", g.key, d, ctx())
		}
	}

	// The ready-made resolution functions.
	if len(gs) > 0 {
		prior := t.dupEntries(4)
		var names []string
		for _, g := range gs {
			if t.p(50) {
				names = append(names, uid(g.defs[0]))
			}
		}
		in := func(e po.Entry) bool {
			for _, n := range names {
				if n == uid(e) {
					return true
				}
			}
			return false
		}
		got = cloneEntries(es).SolveFunc(po.MergeIfInPriorityList(names))
		skeleton("MergeIfInPriorityList", got)
		solved := cloneEntries(es).Solve()
		for i, g := range gs {
			want := g.defs[0]
			if in(want) {
				want = solved[i]
			}
			if d := diffEntry(got[i], want); d != "" {
				t.Fail("in-priority-list", "%s (listed: %v): %s\n%s", g.key, in(want), d, ctx())
			}
		}
		got = cloneEntries(es).SolveFunc(po.MergeAndMarkObsoleteIfNotPrioritized(names))
		skeleton("MergeAndMarkObsoleteIfNotPrioritized", got)
		for i, g := range gs {
			want := cloneEntry(g.defs[0])
			for _, d := range g.defs[1:] {
				want = *po.SolveMerge(want, cloneEntry(d))
				if !in(want) {
					want.Obsolete = true
					t.Ev("marked-obsolete")
				}
			}
			if d := diffEntry(got[i], want); d != "" {
				t.Fail("mark-obsolete", "%s (listed: %v): %s\n%s", g.key, in(want), d, ctx())
			}
		}
		got = cloneEntries(es).SolveFunc(po.MergeUsingPriorAsBase(prior))
		skeleton("MergeUsingPriorAsBase", got)
		for i, g := range gs {
			cur := cloneEntry(g.defs[0])
			for _, d := range g.defs[1:] {
				base := cur
				for _, p := range prior {
					if uid(p) == uid(cur) {
						base = p
						t.Ev("prior-base")
						break
					}
				}
				cur = *po.SolveMerge(cloneEntry(base), cloneEntry(d))
			}
			if d := diffEntry(got[i], cur); d != "" {
				t.Fail("prior-as-base", "%s: %s\n%s--- prior\n%s", g.key, d, ctx(), show(prior))
			}
		}
		got = cloneEntries(es).SolveFunc(po.MergeUsingPriorityOrFallback(prior))
		skeleton("MergeUsingPriorityOrFallback", got)
		for i, g := range gs {
			want := solved[i]
			if len(g.defs) > 1 {
				for _, p := range prior {
					if uid(p) == uid(want) {
						want = p
						break
					}
				}
			}
			if d := diffEntry(got[i], want); d != "" {
				t.Fail("priority-or-fallback", "%s: %s\n%s--- prior\n%s", g.key, d, ctx(), show(prior))
			}
		}
	}

	// Filters.
	for _, f := range []struct {
		name string
		op   func(po.Entries) po.Entries
		drop func(i int, e po.Entry) bool
	}{
		{"CleanFuzzy", po.Entries.CleanFuzzy, func(_ int, e po.Entry) bool { return isFuzzy(e) }},
		{"CleanObsoletes", po.Entries.CleanObsoletes, func(_ int, e po.Entry) bool { return e.Obsolete }},
		{"CleanEmpties", po.Entries.CleanEmpties, func(_ int, e po.Entry) bool { return e.ID == "" }},
		{"CutHeader", po.Entries.CutHeader, func(i int, e po.Entry) bool {
			if e.ID != "" || e.Context != "" {
				return false
			}
			for j := 0; j < i; j++ {
				if orig[j].ID == "" && orig[j].Context == "" {
					return false
				}
			}
			return true
		}},
	} {
		var want po.Entries
		for i, e := range orig {
			if !f.drop(i, e) {
				want = append(want, e)
			}
		}
		t.EvN("filtered", len(orig)-len(want))
		if d := diffEntries(f.op(cloneEntries(es)), want); d != "" {
			t.Fail(f.name, "%s: %s\n%s", f.name, d, ctx())
		}
	}
	t.Sample(ctx)
}

// Independent comparisons.

func sgn(n int) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

func cmpBool(a, b bool) int {
	switch {
	case a == b:
		return 0
	case b:
		return -1
	}
	return 1
}

func cmpInt(a, b int) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

func cmpFileOf(a, b po.Location) int {
	return strings.Compare(filepath.Clean(a.File), filepath.Clean(b.File))
}

func cmpLocs(a, b po.Locations, f func(a, b po.Location) int) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if c := f(a[i], b[i]); c != 0 {
			return c
		}
	}
	return cmpInt(len(a), len(b))
}

func cmpLoc(a, b po.Location) int {
	if c := cmpFileOf(a, b); c != 0 {
		return c
	}
	return cmpInt(a.Line, b.Line)
}

func isHeader(e po.Entry) bool { return e.ID == "" && e.Context == "" }

var refCmps = []struct {
	name  string
	got   func(a, b po.Entry) int
	want  func(a, b po.Entry) int
	modes []po.SortMode
}{
	{"CompareEntryByObsolete", po.CompareEntryByObsolete, func(a, b po.Entry) int { return cmpBool(a.Obsolete, b.Obsolete) }, []po.SortMode{po.SortByObsolete}},
	{"CompareEntryByFuzzy", po.CompareEntryByFuzzy, refByFuzzy, []po.SortMode{po.SortByFuzzy}},
	{"CompareEntryByLocation", po.CompareEntryByLocation, func(a, b po.Entry) int { return cmpLocs(a.Locations, b.Locations, cmpLoc) }, nil},
	{"CompareEntryByFile", po.CompareEntryByFile, func(a, b po.Entry) int { return cmpLocs(a.Locations, b.Locations, cmpFileOf) }, []po.SortMode{po.SortByFile}},
	{"CompareEntryByLine", po.CompareEntryByLine, func(a, b po.Entry) int {
		return cmpLocs(a.Locations, b.Locations, func(a, b po.Location) int { return cmpInt(a.Line, b.Line) })
	}, []po.SortMode{po.SortByLine}},
	{"CompareEntryByID", po.CompareEntryByID, func(a, b po.Entry) int { return strings.Compare(uid(a), uid(b)) }, []po.SortMode{po.SortByID}},
	{"CompareEntry", po.CompareEntry, refByAll, []po.SortMode{po.SortByAll, 77, -1}},
	{"CompareEntryByStr", po.CompareEntryByStr, nil, nil},
}

func refByFuzzy(a, b po.Entry) int {
	if c := cmpBool(!isHeader(a), !isHeader(b)); c != 0 {
		return c
	}
	return cmpBool(isFuzzy(a), isFuzzy(b))
}

func refByAll(a, b po.Entry) int {
	if c := cmpBool(a.Obsolete, b.Obsolete); c != 0 {
		return c
	}
	if c := refByFuzzy(a, b); c != 0 {
		return c
	}
	if c := cmpLocs(a.Locations, b.Locations, cmpLoc); c != 0 {
		return c
	}
	return strings.Compare(uid(a), uid(b))
}

// checkSort: got is the stable sort of tagged elements in by cmp.
func checkSort[E any](t *T, name string, in, got []E, cmp func(a, b E) int, same func(a, b E) string) {
	t.Ev("sorts")
	if len(in) != len(got) {
		t.Fail("sort-length", "%s: %d elements, want %d", name, len(got), len(in))
	}
	idx := make([]int, len(in))
	for i := range idx {
		idx[i] = i
	}
	// Insertion sort by binary search would rely on the order; use a plain
	// stable insertion sort for short lists and the library otherwise.
	sort.SliceStable(idx, func(i, j int) bool { return cmp(in[idx[i]], in[idx[j]]) < 0 })
	for i := range got {
		if i > 0 && cmp(got[i-1], got[i]) == 0 {
			t.Ev("ties")
		}
		if d := same(got[i], in[idx[i]]); d != "" {
			why := "not the stable sort"
			if i > 0 && cmp(got[i-1], got[i]) > 0 {
				why = "not in order"
			}
			t.Fail("sort", "%s: %s: at %d of %d: %s", name, why, i, len(in), d)
		}
	}
}

func runC11(t *T) {
	n := []int{0, 1, 2, 3, 5, 8, 13, 20, 40, 100, 300}[t.Case%11]
	n = t.count(n, 12)
	var es po.Entries
	files := []string{"a.go", "b.go", "A.go", "B.go", "./a.go", "d/../b.go", "d/c.go", "d//c.go", "", "."}
	prefix := "" // of all texts
	if t.p(30) {
		prefix = strings.Repeat(pick(t.G, []string{"x", "xy", "é", "\x00"}), 1+t.Intn(pick(t.G, []int{8, 40, 300})))
		t.Ev("long-texts")
	}
	texts := func(l ...string) string { return prefix + pick(t.G, l) }
	loc := func() po.Location {
		l := po.Location{File: pick(t.G, files), Line: t.Intn(4) - 1}
		if prefix != "" {
			l.File = prefix + "/" + l.File
		}
		if t.p(5) {
			l.Line = pick(t.G, []int{1 << 62, -1 << 63, 1<<63 - 1, -1 << 62, 1 << 31, -1 << 31})
		}
		return l
	}
	plurals := func() po.PluralEntries {
		var ps po.PluralEntries
		for i, k := 0, t.Intn(4); i < k; i++ {
			p := po.PluralEntry{ID: t.Intn(3), Str: texts("", "a", "b", "ab")}
			if t.p(5) {
				p.ID = pick(t.G, []int{1 << 62, -1 << 63, 1<<63 - 1})
			}
			ps = append(ps, p)
		}
		return ps
	}
	for i := 0; i < n; i++ {
		e := po.Entry{ID: texts("a", "b", "B", "ab", "", "é"), Obsolete: t.p(30)}
		if t.p(40) {
			e.Context = texts("a", "c")
		}
		if t.p(40) {
			e.Plural, e.Plurals = texts("", "p", "q"), plurals()
		}
		if t.p(60) {
			e.Str = texts("", "a", "b", "ab")
		}
		if t.p(30) {
			e.Flags = []string{pick(t.G, []string{"fuzzy", "c-format", "Fuzzy"})}
		}
		if t.p(20) {
			e.Flags = append(e.Flags, "fuzzy")
		}
		for k := t.Intn(4); k > 0; k-- {
			e.Locations = append(e.Locations, loc())
		}
		e.Comments = []string{fmt.Sprint(i)} // identity
		es = append(es, e)
	}
	if n >= 2 {
		t.Sig(show(es))
	}
	t.Sample(func() string { return show(es) })

	for _, c := range refCmps {
		// The comparator as an order.
		for k := 0; k < 20 && n > 0; k++ {
			a, b, d := pick(t.G, es), pick(t.G, es), pick(t.G, es)
			ab := sgn(c.got(a, b))
			t.Ev("pairs")
			if c.want != nil && ab != c.want(a, b) {
				t.Fail("comparator", "%s: %d, want %d\n%s", c.name, ab, c.want(a, b), show(po.Entries{a, b}))
			}
			if c.got(a, a) != 0 {
				t.Fail("reflexive", "%s: %d\n%s", c.name, c.got(a, a), show(po.Entries{a}))
			}
			if sgn(c.got(b, a)) != -ab {
				t.Fail("antisymmetric", "%s: %d and %d\n%s", c.name, ab, c.got(b, a), show(po.Entries{a, b}))
			}
			bd, ad := sgn(c.got(b, d)), sgn(c.got(a, d))
			t.Ev("triples")
			if ab <= 0 && bd <= 0 && (ad > 0 || ad == 0 && ab+bd < 0) {
				t.Fail("transitive", "%s: %d %d but %d\n%s", c.name, ab, bd, ad, show(po.Entries{a, b, d}))
			}
		}
		want := c.want
		if want == nil {
			want = c.got
		}
		checkSort(t, "SortFunc "+c.name, es, cloneEntries(es).SortFunc(c.got), want, diffEntry)
		checkSort(t, "PrepareSorter "+c.name, es, cloneEntries(es).PrepareSorter(c.got)(), want, diffEntry)
		for _, m := range c.modes {
			checkSort(t, fmt.Sprintf("SortMethod %d", m), es, m.SortMethod(cloneEntries(es))(), want, diffEntry)
		}
		// Queries.
		q := cloneEntries(es)
		if t.p(50) {
			sort.SliceStable(q, func(i, j int) bool { return want(q[i], q[j]) < 0 })
			if n > 1 && t.p(30) {
				i, j := t.Intn(n), t.Intn(n)
				q[i], q[j] = q[j], q[i]
			}
		} else if n > 4 {
			q = q[:t.Intn(4)]
		}
		sorted := true
		for i := 1; i < len(q); i++ {
			sorted = sorted && want(q[i-1], q[i]) <= 0
		}
		if q.IsSortedFunc(c.got) != sorted {
			t.Fail("is-sorted", "IsSortedFunc %s: %v, want %v\n%s", c.name, !sorted, sorted, show(q))
		}
		if c.name == "CompareEntry" && q.IsSorted() != sorted {
			t.Fail("is-sorted", "IsSorted: %v, want %v\n%s", !sorted, sorted, show(q))
		}
		// Lists of entries.
		if n > 0 {
			x, y := es[:t.Intn(min(n, 4)+1)], es[t.Intn(n):]
			if t.p(50) {
				y = es[:t.Intn(min(n, 4)+1)]
			}
			w := 0
			for i := 0; i < len(x) && i < len(y) && w == 0; i++ {
				w = want(x[i], y[i])
			}
			if w == 0 {
				w = cmpInt(len(x), len(y))
			}
			if sgn(po.CompareEntriesFunc(x, y, c.got)) != sgn(w) {
				t.Fail("compare-lists", "CompareEntriesFunc %s: want %d\n%s---\n%s", c.name, w, show(x), show(y))
			}
		}
	}
	checkSort(t, "Sort", es, cloneEntries(es).Sort(), refByAll, diffEntry)

	// Locations.
	var ls po.Locations
	for i := 0; i < n; i++ {
		ls = append(ls, loc())
	}
	sameLoc := func(a, b po.Location) string {
		if a != b {
			return fmt.Sprintf("%q:%d != %q:%d", a.File, a.Line, b.File, b.Line)
		}
		return ""
	}
	cpL := func() po.Locations { return append(po.Locations(nil), ls...) }
	for _, c := range []struct {
		name      string
		got, want func(a, b po.Location) int
	}{
		{"CompareLocation", po.CompareLocation, cmpLoc},
		{"CompareLocationByFile", po.CompareLocationByFile, cmpFileOf},
		{"CompareLocationByLine", po.CompareLocationByLine, func(a, b po.Location) int { return cmpInt(a.Line, b.Line) }},
	} {
		for k := 0; k < 20 && n > 0; k++ {
			a, b := pick(t.G, ls), pick(t.G, ls)
			t.Ev("pairs")
			if sgn(c.got(a, b)) != c.want(a, b) {
				t.Fail("location-comparator", "%s(%v, %v) = %d", c.name, a, b, c.got(a, b))
			}
		}
		checkSort(t, "Locations.SortFunc "+c.name, ls, cpL().SortFunc(c.got), c.want, sameLoc)
		s := cpL()
		if t.p(50) {
			s = s.SortFunc(c.got)
		}
		sorted := true
		for i := 1; i < len(s); i++ {
			sorted = sorted && c.want(s[i-1], s[i]) <= 0
		}
		if s.IsSortedFunc(c.got) != sorted || c.name == "CompareLocation" && s.IsSorted() != sorted {
			t.Fail("location-is-sorted", "%s: want %v: %v", c.name, sorted, s)
		}
		if n > 0 {
			x, y := ls[:t.Intn(min(n, 3)+1)], ls[t.Intn(n):]
			if w := cmpLocs(x, y, c.want); sgn(po.CompareLocationsFunc(x, y, c.got)) != w {
				t.Fail("compare-lists", "CompareLocationsFunc %s: want %d\n%v\n%v", c.name, w, x, y)
			}
		}
	}
	checkSort(t, "Locations.Sort", ls, cpL().Sort(), cmpLoc, sameLoc)

	// Plural forms.
	var ps po.PluralEntries
	for len(ps) < n {
		ps = append(ps, plurals()...)
		if len(ps) == 0 {
			ps = append(ps, po.PluralEntry{})
		}
	}
	samePl := func(a, b po.PluralEntry) string {
		if a != b {
			return fmt.Sprintf("%d %q != %d %q", a.ID, a.Str, b.ID, b.Str)
		}
		return ""
	}
	cpP := func() po.PluralEntries { return append(po.PluralEntries(nil), ps...) }
	byID := func(a, b po.PluralEntry) int { return cmpInt(a.ID, b.ID) }
	byStr := func(a, b po.PluralEntry) int { return strings.Compare(a.Str, b.Str) }
	both := func(a, b po.PluralEntry) int {
		if c := byID(a, b); c != 0 {
			return c
		}
		return byStr(a, b)
	}
	for _, c := range []struct {
		name      string
		got, want func(a, b po.PluralEntry) int
	}{
		{"ComparePluralEntry", po.ComparePluralEntry, both},
		{"ComparePluralEntryByID", po.ComparePluralEntryByID, byID},
		{"ComparePluralEntryByStr", po.ComparePluralEntryByStr, byStr},
	} {
		for k := 0; k < 20 && n > 0; k++ {
			a, b := pick(t.G, ps), pick(t.G, ps)
			t.Ev("pairs")
			if sgn(c.got(a, b)) != c.want(a, b) {
				t.Fail("plural-comparator", "%s(%v, %v) = %d", c.name, a, b, c.got(a, b))
			}
		}
		checkSort(t, "PluralEntries.SortFunc "+c.name, ps, cpP().SortFunc(c.got), c.want, samePl)
		s := cpP()
		if t.p(50) {
			s = s.SortFunc(c.got)
		}
		// Lists of forms.
		if n := len(ps); n > 0 {
			x, y := ps[:t.Intn(min(n, 4)+1)], ps[t.Intn(n):]
			if t.p(50) {
				y = ps[:t.Intn(min(n, 4)+1)]
			}
			w := 0
			for i := 0; i < len(x) && i < len(y) && w == 0; i++ {
				w = c.want(x[i], y[i])
			}
			if w == 0 {
				w = cmpInt(len(x), len(y))
			}
			if sgn(po.ComparePluralEntriesFunc(x, y, c.got)) != sgn(w) {
				t.Fail("compare-lists", "ComparePluralEntriesFunc %s: want %d\n%v\n%v", c.name, w, x, y)
			}
		}
		sorted := true
		for i := 1; i < len(s); i++ {
			sorted = sorted && c.want(s[i-1], s[i]) <= 0
		}
		if s.IsSortedFunc(c.got) != sorted || c.name == "ComparePluralEntry" && s.IsSorted() != sorted {
			t.Fail("plural-is-sorted", "%s: want %v: %v", c.name, sorted, s)
		}
	}
	checkSort(t, "PluralEntries.Sort", ps, cpP().Sort(), both, samePl)
}

// solvePlurals judges the resolution of plural forms: it drops exact
// repetitions and keeps the order of the rest.
func (t *T) solvePlurals() {
	ids := pick(t.G, [][]int{{0, 1, 2}, {0, 1, 10, 11, 111}, {-1, 1, 0}, {1 << 40, 1 << 8, 0}})
	strs := pick(t.G, [][]string{{"", "1", "11", "x", "x1", "x11", "1x"}, {"-", "-1", "", "\x001", "a\x00", "a\x001", "a"}, {"a ", " a", "a", "A", "á"}})
	if t.scale == "forms" || t.scale == "messages" {
		for i := t.large(10); i > 0; i-- {
			ids = append(ids, i)
		}
	}
	var ps, want po.PluralEntries
	for i, n := 0, t.size(9)+2*(len(ids)-3); i < n; i++ {
		p := po.PluralEntry{ID: pick(t.G, ids), Str: pick(t.G, strs)}
		ps = append(ps, p)
		dup := false
		for _, q := range want {
			dup = dup || p == q
		}
		if !dup {
			want = append(want, p)
		}
	}
	t.EvN("repeated-forms", len(ps)-len(want))
	got := append(po.PluralEntries(nil), ps...).Solve()
	if len(got) != len(want) {
		t.Fail("plural-solve", "PluralEntries.Solve: %q, want %q", got, want)
	}
	for i := range want {
		if got[i] != want[i] {
			t.Fail("plural-solve", "PluralEntries.Solve: %q, want %q", got, want)
		}
	}
}

// mutate changes one field of an entry, returns its name ("" if nothing).
func (t *T) mutate(e *po.Entry) string {
	other := func(s string) string {
		switch t.Intn(5) {
		case 0:
			if s != "" {
				return ""
			}
		case 1:
			return s + " "
		case 2:
			if s != "" {
				return s[:len(s)-1]
			}
		case 3:
			if s != strings.ToUpper(s) {
				return strings.ToUpper(s)
			}
		}
		return s + "x"
	}
	list := func(l *[]string) {
		c := append([]string(nil), *l...)
		switch {
		case len(c) == 0 || t.p(25):
			c = append(c, pick(t.G, []string{"", "x"}))
		case t.p(30):
			c = c[:len(c)-1]
		case t.p(20) && len(c) > 1 && c[0] != c[1]:
			c[0], c[1] = c[1], c[0]
		default:
			i := t.Intn(len(c))
			c[i] = other(c[i])
		}
		*l = c
	}
	switch t.Intn(11) {
	case 0:
		e.ID = other(e.ID)
		return "ID"
	case 1:
		e.Context = other(e.Context)
		return "Context"
	case 2:
		e.Plural = other(e.Plural)
		return "Plural"
	case 3:
		e.Str = other(e.Str)
		return "Str"
	case 4:
		e.Obsolete = !e.Obsolete
		return "Obsolete"
	case 5:
		list(&e.Flags)
		return "Flags"
	case 6:
		list(&e.Comments)
		return "Comments"
	case 7:
		list(&e.ExtractedComments)
		return "ExtractedComments"
	case 8:
		list(&e.Previous)
		return "Previous"
	case 9:
		c := append(po.PluralEntries(nil), e.Plurals...)
		switch {
		case len(c) == 0 || t.p(20):
			c = append(c, po.PluralEntry{ID: len(c)})
		case t.p(20):
			c = c[:len(c)-1]
		case t.p(20):
			c[t.Intn(len(c))].ID += 1 + t.Intn(3)
		default:
			i := t.Intn(len(c))
			c[i].Str = other(c[i].Str)
		}
		e.Plurals = c
		return "Plurals"
	}
	c := append(po.Locations(nil), e.Locations...)
	switch {
	case len(c) == 0 || t.p(20):
		c = append(c, po.Location{})
	case t.p(20):
		c = c[:len(c)-1]
	case t.p(40):
		c[t.Intn(len(c))].Line += pick(t.G, []int{1, -1, 1 << 32})
	default:
		i := t.Intn(len(c))
		c[i].File = other(c[i].File)
	}
	e.Locations = c
	return "Locations"
}

func runC12(t *T) {
	var es po.Entries
	for n := t.count(t.Case%6, 11); n > 0; n-- {
		es = append(es, t.entry(entryOpt{}))
	}
	name := pick(t.G, []string{"", "a.po", "b"})
	ctx := func() string { return "--- entries\n" + show(es) }
	eq := func(what string, got, want bool) {
		if want {
			t.Ev("equal")
		} else {
			t.Ev("differ")
		}
		if got != want {
			t.Fail("equal", "%s: %v, want %v\n%s", what, got, want, ctx())
		}
	}
	f := po.File{Name: name, Entries: es}
	both := func(what string, a, b po.File, want bool) {
		eq("File.Equal "+what, a.Equal(b), want)
		eq("File.Equal swapped "+what, b.Equal(a), want)
		if a.Name == b.Name {
			eq("Entries.Equal "+what, a.Entries.Equal(b.Entries), want)
			eq("Entries.Equal swapped "+what, b.Entries.Equal(a.Entries), want)
		}
	}
	both("itself", f, f, true)
	cp := po.File{Name: name, Entries: cloneEntries(es)}
	both("copy", f, cp, true)
	// nil and empty.
	for i := range cp.Entries {
		e := &cp.Entries[i]
		for _, l := range []*[]string{&e.Flags, &e.Comments, &e.ExtractedComments, &e.Previous} {
			if len(*l) == 0 {
				*l = pick(t.G, [][]string{nil, {}, make([]string, 0, 3)})
			}
		}
		if len(e.Plurals) == 0 {
			e.Plurals = pick(t.G, []po.PluralEntries{nil, {}})
		}
		if len(e.Locations) == 0 {
			e.Locations = pick(t.G, []po.Locations{nil, {}})
		}
	}
	if len(cp.Entries) == 0 {
		cp.Entries = pick(t.G, []po.Entries{nil, {}})
	}
	both("copy with empty lists", f, cp, true)
	both("another name", f, po.File{Name: name + "x", Entries: cp.Entries}, false)
	both("longer", f, po.File{Name: name, Entries: append(cloneEntries(es), po.Entry{})}, false)
	if len(es) > 0 {
		both("shorter", f, po.File{Name: name, Entries: es[:len(es)-1]}, false)
		// One change, with the other entries and lists shared or copied.
		m := po.File{Name: name}
		i := t.Intn(len(es))
		if t.p(50) {
			m.Entries = append(po.Entries(nil), es...) // lists shared
			t.Ev("aliased")
		} else {
			m.Entries = cloneEntries(es)
		}
		what := t.mutate(&m.Entries[i])
		both(fmt.Sprintf("entry %d with another %s %s", i, what, show(m.Entries[i:i+1])), f, m, false)
		t.Sig(ctx(), what, i)

		// Lists that share their start.
		e := cloneEntry(es[i])
		e.Locations = append(e.Locations, po.Location{Line: 1, File: "x"}, po.Location{Line: 2, File: "y"})
		e2 := e
		e2.Locations = e.Locations[:len(e.Locations)-1]
		a, b := po.Entries{e}, po.Entries{e2}
		eq("shared start", a.Equal(b), false)
		eq("shared start swapped", b.Equal(a), false)
		eq("Locations shared start", e.Locations.Equal(e2.Locations), false)
		eq("Locations itself", e.Locations.Equal(e.Locations), true)
		eq("overlapping entries", append(es[:i:i], e, e2)[i:i+1].Equal(append(es[:i:i], e, e2)[i+1:]), false)
		t.Ev("aliased")
	}
	// Elements.
	l := t.location()
	eq("Location", l.Equal(l), true)
	l2 := l
	if t.p(50) {
		l2.Line++
	} else {
		l2.File += "x"
	}
	eq("Location", l.Equal(l2), false)
	eq("Location", l2.Equal(l), false)
	p := po.PluralEntry{ID: t.Intn(3), Str: t.str()}
	q := p
	eq("PluralEntry", p.Equal(q), true)
	if t.p(50) {
		q.ID++
	} else {
		q.Str += "x"
	}
	eq("PluralEntry", p.Equal(q), false)
	eq("PluralEntries", po.PluralEntries{p}.Equal(po.PluralEntries{p}), true)
	eq("PluralEntries", po.PluralEntries{p}.Equal(po.PluralEntries{q}), false)
	eq("PluralEntries", po.PluralEntries{q}.Equal(po.PluralEntries{p}), false)
	eq("PluralEntries", po.PluralEntries{p, q}.Equal(po.PluralEntries{p}), false)
	eq("PluralEntries", po.PluralEntries{p}.Equal(po.PluralEntries{p, q}), false)
	eq("PluralEntries", po.PluralEntries(nil).Equal(po.PluralEntries{}), true)

	// Entry.Equal.
	for _, e := range es {
		c := cloneEntry(e)
		t.Ev("entry-equal")
		eq("Entry.Equal copy", e.Equal(c) && c.Equal(e), true)
		if t.p(20) {
			for i := len(c.Plurals) - 1; i > 0; i-- {
				j := t.Intn(i + 1)
				c.Plurals[i], c.Plurals[j] = c.Plurals[j], c.Plurals[i]
			}
		}
		// Anything else may change.
		c.Comments, c.ExtractedComments, c.Previous, c.Locations = t.lines(t.comment, 2), nil, t.lines(t.comment, 2), t.locations(2)
		eq("Entry.Equal with other comments", e.Equal(c) && c.Equal(e), true)
		m := cloneEntry(e)
		var what string
		for {
			what = t.mutate(&m)
			if what != "Comments" && what != "ExtractedComments" && what != "Previous" && what != "Locations" {
				break
			}
			m = cloneEntry(e)
		}
		if what == "Plurals" || what == "Str" {
			// The translations as a catalogue has them.
			if strings.Join(moStrs(e), "\x00") == strings.Join(moStrs(m), "\x00") || isPlural(e) != isPlural(m) || what == "Str" && isPlural(e) {
				continue
			}
		}
		t.Ev("entry-equal")
		if e.Equal(m) || m.Equal(e) {
			t.Fail("entry-equal", "Entry.Equal is true with another %s\n%s", what, show(po.Entries{e, m}))
		}
	}
	t.Sample(ctx)
}

// moStrs are the translations of an entry in the order of the form ids.
func moStrs(e po.Entry) []string {
	if len(e.Plurals) == 0 {
		return []string{e.Str}
	}
	ps := append(po.PluralEntries(nil), e.Plurals...)
	sort.SliceStable(ps, func(i, j int) bool { return ps[i].ID < ps[j].ID })
	var s []string
	for _, p := range ps {
		s = append(s, p.Str)
	}
	return s
}

func runC26(t *T) {
	if t.scale == "lines" || t.scale == "text" {
		t.scaleLeft = 0 // similarity ratios take quadratic memory
	}
	var model []po.Entry
	f := po.NewFile("f.po")
	if t.p(50) {
		es := t.dupEntries(6)
		model = cloneEntries(es)
		f = po.NewFile("f.po", es...)
	}
	find := func(id, ctx string) int {
		for i, e := range model {
			if e.ID == id && e.Context == ctx {
				return i
			}
		}
		return -1
	}
	var log []string
	ids := append([]string{"Open the file", "Open a file", "Open the files", "open the file "}, poolIDs...)
	// With the separator in ids, unified ids are ambiguous but the others aren't.
	eot := t.p(10)
	if eot {
		ids = append(ids, "a\x04a", "a\x04", "x y\x04b", "\x04a", "\x04")
	}
	o := entryOpt{ids: ids, ctxs: poolCtxs, maxForm: 3}
	n := t.count(t.Case%40, 10)
	if t.Case%500 == 499 {
		n = 400
	}
	ctx := func() string {
		return strings.Join(log, "\n") + "\n--- model\n" + show(model) + "--- file\n" + show(f.Entries)
	}
	key := func() (string, string) {
		if t.p(30) && len(model) > 0 {
			e := pick(t.G, model)
			return e.ID, e.Context
		}
		id, c := pick(t.G, ids), pick(t.G, poolCtxs)
		if t.p(20) {
			id, c = c, id
		}
		return id, c
	}
	for i := 0; i < n; i++ {
		id, c := key()
		k := find(id, c)
		switch t.Intn(5) {
		case 0, 1:
			e := t.entry(o)
			if t.p(90) {
				e.ID, e.Context = id, c
			}
			log = append(log, fmt.Sprintf("Set(%q, %q, %q)", id, c, uid(e)))
			f.Set(id, c, e)
			if k >= 0 {
				model[k] = cloneEntry(e)
				t.Ev("set-replace")
			} else {
				model = append(model, cloneEntry(e))
				t.Ev("set-new")
			}
		default:
			want := ""
			if k >= 0 {
				want = model[k].Str
				t.Ev("load-hit")
			} else {
				t.Ev("load-miss")
			}
			log = append(log, fmt.Sprintf("Load(%q, %q)", id, c))
			if got := f.Load(id, c); got != want {
				t.Fail("load", "Load(%q, %q) = %q, want %q\n%s", id, c, got, want, ctx())
			}
			u := uid(po.Entry{ID: id, Context: c})
			if got := f.LoadByUnifiedID(u); got != want && !eot {
				t.Fail("load-uid", "LoadByUnifiedID(%q) = %q, want %q\n%s", u, got, want, ctx())
			}
			if got := f.Index(id, c); got != k {
				t.Fail("index", "Index(%q, %q) = %d, want %d\n%s", id, c, got, k, ctx())
			}
			switch got := f.FuzzyFind(id, c); {
			case got < -1 || got >= len(model) || k >= 0 && got < 0:
				t.Fail("fuzzy-find", "FuzzyFind(%q, %q) = %d, but message %d is exactly that\n%s", id, c, got, k, ctx())
			case got >= 0 && got != k:
				t.Ev("fuzzy-similar")
				if m := model[got]; id != m.ID && similar(id, m.ID) < 60 || c != m.Context && similar(c, m.Context) < 60 {
					t.Fail("fuzzy-wrong", "FuzzyFind(%q, %q) = %d, which isn't similar\n%s", id, c, got, ctx())
				}
			}
			if eot {
				t.Ev("separators")
				continue
			}
			if got := f.IndexByUnifiedID(u); got != k {
				t.Fail("index-uid", "IndexByUnifiedID(%q) = %d, want %d\n%s", u, got, k, ctx())
			}
			if got := f.ContainsUnifiedID(u); got != (k >= 0) {
				t.Fail("contains-uid", "ContainsUnifiedID(%q) = %v\n%s", u, got, ctx())
			}
			var seen int
			is := func(e po.Entry) bool { seen++; return e.ID == id && e.Context == c }
			if got := f.IndexFunc(is); got != k {
				t.Fail("index-func", "IndexFunc = %d, want %d\n%s", got, k, ctx())
			}
			if got := f.ContainsFunc(is); got != (k >= 0) {
				t.Fail("contains-func", "ContainsFunc = %v\n%s", got, ctx())
			}
			if got := f.HasHeader(); got != (find("", "") >= 0) {
				t.Fail("has-header", "HasHeader = %v\n%s", got, ctx())
			}
		}
		if d := diffEntries(f.Entries, model); d != "" {
			t.Fail("state", "%s\n%s", d, ctx())
		}
		if f.Name != "f.po" {
			t.Fail("name", "%q\n%s", f.Name, ctx())
		}
	}
	if n >= 2 {
		t.Sig(log)
	}
	t.Sample(ctx)
}

func runC27(t *T) {
	es := t.dupEntries(t.Case % 12)
	for i := range es {
		if t.p(50) && es[i].Str == "" {
			es[i].Str = t.nstr()
		}
	}
	ctx := func() string { return "--- entries\n" + show(es) }
	type defect struct {
		kind       string
		index, org int
	}
	var dups, bad []defect
	first := map[string]int{}
	for i, e := range es {
		k := fmt.Sprintf("%q %q", e.Context, e.ID)
		if j, ok := first[k]; ok {
			dups = append(dups, defect{"duplicate", i, j})
		} else {
			first[k] = i
		}
		if e.Str != "" && len(e.Plurals) > 0 {
			bad = append(bad, defect{"plural", i, -1})
		}
	}
	t.EvN("duplicates", len(dups))
	t.EvN("bad-plural", len(bad))
	if len(dups)+len(bad) == 0 {
		t.Ev("clean")
	} else {
		t.Sig(ctx())
	}
	check := func(what string, errs []error, want []defect, file string) {
		var got []defect
		for _, err := range errs {
			if err == nil || err.Error() == "" {
				t.Fail("nil-error", "%s: %v\n%s", what, err, ctx())
			}
			var fe *po.InvalidFileError
			if errors.As(err, &fe) != (file != "") || fe != nil && fe.Filename != file {
				t.Fail("file-error", "%s: %v\n%s", what, err, ctx())
			}
			var at *po.InvalidEntryAtIndexError
			if !errors.As(err, &at) || at.Index < 0 || at.Index >= len(es) {
				t.Fail("no-position", "%s: no position: %v\n%s", what, err, ctx())
			}
			var ie *po.InvalidEntryError
			if !errors.As(err, &ie) || ie.ID != uid(es[at.Index]) {
				t.Fail("wrong-id", "%s: %v at %d\n%s", what, err, at.Index, ctx())
			}
			var de *po.DuplicatedEntryError
			switch {
			case errors.As(err, &de):
				got = append(got, defect{"duplicate", at.Index, de.OriginalIndex})
			case errors.Is(err, po.ErrBadPluralEntry):
				got = append(got, defect{"plural", at.Index, -1})
			default:
				t.Fail("unknown-error", "%s: %v\n%s", what, err, ctx())
			}
		}
		order := func(d []defect) []defect {
			d = append([]defect(nil), d...)
			sort.Slice(d, func(i, j int) bool {
				return d[i].kind+fmt.Sprintf("%06d", d[i].index) < d[j].kind+fmt.Sprintf("%06d", d[j].index)
			})
			return d
		}
		if fmt.Sprint(order(got)) != fmt.Sprint(order(want)) {
			t.Fail("defects", "%s: %v, want %v\n%s", what, order(got), order(want), ctx())
		}
	}
	all := append(append([]defect(nil), dups...), bad...)
	check("Entries.Validate", es.Validate(), all, "")
	check("Entries.CatchDuplicateEntries", es.CatchDuplicateEntries(), dups, "")
	f := po.File{Name: "n.po", Entries: es}
	check("File.Validate", f.Validate(), all, "n.po")
	check("File.CatchDuplicateEntries", f.CatchDuplicateEntries(), dups, "n.po")
	if es.HasDuplicates() != (len(dups) > 0) {
		t.Fail("has-duplicates", "HasDuplicates = %v\n%s", len(dups) == 0, ctx())
	}
	if f.HasDuplicates() != (len(dups) > 0) {
		t.Fail("has-duplicates", "File.HasDuplicates\n%s", ctx())
	}
	for _, e := range es {
		errs := e.Validate()
		b := e.Str != "" && len(e.Plurals) > 0
		if (len(errs) == 1) != b || len(errs) > 1 || b && !errors.Is(errs[0], po.ErrBadPluralEntry) {
			t.Fail("entry-validate", "Entry.Validate: %v, want defect: %v\n%s", errs, b, ctx())
		}
	}

	// Header configurations.
	for k := 0; k < 3; k++ {
		cfg := po.HeaderConfig{
			Nplurals:                uint(pick(t.G, []int{0, 0, 1, 2, 6})),
			Plural:                  pick(t.G, []string{"", "", "0", "(n != 1)"}),
			MediaType:               pick(t.G, []string{"", "text/plain", "text/html", "TEXT/PLAIN", "text/plain "}),
			ContentTransferEncoding: pick(t.G, []string{"", "8bit", "7bit", "8BIT", "base64"}),
			Charset:                 pick(t.G, []string{"", "UTF-8", "ASCII", "ISO-8859-1", "UTF-7", "utf8", "CHARSET", "nope", "EUC-JP", "GB18030"}),
		}
		if t.p(30) {
			cfg = po.DefaultHeaderConfig()
		}
		want := 0
		if cfg.Plural != "" && cfg.Nplurals == 0 {
			want++
		}
		if cfg.Plural == "" && cfg.Nplurals != 0 {
			want++
		}
		if cfg.MediaType != "" && cfg.MediaType != "text/plain" {
			want++
		}
		if cfg.ContentTransferEncoding != "" && cfg.ContentTransferEncoding != "8bit" {
			want++
		}
		switch cfg.Charset {
		case "UTF-7", "utf8", "CHARSET", "nope":
			want++
		}
		t.Ev("configs")
		if want > 0 {
			t.Ev("rejected")
		}
		if got := cfg.Validate(); len(got) != want {
			t.Fail("config", "%v, want %d errors\n%#v", got, want, cfg)
		}
	}
	t.Sample(ctx)
}
