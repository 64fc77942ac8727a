package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

func init() {
	register(&Check{
		ID:    "C08",
		Rule:  "random catalogues merged with random references derived from them (messages kept, renamed, added, dropped, changed between singular and plural, obsolete, duplicated) under every configuration; non-trivial: catalogue and reference have messages",
		Quick: 150000, Thorough: 5000000,
		Run:    runC08,
		Need:   map[string]int{"matched": 80000, "dropped-obsolete": 15000, "renamed": 4000, "new": 30000, "changed-plural": 10000, "reactivated": 4000, "fuzzy-filled": 1000, "sorted": 20000, "kept-previous": 3000, "long-similar": 1000, "long-dissimilar": 1000, "defaults": 8000, "repeated-untranslated": 15000, "scale-messages>1000": 50},
		Assume: []string{"entries are singular or plural, not both; strings without NUL and EOT; similarity is judged by an own edit distance: above 75% must be used, below 35% must not"},
	})
	register(&Check{
		ID:    "C09",
		Rule:  "random lists of files with shared messages concatenated under every configuration, compared with the definitions of each message; non-trivial: a message with several definitions",
		Quick: 150000, Thorough: 5000000,
		Run:    runC09,
		Need:   map[string]int{"messages": 100000, "several-definitions": 40000, "conflicts": 10000, "agreements": 5000, "filtered": 20000, "first": 20000, "many-files": 3000, "hundreds-of-files": 100, "scale-messages>1000": 180},
		Assume: []string{"entries are singular or plural, not both; strings without NUL and EOT"},
	})
}

// similar is the ratio of common characters of two strings (percent).
func similar(a, b string) float64 {
	x, y := []rune(a), []rune(b)
	if len(x)+len(y) == 0 {
		return 0
	}
	row := make([]int, len(y)+1)
	for i := range x {
		diag := 0
		for j := range y {
			up := row[j+1]
			if x[i] == y[j] {
				row[j+1] = diag + 1
			} else if row[j] > up {
				row[j+1] = row[j]
			}
			diag = up
		}
	}
	return 200 * float64(row[len(y)]) / float64(len(x)+len(y))
}

// similarEntries are the least and the greatest reasonable similarity of two
// messages, with and without their plural ids.
func similarEntries(a, b po.Entry) (lo, hi float64) {
	var sum, n float64
	if a.ID != "" || b.ID != "" {
		sum, n = sum+similar(a.ID, b.ID), n+1
	}
	if a.Context != "" || b.Context != "" {
		sum, n = sum+similar(a.Context, b.Context), n+1
	}
	if n == 0 {
		return 0, 0
	}
	lo, hi = sum/n, sum/n
	if a.Plural != "" || b.Plural != "" || isPlural(a) || isPlural(b) {
		x := (sum + similar(a.Plural, b.Plural)) / (n + 1)
		lo, hi = math.Min(lo, x), math.Max(hi, x)
	}
	return lo, hi
}

func maySimilar(a, b po.Entry) float64 {
	_, hi := similarEntries(a, b)
	return hi
}

func mustSimilar(a, b po.Entry) float64 {
	lo, _ := similarEntries(a, b)
	return lo
}

var sentences = []string{
	"Open the file", "Open a file", "Open files", "Close the file", "Close file", "Save the document", "Save documents", "Delete this message?",
	"Hello world", "Hello, world!", "Goodbye world", "zzzz", "12345", "x", "日本語のメッセージ", "日本語のメッセージです", "Quit", "Quit now", "No such file or directory", "No such directory",
}

func (t *T) mergeInput() (def, ref po.Entries) {
	o := entryOpt{ids: sentences, ctxs: []string{"menu", "menus", "dialog"}, noObs: false, maxForm: 4}
	o.text = func() string {
		if t.p(20) {
			return t.str()
		}
		return pick(t.G, sentences)
	}
	// Only a few messages of a long list change, all pairs of them are compared.
	big := t.scale == "messages"
	rarely := func(p int) bool {
		if big {
			return t.Intn(1+len(def)) < 3
		}
		return t.p(p)
	}
	ndef, nref := t.Intn(9), t.Intn(5)
	if n := min(t.count(0, 11), 1300); n > 0 {
		if t.p(70) {
			ndef = n
		} else {
			nref = n
		}
	}
	for _, e := range t.entries(ndef, o) {
		if !e.IsHeader() {
			def = append(def, e)
		}
	}
	for i := range def { // no form at all yet
		if def[i].Plural != "" && t.p(8) {
			def[i].Plurals = nil
		}
	}
	header := func() po.Entry {
		h := t.header()
		if t.p(50) {
			h.Str = strings.Replace(h.Str, "nplurals=2; plural=(n != 1);", pick(t.G, []string{
				"nplurals=1; plural=0;", "nplurals=3; plural=(n%10==1 ? 0 : n%10>=2 ? 1 : 2);", "nplurals=4; plural=n%4;", "nplurals=6; plural=n%6;",
			}), 1)
		}
		return h
	}
	if t.p(50) {
		def = append(po.Entries{header()}, def...)
	}
	seen := map[string]bool{}
	add := func(e po.Entry) {
		if !seen[uid(e)] {
			seen[uid(e)] = true
			ref = append(ref, e)
		}
	}
	for _, e := range def {
		if e.IsHeader() || rarely(25) {
			continue
		}
		r := po.Entry{ID: e.ID, Context: e.Context, Plural: e.Plural, Locations: t.locations(3), ExtractedComments: t.lines(t.comment, 2)}
		r.Flags = t.flags()
		if t.p(10) {
			r.Comments = t.lines(t.comment, 2)
		}
		if r.Plural != "" && t.p(50) {
			r.Plurals = po.PluralEntries{{ID: 0}, {ID: 1}}
		}
		change := t.Intn(10)
		if change > 1 && big && !rarely(0) {
			change = 9
		}
		switch change {
		case 0:
			if r.Plural == "" && len(e.Plurals) == 0 {
				r.Plural = pick(t.G, sentences)
				if t.p(50) {
					r.Plurals = po.PluralEntries{{ID: 0}, {ID: 1}}
				}
			} else {
				r.Plural, r.Plurals = "", nil
			}
		case 1:
			if r.Plural != "" {
				r.Plural += "!"
			}
		case 2:
			r.ID += pick(t.G, []string{"!", "?", " now", "."})
		case 3:
			r.Context = pick(t.G, o.ctxs)
		case 4:
			if isPlural(r) {
				r.Plurals = po.PluralEntries{{ID: 0, Str: "ref"}, {ID: 1, Str: "refs"}}
			} else {
				r.Str = "ref"
			}
		case 5:
			if t.p(30) {
				r.Obsolete = true
			}
		}
		if r.IsHeader() {
			continue
		}
		add(r)
	}
	for _, e := range t.entries(nref, o) {
		if t.p(60) {
			e.Obsolete = false
		}
		if t.p(70) {
			e.Str = ""
			for i := range e.Plurals {
				e.Plurals[i].Str = ""
			}
		}
		if e.IsHeader() {
			continue
		}
		add(e)
	}
	if !big && t.p(4) { // long ids that only begin or only end alike
		text := func(letters string, n int) string {
			b := make([]byte, n)
			for i := range b {
				b[i] = letters[t.Intn(len(letters))]
			}
			return string(b)
		}
		n := 10 + t.Intn(1<<(3+t.Intn(6)))
		a, b := po.Entry{Str: t.nstr()}, po.Entry{}
		if common := text("klmnop ", n); t.p(50) {
			a.ID, b.ID = common+text("abcde ", 4*n), common+text("VWXYZ-", 4*n)
			t.Ev("long-dissimilar")
		} else {
			common += text("klmnop ", 5*n)
			a.ID, b.ID = text("abcde ", n)+common, text("VWXYZ-", n)+common
			t.Ev("long-similar")
		}
		if t.p(50) { // the same from behind
			reverse := func(s string) string {
				r := []byte(s)
				for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
					r[i], r[j] = r[j], r[i]
				}
				return string(r)
			}
			a.ID, b.ID = reverse(a.ID), reverse(b.ID)
		}
		def = append(def, a)
		add(b)
	}
	t.Shuffle(len(ref), func(i, j int) { ref[i], ref[j] = ref[j], ref[i] })
	if t.p(60) {
		ref = append(po.Entries{header()}, ref...)
	}
	return def, ref
}

func byKey(es po.Entries) map[string]*po.Entry {
	m := map[string]*po.Entry{}
	for i := range es {
		if k := uid(es[i]); m[k] == nil {
			m[k] = &es[i]
		}
	}
	return m
}

// nplurals reads the number of forms of a header independently.
func nplurals(h *po.Entry) int {
	if h == nil {
		return 2
	}
	for _, l := range strings.Split(h.Str, "\n") {
		if strings.HasPrefix(l, "Plural-Forms: nplurals=") {
			n := 0
			fmt.Sscanf(strings.TrimPrefix(l, "Plural-Forms: nplurals="), "%d", &n)
			return n
		}
	}
	return 2
}

func showStrs(e po.Entry) string {
	if !isPlural(e) {
		return fmt.Sprintf("%q", e.Str)
	}
	s := fmt.Sprintf("%q", e.Str)
	for _, p := range e.Plurals {
		s += fmt.Sprintf(" [%d]%q", p.ID, p.Str)
	}
	return s
}

// adapted tells whether m carries the translation of d.
func adapted(m, d po.Entry) string {
	switch {
	case isPlural(m) == isPlural(d):
		if m.Str != d.Str || showStrs(m) != showStrs(d) {
			return fmt.Sprintf("translation %s, want %s", showStrs(m), showStrs(d))
		}
	case isPlural(m):
		got := ""
		if len(m.Plurals) > 0 {
			got = m.Plurals[0].Str
		}
		if got != d.Str || m.Str != "" {
			return fmt.Sprintf("translation %s, want the form 0 %q", showStrs(m), d.Str)
		}
		for i, p := range m.Plurals {
			if i > 0 && p.Str != "" {
				return fmt.Sprintf("translation %s, want only %q", showStrs(m), d.Str)
			}
		}
	default:
		want := ""
		if len(d.Plurals) > 0 {
			want = d.Plurals[0].Str
		}
		if m.Str != want || len(m.Plurals) > 0 {
			return fmt.Sprintf("translation %s, want %q", showStrs(m), want)
		}
	}
	return ""
}

func withFuzzy(flags []string) []string {
	for _, f := range flags {
		if f == "fuzzy" {
			return flags
		}
	}
	return append(append([]string(nil), flags...), "fuzzy")
}

func runC08(t *T) {
	def, ref := t.mergeInput()
	cfg := po.MergeConfig{FuzzyMatch: t.p(50), KeepPreviousIDs: t.p(30), Sort: t.p(60), SortMode: pick(t.G, []po.SortMode{po.SortByAll, po.SortByID, po.SortByFile, po.SortByLine, po.SortByFuzzy, po.SortByObsolete})}
	dups := t.p(10)
	defIn, refIn := cloneEntries(def), cloneEntries(ref)
	if dups { // Repeated reference messages count once.
		for i := range ref {
			if t.p(30) && !ref[i].IsHeader() && !ref[i].Obsolete {
				d := cloneEntry(ref[i])
				d.Locations = po.Locations{{File: "dup.go", Line: 1 + t.Intn(9)}}
				refIn = append(refIn, d)
				ref[i].Locations = append(append(po.Locations(nil), ref[i].Locations...), d.Locations...)
			}
		}
	}
	if t.p(10) { // A definition without translation changes nothing.
		for _, e := range def {
			if !t.p(30) || e.IsHeader() {
				continue
			}
			d := cloneEntry(e)
			d.Str, d.Locations = "", nil
			for j := range d.Plurals {
				d.Plurals[j].Str = ""
			}
			t.Ev("repeated-untranslated")
			i := t.Intn(len(defIn) + 1)
			defIn = append(defIn[:i:i], append(po.Entries{d}, defIn[i:]...)...)
		}
	}
	var m po.Entries
	switch {
	case t.p(10): // the defaults, but for what is named
		var opts []po.MergeOption
		if t.p(50) {
			opts = append(opts, po.MergeWithFuzzyMatch(cfg.FuzzyMatch))
		} else {
			cfg.FuzzyMatch = true
		}
		if t.p(50) {
			opts = append(opts, po.MergeWithKeepPreviousIDs(cfg.KeepPreviousIDs))
		} else {
			cfg.KeepPreviousIDs = false
		}
		if t.p(50) {
			opts = append(opts, po.MergeWithSort(cfg.Sort))
		} else {
			cfg.Sort = true
		}
		if t.p(50) {
			opts = append(opts, po.MergeWithSortMode(cfg.SortMode))
		} else {
			cfg.SortMode = po.SortByAll
		}
		t.Ev("defaults")
		if t.p(50) {
			m = po.Merge(cloneEntries(defIn), cloneEntries(refIn), opts...)
			break
		}
		c := po.DefaultMergeConfig(opts[:len(opts)/2]...)
		c.ApplyOption(opts[len(opts)/2:]...)
		if c != cfg {
			t.Fail("defaults", "the configuration is %+v, want %+v", c, cfg)
		}
		m = po.MergeWithConfig(c, cloneEntries(defIn), cloneEntries(refIn))
	case t.p(40):
		m = po.MergeWithConfig(cfg, cloneEntries(defIn), cloneEntries(refIn))
	case t.p(30):
		m = po.Merge(cloneEntries(defIn), cloneEntries(refIn), po.MergeWithFuzzyMatch(!cfg.FuzzyMatch), po.MergeWithMergeConfig(cfg))
	default:
		m = po.Merge(cloneEntries(defIn), cloneEntries(refIn), po.MergeWithFuzzyMatch(cfg.FuzzyMatch), po.MergeWithKeepPreviousIDs(cfg.KeepPreviousIDs),
			po.MergeWithSort(cfg.Sort), po.MergeWithSortMode(cfg.SortMode))
	}
	ctx := func() string {
		return fmt.Sprintf("%+v\n--- catalogue\n%s--- reference\n%s--- result\n%s", cfg, show(defIn), show(refIn), show(m))
	}
	if len(def) > 1 && len(ref) > 1 {
		t.Sig(ctx())
	}
	t.Sample(ctx)
	M, D, R := byKey(m), byKey(def), byKey(ref)
	if len(M) != len(m) {
		t.Fail("duplicates", "a message is twice in the result\n%s", ctx())
	}
	taken := map[string]bool{} // result keys that are accounted for

	// The header.
	want := D[""]
	if want == nil {
		want = R[""]
	}
	switch h := M[""]; {
	case want == nil && h != nil:
		t.Fail("header-invented", "a header that nobody has\n%s", ctx())
	case want != nil && h == nil:
		t.Fail("header-lost", "no header\n%s", ctx())
	case want != nil:
		if d := diffEntry(*h, *want); d != "" {
			t.Fail("header-changed", "header: %s\n%s", d, ctx())
		}
		taken[""] = true
	}
	np := nplurals(want)

	// Messages of both.
	var newKeys []string
	for k, r := range R {
		if k == "" || r.Obsolete {
			continue
		}
		e := M[k]
		if e == nil {
			t.Fail("reference-lost", "%q isn't in the result\n%s", k, ctx())
		}
		taken[k] = true
		if e.Obsolete {
			t.Fail("reference-obsolete", "%q is obsolete\n%s", k, ctx())
		}
		if e.Plural != r.Plural {
			t.Fail("plural-id", "%q: plural id %q, want %q\n%s", k, e.Plural, r.Plural, ctx())
		}
		if locs(e.Locations) != locs(r.Locations) {
			t.Fail("references", "%q: %s, want %s\n%s", k, locs(e.Locations), locs(r.Locations), ctx())
		}
		if d := diffStrings("extracted", e.ExtractedComments, r.ExtractedComments); d != "" {
			t.Fail("extracted", "%q: %s\n%s", k, d, ctx())
		}
		d := D[k]
		if d == nil {
			newKeys = append(newKeys, k)
			continue
		}
		t.Ev("matched")
		if d.Obsolete {
			t.Ev("reactivated")
		}
		changed := d.Plural != r.Plural || isPlural(*d) != isPlural(*r)
		if changed {
			t.Ev("changed-plural")
		}
		if s := adapted(*e, *d); s != "" {
			t.Fail("translation", "%q: %s\n%s", k, s, ctx())
		}
		flags := d.Flags
		if changed && translated(*e) {
			flags = withFuzzy(flags)
		}
		if s := diffStrings("flags", e.Flags, flags); s != "" {
			t.Fail("flags", "%q (changed: %v): %s\n%s", k, changed, s, ctx())
		}
		if s := diffStrings("comments", e.Comments, d.Comments) + diffStrings("previous", e.Previous, d.Previous); s != "" {
			t.Fail("comments", "%q: %s\n%s", k, s, ctx())
		}
	}
	sort.Strings(newKeys)

	// Messages only of the catalogue.
	renamed := map[string]bool{} // new keys with the translation of a renamed message
	var gone []*po.Entry
	for k := range D {
		d := D[k]
		if k == "" || R[k] != nil && !R[k].Obsolete {
			continue
		}
		e := M[k]
		if e != nil {
			taken[k] = true
			w := cloneEntry(*d)
			switch {
			case d.Obsolete:
			case cfg.FuzzyMatch || !cfg.KeepPreviousIDs:
				w.Obsolete = true
				t.Ev("dropped-obsolete")
			default:
				w.Flags = withFuzzy(w.Flags)
				t.Ev("kept-previous")
			}
			if s := diffEntry(*e, w); s != "" {
				t.Fail("unreferenced", "%q: %s\n%s", k, s, ctx())
			}
			continue
		}
		if d.Obsolete || !cfg.FuzzyMatch {
			t.Fail("lost", "%q disappeared\n%s", k, ctx())
		}
		gone = append(gone, d)
	}
	sort.Slice(gone, func(i, j int) bool { return uid(*gone[i]) < uid(*gone[j]) })
	// Each one that is gone has become a new reference message of its own;
	// a matching between them (few, so by backtracking).
	fits := func(d *po.Entry, k string) bool {
		e := M[k]
		return adapted(*e, *d) == "" && isFuzzy(*e) && diffStrings("", e.Flags, withFuzzy(d.Flags)) == "" &&
			diffStrings("", e.Comments, d.Comments) == "" && diffStrings("", e.Previous, d.Previous) == "" &&
			maySimilar(*d, *R[k]) >= 35
	}
	// explain tells why a new message that didn't take the place of another
	// one isn't as it should be.
	explain := func(k string) (key, why string, plain bool) {
		e, r := M[k], R[k]
		w := cloneEntry(*r)
		if isPlural(w) && len(w.Plurals) == 0 {
			for i := 0; i < np; i++ {
				w.Plurals = append(w.Plurals, po.PluralEntry{ID: i})
			}
		}
		diff := diffEntry(*e, w)
		switch {
		case diff == "":
			return "", "", true
		case !cfg.FuzzyMatch:
			return "new", diff, false
		case translated(*r):
			return "new-translated", "the reference's own translation changed: " + diff, false
		case !isFuzzy(*e):
			return "new-not-fuzzy", "it has a foreign translation but isn't fuzzy", false
		}
		ok := false
		for i := range def {
			d := &def[i]
			if d.IsHeader() || !translated(*d) {
				continue
			}
			sim := maySimilar(*d, *r)
			if x := M[uid(*d)]; x != nil {
				sim = math.Max(sim, maySimilar(*x, *r)) // with its new plural id
			} else {
				// It was renamed before.
				for _, k2 := range newKeys {
					if k2 != k && adapted(*M[k2], *d) == "" {
						sim = math.Max(sim, maySimilar(*R[k2], *r))
					}
				}
			}
			ok = ok || sim >= 35 && (adapted(*e, *d) == "" || isPlural(*e) && len(e.Plurals) > 0 && len(strs(*d)) > 0 && e.Plurals[0].Str == strs(*d)[0])
		}
		if !ok {
			return "new-translation", "it has the translation of no similar message", false
		}
		x := cloneEntry(*e)
		x.Str, x.Plurals, x.Flags = w.Str, w.Plurals, w.Flags
		if s := diffEntry(x, w); s != "" {
			return "new-fields", s, false
		}
		if s := diffStrings("flags", e.Flags, withFuzzy(r.Flags)); s != "" {
			return "new-flags", s, false
		}
		return "", "", false
	}
	mandatory := map[string]bool{}
	for _, k := range newKeys {
		if key, _, _ := explain(k); key != "" {
			mandatory[k] = true
		}
	}
	steps := 0
	var match func(i, rest int) bool
	match = func(i, rest int) bool {
		if i == len(gone) {
			return rest == 0
		}
		if steps++; steps > 100000 {
			return true
		}
		if rest > len(gone)-i {
			return false
		}
		for _, k := range newKeys {
			if !renamed[k] && fits(gone[i], k) {
				renamed[k] = true
				n := rest
				if mandatory[k] {
					n--
				}
				if match(i+1, n) {
					return true
				}
				delete(renamed, k)
			}
		}
		return false
	}
	if !match(0, len(mandatory)) {
		var s po.Entries
		for _, d := range gone {
			s = append(s, *d)
		}
		for _, k := range newKeys {
			fit := false
			for _, d := range gone {
				fit = fit || fits(d, k)
			}
			if mandatory[k] && !fit {
				key, why, _ := explain(k)
				t.Fail(key, "%q: %s\n%s", k, why, ctx())
			}
		}
		t.Fail("translation-lost", "the messages\n%s disappeared and no similar new messages have their translations (other new messages: %v)\n%s", show(s), mandatory, ctx())
	}
	t.EvN("renamed", len(gone))

	// Other new messages.
	var free []string
	for _, k := range newKeys {
		if renamed[k] {
			continue
		}
		t.Ev("new")
		if _, _, plain := explain(k); plain {
			free = append(free, k)
		} else {
			t.Ev("fuzzy-filled")
		}
	}
	// With fuzzy matching a translation isn't retired while a very similar
	// new message is left without one.
	if cfg.FuzzyMatch {
		for _, k := range free {
			for i := range def {
				d := &def[i]
				e := M[uid(*d)]
				if d.Obsolete || d.IsHeader() || e == nil || !e.Obsolete || !translated(*d) || translated(*R[k]) {
					continue
				}
				if mustSimilar(*d, *R[k]) > 75 {
					t.Fail("not-matched", "%q became obsolete although %q is similar and untranslated\n%s", uid(*d), k, ctx())
				}
			}
		}
	}
	for k := range M {
		if !taken[k] {
			t.Fail("invented", "%q is in neither\n%s", k, ctx())
		}
	}
	if cfg.Sort {
		t.Ev("sorted")
		for _, c := range refCmps {
			for _, mode := range c.modes {
				if mode != cfg.SortMode {
					continue
				}
				for i := 1; i < len(m); i++ {
					if c.want(m[i-1], m[i]) > 0 {
						t.Fail("order", "entry %d is out of order (%s)\n%s", i, c.name, ctx())
					}
				}
			}
		}
	}
}

func fileLabel(name string) string { return "#-#-#-#-#  " + name + "  #-#-#-#-#" }

func runC09(t *T) {
	nf, limit := 1+t.Intn(4), 5
	if t.p(3) {
		nf = 4 + t.Intn(40)
		limit = nf + 5
		t.Ev("many-files")
	}
	var files []*po.File
	o := entryOpt{ids: []string{"a", "b", "c", "d", "e f"}, ctxs: []string{"x", "y"}, maxForm: 3}
	hundreds := t.scale == "" && t.Intn(600) == 0
	if hundreds { // of definitions
		nf = 200 + t.Intn(500)
		limit = nf + 5
		o.ids, o.ctxs = []string{"a", "b"}, []string{"x"}
		t.Ev("hundreds-of-files")
	}
	var all po.Entries
	for i := 0; i < nf; i++ {
		f := &po.File{Name: fmt.Sprintf("f%d.po", i)}
		if t.p(10) {
			f.Name = "same.po"
		}
		n := t.Intn(6)
		if hundreds {
			n = t.Intn(3)
		}
		es := t.entries(t.count(n, 11), o)
		for j := range es {
			if hundreds && !es[j].IsHeader() && t.p(90) {
				es[j].ID, es[j].Context = "a", ""
			}
			if t.p(30) {
				es[j].Flags = append(es[j].Flags, "fuzzy")
			}
		}
		if t.p(30) {
			es = append(po.Entries{t.header()}, es...)
		}
		for j := range es {
			if len(all) > 0 && t.p(40) {
				e := cloneEntry(pick(t.G, all))
				// The same message, perhaps slightly different.
				for k := t.Intn(3); k > 0; k-- {
					c := cloneEntry(e)
					what := t.mutate(&c)
					if what != "ID" && what != "Context" && what != "Plurals" && what != "Str" && what != "Plural" {
						e = c
					}
				}
				if t.p(30) {
					if isPlural(e) {
						for k := range e.Plurals {
							if t.p(50) {
								e.Plurals[k].Str = t.str()
							}
						}
					} else {
						e.Str = t.str()
					}
				}
				es[j] = e
			}
		}
		if t.p(20) && len(es) > 0 { // twice in one file
			es = append(es, cloneEntry(pick(t.G, es)))
		}
		f.Entries = es
		all = append(all, es...)
		files = append(files, f)
	}
	cfg := po.DefaultMsgcatMergeConfig()
	var opts []po.MsgcatMergeOption
	if t.p(40) {
		cfg.LessThan = uint(t.Intn(limit))
		opts = append(opts, po.MsgcatMergeWithLessThan(cfg.LessThan))
	}
	if t.p(40) {
		cfg.MoreThan = uint(t.Intn(limit - 2))
		opts = append(opts, po.MsgcatMergeWithMoreThan(cfg.MoreThan))
	}
	if t.p(30) {
		cfg.UseFirst = true
		opts = append(opts, po.MsgcatMergeWithUseFirst(true))
	}
	if t.p(20) {
		opts = []po.MsgcatMergeOption{po.MsgcatMergeWithConfig(cfg)}
	}
	var in []*po.File
	for _, f := range files {
		in = append(in, &po.File{Name: f.Name, Entries: cloneEntries(f.Entries)})
	}
	got := po.MsgcatMergeFiles(in, opts...)
	ctx := func() string {
		var b strings.Builder
		fmt.Fprintf(&b, "%+v\n", cfg)
		for _, f := range files {
			fmt.Fprintf(&b, "--- %s\n%s", f.Name, show(f.Entries))
		}
		fmt.Fprintf(&b, "--- result\n%s", show(got))
		return b.String()
	}
	t.Sample(ctx)

	type def struct {
		e    po.Entry
		file string
	}
	var order []string
	defs := map[string][]def{}
	for _, f := range files {
		for _, e := range f.Entries {
			k := uid(e)
			if defs[k] == nil {
				order = append(order, k)
			}
			defs[k] = append(defs[k], def{e, f.Name})
		}
	}
	var keep []string
	for _, k := range order {
		n := uint(len(defs[k]))
		if k == "" || n < cfg.LessThan && n > cfg.MoreThan {
			keep = append(keep, k)
		} else {
			t.Ev("filtered")
		}
	}
	for i := 0; i < len(got) || i < len(keep); i++ {
		if i >= len(got) || i >= len(keep) || uid(got[i]) != keep[i] {
			t.Fail("selection", "messages %s, want %q\n%s", ids(got), keep, ctx())
		}
	}
	sig := false
	for _, e := range got {
		ds := defs[uid(e)]
		t.Ev("messages")
		if len(ds) == 1 || cfg.UseFirst {
			t.Ev("first")
			if d := diffEntry(e, ds[0].e); d != "" {
				t.Fail("first", "%q: %s\n%s", uid(e), d, ctx())
			}
			continue
		}
		sig = true
		t.Ev("several-definitions")
		// Flags.
		flags := map[string]bool{}
		obs, plural := true, false
		var ls po.Locations
		pluralID := ""
		for _, d := range ds {
			for _, f := range d.e.Flags {
				flags[f] = true
			}
			obs = obs && d.e.Obsolete
			if isPlural(d.e) && !plural {
				plural, pluralID = true, d.e.Plural
			}
			ls = append(ls, d.e.Locations...)
		}
		// Translations.
		conflict, plurIDs := false, map[string]bool{}
		labelled := func(what, got string, vals []def, of func(po.Entry) string) {
			var distinct []string
			byVal := map[string]string{}
			for _, d := range vals {
				if s := of(d.e); s != "" {
					if _, ok := byVal[s]; !ok {
						distinct = append(distinct, s)
						byVal[s] = d.file
					}
				}
			}
			switch len(distinct) {
			case 0:
				if got != "" {
					t.Fail("invented", "%q: %s %q, no definition has one\n%s", uid(e), what, got, ctx())
				}
			case 1:
				t.Ev("agreements")
				if got != distinct[0] {
					t.Fail("altered", "%q: %s %q, want %q\n%s", uid(e), what, got, distinct[0], ctx())
				}
			default:
				conflict = true
				t.Ev("conflicts")
				for _, s := range distinct {
					if !strings.Contains(got, s) {
						t.Fail("conflict-lost", "%q: %s %q lacks %q\n%s", uid(e), what, got, s, ctx())
					}
				}
				// A label with the name of the file precedes it.
				for i, s := range distinct {
					if l := fileLabel(byVal[s]) + "\n" + s; i > 0 && !strings.Contains(got, l) {
						t.Fail("conflict-label", "%q: %s %q lacks %q\n%s", uid(e), what, got, l, ctx())
					}
				}
				if l := fileLabel(ds[0].file) + "\n"; !strings.Contains(got, l) {
					t.Fail("conflict-label", "%q: %s %q lacks %q\n%s", uid(e), what, got, l, ctx())
				}
			}
		}
		form := func(e po.Entry, n int) string {
			if !isPlural(e) {
				if n == 0 {
					return e.Str
				}
				return ""
			}
			for _, p := range e.Plurals {
				if p.ID == n {
					return p.Str
				}
			}
			return ""
		}
		if plural != isPlural(e) || pluralID != e.Plural {
			t.Fail("plural", "%q: plural %v %q, want %v %q\n%s", uid(e), isPlural(e), e.Plural, plural, pluralID, ctx())
		}
		if plural {
			if e.Str != "" {
				t.Fail("both", "%q is singular and plural\n%s", uid(e), ctx())
			}
			seen := map[int]bool{}
			for _, p := range e.Plurals {
				if seen[p.ID] {
					t.Fail("form-twice", "%q: form %d twice\n%s", uid(e), p.ID, ctx())
				}
				seen[p.ID] = true
			}
			for _, d := range ds {
				for _, p := range d.e.Plurals {
					if !seen[p.ID] {
						t.Fail("form-lost", "%q: no form %d\n%s", uid(e), p.ID, ctx())
					}
				}
				if isPlural(d.e) {
					plurIDs[d.e.Plural] = true
				}
			}
			for n := 0; n < 8; n++ {
				labelled(fmt.Sprintf("form %d", n), form(e, n), ds, func(x po.Entry) string { return form(x, n) })
			}
		} else {
			labelled("translation", e.Str, ds, func(x po.Entry) string { return x.Str })
		}
		if conflict {
			flags["fuzzy"] = true
		} else if !flags["fuzzy"] && isFuzzy(e) {
			// Allowed only if the definitions aren't the same anyway.
			same := len(plurIDs) <= 1
			var first *po.Entry
			for i := range ds {
				d := &ds[i].e
				same = same && isPlural(ds[0].e) == isPlural(*d) && len(ds[0].e.Plurals) == len(d.Plurals)
				if !translated(*d) {
					continue
				}
				if first == nil {
					first = d
				}
				same = same && showStrs(*first) == showStrs(*d)
			}
			if same {
				t.Fail("fuzzy", "%q is fuzzy without a conflict\n%s", uid(e), ctx())
			}
			flags["fuzzy"] = true
		}
		have := map[string]bool{}
		for _, f := range e.Flags {
			if !flags[f] {
				t.Fail("flag-invented", "%q: flag %q\n%s", uid(e), f, ctx())
			}
			have[f] = true
		}
		for f := range flags {
			if !have[f] {
				t.Fail("flag-lost", "%q: no flag %q\n%s", uid(e), f, ctx())
			}
		}
		if obs != e.Obsolete {
			t.Fail("obsolete", "%q: obsolete %v, want %v\n%s", uid(e), e.Obsolete, obs, ctx())
		}
		if locs(ls) != locs(e.Locations) {
			t.Fail("references", "%q: %s, want %s\n%s", uid(e), locs(e.Locations), locs(ls), ctx())
		}
		for _, c := range []struct {
			n string
			f func(po.Entry) []string
		}{
			{"comments", func(e po.Entry) []string { return e.Comments }},
			{"extracted comments", func(e po.Entry) []string { return e.ExtractedComments }},
			{"previous", func(e po.Entry) []string { return e.Previous }},
		} {
			known := map[string]bool{}
			for _, d := range ds {
				known[fileLabel(d.file)] = true
				for _, l := range c.f(d.e) {
					known[l] = true
				}
				if !contiguous(c.f(e), c.f(d.e)) {
					t.Fail("comment-lost", "%q: %s %q lack %q\n%s", uid(e), c.n, c.f(e), c.f(d.e), ctx())
				}
			}
			for _, l := range c.f(e) {
				if !known[l] {
					t.Fail("comment-invented", "%q: %s have %q\n%s", uid(e), c.n, l, ctx())
				}
			}
		}
	}
	if sig {
		t.Sig(ctx())
	}
}

// contiguous tells whether part is a run of elements of l.
func contiguous(l, part []string) bool {
	for i := 0; i+len(part) <= len(l); i++ {
		ok := true
		for j := range part {
			ok = ok && l[i+j] == part[j]
		}
		if ok {
			return true
		}
	}
	return len(part) == 0
}
