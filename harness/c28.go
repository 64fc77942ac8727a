package main

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	register(&Check{
		ID:    "C28",
		Rule:  "random documents with known messages (repeated definitions, header anywhere, obsolete messages, comments of every kind) in random layouts, parsed under random combinations of options and compared with the filtered messages; non-trivial: an option that changes the result",
		Quick: 30000, Thorough: 600000,
		Run:  runC28,
		Need: map[string]int{"messages": 60000, "ignore-comments": 5000, "ignore-all": 5000, "skip-header": 5000, "no-obsolete": 5000, "keep-duplicates": 5000, "other-marker": 3000},
		Assume: []string{
			"the document has at most one header, and it isn't obsolete; the meaning of CleanDuplicates itself is decided by C10",
		},
	})
	register(&Check{
		ID:    "C29",
		Rule:  "random messages written under random combinations of options, each option compared with the output without it (or read back by the independent reader), and all output methods compared; non-trivial: at least one message",
		Quick: 30000, Thorough: 300000,
		Run:  runC29,
		Need: map[string]int{"messages": 80000, "omit-header": 16000, "locations": 40000, "affixes": 16000, "comment-fuzzy": 10000, "managed": 16000, "methods": 60000, "marker": 10000},
		Assume: []string{
			"at most one header, and it isn't obsolete; header fields without line breaks; titles and holders are single lines; location modes: full, file, never",
		},
	})
}

// optEntries are messages with repeated definitions and at most one header.
func (t *T) optEntries(n int) po.Entries {
	o := entryOpt{maxForm: 3}
	if t.p(60) {
		o.ids, o.ctxs = poolIDs, poolCtxs
	}
	var es po.Entries
	for len(es) < n {
		e := t.entry(o)
		if e.IsHeader() {
			continue
		}
		if t.p(20) {
			e.Flags = append(e.Flags, "fuzzy")
		}
		es = append(es, e)
	}
	if t.p(60) {
		k := 0
		if t.p(40) {
			k = t.Intn(len(es) + 1)
		}
		h := t.header()
		if t.p(20) {
			h = po.Entry{Str: t.str(), Comments: h.Comments}
		}
		h.ExtractedComments = t.lines(t.comment, 2)
		h.Locations = t.locations(2)
		es = append(es[:k:k], append(po.Entries{h}, es[k:]...)...)
	}
	return es
}

func filterEntries(es po.Entries, keep func(e po.Entry) bool) po.Entries {
	var l po.Entries
	for _, e := range es {
		if keep(e) {
			l = append(l, e)
		}
	}
	return l
}

func runC28(t *T) {
	es := t.optEntries(t.count(t.Case%10, 10))
	w := t.layout()
	marker := '~'
	if t.p(20) {
		marker = pick(t.G, []rune{'!', '-', '^', '$', '*', '%', 'ñ', '?', '(', '\\', '日'})
		for _, e := range es { // a comment that looks like an obsolete line is one
			for _, c := range e.Comments {
				if strings.HasPrefix(strings.TrimLeft(c, " "), string(marker)) || strings.HasPrefix(c, "~") {
					marker = '~'
				}
			}
		}
		if marker != '~' {
			t.Ev("other-marker")
		}
	}
	w.mark = string(marker)
	text := w.write(es)
	full := activeFirst(es)
	t.EvN("messages", len(es))
	// How singular and plural definitions are combined is decided by C10.
	mixed := false
	for _, g := range groups(full) {
		for _, d := range g.defs {
			mixed = mixed || isPlural(d) != isPlural(g.defs[0])
		}
	}
	t.Note("%q", text)
	for round := 0; round < 4; round++ {
		ic, ia, sh, obs, clean := t.p(30), t.p(20), t.p(40), t.p(60), t.p(50)
		if round == 0 {
			ic, ia, sh, obs, clean = false, false, false, true, false
		}
		clean = clean && !mixed
		ctx := func() string {
			return fmt.Sprintf("ignore comments %v, ignore all comments %v, skip header %v, parse obsoletes %v, clean duplicates %v, marker %q\n--- messages\n%s--- text\n%q", ic, ia, sh, obs, clean, marker, show(es), text)
		}
		want := cloneEntries(full)
		if ia || !obs {
			want = filterEntries(want, func(e po.Entry) bool { return !e.Obsolete })
		}
		for i := range want {
			e := &want[i]
			if ia {
				e.Flags, e.Locations = nil, nil
			}
			if ic || ia {
				e.Comments, e.ExtractedComments, e.Previous = nil, nil, nil
			}
		}
		if sh {
			want = filterEntries(want, func(e po.Entry) bool { return !isHeader(e) })
		}
		if clean {
			want = want.CleanDuplicates()
		}
		for n, on := range map[string]bool{"ignore-comments": ic, "ignore-all": ia, "skip-header": sh, "no-obsolete": !obs, "keep-duplicates": !clean} {
			if on {
				t.Ev(n)
			}
		}
		if len(want) != len(full) || diffEntries(want, full) != "" {
			t.Sig(text, ic, ia, sh, obs, clean)
		}
		opts := []parse.PoOption{
			parse.PoWithIgnoreComments(ic), parse.PoWithIgnoreAllComments(ia), parse.PoWithSkipHeader(sh),
			parse.PoWithParseObsolete(obs), parse.PoWithCleanDuplicates(clean),
			parse.PoWithUseCustomObsoletePrefix(marker != '~'), parse.PoWithCustomObsoletePrefix(marker),
			parse.PoWithVerbose(t.p(20)), parse.PoWithLogger(pick(t.G, []*log.Logger{nil, log.New(io.Discard, "", 0)})),
		}
		t.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		var f *po.File
		var err error
		if t.p(50) {
			f, err = parse.PoFromString(text, "f.po", opts...)
		} else {
			p := parse.NewPoFromString(text, "f.po")
			f = p.ParseWithOptions(opts...)
			err = p.Error()
		}
		if err != nil || f == nil {
			t.Fail("error", "unexpected error: %v\n%s", err, ctx())
		}
		if d := diffEntries(f.Entries, want); d != "" {
			t.Fail("options", "%s\n%s", d, ctx())
		}
	}
	t.Sample(func() string { return text })
}

// bodyBlocks splits PO text into messages: comment and body lines of each.
func bodyBlocks(text string) [][]string {
	var bs [][]string
	for _, b := range strings.Split(strings.TrimSuffix(text, "\n\n"), "\n\n") {
		bs = append(bs, strings.Split(b, "\n"))
	}
	return bs
}

func runC29(t *T) {
	n := t.count(t.Case%9, 10)
	es := t.optEntries(n)
	if t.p(70) { // the independent reader wants distinct messages
		seen := map[string]bool{}
		es = filterEntries(es, func(e po.Entry) bool {
			ok := !seen[uid(e)]
			seen[uid(e)] = true
			return ok
		})
	}
	for i := range es { // blank lines only between messages
		for _, l := range [][]string{es[i].Comments, es[i].ExtractedComments, es[i].Previous} {
			for j := range l {
				l[j] = strings.ReplaceAll(l[j], "\n", " ")
			}
		}
	}
	t.EvN("messages", len(es))
	f := &po.File{Name: "f.po", Entries: es}
	cfg := compile.DefaultPoConfig()
	cfg.WordWrap = t.p(40)
	cfg.OmitHeader = t.p(25)
	cfg.CommentFuzzy = t.p(25)
	cfg.AddLocation = pick(t.G, []compile.PoLocationMode{compile.PoLocationModeFull, compile.PoLocationModeFull, compile.PoLocationModeFile, compile.PoLocationModeNever})
	cfg.NoLocation = t.p(10)
	if t.p(20) {
		cfg.MsgstrPrefix = t.str()
	}
	if t.p(20) {
		cfg.MsgstrSuffix = t.str()
	}
	cfg.ManageHeader = t.p(30)
	cfg.HeaderFields = t.p(60)
	cfg.HeaderComments = t.p(50)
	cfg.ForeignUser = t.p(20)
	cfg.Title = pick(t.G, []string{"", "A Title", "title of ñ", "100% %s", "two\nlines", "a\n\nmsgid \"x\"\nmsgstr \"\"", "~ x"})
	cfg.CopyrightHolder = pick(t.G, []string{"", "Ana", "The \"X\" Project", "Ana\nEva"})
	cfg.PackageName = pick(t.G, []string{"PACKAGE NAME", "pkg", "%d", "p\nq"})
	if t.p(30) {
		h := po.DefaultHeaderConfig()
		h.Language, h.Nplurals, h.Plural = "es", 2, "n != 1"
		h.Template = t.p(50)
		cfg.HeaderConfig = &h
	}
	if t.p(20) {
		cfg.UseCustomObsoletePrefix = true
		cfg.CustomObsoletePrefixRune = pick(t.G, []rune{'!', '-', '?', 'ñ'})
	}
	base := cfg
	render := func(es po.Entries, mod func(c *compile.PoConfig)) string {
		c := base
		if mod != nil {
			mod(&c)
		}
		return compile.PoToString(&po.File{Name: "f.po", Entries: es}, compile.PoWithConfig(c))
	}
	text := render(es, nil)
	t.Note("%+v\n%s", base, show(es))
	desc := func() string {
		return fmt.Sprintf("wrap %v omit header %v comment fuzzy %v locations %q/%v prefix %q suffix %q manage %v fields %v comments %v header config %v marker %q\n--- messages\n%s",
			cfg.WordWrap, cfg.OmitHeader, cfg.CommentFuzzy, cfg.AddLocation, cfg.NoLocation, cfg.MsgstrPrefix, cfg.MsgstrSuffix, cfg.ManageHeader, cfg.HeaderFields, cfg.HeaderComments, cfg.HeaderConfig != nil, string(cfg.CustomObsoletePrefixRune), show(es))
	}
	same := func(key, what, got, want string) {
		if got != want {
			t.Fail(key, "%s\n--- got\n%s\n--- want\n%s\n%s", what, got, want, desc())
		}
	}
	if len(es) > 0 {
		t.Sig(text, desc())
	}
	t.Sample(func() string { return desc() + text })
	hi := -1
	for i, e := range es {
		if isHeader(e) {
			hi = i
		}
	}
	var rest po.Entries
	for i, e := range es {
		if i != hi {
			rest = append(rest, e)
		}
	}

	// Output methods.
	{
		opt := compile.PoWithConfig(base)
		p := filepath.Join(t.Dir, "o.po")
		os.Remove(p)
		var w bytes.Buffer
		c := compile.NewPo(f, opt)
		d := compile.NewPo(f)
		must(compile.PoToWriter(f, &w, opt))
		got := map[string]string{"PoToWriter": w.String(), "PoToBytes": string(compile.PoToBytes(f, opt)), "PoToString(entries)": compile.PoToString(f.Entries, opt),
			"ToString": c.ToString(), "ToBytes": string(c.ToBytes()), "ToStringWithOptions": d.ToStringWithOptions(opt), "ToBytesWithOptions": string(d.ToBytesWithOptions(opt))}
		w.Reset()
		must(c.ToWriter(&w))
		got["ToWriter"] = w.String()
		w.Reset()
		must(d.ToWriterWithOptions(&w, opt))
		got["ToWriterWithOptions"] = w.String()
		if t.p(10) {
			must(c.ToFile(p))
			b, err := os.ReadFile(p)
			must(err)
			got["ToFile"] = string(b)
			must(os.Remove(p))
			must(compile.PoToFile(f, p, opt))
			b, err = os.ReadFile(p)
			must(err)
			got["PoToFile"] = string(b)
			must(os.Remove(p))
		}
		for k, g := range got {
			t.Ev("methods")
			same("method", k+" gives another text", g, text)
		}
	}

	// No effect on the text.
	same("no-effect", "verbose, logger, colour and error options change the text", render(es, func(c *compile.PoConfig) {
		c.Verbose, c.NoColor, c.IgnoreErrors, c.ForcePo = true, true, true, true
		c.Logger = log.New(io.Discard, "", 0)
	}), text)

	// The header is omitted.
	same("omit-header", "omitting the header isn't the same as not having it",
		render(es, func(c *compile.PoConfig) { c.OmitHeader = true }),
		render(rest, func(c *compile.PoConfig) { c.OmitHeader, c.ManageHeader = false, false }))
	t.Ev("omit-header")

	// References.
	loc := func(m compile.PoLocationMode, no bool) string {
		return render(es, func(c *compile.PoConfig) { c.AddLocation, c.NoLocation = m, no })
	}
	none := loc(compile.PoLocationModeNever, false)
	for _, m := range []compile.PoLocationMode{compile.PoLocationModeFull, compile.PoLocationModeFile, compile.PoLocationModeNever} {
		same("no-location", fmt.Sprintf("no-location with the mode %q and the mode never differ", m), loc(m, true), none)
	}
	for _, m := range []compile.PoLocationMode{compile.PoLocationModeFull, compile.PoLocationModeFile} {
		x := loc(m, false)
		if got := dropLines(x, "#: "); got != none {
			t.Fail("locations", "mode %q changes more than reference lines\n--- %s\n%s\n--- without references\n%s\n%s", m, m, x, none, desc())
		}
		var want []string
		for i, e := range es {
			if i == hi && (base.OmitHeader || base.ManageHeader) {
				continue
			}
			for _, l := range e.Locations {
				s := "#: " + l.File
				if m == compile.PoLocationModeFull && l.Line >= 0 {
					s += fmt.Sprintf(":%d", l.Line)
				}
				want = append(want, s)
			}
		}
		var got []string
		for _, l := range strings.Split(x, "\n") {
			if strings.HasPrefix(l, "#: ") {
				got = append(got, l)
			}
		}
		if d := diffStrings("reference", got, want); d != "" {
			t.Fail("location-lines", "mode %q: %s\n%s", m, d, desc())
		}
		t.EvN("locations", len(want))
	}

	// Prefix and suffix.
	{
		pre, suf := t.str(), t.str()
		wrapped := cloneEntries(es)
		for i := range wrapped {
			e := &wrapped[i]
			if i == hi {
				continue
			}
			if !isPlural(*e) {
				e.Str = pre + e.Str + suf
				continue
			}
			if len(e.Plurals) == 0 {
				e.Plurals = po.PluralEntries{{ID: 0}, {ID: 1}}
			}
			for j := range e.Plurals {
				e.Plurals[j].Str = pre + e.Plurals[j].Str + suf
			}
		}
		same("affixes", fmt.Sprintf("prefix %q and suffix %q don't wrap every translation", pre, suf),
			render(es, func(c *compile.PoConfig) { c.MsgstrPrefix, c.MsgstrSuffix = pre, suf }),
			render(wrapped, func(c *compile.PoConfig) { c.MsgstrPrefix, c.MsgstrSuffix = "", "" }))
		t.Ev("affixes")
	}

	// Fuzzy messages as comments.
	{
		off := bodyBlocks(render(es, func(c *compile.PoConfig) { c.CommentFuzzy, c.ManageHeader, c.OmitHeader = false, false, false }))
		on := bodyBlocks(render(es, func(c *compile.PoConfig) { c.CommentFuzzy, c.ManageHeader, c.OmitHeader = true, false, false }))
		if len(es) > 0 {
			if len(on) != len(es) || len(off) != len(es) {
				t.Fail("blocks", "%d and %d blocks for %d messages\n%s", len(on), len(off), len(es), desc())
			}
			for i, e := range es {
				want := append([]string(nil), off[i]...)
				if isFuzzy(e) && !e.Obsolete {
					t.Ev("comment-fuzzy")
					body := false
					for j, l := range want {
						body = body || !strings.HasPrefix(l, "#")
						if body {
							want[j] = "# " + l
						}
					}
				}
				if d := diffStrings("line", on[i], want); d != "" {
					t.Fail("comment-fuzzy", "message %d: %s\n%s", i, d, desc())
				}
			}
		}
	}

	// The obsolete marker.
	if !base.UseCustomObsoletePrefix {
		r := pick(t.G, []rune{'!', '-', '?', 'ñ', '日'})
		x := render(es, func(c *compile.PoConfig) { c.UseCustomObsoletePrefix, c.CustomObsoletePrefixRune = true, r })
		var want []string
		for _, l := range strings.Split(text, "\n") {
			if strings.HasPrefix(l, "#~") {
				l = "#" + string(r) + l[2:]
			}
			want = append(want, l)
		}
		same("marker", "the marker changes something else", x, strings.Join(want, "\n"))
		same("marker", "an unused marker changes something", render(es, func(c *compile.PoConfig) { c.CustomObsoletePrefixRune = r }), text)
		t.Ev("marker")
	}

	// The managed header.
	managed := render(es, func(c *compile.PoConfig) { c.ManageHeader, c.OmitHeader = true, false })
	plain := render(rest, func(c *compile.PoConfig) { c.ManageHeader, c.OmitHeader = false, false })
	if hi < 0 {
		same("managed", "managing the header of a file without header changes it", managed, plain)
		return
	}
	if es[hi].Obsolete {
		return
	}
	if !strings.HasSuffix(managed, plain) {
		t.Fail("managed", "managing the header changes the other messages\n--- managed\n%s\n--- others\n%s\n%s", managed, plain, desc())
	}
	t.Ev("managed")
	head := strings.TrimSuffix(managed, plain)
	hs, err := readPO(head, '~')
	if err != nil || len(hs) != 1 || !isHeader(hs[0]) {
		t.Fail("managed", "no header: %v\n%s\n%s", err, head, desc())
	}
	h := hs[0]
	var header po.Header
	if base.HeaderConfig != nil {
		header = base.HeaderConfig.ToHeader()
	} else {
		header = f.Header()
	}
	want := ""
	if base.HeaderFields {
		for _, x := range header.Fields {
			want += x.Key + ": " + x.Value + "\n"
		}
	}
	same("managed-fields", "fields of the managed header", h.Str, want)
	if isFuzzy(h) != header.Template {
		t.Fail("managed-fuzzy", "fuzzy %v, template %v\n%s\n%s", isFuzzy(h), header.Template, head, desc())
	}
	cs := strings.Join(h.Comments, "\n")
	if base.HeaderComments {
		need := []string{base.Title}
		if !base.ForeignUser {
			need = append(need, base.CopyrightHolder, base.PackageName)
		}
		for _, x := range need {
			if !strings.Contains(cs, x) {
				t.Fail("managed-comments", "%q isn't in the comments %q\n%s", x, h.Comments, desc())
			}
		}
	} else if len(h.Comments) > 0 {
		t.Fail("managed-comments", "unexpected comments %q\n%s", h.Comments, desc())
	}
}

// dropLines removes the lines with a prefix.
func dropLines(text, prefix string) string {
	var b strings.Builder
	for _, l := range strings.SplitAfter(text, "\n") {
		if !strings.HasPrefix(l, prefix) {
			b.WriteString(l)
		}
	}
	return b.String()
}
