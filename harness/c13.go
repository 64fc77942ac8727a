package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"runtime"
	"sort"
	"strings"
	"sync"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	register(&Check{
		ID:    "C13",
		Rule:  "every read-only operation of the library run several times on inputs whose slices share and over-allocate backing arrays, with snapshots of all of the memory behind them, then with one result overwritten and extended; non-trivial: every case",
		Quick: 700, Thorough: 20000,
		Run:    runC13,
		Need:   map[string]int{"operations": 60000, "snapshots": 120000, "attacked-results": 20000},
		Assume: []string{"sorting and the Clean* filters work in place by contract and are not claimed to be read-only", "messages of a result can share their inner lists with the input; a parse result owns everything"},
	})
	register(&Check{
		ID:    "C14",
		Rule:  "rounds of goroutines running all read-only operations in random order on shared inputs under the Go race detector, each result compared with the sequential one; non-trivial: every round",
		Quick: 100, Thorough: 2500,
		Run:      runC14,
		Need:     map[string]int{"rounds": 100, "concurrent-operations": 60000, "overlapping-pairs": 600},
		NoRlimit: true, MemMB: 3500,
		Assume: []string{"parser and compiler values are not shared between goroutines, inputs and package state are", "the race detector sees only the interleavings that occurred (happens-before analysis generalises over their timing)"},
	})
}

// world is a set of inputs and the operations on them.
type world struct {
	bigE  po.Entries
	bigS  []string
	bigL  po.Locations
	bigP  po.PluralEntries
	bytes [][]byte
	hdr   po.Header
	hcfg  po.HeaderConfig
	def   po.Entries
	ref   po.Entries
	dup   po.Entries
	files []*po.File
	ops   []operation
}

type operation struct {
	name string
	run  func() *result
}

type result struct {
	render func() string
	attack func() // overwrites and extends the lists of the result
}

func text(s string) *result { return &result{render: func() string { return s }} }

var junkEntry = po.Entry{ID: "JUNK", Str: "JUNK", Flags: []string{"junk"}, Plurals: po.PluralEntries{{ID: 9, Str: "JUNK"}}}

func entriesResult(es po.Entries, deep bool, extra string) *result {
	return &result{
		render: func() string { return fmt.Sprintf("%v %d\n%s%s", es == nil, len(es), show(es), extra) },
		attack: func() {
			if deep {
				for i := range es {
					e := es[i]
					for _, l := range [][]string{e.Flags, e.Comments, e.ExtractedComments, e.Previous} {
						for j := range l {
							l[j] = "JUNK"
						}
						_ = append(l, "JUNK", "JUNK", "JUNK")
					}
					for j := range e.Locations {
						e.Locations[j].File = "JUNK"
					}
					_ = append(e.Locations, po.Location{File: "JUNK"})
					for j := range e.Plurals {
						e.Plurals[j].Str = "JUNK"
					}
					_ = append(e.Plurals, po.PluralEntry{Str: "JUNK"})
				}
			}
			for i := range es {
				es[i] = junkEntry
			}
			_ = append(es, junkEntry, junkEntry, junkEntry)
			_ = append(es[:0], junkEntry)
		},
	}
}

func bytesResult(b []byte, err error) *result {
	return &result{
		render: func() string { return fmt.Sprintf("%q %v", b, err) },
		attack: func() {
			for i := range b {
				b[i] = '?'
			}
			_ = append(b, "JUNK"...)
		},
	}
}

func fileResult(f *po.File, deep bool, errs ...error) *result {
	var x []string
	for _, e := range errs {
		x = append(x, fmt.Sprint(e))
	}
	if f == nil {
		return text("no file " + strings.Join(x, ";"))
	}
	return entriesResult(f.Entries, deep, f.Name+strings.Join(x, ";"))
}

func headerResult(h po.Header) *result {
	return &result{
		render: func() string { return fmt.Sprintf("%v %q", h.Template, h.Fields) },
		attack: func() {
			for i := range h.Fields {
				h.Fields[i] = po.HeaderField{Key: "JUNK", Value: "JUNK"}
			}
			h.Set("More", "JUNK")
			h.Register("Evenmore", "JUNK")
		},
	}
}

func cfgResult(c po.HeaderConfig) *result {
	return &result{
		render: func() string { return fmt.Sprintf("%#v", c) },
		attack: func() {
			for i := range c.ExtraFields {
				c.ExtraFields[i].Value = "JUNK"
			}
			_ = append(c.ExtraFields, po.HeaderField{Key: "JUNK"})
		},
	}
}

// carve moves every list of the entries into shared arrays; the capacity of
// each reaches over the elements of the following ones.
func (w *world) carve(g *G, lists ...*po.Entries) {
	var all po.Entries
	type span struct{ a, b int }
	var spans []span
	for _, l := range lists {
		a := len(all)
		all = append(all, *l...)
		spans = append(spans, span{a, len(all)})
		for i := g.Intn(3); i > 0; i-- { // spare room
			all = append(all, po.Entry{ID: "SPARE"})
		}
	}
	var nS, nL, nP int
	for i := range all {
		e := all[i]
		nS += len(e.Flags) + len(e.Comments) + len(e.ExtractedComments) + len(e.Previous) + 4
		nL += len(e.Locations) + 1
		nP += len(e.Plurals) + 1
	}
	w.bigS = make([]string, nS+8)
	w.bigL = make(po.Locations, nL+8)
	w.bigP = make(po.PluralEntries, nP+8)
	for i := range w.bigS {
		w.bigS[i] = fmt.Sprint("SPARE", i)
	}
	for i := range w.bigL {
		w.bigL[i] = po.Location{File: "SPARE", Line: i}
	}
	for i := range w.bigP {
		w.bigP[i] = po.PluralEntry{ID: i, Str: "SPARE"}
	}
	is, il, ip := 0, 0, 0
	for i := range all {
		e := &all[i]
		for _, l := range []*[]string{&e.Flags, &e.Comments, &e.ExtractedComments, &e.Previous} {
			if *l == nil && g.p(30) {
				continue
			}
			n := copy(w.bigS[is:], *l)
			*l = w.bigS[is : is+n]
			is += n + g.Intn(2)
		}
		if e.Locations != nil || g.p(70) {
			n := copy(w.bigL[il:], e.Locations)
			e.Locations = w.bigL[il : il+n]
			il += n + g.Intn(2)
		}
		if e.Plurals != nil || g.p(70) {
			n := copy(w.bigP[ip:], e.Plurals)
			e.Plurals = w.bigP[ip : ip+n]
			ip += n + g.Intn(2)
		}
	}
	w.bigE = all
	for i, l := range lists {
		*l = all[spans[i].a:spans[i].b]
	}
}

func spareBytes(s string) []byte {
	b := make([]byte, 0, len(s)+64)
	b = append(b, s...)
	tail := b[len(b):cap(b)]
	for i := range tail {
		tail[i] = byte('A' + i%26)
	}
	return b
}

// snapshot renders everything behind the inputs.
func (w *world) snapshot() string {
	var b strings.Builder
	b.WriteString(show(w.bigE))
	for _, e := range w.bigE {
		fmt.Fprint(&b, len(e.Flags), cap(e.Flags), len(e.Plurals), cap(e.Plurals), len(e.Locations), cap(e.Locations), ";")
	}
	fmt.Fprintf(&b, "%q\n%v\n%q\n", w.bigS, w.bigL, w.bigP)
	for _, x := range w.bytes {
		fmt.Fprintf(&b, "%d %q\n", len(x), x[:cap(x)])
	}
	for _, f := range w.files {
		fmt.Fprintf(&b, "%q %d %d\n", f.Name, len(f.Entries), cap(f.Entries))
	}
	fmt.Fprintf(&b, "%q %#v %d %d\n", w.hdr.Fields[:cap(w.hdr.Fields)], w.hcfg, len(w.hdr.Fields), cap(w.hdr.Fields))
	fmt.Fprintf(&b, "%q", w.hcfg.ExtraFields[:cap(w.hcfg.ExtraFields)])
	return b.String()
}

func (t *T) world() *world {
	w := &world{}
	w.def, w.ref = t.mergeInput()
	w.dup = t.dupEntries(8)
	f1, f2, f3 := t.dupEntries(5), t.dupEntries(5), t.dupEntries(4)
	for _, l := range []po.Entries{w.def, w.ref, w.dup, f1, f2, f3} {
		for i := range l { // forms out of order
			if p := l[i].Plurals; t.p(40) {
				t.Shuffle(len(p), func(a, b int) { p[a], p[b] = p[b], p[a] })
			}
			if p := l[i].Plurals; len(p) > 0 && t.p(15) { // forms twice
				k := t.Intn(len(p) + 1)
				p = append(append(append(po.PluralEntries(nil), p[:k]...), pick(t.G, p)), p[k:]...)
				l[i].Plurals = p
			}
		}
	}
	w.carve(t.G, &w.def, &w.ref, &w.dup, &f1, &f2, &f3)
	w.files = []*po.File{{Name: "a.po", Entries: f1}, {Name: "b.po", Entries: f2}, {Name: "a.po", Entries: f3}, {Name: "def.po", Entries: w.def}}

	fields := make([]po.HeaderField, 0, 20)
	for i, n := 0, t.Intn(8); i < n; i++ {
		fields = append(fields, po.HeaderField{Key: pick(t.G, []string{"Language", "Plural-Forms", "X-One", "X-Two", "Content-Type", "MIME-Version"}), Value: pick(t.G, []string{"es", "nplurals=3; plural=n;", "x", "text/plain; charset=UTF-8", ""})})
	}
	w.hdr = po.Header{Fields: fields, Template: t.p(50)}
	extra := make([]po.HeaderField, 0, 9)
	for i, n := 0, t.Intn(4); i < n; i++ {
		extra = append(extra, po.HeaderField{Key: fmt.Sprint("X-", t.Intn(5)), Value: pick(t.G, words)})
	}
	w.hcfg = po.DefaultHeaderConfig(func(h *po.HeaderConfig) { h.ExtraFields = extra; h.Template = t.p(30) })

	poText := t.layout().write(append(t.entries(3+t.Intn(4), entryOpt{}), t.dupEntries(2)...))
	if t.p(20) {
		poText += "\nmsgid \"broken"
	}
	o, tr := t.moPairs(1 + t.Intn(6))
	moText := string(moLayout(t.G, orders(pick(t.G, []compile.Endianness{compile.LittleEndian, compile.BigEndian})), o, tr))
	if t.p(20) {
		moText = moText[:t.Intn(len(moText))]
	}
	var sb strings.Builder
	sb.WriteString("package x\nimport \"github.com/leonelquinteros/gotext\"\nfunc f() {\n")
	for i, n := 0, 1+t.Intn(6); i < n; i++ {
		fmt.Fprintf(&sb, "gotext.GetN(%q, %q, 2)\n_ = %q\n", pick(t.G, words), pick(t.G, words), pick(t.G, words))
	}
	if t.p(20) {
		sb.WriteString("gotext.GetN(\"a\")\n")
	}
	if !t.p(10) {
		sb.WriteString("}\n")
	}
	poB, moB, goB := spareBytes(poText), spareBytes(moText), spareBytes(sb.String())
	w.bytes = [][]byte{poB, moB, goB}

	add := func(name string, f func() *result) { w.ops = append(w.ops, operation{name, f}) }
	allLists := map[string]po.Entries{"def": w.def, "ref": w.ref, "dup": w.dup, "f1": f1}
	names := []string{"def", "ref", "dup", "f1"}
	var sharedDoc []byte // text for Highlight
	sharedDoc = spareBytes(compile.PoToString(cloneEntries(w.def)))
	w.bytes = append(w.bytes, sharedDoc)

	// Compilation.
	for i := 0; i < 3; i++ {
		var po_ []compile.PoOption
		for _, o := range []compile.PoOption{
			compile.PoWithOmitHeader(true), compile.PoWithManageHeader(true), compile.PoWithWordWrap(true), compile.PoWithHighlight(compile.TestHighlight),
			compile.PoWithHighlight(compile.DefaultHighlight), compile.PoWithCommentFuzzy(true), compile.PoWithMsgstrPrefix("p"), compile.PoWithAddLocation(compile.PoLocationModeFile),
			compile.PoWithHeaderFields(true), compile.PoWithHeaderComments(true), compile.PoWithVerbose(true),
			func(c *compile.PoConfig) { c.HeaderConfig = &w.hcfg },
		} {
			if t.p(30) {
				po_ = append(po_, o)
			}
		}
		f := pick(t.G, w.files)
		add("PoToBytes", func() *result { return bytesResult(compile.PoToBytes(f, po_...), nil) })
		add("PoToString", func() *result { return text(compile.PoToString(f.Entries, po_...)) })
		add("PoToWriter", func() *result {
			var b bytes.Buffer
			err := compile.PoToWriter(*f, &b, po_...)
			return bytesResult(b.Bytes(), err)
		})
		var mo_ []compile.MoOption
		for _, o := range []compile.MoOption{
			compile.MoWithEndianness(compile.BigEndian), compile.MoWithHashTable(false), compile.MoWithDepureEntries(false), compile.MoWithSortEntries(false),
		} {
			if t.p(40) {
				mo_ = append(mo_, o)
			}
		}
		add("MoToBytes", func() *result { return bytesResult(compile.MoToBytes(f, mo_...), nil) })
		add("MoToWriter", func() *result {
			var b bytes.Buffer
			err := compile.MoToWriter(f.Entries, &b, mo_...)
			return bytesResult(b.Bytes(), err)
		})
	}
	add("compilers of one file", func() *result {
		c := compile.NewPo(w.files[3])
		m := compile.NewMo(w.files[3])
		return text(c.ToString() + c.ToStringWithOptions(compile.PoWithOmitHeader(true)) + c.ToString() + string(m.ToBytes()) + string(c.ToBytes()))
	})
	add("Highlight", func() *result {
		b, err := compile.Highlight(compile.DefaultHighlight, "x", string(sharedDoc))
		return bytesResult(b, err)
	})
	add("HighlightFromBytes", func() *result {
		b, err := compile.HighlightFromBytes(compile.TestHighlight, "x", sharedDoc)
		return bytesResult(b, err)
	})
	// Parsing.
	var pp []parse.PoOption
	for _, o := range []parse.PoOption{
		parse.PoWithCleanDuplicates(false), parse.PoWithSkipHeader(true), parse.PoWithIgnoreComments(true), parse.PoWithIgnoreAllComments(true), parse.PoWithParseObsolete(false),
	} {
		if t.p(25) {
			pp = append(pp, o)
		}
	}
	add("PoFromBytes", func() *result { f, err := parse.PoFromBytes(poB, "x", pp...); return fileResult(f, true, err) })
	add("PoFromReader", func() *result {
		f, err := parse.PoFromReader(bytes.NewReader(poB), "x")
		return fileResult(f, true, err)
	})
	add("PoParser twice", func() *result {
		p := parse.NewPoFromBytes(poB, "x", pp...)
		f1 := p.Parse()
		r1 := fileResult(f1, true, p.Errors()...)
		s := r1.render()
		f2 := p.Parse()
		r2 := fileResult(f2, true, p.Errors()...)
		if f2 != nil {
			r2.attack()
		}
		if r1.render() != s {
			return text("the second result changed the first: " + s + "\n" + r1.render())
		}
		return r1
	})
	add("MoFromBytes", func() *result { f, err := parse.MoFromBytes(moB, "x"); return fileResult(f, true, err) })
	add("MoParser twice", func() *result {
		p := parse.NewMoFromBytes(moB, "x", parse.MoWithMustBeSorted(true))
		f1 := p.Parse()
		r1 := fileResult(f1, true, p.Errors()...)
		s := r1.render()
		f2 := p.Parse()
		r2 := fileResult(f2, true, p.Errors()...)
		if f2 != nil {
			r2.attack()
		}
		if r1.render() != s {
			return text("the second result changed the first: " + s + "\n" + r1.render())
		}
		return r1
	})
	gopts := []goparse.Option{goparse.WithExtractAll(t.p(50)), goparse.WithCleanDuplicates(t.p(50)), goparse.WithNoHeader(t.p(30))}
	if t.p(50) {
		gopts = append(gopts, goparse.WithCustomHeader(&w.hdr))
	}
	if t.p(50) {
		gopts = append(gopts, goparse.WithHeaderConfig(&w.hcfg))
	}
	add("goparse.FromBytes", func() *result {
		f, err := goparse.FromBytes(goB, "x.go", gopts...)
		return fileResult(f, true, err)
	})
	add("goparse.Parser twice", func() *result {
		p, err := goparse.NewParserFromBytes(goB, "x.go", gopts...)
		if err != nil {
			return text(err.Error())
		}
		f1 := p.Parse()
		r1 := fileResult(f1, true, p.Errors()...)
		s := r1.render()
		r2 := fileResult(p.Parse(), true, p.Errors()...)
		r2.attack()
		r3 := entriesResult(p.Files()[0].Entries(), true, "")
		r3.attack()
		if r1.render() != s {
			return text("a later result changed the first: " + s + "\n" + r1.render())
		}
		return r1
	})
	// Merging.
	for i := 0; i < 3; i++ {
		mc := po.MergeConfig{FuzzyMatch: t.p(50), KeepPreviousIDs: t.p(30), Sort: t.p(50), SortMode: po.SortMode(t.Intn(7))}
		if t.p(20) { // no known mode
			mc.SortMode = po.SortMode(t.Intn(1<<20) - 1<<10)
		}
		a, b := w.def, w.ref
		if i == 2 {
			a, b = allLists[pick(t.G, names)], allLists[pick(t.G, names)]
		}
		add("MergeWithConfig", func() *result { return entriesResult(po.MergeWithConfig(mc, a, b), false, "") })
	}
	add("Merge", func() *result { return entriesResult(po.Merge(w.def, w.ref), false, "") })
	add("Merge with nothing", func() *result {
		return entriesResult(po.Merge(w.def, nil, po.MergeWithSort(true)), false, "")
	})
	add("Merge of nothing", func() *result { return entriesResult(po.Merge(nil, w.ref), false, "") })
	for i := 0; i < 3; i++ {
		var fs []*po.File
		for j, n := 0, t.Intn(4); j < n; j++ {
			fs = append(fs, pick(t.G, w.files))
		}
		mo := []po.MsgcatMergeOption{po.MsgcatMergeWithUseFirst(t.p(30))}
		if t.p(40) {
			mo = append(mo, po.MsgcatMergeWithLessThan(uint(t.Intn(4))), po.MsgcatMergeWithMoreThan(uint(t.Intn(2))))
		} else {
			mo = append(mo, po.MsgcatMergeWithLessThan(math.MaxUint))
		}
		add("MsgcatMergeFiles", func() *result { return entriesResult(po.MsgcatMergeFiles(fs, mo...), false, "") })
	}
	// Duplicates.
	for _, n := range names {
		l := allLists[n]
		add("Solve "+n, func() *result { return entriesResult(l.Solve(), false, "") })
		add("CleanDuplicates "+n, func() *result { return entriesResult(l.CleanDuplicates(), false, "") })
		add("Validate "+n, func() *result {
			return text(fmt.Sprint(errors.Join(l.Validate()...), errors.Join(l.CatchDuplicateEntries()...), l.HasDuplicates()))
		})
		add("queries "+n, func() *result {
			var b strings.Builder
			for _, e := range l {
				fmt.Fprint(&b, l.Index(e.ID, e.Context), l.IndexByUnifiedID(e.UnifiedID()), l.ContainsUnifiedID(e.ID), l.FuzzyFind(e.ID, e.Context), e.IsFuzzy(), e.IsPlural(), e.IsHeader(), e.HasComments(), e.HasContext())
				fmt.Fprintf(&b, "%q %q %q %d %d %v", e.UnifiedID(), e.FullUnifiedID(), e.UnifiedStr(), e.Hash(), e.FullHash(), e.Validate())
				fmt.Fprint(&b, e.Plurals.IsSorted(), e.Locations.IsSorted(), e.Locations.Equal(e.Locations))
				x, y := l.BestIDRatio(e)
				x2, y2 := l.BestStrRatio(e)
				fmt.Fprint(&b, x, y, x2, y2)
			}
			fmt.Fprint(&b, l.IsSorted(), l.HasHeader(), l.IsSortedFunc(po.CompareEntryByFile))
			return text(b.String())
		})
		add("plural forms "+n, func() *result {
			var b strings.Builder
			for _, e := range l {
				fmt.Fprintf(&b, "%q", e.Plurals.Solve())
			}
			return text(b.String())
		})
		add("String "+n, func() *result { return text(l.String()) })
		add("header "+n, func() *result { return headerResult(l.Header()) })
	}
	prior := allLists[pick(t.G, names)]
	add("SolveFunc MergeUsingPriorAsBase", func() *result {
		return entriesResult(w.dup.SolveFunc(po.MergeUsingPriorAsBase(prior)), false, "")
	})
	add("SolveFunc MergeUsingPriorityOrFallback", func() *result {
		return entriesResult(w.dup.SolveFunc(po.MergeUsingPriorityOrFallback(prior)), false, "")
	})
	add("SolveFunc MergeAndMarkObsoleteIfNotPrioritized", func() *result {
		return entriesResult(w.dup.SolveFunc(po.MergeAndMarkObsoleteIfNotPrioritized([]string{"a", "b"})), false, "")
	})
	add("SolveFunc MergeIfInPriorityList", func() *result {
		return entriesResult(w.dup.SolveFunc(po.MergeIfInPriorityList([]string{"a", "b"})), false, "")
	})
	// Comparison.
	add("comparisons", func() *result {
		var b strings.Builder
		for i := range w.bigE {
			for _, j := range []int{0, i / 2, len(w.bigE) - 1} {
				x, y := w.bigE[i], w.bigE[j]
				fmt.Fprint(&b, x.Equal(y), po.CompareEntry(x, y), po.CompareEntryByStr(x, y), po.CompareEntryByLocation(x, y), po.CompareEntryByFile(x, y),
					po.CompareEntryByLine(x, y), po.CompareEntryByID(x, y), po.CompareEntryByFuzzy(x, y), po.EntryIDMatchRatio(x, y), po.EntryStrMatchRatio(x, y))
			}
		}
		fmt.Fprint(&b, w.def.Equal(w.ref), w.dup.Equal(w.dup), w.files[0].Equal(*w.files[1]), po.CompareEntriesFunc(w.def, w.ref, po.CompareEntry))
		return text(b.String())
	})
	add("file queries", func() *result {
		var b strings.Builder
		for _, f := range w.files {
			fmt.Fprint(&b, f.String(), errors.Join(f.Validate()...), errors.Join(f.CatchDuplicateEntries()...), f.Load("a", ""), f.LoadByUnifiedID("a"))
		}
		return text(b.String())
	})
	// Headers.
	add("ToConfig", func() *result { return cfgResult(w.hdr.ToConfig()) })
	add("ToEntry", func() *result {
		return entriesResult(po.Entries{w.hdr.ToEntry()}, true, fmt.Sprint(w.hdr.Nplurals(), w.hdr.Load("X-One"), w.hdr.String()))
	})
	add("ToHeader", func() *result { return headerResult(w.hcfg.ToHeader()) })
	add("config", func() *result { return text(fmt.Sprint(errors.Join(w.hcfg.Validate()...), w.hcfg.String())) })
	add("default configs", func() *result {
		c, d := po.DefaultHeaderConfig(), po.DefaultTemplateHeaderConfig()
		c.Language, d.Language = "JUNK", "JUNK"
		return text(fmt.Sprint(po.DefaultHeaderConfig(), po.DefaultTemplateHeaderConfig(), po.NewHeader()))
	})
	return w
}

func runC13(t *T) {
	t.logLong, t.scaleTop = 11, 7 // similarity ratios take quadratic time
	w := t.world()
	snap := w.snapshot()
	before := map[string]string{}
	for round := 0; round < 2; round++ {
		for i, op := range w.ops {
			t.Note("%s", op.name)
			t.Ev("operations")
			r1 := op.run()
			s1 := r1.render()
			if s := w.snapshot(); s != snap {
				t.Fail("input", "%s changed its input\n%s", op.name, firstDiff(snap, s))
			}
			t.EvN("snapshots", 2)
			if strings.Contains(s1, "result changed the first") {
				t.Fail("result-shared", "%s: %s", op.name, s1)
			}
			k := fmt.Sprint(i)
			if p, ok := before[k]; ok && p != s1 {
				t.Fail("repeat", "%s gives another result later\n%s", op.name, firstDiff(p, s1))
			}
			before[k] = s1
			r2 := op.run()
			if s2 := r2.render(); s2 != s1 {
				t.Fail("repeat", "%s gives another result the second time\n%s", op.name, firstDiff(s1, s2))
			}
			if x := r1.render(); x != s1 {
				t.Fail("earlier-result", "repeating %s changed the earlier result\n%s", op.name, firstDiff(s1, x))
			}
			if r2.attack != nil {
				t.Ev("attacked-results")
				r2.attack()
				if x := r1.render(); x != s1 {
					t.Fail("shared-result", "overwriting a result of %s changed another one\n%s", op.name, firstDiff(s1, x))
				}
			}
			if s := w.snapshot(); s != snap {
				t.Fail("input-after", "%s changed its input when repeated or when its result was overwritten\n%s", op.name, firstDiff(snap, s))
			}
		}
	}
	t.Sig(snap)
	t.Sample(func() string { return snap })
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) && i < len(lb); i++ {
		if la[i] != lb[i] {
			return fmt.Sprintf("line %d:\n- %s\n+ %s", i, clip(la[i], 1500), clip(lb[i], 1500))
		}
	}
	return fmt.Sprintf("%d and %d lines", len(la), len(lb))
}

func runC14(t *T) {
	t.logLong, t.scale = 11, "" // similarity ratios take quadratic time
	t.Ev("rounds")
	w := t.world()
	// The first case of a worker starts with nothing initialised.
	cold := t.Case < 8 || t.p(20)
	want := make([]string, len(w.ops))
	reference := func() {
		for i, op := range w.ops {
			want[i] = op.run().render()
		}
	}
	if cold {
		t.Ev("cold-rounds")
	} else {
		reference()
	}
	n := 4 + t.Intn(8)
	rounds := 3
	var wg sync.WaitGroup
	type bad struct{ op, got, want string }
	type outcome struct {
		op  int
		out string
	}
	outcomes := make([][]outcome, n)
	panics := make(chan string, n)
	start := make(chan struct{})
	running := make([]int32, len(w.ops))
	var mu sync.Mutex
	pairs := map[[2]int]bool{}
	watch := !cold && t.p(30) // the watching itself orders the operations, so not always
	for g := 0; g < n; g++ {
		var order []int
		for r := 0; r < rounds; r++ {
			order = append(order, t.Perm(len(w.ops))...)
		}
		if t.p(30) { // many at the same time
			k := t.Intn(len(w.ops))
			for i := range order {
				if i%3 == 0 {
					order[i] = k
				}
			}
		}
		yield := t.p(50)
		wg.Add(1)
		g := g
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					panics <- fmt.Sprint(r)
				}
			}()
			<-start
			for _, i := range order {
				if watch {
					mu.Lock()
					for j, c := range running {
						if c > 0 {
							pairs[[2]int{min(i, j), max(i, j)}] = true
						}
					}
					running[i]++
					mu.Unlock()
				}
				r := w.ops[i].run()
				if watch {
					mu.Lock()
					running[i]--
					mu.Unlock()
				}
				if yield {
					runtime.Gosched()
				}
				if s := r.render(); cold || s != want[i] {
					outcomes[g] = append(outcomes[g], outcome{i, s})
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	close(panics)
	if cold {
		reference()
	}
	for p := range panics {
		t.Fail("panic", "panic in a goroutine: %s", p)
	}
	t.EvN("concurrent-operations", n*rounds*len(w.ops))
	var all []bad
	for _, os := range outcomes {
		for _, o := range os {
			if o.out != want[o.op] {
				all = append(all, bad{w.ops[o.op].name, o.out, want[o.op]})
			}
		}
	}
	if len(all) > 0 {
		sort.Slice(all, func(i, j int) bool { return all[i].op < all[j].op })
		t.Fail("result", "%s gives another result concurrently\n%s", all[0].op, firstDiff(all[0].want, all[0].got))
	}
	if watch {
		names := map[string]bool{}
		for p := range pairs {
			names[w.ops[p[0]].name+"+"+w.ops[p[1]].name] = true
		}
		t.EvN("overlapping-pairs", len(names))
	}
	t.Sig(w.snapshot(), fmt.Sprint(n))
	t.Sample(func() string { return fmt.Sprintf("%d goroutines, %d operations each", n, rounds*len(w.ops)) })
}
