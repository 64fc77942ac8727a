package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	register(&Check{
		ID:    "C39",
		Rule:  "chains of operations (reading PO, MO and Go documents, merging, concatenating, resolving, cleaning, sorting, file API, header conversion) on lists whose messages share nothing; after each one the memory of every list of every message, spare capacity included, is compared with all others and some messages are changed in every way in place while the others are watched; the default configurations are changed the same way; non-trivial: a result of two messages or more",
		Quick: 40000, Thorough: 800000,
		Run:    runC39,
		Need:   map[string]int{"operations": 80000, "lists": 2000000, "changed-messages": 70000, "defaults": 20000, "extracted": 12000, "merged": 12000, "fuzzy-matched": 5000, "concatenated": 12000, "read": 12000},
		Assume: []string{"the lists given to an operation share nothing inside a list; a result can share the lists inside its messages with the inputs"},
	})
}

// memory is the region behind a list.
type memory struct {
	from, to uintptr
	name     string
	index    int
}

// regions are the memory regions behind the lists of the messages.
func regions(es po.Entries) (l []memory) {
	add := func(i int, name string, p unsafe.Pointer, c int, size uintptr) {
		if c > 0 {
			l = append(l, memory{uintptr(p), uintptr(p) + uintptr(c)*size, name, i})
		}
	}
	for i := range es {
		e := &es[i]
		for _, x := range []struct {
			n string
			l []string
		}{{"Flags", e.Flags}, {"Comments", e.Comments}, {"ExtractedComments", e.ExtractedComments}, {"Previous", e.Previous}} {
			add(i, x.n, unsafe.Pointer(unsafe.SliceData(x.l)), cap(x.l), unsafe.Sizeof(""))
		}
		add(i, "Locations", unsafe.Pointer(unsafe.SliceData(e.Locations)), cap(e.Locations), unsafe.Sizeof(po.Location{}))
		add(i, "Plurals", unsafe.Pointer(unsafe.SliceData(e.Plurals)), cap(e.Plurals), unsafe.Sizeof(po.PluralEntry{}))
	}
	return l
}

// overlap names two lists that share memory.
func overlap(es po.Entries) string {
	l := regions(es)
	sort.Slice(l, func(i, j int) bool { return l[i].from < l[j].from })
	for i := 1; i < len(l); i++ {
		if a, b := l[i-1], l[i]; a.to > b.from {
			return fmt.Sprintf("%s of message %d and %s of message %d share memory", a.name, a.index, b.name, b.index)
		}
	}
	return ""
}

// change replaces and extends everything inside a message.
func change(e *po.Entry) {
	for _, l := range []*[]string{&e.Flags, &e.Comments, &e.ExtractedComments, &e.Previous} {
		for j := range *l {
			(*l)[j] = "JUNK"
		}
		*l = append(*l, "JUNK", "JUNK", "JUNK")
	}
	for j := range e.Locations {
		e.Locations[j] = po.Location{File: "JUNK", Line: 7}
	}
	e.Locations = append(e.Locations, po.Location{File: "JUNK"}, po.Location{File: "JUNK"})
	e.Locations.Sort()
	for j := range e.Plurals {
		e.Plurals[j] = po.PluralEntry{ID: 7, Str: "JUNK"}
	}
	e.Plurals = append(e.Plurals, po.PluralEntry{Str: "JUNK"}, po.PluralEntry{Str: "JUNK"})
	e.Plurals.Sort()
	e.ID, e.Context, e.Plural, e.Str, e.Obsolete = "JUNK", "JUNK", "JUNK", "JUNK", !e.Obsolete
}

// roomy gives some of the lists of the messages spare capacity of their own.
func (g *G) roomy(es po.Entries) po.Entries {
	es = cloneEntries(es)
	for i := range es {
		e := &es[i]
		for _, l := range []*[]string{&e.Flags, &e.Comments, &e.ExtractedComments, &e.Previous} {
			if g.p(30) {
				*l = append(make([]string, 0, len(*l)+g.Intn(5)), *l...)
			}
		}
		if g.p(30) {
			e.Locations = append(make(po.Locations, 0, len(e.Locations)+g.Intn(5)), e.Locations...)
		}
		if g.p(30) {
			e.Plurals = append(make(po.PluralEntries, 0, len(e.Plurals)+g.Intn(5)), e.Plurals...)
		}
	}
	return es
}

// poke writes into everything that can be reached from a configuration.
func poke(v reflect.Value, depth int) {
	if depth > 6 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() && strings.Contains(v.Type().String(), "po.") {
			poke(v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				poke(v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			poke(v.Index(i), depth+1)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("JUNK")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int64, reflect.Int32:
		if v.CanSet() {
			v.SetInt(77)
		}
	case reflect.Uint, reflect.Uint64, reflect.Uint32:
		if v.CanSet() {
			v.SetUint(77)
		}
	}
}

// configShown renders a configuration without the addresses in it.
func configShown(c any) string {
	v := reflect.ValueOf(c)
	var b strings.Builder
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() || !strings.Contains(v.Type().String(), "po.") {
				fmt.Fprint(&b, v.IsNil(), ",")
				return
			}
			walk(v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if f := v.Type().Field(i); f.IsExported() {
					fmt.Fprint(&b, f.Name, ":")
					walk(v.Field(i))
				}
			}
		case reflect.Slice:
			fmt.Fprint(&b, v.IsNil(), "[")
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
			b.WriteString("],")
		case reflect.Map, reflect.Interface, reflect.Func:
			fmt.Fprint(&b, v.IsNil(), ",")
		default:
			fmt.Fprintf(&b, "%v,", v)
		}
	}
	walk(v)
	return b.String()
}

var defaultConfigs = []struct {
	name string
	new  func() any
}{
	{"po.DefaultHeaderConfig", func() any { c := po.DefaultHeaderConfig(); return &c }},
	{"po.DefaultTemplateHeaderConfig", func() any { c := po.DefaultTemplateHeaderConfig(); return &c }},
	{"po.HeaderConfigFromOptions", func() any { c := po.HeaderConfigFromOptions(); return &c }},
	{"po.DefaultMergeConfig", func() any { c := po.DefaultMergeConfig(); return &c }},
	{"po.DefaultMsgcatMergeConfig", func() any { c := po.DefaultMsgcatMergeConfig(); return &c }},
	{"parse.DefaultPoConfig", func() any { c := parse.DefaultPoConfig(); return &c }},
	{"parse.DefaultMoConfig", func() any { c := parse.DefaultMoConfig(); return &c }},
	{"compile.DefaultPoConfig", func() any { c := compile.DefaultPoConfig(); return &c }},
	{"compile.DefaultMoConfig", func() any { c := compile.DefaultMoConfig(); return &c }},
	{"goparse.DefaultConfig", func() any { c := goparse.DefaultConfig(); return &c }},
	{"po.NewHeader", func() any { c := po.NewHeader(); return &c }},
	{"DefaultHeaderConfig().ToHeader", func() any { c := po.DefaultHeaderConfig().ToHeader(); return &c }},
	{"DefaultTemplateHeaderConfig().ToHeader", func() any { c := po.DefaultTemplateHeaderConfig().ToHeader(); return &c }},
	{"compile.NewPo", func() any { c := compile.NewPo(&po.File{}); return &c.Config }},
	{"compile.NewMo", func() any { c := compile.NewMo(&po.File{}); return &c.Config }},
	{"header of an extraction", func() any {
		f, err := goparse.FromString("package x\n", "x.go")
		if err != nil || len(f.Entries) != 1 {
			panic(fmt.Sprint(f, err))
		}
		return &f.Entries[0]
	}},
}

// optionUses make values with options, which concern only these values.
var optionUses = []func(t *T){
	func(t *T) {
		po.DefaultHeaderConfig(po.HeaderWithLanguage("xx"), po.HeaderWithNplurals(5), po.HeaderWithPlural("n"), po.HeaderWithXGenerator("x"), func(h *po.HeaderConfig) {
			h.ExtraFields = append(h.ExtraFields, po.HeaderField{Key: "X-Junk", Value: "JUNK"})
		})
	},
	func(t *T) {
		po.DefaultTemplateHeaderConfig(po.HeaderWithTemplate(false), po.HeaderWithCharset("JUNK"), po.HeaderWithLanguageTeam("x"), func(h *po.HeaderConfig) {
			h.ExtraFields = append(h.ExtraFields, po.HeaderField{Key: "X-Junk", Value: "JUNK"})
		})
	},
	func(t *T) {
		h := po.NewHeader(po.HeaderWithLanguage("xx"), po.HeaderWithLastTranslator("x"), po.HeaderWithProjectIDVersion("x"))
		h.Set("Language", "yy")
		h.Register("X-Junk", "JUNK")
	},
	func(t *T) {
		po.DefaultMergeConfig(po.MergeWithFuzzyMatch(t.p(50)), po.MergeWithKeepPreviousIDs(true), po.MergeWithSort(t.p(50)))
	},
	func(t *T) {
		po.DefaultMsgcatMergeConfig(po.MsgcatMergeWithUseFirst(true), po.MsgcatMergeWithLessThan(3), po.MsgcatMergeWithMoreThan(9))
	},
	func(t *T) {
		parse.PoFromString("msgid \"a\"\nmsgstr \"b\"\n", "x", parse.PoWithSkipHeader(true), parse.PoWithIgnoreAllComments(true), parse.PoWithCleanDuplicates(t.p(50)), parse.PoWithParseObsolete(t.p(50)))
	},
	func(t *T) {
		parse.MoFromBytes(compile.MoToBytes(po.Entries{{ID: "a", Str: "b"}}), "x", parse.MoWithMustBeSorted(t.p(50)))
	},
	func(t *T) {
		compile.PoToString(po.Entries{{ID: "a", Str: "b"}}, compile.PoWithHighlight(compile.TestHighlight), compile.PoWithWordWrap(true), compile.PoWithManageHeader(true), compile.PoWithMsgstrPrefix("x"))
	},
	func(t *T) {
		compile.MoToBytes(po.Entries{{ID: "a", Str: "b"}}, compile.MoWithEndianness(compile.BigEndian), compile.MoWithHashTable(t.p(50)), compile.MoWithSortEntries(t.p(50)), compile.MoWithDepureEntries(t.p(50)))
	},
	func(t *T) {
		goparse.FromString("package x\n", "x.go", goparse.WithExtractAll(true), goparse.WithNoHeader(t.p(50)), goparse.WithVerbose(t.p(50)), goparse.WithExclude("JUNK"))
	},
}

func (t *T) defaults() {
	shown := make([]string, len(defaultConfigs))
	for i, c := range defaultConfigs {
		shown[i] = configShown(reflect.ValueOf(c.new()).Elem().Interface())
	}
	for k := 0; k < 4; k++ {
		d := defaultConfigs[t.Intn(len(defaultConfigs))]
		c := d.new()
		for _, f := range optionUses { // options
			if t.p(20) {
				f(t)
			}
		}
		poke(reflect.ValueOf(c), 0)
		if h, ok := c.(*po.Header); ok {
			h.Set("Language", "JUNK")
			h.Register("X-Junk", "JUNK")
			_ = append(h.Fields[:len(h.Fields)/2], po.HeaderField{Key: "JUNK"})
		}
		if e, ok := c.(*po.Entry); ok {
			change(e)
		}
		t.Ev("defaults")
		for i, c := range defaultConfigs {
			if now := configShown(reflect.ValueOf(c.new()).Elem().Interface()); now != shown[i] {
				t.Fail("defaults", "changing a value of %s changed what %s gives:\n%s\n%s", d.name, c.name, shown[i], now)
			}
		}
	}
}

func runC39(t *T) {
	t.logLong, t.scaleTop = 11, 7 // similarity ratios take quadratic time
	if t.p(15) {
		t.defaults()
	}
	var cur po.Entries
	var steps []string
	fresh := func() po.Entries {
		switch t.Intn(3) {
		case 0:
			return t.roomy(t.entries(1+t.Intn(6), entryOpt{}))
		case 1:
			return t.roomy(t.dupEntries(6))
		}
		d, _ := t.mergeInput()
		return t.roomy(d)
	}
	read := func(es po.Entries) po.Entries {
		t.Ev("read")
		switch t.Intn(3) {
		case 0:
			o, tr := t.moPairs(1 + t.Intn(6))
			raw := moLayout(t.G, orders(pick(t.G, []compile.Endianness{compile.LittleEndian, compile.BigEndian})), o, tr)
			f, err := parse.MoFromBytes(raw, "x.mo")
			if err != nil {
				t.Fail("mo", "%v\n%q", err, raw)
			}
			steps = append(steps, "read MO")
			return f.Entries
		case 1:
			es = t.entries(2+t.Intn(5), entryOpt{})
		}
		var opts []parse.PoOption
		for _, o := range []parse.PoOption{
			parse.PoWithCleanDuplicates(false), parse.PoWithCleanDuplicates(true), parse.PoWithSkipHeader(true), parse.PoWithIgnoreComments(true), parse.PoWithIgnoreAllComments(true), parse.PoWithParseObsolete(t.p(50)),
		} {
			if t.p(15) {
				opts = append(opts, o)
			}
		}
		var text string
		if es = cloneEntries(es); t.p(50) {
			text = compile.PoToString(es)
		} else {
			var rest po.Entries
			for _, e := range es {
				if uid(e) != "" || e.ID != "" {
					rest = append(rest, e)
				}
			}
			text = t.layout().write(rest)
		}
		f, err := parse.PoFromString(text, "x.po", opts...)
		steps = append(steps, fmt.Sprintf("read PO %s", clip(text, 1500)))
		if err != nil {
			return nil // repeated header, for example
		}
		return f.Entries
	}
	cur = fresh()
	if o := overlap(cur); o != "" {
		t.Fail("harness", "the input shares memory: %s", o)
	}
	for n := 1 + t.Intn(4); n > 0; n-- {
		t.Ev("operations")
		op := t.Intn(14)
		t.Note("%d after %q", op, steps)
		switch op {
		case 0, 1:
			cur = read(cur)
		case 2, 3: // merge
			ref := fresh()
			if t.p(60) {
				ref = nil
				for _, e := range t.roomy(cur) {
					if t.p(15) {
						continue
					}
					if t.p(40) && !e.IsHeader() {
						e.ID += pick(t.G, []string{"", " new", "!", "s"})
						if t.p(40) {
							e.Plural += "p"
							e.Plurals = nil
						}
					}
					e.Str, e.Obsolete = "", false
					for k := range e.Plurals {
						e.Plurals[k].Str = ""
					}
					for c := 0; c < 3; c++ { // several similar ones
						ref = append(ref, cloneEntries(po.Entries{e})[0])
						if !t.p(30) || e.IsHeader() {
							break
						}
						e.ID += "."
					}
				}
			}
			mc := po.MergeConfig{FuzzyMatch: t.p(70), KeepPreviousIDs: t.p(30), Sort: t.p(30), SortMode: po.SortMode(t.Intn(7))}
			steps = append(steps, fmt.Sprintf("merge %+v with\n%s", mc, show(ref)))
			fuzzy := 0
			for _, e := range cur {
				if e.IsFuzzy() {
					fuzzy++
				}
			}
			cur = po.MergeWithConfig(mc, cur, ref)
			for _, e := range cur {
				if e.IsFuzzy() {
					fuzzy--
				}
			}
			if fuzzy < 0 {
				t.Ev("fuzzy-matched")
			}
			t.Ev("merged")
		case 4, 5: // concatenate
			fs := []*po.File{{Name: "a.po", Entries: cur}}
			for i := t.Intn(3); i > 0; i-- {
				l := fresh()
				if t.p(50) {
					l = t.roomy(cur)
					for i := range l {
						if t.p(40) {
							l[i].Str += "x"
						}
						if t.p(40) {
							l[i].Comments = append(l[i].Comments, "x")
						}
					}
				}
				fs = append(fs, &po.File{Name: fmt.Sprintf("b%d.po", i), Entries: l})
			}
			t.Shuffle(len(fs), func(a, b int) { fs[a], fs[b] = fs[b], fs[a] })
			opts := []po.MsgcatMergeOption{po.MsgcatMergeWithUseFirst(t.p(30)), po.MsgcatMergeWithLessThan(math.MaxUint)}
			if t.p(20) {
				opts = append(opts, po.MsgcatMergeWithMoreThan(1))
			}
			for _, f := range fs {
				steps = append(steps, fmt.Sprintf("concatenate %s\n%s", f.Name, show(f.Entries)))
			}
			cur = po.MsgcatMergeFiles(fs, opts...)
			t.Ev("concatenated")
		case 6:
			steps = append(steps, "solve")
			cur = cur.Solve()
		case 7:
			prior := fresh()
			steps = append(steps, "solve with priority")
			cur = cur.SolveFunc(pick(t.G, []po.MergeFunc{
				po.MergeUsingPriorAsBase(prior), po.MergeUsingPriorityOrFallback(prior), po.MergeAndMarkObsoleteIfNotPrioritized([]string{"a"}), po.MergeIfInPriorityList([]string{"a"}),
			}))
		case 8:
			i := t.Intn(5)
			steps = append(steps, fmt.Sprint("clean ", i))
			cur = []func() po.Entries{cur.CleanDuplicates, cur.CleanObsoletes, cur.CleanEmpties, cur.CleanFuzzy, cur.CutHeader}[i]()
		case 9:
			m := po.SortMode(t.Intn(7))
			steps = append(steps, fmt.Sprint("sort ", m))
			cur = m.SortMethod(cur)()
		case 10: // file API
			f := po.NewFile("x.po", cur...)
			for i := 1 + t.Intn(3); i > 0; i-- {
				e := t.roomy(t.entries(1, entryOpt{}))[0]
				if t.p(50) && len(cur) > 0 {
					o := pick(t.G, cur)
					e.ID, e.Context = o.ID, o.Context
				}
				f.Set(e.ID, e.Context, e)
			}
			steps = append(steps, "set")
			cur = f.Entries
		case 11: // header
			h := t.header()
			var rest po.Entries
			for _, e := range cur {
				if !e.IsHeader() {
					rest = append(rest, e)
				}
			}
			x := po.EntryToHeader(h)
			a, b := x.ToEntry(), x.ToConfig().ToHeader().ToEntry()
			b.ID, b.Context = "HEADER", "HEADER"
			steps = append(steps, "header")
			cur = append(po.Entries{a, b}, rest...)
		case 12, 13: // extraction
			steps = append(steps, "extract")
			cur = t.extracted(&steps)
			t.Ev("extracted")
		}
		if len(cur) == 0 {
			cur = fresh()
		}
		ctx := func() string { return fmt.Sprintf("%s\nafter\n%s", show(cur), strings.Join(steps, "\n")) }
		t.EvN("lists", 6*len(cur))
		if o := overlap(cur); o != "" {
			t.Fail("shared-memory", "%s\n%s", o, ctx())
		}
		// The effect itself.
		if len(cur) > 1 {
			work := append(po.Entries{}, cur...)
			i := t.Intn(len(work))
			before := cloneEntries(work)
			shown := show(before)
			change(&work[i])
			t.Ev("changed-messages")
			after := append(po.Entries{}, work...)
			after[i] = before[i]
			if s := show(after); s != shown {
				t.Fail("shared", "changing message %d changed another one\n%s\n%s", i, firstDiff(shown, s), ctx())
			}
			work[i] = before[i]
			cur = work
			t.Sig(shown)
		}
	}
	t.Sample(func() string { return strings.Join(steps, "\n") })
}

// extracted are the messages of Go files with many equal strings.
func (t *T) extracted(steps *[]string) po.Entries {
	opts := []goparse.Option{goparse.WithExtractAll(t.p(50)), goparse.WithCleanDuplicates(t.p(60)), goparse.WithNoHeader(t.p(40))}
	var files []string
	for i, n := 0, 1+t.Intn(3); i < n; i++ {
		if t.p(40) { // any source
			src := t.goFile(!t.p(10), t.Intn(8)).b.String()
			files = append(files, src)
			*steps = append(*steps, src)
			continue
		}
		var sb strings.Builder
		end := func() string { return pick(t.G, []string{"\n", "\n", "; "}) }
		sb.WriteString("package x\nimport \"github.com/leonelquinteros/gotext\"\nfunc f() {\n")
		for i, n := 0, 1+t.Intn(8); i < n; i++ {
			switch t.Intn(4) {
			case 0:
				fmt.Fprintf(&sb, "gotext.GetN(%q, %q, 2)%s", pick(t.G, words), pick(t.G, words), end())
			case 1:
				fmt.Fprintf(&sb, "gotext.GetC(%q, %q)%s", pick(t.G, words), pick(t.G, words), end())
			case 2:
				fmt.Fprintf(&sb, "gotext.Get(%q)%s", pick(t.G, words), end())
			case 3:
				fmt.Fprintf(&sb, "_ = %q%s", pick(t.G, words), end())
			}
		}
		sb.WriteString("\n}\n")
		files = append(files, sb.String())
		*steps = append(*steps, sb.String())
	}
	if len(files) == 1 {
		var f *po.File
		var err error
		if t.p(50) {
			f, err = goparse.FromString(files[0], "x.go", opts...)
		} else {
			f, err = goparse.FromReader(bytes.NewReader([]byte(files[0])), "x.go", opts...)
		}
		if err != nil {
			t.Fail("extract", "%v\n%s", err, files[0])
		}
		return f.Entries
	}
	dir := filepath.Join(t.Dir, "src")
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0o777)
	defer os.RemoveAll(dir)
	var paths []string
	for i, f := range files {
		p := filepath.Join(dir, fmt.Sprintf("f%d.go", i))
		if err := os.WriteFile(p, []byte(f), 0o666); err != nil {
			panic(err)
		}
		paths = append(paths, p)
	}
	p, err := goparse.NewParserFromPaths(paths, opts...)
	if err != nil {
		t.Fail("extract", "%v", err)
	}
	f := p.Parse()
	if len(p.Errors()) > 0 {
		t.Fail("extract", "%v", p.Errors())
	}
	return f.Entries
}
