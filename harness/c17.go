package main

import (
	"bytes"
	"errors"
	"fmt"
	"log"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	register(&Check{
		ID:    "C17",
		Rule:  "random sequences of temporary-option calls (some failing), applies and restores on the five components, compared after every step with a model of the configuration and with fresh components; non-trivial: every case",
		Quick: 12000, Thorough: 150000,
		Run:    runC17,
		Need:   map[string]int{"steps": 120000, "temporary-calls": 40000, "restores": 16000, "whole-config-options": 16000, "failing-calls": 4000},
		Assume: []string{"the exported fields of a configuration are its observable state; the saved one is observed by restoring"},
	})
}

// exported renders the exported fields of a configuration.
func exported(c any) string {
	v := reflect.ValueOf(c)
	var b strings.Builder
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if !f.IsExported() {
			continue
		}
		x := v.Field(i)
		switch x.Kind() {
		case reflect.Pointer, reflect.Map, reflect.Func:
			fmt.Fprintf(&b, "%s=%#x ", f.Name, x.Pointer())
		default:
			fmt.Fprintf(&b, "%s=%#v ", f.Name, x.Interface())
		}
	}
	return b.String()
}

type cfgState[C any] struct {
	fields C
	prev   *cfgState[C]
}

// loggers record what the components log.
type loggers struct {
	bufs [3]bytes.Buffer
	logs [3]*log.Logger
}

func newLoggers() *loggers {
	l := &loggers{}
	for i := range l.logs {
		l.logs[i] = log.New(&l.bufs[i], fmt.Sprintf("L%d ", i), 0)
	}
	return l
}

func (l *loggers) take() string {
	var b strings.Builder
	for i := range l.bufs {
		b.Write(l.bufs[i].Bytes())
		l.bufs[i].Reset()
	}
	return b.String()
}

func (l *loggers) pick(g *G) *log.Logger {
	if g.p(20) {
		return nil
	}
	return pick(g, l.logs[:])
}

type component[C any, O ~func(*C)] struct {
	name    string
	cfg     func() C
	apply   func(...O)
	restore func()
	option  func() O                                      // a random option
	replace func(C) O                                     // the option that replaces everything
	base    func() C                                      // an initial configuration
	call    func(kind int, opts []O) string               // a call with temporary options
	plain   func(kind int) string                         // the same call without options
	fresh   func(kind int, base C, opts []O) (out string) // a new component doing it
	kinds   int
	failing func(kind int) bool
}

func drive[C any, O ~func(*C)](t *T, c component[C, O]) {
	st := cfgState[C]{fields: c.cfg()}
	var trace []string
	opts := func() ([]O, int) {
		var os []O
		n := t.Intn(5)
		whole := 0
		for i := 0; i < n; i++ {
			switch {
			case t.p(15):
				b := c.base()
				if t.p(40) {
					b = c.cfg() // with what it saved
				}
				os = append(os, c.replace(b))
				whole++
				t.Ev("whole-config-options")
			default:
				os = append(os, c.option())
			}
		}
		return os, whole
	}
	check := func(when string) {
		t.Ev("steps")
		if got, want := exported(c.cfg()), exported(st.fields); got != want {
			t.Fail("config", "%s: %s: configuration is\n%s\nwant\n%s\n%s", c.name, when, got, want, strings.Join(trace, "\n"))
		}
	}
	for i, n := 0, 4+t.Intn(16); i < n; i++ {
		switch t.Intn(7) {
		case 0: // apply
			os, w := opts()
			trace = append(trace, fmt.Sprintf("apply %d options (%d whole)", len(os), w))
			c.apply(os...)
			p := st
			st.prev = &p
			for _, o := range os {
				o(&st.fields)
			}
			check("after apply")
		case 1: // restore
			trace = append(trace, "restore")
			t.Ev("restores")
			c.restore()
			if st.prev != nil {
				st = *st.prev
			}
			check("after restore")
		case 2: // plain call
			k := t.Intn(c.kinds)
			trace = append(trace, fmt.Sprintf("call %d without options", k))
			got := c.plain(k)
			want := c.fresh(k, st.fields, nil)
			if got != want {
				t.Fail("plain-call", "%s: call %d gives\n%s\na fresh one gives\n%s\n%s", c.name, k, got, want, strings.Join(trace, "\n"))
			}
			check("after plain call")
		default:
			os, w := opts()
			k := t.Intn(c.kinds)
			trace = append(trace, fmt.Sprintf("call %d with %d options (%d whole)", k, len(os), w))
			t.Ev("temporary-calls")
			if c.failing(k) {
				t.Ev("failing-calls")
			}
			want := c.fresh(k, st.fields, os)
			got := c.call(k, os)
			if got != want {
				t.Fail("temporary-call", "%s: call %d gives\n%s\na fresh one gives\n%s\n%s", c.name, k, got, want, strings.Join(trace, "\n"))
			}
			check("after temporary call")
		}
	}
	// What is saved below.
	for i := 0; i < 30; i++ {
		c.restore()
		trace = append(trace, "restore")
		if st.prev != nil {
			st = *st.prev
		}
		check("after final restores")
	}
	t.Sig(c.name, strings.Join(trace, ";"), fmt.Sprint(t.Case))
	t.Sample(func() string { return c.name + ": " + strings.Join(trace, "; ") })
}

type failAt struct {
	n   int
	buf bytes.Buffer
}

var errInjected = errors.New("injected fault")

func (w *failAt) Write(p []byte) (int, error) {
	if len(p) > w.n-w.buf.Len() {
		k := w.n - w.buf.Len()
		w.buf.Write(p[:k])
		return k, errInjected
	}
	return w.buf.Write(p)
}

func runC17(t *T) {
	lg := newLoggers()
	path := filepath.Join(t.Dir, "out")
	b := func() bool { return t.p(50) }
	es := append(po.Entries{t.header()}, t.entries(1+t.Intn(5), entryOpt{})...)
	if t.p(30) {
		es = es[1:]
	}
	result := func(out []byte, err error) string {
		return fmt.Sprintf("%q err=%v log=%q", out, err, lg.take())
	}
	// toFile runs a call with a path that exists or not.
	toFile := func(exists bool, f func() error) string {
		os.Remove(path)
		if exists {
			must(os.WriteFile(path, []byte("old content"), 0o600))
		}
		err := f()
		out, _ := os.ReadFile(path)
		os.Remove(path)
		return result(out, err)
	}
	kindFails := func(k int) bool { return k == 3 || k == 4 || k == 5 }
	showFile := func(f *po.File, errs []error) string {
		s := "no file"
		if f != nil {
			s = f.Name + "\n" + show(f.Entries)
		}
		return fmt.Sprintf("%s errs=%v log=%q", s, errs, lg.take())
	}

	switch t.Case % 5 {
	case 0: // PO compiler
		file := &po.File{Name: "x.po", Entries: es}
		hcs := []*po.HeaderConfig{nil, {Language: "es", Nplurals: 3, Plural: "n"}, {Template: true, ProjectIDVersion: "p 1"}}
		option := func() compile.PoOption {
			switch t.Intn(22) {
			case 0:
				return compile.PoWithNoColor(b())
			case 1:
				return compile.PoWithHighlight(pick(t.G, []compile.CSSClassesHighlighting{nil, compile.DefaultHighlight, compile.TestHighlight}))
			case 2:
				return compile.PoWithUseCustomObsoletePrefix(b())
			case 3:
				return compile.PoWithCustomObsoletePrefixRune(pick(t.G, poRunes))
			case 4:
				return compile.PoWithManageHeader(b())
			case 5:
				return compile.PoWithWordWrap(b())
			case 6:
				return compile.PoWithHeaderFields(b())
			case 7:
				return compile.PoWithHeaderComments(b())
			case 8:
				return compile.PoWithCommentFuzzy(b())
			case 9:
				return compile.PoWithVerbose(b())
			case 10:
				return compile.PoWithLogger(lg.pick(t.G))
			case 11:
				return compile.PoWithIgnoreErrors(b())
			case 12:
				return compile.PoWithForcePo(b())
			case 13:
				return compile.PoWithOmitHeader(b())
			case 14:
				return compile.PoWithPackageName(t.str())
			case 15:
				return compile.PoWithCopyrightHolder(t.str())
			case 16:
				return compile.PoWithForeignUser(b())
			case 17:
				return compile.PoWithTitle(t.str())
			case 18:
				return compile.PoWithNoLocation(b())
			case 19:
				return compile.PoWithAddLocation(pick(t.G, []compile.PoLocationMode{compile.PoLocationModeFull, compile.PoLocationModeFile, compile.PoLocationModeNever}))
			case 20:
				return compile.PoWithMsgstrPrefix(t.str())
			default:
				h := pick(t.G, hcs)
				if b() {
					return func(c *compile.PoConfig) { c.HeaderConfig = h }
				}
				return compile.PoWithMsgstrSuffix(t.str())
			}
		}
		base := func() compile.PoConfig {
			c := compile.DefaultPoConfig(option(), option())
			if t.p(30) {
				c.ApplyOptions(option())
			}
			if t.p(20) {
				c = compile.PoConfig{}
			}
			return c
		}
		do := func(c *compile.PoCompiler, k int, opts []compile.PoOption) string {
			w := &failAt{n: 1 << 30}
			switch k {
			case 0:
				err := c.ToWriterWithOptions(w, opts...)
				return result(w.buf.Bytes(), err)
			case 1:
				return result([]byte(c.ToStringWithOptions(opts...)), nil)
			case 2:
				return result(c.ToBytesWithOptions(opts...), nil)
			case 3:
				w.n = 7
				err := c.ToWriterWithOptions(w, opts...)
				return result(w.buf.Bytes(), err)
			case 4:
				return toFile(true, func() error { return c.ToFileWithOptions(path, opts...) })
			case 5:
				err := c.ToFileWithOptions(filepath.Join(path, "no", "dir"), opts...)
				return result(nil, err)
			default:
				return toFile(false, func() error { return c.ToFileWithOptions(path, opts...) })
			}
		}
		plain := func(c compile.PoCompiler, k int) string {
			w := &failAt{n: 1 << 30}
			switch k {
			case 0:
				err := c.ToWriter(w)
				return result(w.buf.Bytes(), err)
			case 1:
				return result([]byte(c.ToString()), nil)
			case 2:
				return result(c.ToBytes(), nil)
			case 3:
				w.n = 7
				err := c.ToWriter(w)
				return result(w.buf.Bytes(), err)
			case 4:
				return toFile(true, func() error { return c.ToFile(path) })
			case 5:
				return result(nil, c.ToFile(filepath.Join(path, "no", "dir")))
			default:
				return toFile(false, func() error { return c.ToFile(path) })
			}
		}
		start := []compile.PoOption{option(), option()}
		c := compile.NewPo(file, start...)
		drive(t, component[compile.PoConfig, compile.PoOption]{
			name: "PoCompiler", cfg: func() compile.PoConfig { return c.Config },
			apply: c.Config.ApplyOptions, restore: c.Config.RestoreLastCfg,
			option: option, replace: compile.PoWithConfig, base: base, kinds: 7, failing: kindFails,
			call:  func(k int, o []compile.PoOption) string { return do(&c, k, o) },
			plain: func(k int) string { return plain(c, k) },
			fresh: func(k int, bc compile.PoConfig, o []compile.PoOption) string {
				return plain(compile.NewPo(file, append([]compile.PoOption{compile.PoWithConfig(bc)}, o...)...), k)
			},
		})
		// A configuration of options alone is the zero one with them.
		cfg := compile.NewPoConfigFromOptions(start...)
		x, y := plain(compile.NewPo(file, compile.PoWithConfig(cfg)), 6), plain(compile.NewPo(file, append([]compile.PoOption{compile.PoWithConfig(compile.PoConfig{})}, start...)...), 6)
		cfg.RestoreLastCfg() // there is nothing to restore
		z := plain(compile.NewPo(file, compile.PoWithConfig(cfg)), 6)
		if x != y || x != z {
			t.Fail("from-options", "the configuration of the options writes\n%s\nand then\n%s\nwant\n%s", x, z, y)
		}
		// Another file.
		other := &po.File{Name: "y.po", Entries: po.Entries{{ID: "other", Str: t.str()}}}
		c.SetFile(other)
		if x, y := plain(c, 2), plain(compile.PoCompiler{File: other, Config: c.Config}, 2); x != y || c.File != other {
			t.Fail("set-file", "the compiler writes\n%s\nwant\n%s", x, y)
		}
		t.Ev("set-file")
	case 1: // MO compiler
		file := &po.File{Name: "x.po", Entries: t.moEntries(1 + t.Intn(6))}
		option := func() compile.MoOption {
			switch t.Intn(8) {
			case 0:
				return compile.MoWithEndianness(pick(t.G, []compile.Endianness{compile.LittleEndian, compile.BigEndian, compile.NativeEndian}))
			case 1:
				return compile.MoWithDepureEntries(b())
			case 2:
				return compile.MoWithSortEntries(b())
			case 3:
				return compile.MoWithHashTable(b())
			case 4:
				return compile.MoWithForce(b())
			case 5:
				return compile.MoWithIgnoreErrors(b())
			case 6:
				return compile.MoWithLogger(lg.pick(t.G))
			default:
				return compile.MoWithVerbose(b())
			}
		}
		base := func() compile.MoConfig {
			c := compile.DefaultMoConfig(option(), option())
			if t.p(30) {
				c.ApplyOptions(option())
			}
			if t.p(20) {
				c = compile.MoConfig{}
			}
			return c
		}
		plain := func(c compile.MoCompiler, k int) string {
			w := &failAt{n: 1 << 30}
			switch k {
			case 0, 1:
				err := c.ToWriter(w)
				return result(w.buf.Bytes(), err)
			case 2:
				return result(c.ToBytes(), nil)
			case 3:
				w.n = 7
				err := c.ToWriter(w)
				return result(w.buf.Bytes(), err)
			case 4:
				return toFile(true, func() error { return c.ToFile(path) })
			case 5:
				return result(nil, c.ToFile(filepath.Join(path, "no", "dir")))
			default:
				return toFile(false, func() error { return c.ToFile(path) })
			}
		}
		do := func(c *compile.MoCompiler, k int, opts []compile.MoOption) string {
			w := &failAt{n: 1 << 30}
			switch k {
			case 0, 1:
				err := c.ToWriterWithOptions(w, opts...)
				return result(w.buf.Bytes(), err)
			case 2:
				return result(c.ToBytesWithOptions(opts...), nil)
			case 3:
				w.n = 7
				err := c.ToWriterWithOptions(w, opts...)
				return result(w.buf.Bytes(), err)
			case 4:
				return toFile(true, func() error { return c.ToFileWithOptions(path, opts...) })
			case 5:
				return result(nil, c.ToFileWithOptions(filepath.Join(path, "no", "dir"), opts...))
			default:
				return toFile(false, func() error { return c.ToFileWithOptions(path, opts...) })
			}
		}
		c := compile.NewMo(file, option(), option())
		drive(t, component[compile.MoConfig, compile.MoOption]{
			name: "MoCompiler", cfg: func() compile.MoConfig { return c.Config },
			apply: c.Config.ApplyOptions, restore: c.Config.RestoreLastCfg,
			option: option, replace: compile.MoWithConfig, base: base, kinds: 7, failing: kindFails,
			call:  func(k int, o []compile.MoOption) string { return do(&c, k, o) },
			plain: func(k int) string { return plain(c, k) },
			fresh: func(k int, bc compile.MoConfig, o []compile.MoOption) string {
				return plain(compile.NewMo(file, append([]compile.MoOption{compile.MoWithConfig(bc)}, o...)...), k)
			},
		})
	case 2: // PO parser
		text := t.layout().write(append(es, es[0]))
		broken := t.p(25)
		if broken {
			text += pick(t.G, []string{"\nmsgid \"open", "\n#~ msgid x\n", "\n#: a:99999999999999999999\nmsgid \"q\"\nmsgstr \"\"\n", "\nstray\n"})
		}
		option := func() parse.PoOption {
			switch t.Intn(9) {
			case 0:
				return parse.PoWithVerbose(b())
			case 1:
				return parse.PoWithParseObsolete(b())
			case 2:
				return parse.PoWithCustomObsoletePrefix(pick(t.G, []rune("~~!|")))
			case 3:
				return parse.PoWithUseCustomObsoletePrefix(b())
			case 4:
				return parse.PoWithIgnoreAllComments(b())
			case 5:
				return parse.PoWithIgnoreComments(b())
			case 6:
				return parse.PoWithSkipHeader(b())
			case 7:
				return parse.PoWithCleanDuplicates(b())
			default:
				return parse.PoWithLogger(lg.pick(t.G))
			}
		}
		base := func() parse.PoConfig {
			c := parse.DefaultPoConfig(option(), option())
			if t.p(30) {
				c.ApplyOptions(option())
			}
			if t.p(20) {
				c = parse.PoConfig{}
			}
			return c
		}
		c := parse.NewPoFromString(text, "x.po", option(), option())
		drive(t, component[parse.PoConfig, parse.PoOption]{
			name: "PoParser", cfg: func() parse.PoConfig { return c.Config },
			apply: c.Config.ApplyOptions, restore: c.Config.RestoreLastCfg,
			option: option, replace: parse.PoWithConfig, base: base, kinds: 1,
			failing: func(int) bool { return broken },
			call: func(_ int, o []parse.PoOption) string {
				f := c.ParseWithOptions(o...)
				return showFile(f, c.Errors())
			},
			plain: func(int) string { f := c.Parse(); return showFile(f, c.Errors()) },
			fresh: func(_ int, bc parse.PoConfig, o []parse.PoOption) string {
				p := parse.NewPoFromString(text, "x.po", append([]parse.PoOption{parse.PoWithConfig(bc)}, o...)...)
				f := p.Parse()
				return showFile(f, p.Errors())
			},
		})
	case 3: // MO parser
		orig, trans := t.moPairs(1 + t.Intn(6))
		if t.p(30) { // not in order
			t.Shuffle(len(orig), func(i, j int) {
				orig[i], orig[j] = orig[j], orig[i]
				trans[i], trans[j] = trans[j], trans[i]
			})
		}
		data := moLayout(t.G, orders(pick(t.G, []compile.Endianness{compile.LittleEndian, compile.BigEndian})), orig, trans)
		if t.p(25) {
			data = data[:t.Intn(len(data))]
		}
		option := func() parse.MoOption {
			switch t.Intn(3) {
			case 0:
				return parse.MoWithMustBeSorted(b())
			case 1:
				return parse.MoWithLogger(lg.pick(t.G))
			default:
				return parse.MoWithEndianness(pick(t.G, []parse.Endianness{parse.LittleEndian, parse.BigEndian, parse.NativeEndian}))
			}
		}
		base := func() parse.MoConfig {
			c := parse.DefaultMoConfig(option(), option())
			if t.p(30) {
				c.ApplyOptions(option())
			}
			return c
		}
		mk := func(opts ...parse.MoOption) *parse.MoParser {
			return parse.NewMoFromBytes(data, "x.mo", opts...)
		}
		c := mk(option(), option())
		drive(t, component[parse.MoConfig, parse.MoOption]{
			name: "MoParser", cfg: func() parse.MoConfig { return c.Config },
			apply: c.Config.ApplyOptions, restore: c.Config.RestoreLastCfg,
			option: option, replace: parse.MoWithConfig, base: base, kinds: 1,
			failing: func(int) bool { return c.Error() != nil },
			call: func(_ int, o []parse.MoOption) string {
				f := c.ParseWithOptions(o...)
				return showFile(f, c.Errors())
			},
			plain: func(int) string { f := c.Parse(); return showFile(f, c.Errors()) },
			fresh: func(_ int, bc parse.MoConfig, o []parse.MoOption) string {
				p := mk(append([]parse.MoOption{parse.MoWithConfig(bc)}, o...)...)
				f := p.Parse()
				return showFile(f, p.Errors())
			},
		})
	case 4: // Go parser
		var sb strings.Builder
		sb.WriteString("package x\nimport \"github.com/leonelquinteros/gotext\"\nfunc f() {\n")
		for i, n := 0, 1+t.Intn(6); i < n; i++ {
			fmt.Fprintf(&sb, "gotext.Get(%q)\n", pick(t.G, words))
			fmt.Fprintf(&sb, "_ = %q\n", pick(t.G, words))
		}
		broken := t.p(25)
		if broken {
			sb.WriteString("gotext.GetN(\"a\")\n")
		}
		sb.WriteString("}\n")
		src := sb.String()
		h1 := po.NewHeader(po.HeaderWithLanguage("es"))
		hdrs := []*po.Header{nil, &h1}
		hcs := []*po.HeaderConfig{nil, {Language: "de", Nplurals: 3, Plural: "n"}, {Template: true}}
		option := func() goparse.Option {
			switch t.Intn(8) {
			case 0:
				return goparse.WithNoHeader(b())
			case 1:
				return goparse.WithVerbose(b())
			case 2:
				return goparse.WithLogger(lg.pick(t.G))
			case 3:
				return goparse.WithCleanDuplicates(b())
			case 4:
				return goparse.WithExtractAll(b())
			case 5:
				return goparse.WithCustomHeader(pick(t.G, hdrs))
			case 6:
				return goparse.WithExclude(pick(t.G, fileNames))
			default:
				return goparse.WithHeaderConfig(pick(t.G, hcs))
			}
		}
		base := func() goparse.Config {
			c := goparse.DefaultConfig(option(), option())
			if t.p(30) {
				c.ApplyOptions(option())
			}
			if t.p(20) {
				c = goparse.Config{}
			}
			return c
		}
		c, err := goparse.NewParserFromString(src, "x.go", option(), option())
		if err != nil {
			t.Fail("go-parser", "%v\n%s", err, src)
		}
		drive(t, component[goparse.Config, goparse.Option]{
			name: "goparse.Parser", cfg: func() goparse.Config { return c.Config },
			apply: c.Config.ApplyOptions, restore: c.Config.RestoreLastCfg,
			option: option, replace: goparse.WithConfig, base: base, kinds: 1,
			failing: func(int) bool { return broken },
			call: func(_ int, o []goparse.Option) string {
				f := c.ParseWithOptions(o...)
				return showFile(f, c.Errors())
			},
			plain: func(int) string { f := c.Parse(); return showFile(f, c.Errors()) },
			fresh: func(_ int, bc goparse.Config, o []goparse.Option) string {
				p, err := goparse.NewParserFromString(src, "x.go", append([]goparse.Option{goparse.WithConfig(bc)}, o...)...)
				if err != nil {
					return err.Error()
				}
				lg.take()
				f := p.Parse()
				return showFile(f, p.Errors())
			},
		})
	}
}
