package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	register(&Check{
		ID:    "C34",
		Rule:  "sound, damaged and hostile PO, MO and Go documents parsed, and messages compiled to PO and MO (to buffers, failing writers and files in every prior state), with every combination of logger (none, default, recording), verbosity and error suppression; non-trivial: every case",
		Quick: 10000, Thorough: 120000,
		Run:    runC34,
		Need:   map[string]int{"parses": 40000, "failed-parses": 16000, "logged-errors": 16000, "verbose": 40000, "silent": 40000, "compilations": 48000, "failed-compilations": 60000, "ignored-errors": 50000, "kept-files": 5000},
		Assume: []string{"a skipped duplicate of a source file is logged although it isn't an error"},
	})
}

// logged is a way to configure logging.
type logged struct {
	name    string
	set     bool // an own logger is set
	logger  *log.Logger
	text    *bytes.Buffer
	verbose bool
}

func (t *T) loggers() []logged {
	var l []logged
	l = append(l, logged{name: "default logger, verbose", verbose: true})
	for _, v := range []bool{false, true} {
		b := new(bytes.Buffer)
		l = append(l,
			logged{name: fmt.Sprintf("no logger, verbose %v", v), set: true, verbose: v},
			logged{name: fmt.Sprintf("recording logger, verbose %v", v), set: true, verbose: v, text: b,
				logger: log.New(b, pick(t.G, []string{"", "x: ", "ERROR"}), pick(t.G, []int{0, log.Lmsgprefix, log.LstdFlags}))},
		)
	}
	return l
}

// quietly runs f, which must not print anything.
func (t *T) quietly(how func() string, f func()) {
	name := filepath.Join(t.Dir, "printed")
	file, err := os.OpenFile(name, os.O_CREATE|os.O_TRUNC|os.O_RDWR, 0o600)
	must(err)
	defer file.Close()
	stdout, stderr, out := os.Stdout, os.Stderr, log.Writer()
	func() {
		os.Stdout, os.Stderr = file, file
		log.SetOutput(file)
		defer func() {
			os.Stdout, os.Stderr = stdout, stderr
			log.SetOutput(out)
		}()
		f()
	}()
	if b, err := os.ReadFile(name); err != nil || len(b) > 0 {
		t.Fail("printed", "%q is printed (%v)\n%s", clip(string(b), 500), err, how())
	}
}

// checkLog compares what was logged with the errors that were reported.
func (t *T) checkLog(l logged, errs []error, ctx func() string) {
	if l.verbose {
		t.Ev("verbose")
	}
	if l.text == nil {
		return
	}
	text := l.text.String()
	l.text.Reset()
	for _, err := range errs {
		t.Ev("logged-errors")
		s := err.Error()
		if strings.Contains(text, s) {
			continue
		}
		if u := errors.Unwrap(err); u != nil && strings.Contains(text, u.Error()) {
			continue
		}
		t.Fail("not-logged", "%s: error %q isn't in the log %q\n%s", l.name, err, clip(text, 2000), ctx())
	}
	if !l.verbose {
		t.Ev("silent")
		if len(errs) == 0 {
			for _, s := range strings.Split(text, "\n") {
				if s != "" && !strings.Contains(s, "skipping duplicated file") {
					t.Fail("noise", "%s: no error, but the log is %q\n%s", l.name, clip(text, 2000), ctx())
				}
			}
		}
	}
}

func runC34(t *T) {
	if t.Case%2 == 0 {
		t.logParses()
	} else {
		t.logCompilations()
	}
}

func (t *T) logParses() {
	kind := t.Case / 2 % 3
	var doc []byte
	switch {
	case t.p(40):
		doc = t.soundDoc(kind)
	case t.p(60):
		doc = t.soundDoc(kind)
		if len(doc) > 0 {
			doc = t.damage(doc, func() []byte { return t.soundDoc(kind) })
		}
	default:
		doc = t.hostileDoc(kind)
		if len(doc) > 5000 {
			doc = doc[:5000]
		}
	}
	t.Sig(doc)
	ctx := func() string {
		return fmt.Sprintf("--- %s document\n%q", []string{"po", "mo", "go"}[kind], clip(string(doc), 3000))
	}
	t.Sample(ctx)
	t.Note("%s", ctx())

	dir := filepath.Join(t.Dir, "c34")
	must(os.RemoveAll(dir))
	must(os.Mkdir(dir, 0o755))
	name := filepath.Join(dir, "x.go")
	must(os.WriteFile(name, doc, 0o600))

	var popts []parse.PoOption
	if t.p(50) {
		popts = append(popts, parse.PoWithParseObsolete(t.p(80)), parse.PoWithIgnoreComments(t.p(20)), parse.PoWithSkipHeader(t.p(20)), parse.PoWithCleanDuplicates(t.p(60)))
	}
	sorted := t.p(30)
	noHeader, all, how := t.p(50), t.p(30), t.Intn(3)

	// Parsing with a configuration: the result and the errors.
	parseWith := func(l *logged, again bool) (f *po.File, errs []error) {
		var p po.Parser
		var err error
		switch kind {
		case 0:
			opts := popts[:len(popts):len(popts)]
			if l != nil {
				opts = append(opts, parse.PoWithVerbose(l.verbose))
				if l.set {
					opts = append(opts, parse.PoWithLogger(l.logger))
				}
			}
			p = parse.NewPoFromBytes(doc, "n", opts...)
		case 1:
			opts := []parse.MoOption{parse.MoWithMustBeSorted(sorted)}
			if l != nil && l.set {
				opts = append(opts, parse.MoWithLogger(l.logger))
			}
			p = parse.NewMoFromBytes(doc, "n", opts...)
		default:
			opts := []goparse.Option{goparse.WithNoHeader(noHeader), goparse.WithExtractAll(all)}
			if l != nil {
				opts = append(opts, goparse.WithVerbose(l.verbose))
				if l.set {
					opts = append(opts, goparse.WithLogger(l.logger))
				}
			}
			var g *goparse.Parser
			switch how {
			case 0:
				g, err = goparse.NewParserFromBytes(doc, "n", opts...)
			case 1:
				g, err = goparse.NewParserFromPaths([]string{name, dir, name}, opts...)
			default:
				g, err = goparse.NewParserFromReader(bytes.NewReader(doc), "n", opts...)
			}
			if err != nil {
				return nil, []error{err}
			}
			p = g
		}
		f = p.Parse()
		if again {
			if l != nil && l.text != nil {
				l.text.Reset()
			}
			f = p.Parse()
		}
		return f, p.Errors()
	}
	words := func(errs []error) string {
		var s []string
		for _, e := range errs {
			s = append(s, e.Error())
		}
		return strings.Join(s, "\n")
	}
	var want *po.File
	var wantErrs []error
	again := t.p(30)
	t.quietly(ctx, func() { want, wantErrs = parseWith(nil, again) })
	for _, l := range t.loggers() {
		var f *po.File
		var errs []error
		t.quietly(func() string { return l.name + "\n" + ctx() }, func() { f, errs = parseWith(&l, again) })
		t.Ev("parses")
		if len(errs) > 0 {
			t.Ev("failed-parses")
		}
		if words(errs) != words(wantErrs) {
			t.Fail("errors", "%s: errors\n%s\nwithout:\n%s\n%s", l.name, words(errs), words(wantErrs), ctx())
		}
		if (f == nil) != (want == nil) {
			t.Fail("result", "%s: nil %v, without: %v\n%s", l.name, f == nil, want == nil, ctx())
		}
		if f != nil {
			if d := diffEntries(f.Entries, want.Entries); d != "" || f.Name != want.Name {
				t.Fail("result", "%s: name %q, without %q; %s\n%s", l.name, f.Name, want.Name, d, ctx())
			}
		}
		t.checkLog(l, errs, ctx)
	}
}

func (t *T) logCompilations() {
	var es po.Entries
	if t.Case%100 == 99 {
		es = t.moEntries(60 + t.Intn(200))
	} else {
		es = t.moEntries(t.count(t.Intn(6), 10))
	}
	for i := range es {
		es[i].Comments = t.lines(t.comment, 2)
		if t.p(20) {
			es[i].Flags = append(es[i].Flags, "fuzzy")
		}
	}
	if t.p(50) && !hasHeader(es) {
		es = append(po.Entries{t.header()}, es...)
	}
	f := &po.File{Name: "x.po", Entries: es}
	t.Sig(show(es))
	ctx := func() string { return show(es) }
	t.Sample(ctx)
	t.Note("%s", ctx())

	po_ := t.Case/2%2 == 0
	var popts []compile.PoOption
	for _, x := range []compile.PoOption{
		compile.PoWithWordWrap(true), compile.PoWithManageHeader(true), compile.PoWithHeaderFields(true), compile.PoWithHeaderComments(true),
		compile.PoWithOmitHeader(true), compile.PoWithHighlight(compile.DefaultHighlight),
	} {
		if t.p(25) {
			popts = append(popts, x)
		}
	}
	mopts := []compile.MoOption{
		compile.MoWithEndianness(pick(t.G, []compile.Endianness{compile.LittleEndian, compile.BigEndian})),
		compile.MoWithHashTable(t.p(60)), compile.MoWithDepureEntries(t.p(80)),
	}
	var toWriter func(w io.Writer, l *logged, ignore bool) error
	var toFile func(path string, force bool, l *logged, ignore bool) error
	var toBytes func(l *logged, ignore bool) []byte
	if po_ {
		options := func(l *logged, ignore bool) []compile.PoOption {
			opts := append(popts[:len(popts):len(popts)], compile.PoWithIgnoreErrors(ignore))
			if l != nil {
				opts = append(opts, compile.PoWithVerbose(l.verbose))
				if l.set {
					opts = append(opts, compile.PoWithLogger(l.logger))
				}
			}
			return opts
		}
		toWriter = func(w io.Writer, l *logged, ignore bool) error {
			return compile.PoToWriter(f, w, options(l, ignore)...)
		}
		toBytes = func(l *logged, ignore bool) []byte { return compile.PoToBytes(f, options(l, ignore)...) }
		toFile = func(path string, force bool, l *logged, ignore bool) error {
			return compile.PoToFile(f, path, append(options(l, ignore), compile.PoWithForcePo(force))...)
		}
	} else {
		options := func(l *logged, ignore bool) []compile.MoOption {
			opts := append(mopts[:len(mopts):len(mopts)], compile.MoWithIgnoreErrors(ignore))
			if l != nil {
				opts = append(opts, compile.MoWithVerbose(l.verbose))
				if l.set {
					opts = append(opts, compile.MoWithLogger(l.logger))
				}
			}
			return opts
		}
		toWriter = func(w io.Writer, l *logged, ignore bool) error {
			return compile.MoToWriter(f, w, options(l, ignore)...)
		}
		toBytes = func(l *logged, ignore bool) []byte { return compile.MoToBytes(f, options(l, ignore)...) }
		toFile = func(path string, force bool, l *logged, ignore bool) error {
			return compile.MoToFile(f, path, append(options(l, ignore), compile.MoWithForce(force))...)
		}
	}
	want := toBytes(nil, false)
	dir := filepath.Join(t.Dir, "c34")
	must(os.RemoveAll(dir))
	must(os.Mkdir(dir, 0o755))
	old := []byte("PRECIOUS " + strings.Repeat("x", t.Intn(3)*t.Intn(3000)))
	full := false
	if fi, err := os.Stat("/dev/full"); err == nil && fi.Mode()&os.ModeCharDevice != 0 && len(want) > 0 {
		full = true
	}

	for n, l := range t.loggers() {
		for _, ignore := range []bool{false, true} {
			what := func() string { return fmt.Sprintf("%s, ignoring errors: %v\n%s", l.name, ignore, ctx()) }
			reported := func(err error) []error {
				if err == nil {
					return nil
				}
				return []error{err}
			}
			var got []byte
			var err error
			t.quietly(what, func() { got = toBytes(&l, ignore) })
			if !bytes.Equal(got, want) {
				t.Fail("bytes", "%q, without: %q\n%s", clip(string(got), 1500), clip(string(want), 1500), what())
			}
			t.checkLog(l, nil, what)
			t.Ev("compilations")

			// A failing writer.
			for i := 0; i < 3; i++ {
				w := &faulty{n: t.Intn(len(want) + 1), kind: t.Intn(faultKinds)}
				plain := &faulty{n: w.n, kind: w.kind}
				plainErr := toWriter(plain, nil, false)
				t.quietly(what, func() { err = toWriter(w, &l, ignore) })
				t.outcome(what, l, ignore, plainErr, err)
				if !bytes.Equal(w.got, plain.got) {
					t.Fail("prefix", "the writer that fails at %d of %d got %q, without: %q\n%s", w.n, len(want), clip(string(w.got), 1000), clip(string(plain.got), 1000), what())
				}
			}

			// Files.
			path := filepath.Join(dir, fmt.Sprintf("f%d%v", n, ignore))
			must(os.WriteFile(path, old, 0o600))
			for _, force := range []bool{false, true} {
				t.quietly(what, func() { err = toFile(path, force, &l, ignore) })
				b, rerr := os.ReadFile(path)
				must(rerr)
				if force {
					t.checkLog(l, reported(err), what)
					if err != nil || !bytes.Equal(b, want) {
						t.Fail("forced", "error %v, the file has %q\n%s", err, clip(string(b), 1000), what())
					}
					continue
				}
				t.Ev("kept-files")
				t.outcome(what, l, ignore, os.ErrExist, err)
				if !bytes.Equal(b, old) {
					t.Fail("overwritten", "the file has %q, it had %q\n%s", clip(string(b), 1000), clip(string(old), 1000), what())
				}
			}
			bad := []string{filepath.Join(dir, "missing", "out"), filepath.Join(path, "out"), dir, ""}
			if full {
				bad = append(bad, "/dev/full")
			}
			p := pick(t.G, bad)
			t.quietly(what, func() { err = toFile(p, p == "/dev/full" || t.p(50), &l, ignore) })
			t.outcome(what, l, ignore, os.ErrInvalid, err)
		}
	}
}

// outcome checks the error of an operation that fails (with another error) or
// succeeds without a logger.
func (t *T) outcome(what func() string, l logged, ignore bool, plain, err error) {
	switch {
	case plain == nil && err != nil:
		t.Fail("error", "error %v, none without\n%s", err, what())
	case plain != nil && ignore:
		t.Ev("ignored-errors")
		if err != nil {
			t.Fail("not-ignored", "error %v\n%s", err, what())
		}
	case plain != nil:
		t.Ev("failed-compilations")
		if err == nil {
			t.Fail("unreported", "no error, without: %v\n%s", plain, what())
		}
		if errors.Is(plain, errInjected) != errors.Is(err, errInjected) {
			t.Fail("other-error", "error %v, without: %v\n%s", err, plain, what())
		}
	}
	if err == nil && plain != nil {
		if l.text != nil {
			l.text.Reset()
		}
		return
	}
	var errs []error
	if err != nil {
		errs = append(errs, err)
	}
	t.checkLog(l, errs, what)
}
