package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	register(&Check{
		ID:    "C31",
		Level: "fault_enumeration",
		Rule:  "PO, MO and Go documents read through every constructor from readers that fail at every offset (documents up to 500 bytes; borders and random offsets of longer ones) with several errors, from unusable files and paths, and from readers and pipes that deliver the bytes in odd pieces; non-trivial: every case",
		Quick: 6000, Thorough: 60000,
		Run:    runC31,
		Need:   map[string]int{"faults": 600000, "causes": 600000, "file-faults": 40000, "path-faults": 60000, "odd-deliveries": 18000, "pipes": 3000, "po": 1800, "mo": 1800, "go": 1800, "long-documents": 80},
		Assume: []string{"the reader keeps the contract of io.Reader"},
	})
}

// source reads documents of one kind through all the constructors.
type source struct {
	kind   string
	doc    []byte
	reader []func(r io.Reader) (*po.File, error)
	file   []func(f *os.File) (*po.File, error)
	path   []func(p string) (*po.File, error)
	want   *po.File
	others []func(r io.Reader) error // other readers of the document
	dirOK  bool                      // a directory is a legal path
}

func (t *T) source() *source {
	s := &source{}
	long := t.Case%60 >= 57
	n := t.Intn(5)
	if long {
		n = 40 + t.Intn(200)
		t.Ev("long-documents")
	}
	switch t.Case % 3 {
	case 0:
		s.kind = "po"
		s.doc = []byte(t.layout().write(t.entries(n, entryOpt{})))
		s.reader = []func(io.Reader) (*po.File, error){
			func(r io.Reader) (*po.File, error) { return parse.PoFromReader(r, "n") },
			func(r io.Reader) (*po.File, error) {
				p, err := parse.NewPoFromReader(r, "n")
				if err != nil {
					return nil, err
				}
				return p.Parse(), p.Error()
			},
		}
		s.file = []func(*os.File) (*po.File, error){
			func(f *os.File) (*po.File, error) { return parse.PoFromFile(f) },
			func(f *os.File) (*po.File, error) {
				p, err := parse.NewPoFromFile(f)
				if err != nil {
					return nil, err
				}
				return p.Parse(), p.Error()
			},
		}
		s.path = []func(string) (*po.File, error){
			func(p string) (*po.File, error) { return parse.Po(p) },
			func(p string) (*po.File, error) {
				x, err := parse.NewPo(p)
				if err != nil {
					return nil, err
				}
				return x.Parse(), x.Error()
			},
		}
		s.others = []func(io.Reader) error{func(r io.Reader) error {
			b, err := compile.HighlightFromReader(compile.DefaultHighlight, "n", r)
			if err != nil && len(b) > 0 {
				t.Fail("highlight", "an error and %d bytes", len(b))
			}
			if err == nil && string(b) != string(s.doc) && sgr.ReplaceAllString(string(b), "") != sgr.ReplaceAllString(string(s.doc), "") {
				t.Fail("highlight", "another text: %q", b)
			}
			return err
		}}
		s.want, _ = parse.PoFromBytes(s.doc, "n")
	case 1:
		s.kind = "mo"
		var orig, trans []string
		for _, e := range t.moEntries(n).SortFunc(po.CompareEntryByID) {
			orig, trans = append(orig, e.FullUnifiedID()), append(trans, e.UnifiedStr())
		}
		s.doc = moLayout(t.G, moOrder(t.G), orig, trans)
		s.reader = []func(io.Reader) (*po.File, error){
			func(r io.Reader) (*po.File, error) { return parse.MoFromReader(r, "n") },
			func(r io.Reader) (*po.File, error) {
				p, err := parse.NewMoFromReader(r, "n")
				if err != nil {
					return nil, err
				}
				return p.Parse(), p.Error()
			},
		}
		s.file = []func(*os.File) (*po.File, error){
			func(f *os.File) (*po.File, error) { return parse.MoFromFile(f) },
			func(f *os.File) (*po.File, error) {
				p, err := parse.NewMoFromFile(f)
				if err != nil {
					return nil, err
				}
				return p.Parse(), p.Error()
			},
		}
		s.path = []func(string) (*po.File, error){
			func(p string) (*po.File, error) { return parse.Mo(p) },
			func(p string) (*po.File, error) {
				x, err := parse.NewMo(p)
				if err != nil {
					return nil, err
				}
				return x.Parse(), x.Error()
			},
		}
		s.want, _ = parse.MoFromBytes(s.doc, "n")
	default:
		s.kind, s.dirOK = "go", true
		if long {
			n /= 4
		}
		s.doc = []byte(t.goFile(true, 1+n).b.String())
		opts := []goparse.Option{goparse.WithNoHeader(t.p(50))}
		cfg := goparse.DefaultConfig(opts...)
		done := func(p *goparse.Parser, err error) (*po.File, error) {
			if err != nil {
				return nil, err
			}
			return p.Parse(), p.Error()
		}
		// What a single file yields, without header.
		single := func(f *goparse.File, err error) (*po.File, error) {
			if err != nil {
				return nil, err
			}
			p, err := goparse.FromBytes(s.doc, "n", opts...) // for the rest of it
			if err != nil {
				return nil, err
			}
			raw, err := goparse.FromBytes(s.doc, "n", goparse.WithNoHeader(true), goparse.WithCleanDuplicates(false))
			if err != nil {
				return nil, err
			}
			if d := diffEntries(unnamed(f.Entries()), unnamed(raw.Entries)); d != "" {
				return &po.File{}, nil
			}
			return p, f.Error()
		}
		s.reader = []func(io.Reader) (*po.File, error){
			func(r io.Reader) (*po.File, error) { return goparse.FromReader(r, "n", opts...) },
			func(r io.Reader) (*po.File, error) { return done(goparse.NewParserFromReader(r, "n", opts...)) },
			func(r io.Reader) (*po.File, error) { return single(goparse.NewFile(r, "n", &cfg)) },
			func(r io.Reader) (*po.File, error) {
				f, err := goparse.NewFileFromBytes([]byte("package p\n"), "other", &cfg)
				must(err)
				if t.p(40) { // a bad one before
					if err := f.Reset(strings.NewReader("package p\nfunc {"), "bad", &cfg); err == nil {
						t.Fail("unreported", "a file that isn't Go source is read without error")
					}
				}
				if err := f.Reset(r, "n", &cfg); err != nil {
					return nil, err
				}
				if l := f.Errors(); len(l) > 0 {
					t.Fail("old-errors", "the file has the errors %v of the one before", l)
				}
				return single(f, nil)
			},
		}
		good := filepath.Join(t.Dir, "good.go")
		must(os.WriteFile(good, []byte("package p\n"), 0o600))
		with := func(f *os.File) []*os.File {
			g, err := os.Open(good)
			must(err)
			l := []*os.File{f, g}
			if t.p(50) {
				l[0], l[1] = g, f
			}
			return l
		}
		closeOne := func(l []*os.File, f *os.File) {
			for _, x := range l {
				if x != f {
					x.Close()
				}
			}
		}
		s.file = []func(*os.File) (*po.File, error){
			func(f *os.File) (*po.File, error) { return goparse.FromFile(f, opts...) },
			func(f *os.File) (*po.File, error) { return done(goparse.NewParserFromFile(f, opts...)) },
			func(f *os.File) (*po.File, error) {
				l := with(f)
				defer closeOne(l, f)
				return goparse.FromFiles(l, opts...)
			},
			func(f *os.File) (*po.File, error) {
				l := with(f)
				defer closeOne(l, f)
				return done(goparse.NewParserFromFiles(l, opts...))
			},
		}
		paths := func(p string) []string {
			if t.p(50) {
				return []string{p, good}
			}
			return []string{good, p}
		}
		s.path = []func(string) (*po.File, error){
			func(p string) (*po.File, error) { return goparse.FromPath(p, opts...) },
			func(p string) (*po.File, error) { return done(goparse.NewParser(p, opts...)) },
			func(p string) (*po.File, error) { return goparse.FromPaths(paths(p), opts...) },
			func(p string) (*po.File, error) { return done(goparse.NewParserFromPaths(paths(p), opts...)) },
			func(p string) (*po.File, error) {
				if st, err := os.Stat(p); err == nil && st.IsDir() {
					return nil, errors.New("not a file")
				}
				return single(goparse.NewFileFromPath(p, &cfg))
			},
		}
		s.want, _ = goparse.FromBytes(s.doc, "n", opts...)
	}
	if s.want == nil {
		t.Fail("document", "a good %s document isn't read: %q", s.kind, s.doc)
	}
	s.want = &po.File{Entries: unnamed(s.want.Entries)}
	t.Ev(s.kind)
	return s
}

// unnamed removes the name of the source from references to it.
func unnamed(es po.Entries) po.Entries {
	es = cloneEntries(es)
	for i := range es {
		for j := range es[i].Locations {
			if filepath.IsAbs(es[i].Locations[j].File) || es[i].Locations[j].File == "|0" {
				es[i].Locations[j].File = "n"
			}
		}
	}
	return es
}

// faultyReader delivers the document in pieces and fails at an offset.
type faultyReader struct {
	data  []byte
	max   func() int
	err   error
	with  bool // the error comes together with the last bytes
	empty func() bool
	calls int
}

func (r *faultyReader) Read(p []byte) (int, error) {
	r.calls++
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.data) == 0 {
		return 0, r.err
	}
	if r.empty != nil && r.empty() {
		return 0, nil
	}
	n := len(r.data)
	if n > len(p) {
		n = len(p)
	}
	if r.max != nil {
		if m := r.max(); m < n {
			n = m
		}
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if len(r.data) == 0 && r.with {
		return n, r.err
	}
	return n, nil
}

type silentError struct{}

func (silentError) Error() string { return "" }

var readErrors = []error{
	errors.New("broken"), io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer, os.ErrClosed, os.ErrNotExist,
	os.ErrDeadlineExceeded, context.Canceled, bytes.ErrTooLarge, silentError{}, fmt.Errorf("wrapped: %w", io.EOF),
}

func runC31(t *T) {
	s := t.source()
	ctx := func() string { return fmt.Sprintf("--- %s document\n%q", s.kind, s.doc) }
	t.Sig(s.doc)
	t.Sample(ctx)
	t.Note("%s", ctx())

	cause := func(how string, err, want error) {
		t.Ev("causes")
		if !errors.Is(err, want) {
			t.Fail("cause", "%s: the error %q doesn't carry its cause %q\n%s", how, err, want, ctx())
		}
	}
	failed := func(how string, f *po.File, err, want error) {
		if err == nil {
			t.Fail("unreported", "%s: no error\n%s", how, ctx())
		}
		if f != nil {
			t.Fail("file", "%s: an error (%v) and a file\n%s", how, err, ctx())
		}
		if want != nil {
			cause(how, err, want)
		}
	}
	same := func(how string, f *po.File, err error) {
		if err != nil {
			t.Fail("error", "%s: %v\n%s", how, err, ctx())
		}
		if f == nil {
			t.Fail("nil", "%s: neither a file nor an error\n%s", how, ctx())
		}
		if d := diffEntries(unnamed(f.Entries), s.want.Entries); d != "" {
			t.Fail("different", "%s: %s\n%s", how, d, ctx())
		}
	}

	// Faults.
	var offsets []int
	if len(s.doc) <= 500 {
		for i := 0; i <= len(s.doc); i++ {
			offsets = append(offsets, i)
		}
	} else {
		offsets = []int{0, 1, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, len(s.doc) - 1, len(s.doc)}
		for i := 0; i < 20; i++ {
			offsets = append(offsets, t.Intn(len(s.doc)+1))
		}
	}
	for _, o := range offsets {
		if o > len(s.doc) {
			continue
		}
		i := t.Intn(len(s.reader) + len(s.others))
		r := &faultyReader{data: s.doc[:o:o], err: pick(t.G, readErrors), with: t.p(40)}
		if t.p(30) {
			r.max = func() int { return 1 + t.Intn(300) }
		}
		how := fmt.Sprintf("reader %d failing at %d of %d with %q (with data: %v)", i, o, len(s.doc), r.err, r.with)
		t.Ev("faults")
		if i < len(s.reader) {
			f, err := s.reader[i](r)
			failed(how, f, err, r.err)
		} else if err := s.others[i-len(s.reader)](r); err == nil {
			t.Fail("unreported", "%s: no error\n%s", how, ctx())
		} else {
			cause(how, err, r.err)
		}
	}

	// The same bytes in odd pieces.
	for i := 0; i < len(s.reader)+len(s.others); i++ {
		r := &faultyReader{data: s.doc[:len(s.doc):len(s.doc)], err: io.EOF, with: t.p(50)}
		switch t.Intn(3) {
		case 0:
			r.max = func() int { return 1 }
		case 1:
			r.max = func() int { return 1 + t.Intn(700) }
		}
		if t.p(40) {
			r.empty = func() bool { return t.p(20) }
		}
		t.Ev("odd-deliveries")
		how := fmt.Sprintf("reader %d (end with data: %v)", i, r.with)
		if i < len(s.reader) {
			f, err := s.reader[i](r)
			same(how, f, err)
		} else if err := s.others[i-len(s.reader)](r); err != nil {
			t.Fail("error", "%s: %v\n%s", how, err, ctx())
		}
	}

	// Files.
	dir := filepath.Join(t.Dir, "src")
	must(os.RemoveAll(dir))
	must(os.MkdirAll(dir, 0o755))
	name := filepath.Join(dir, "x."+s.kind)
	must(os.WriteFile(name, s.doc, 0o600))
	for i, open := range s.file {
		f, err := os.Open(name)
		must(err)
		x, err := open(f)
		same(fmt.Sprintf("file %d", i), x, err)
		f.Close()
		x, err = open(f)
		failed(fmt.Sprintf("closed file %d", i), x, err, os.ErrClosed)
		f, err = os.Open(dir)
		must(err)
		x, err = open(f)
		failed(fmt.Sprintf("directory as file %d", i), x, err, syscall.EISDIR)
		f.Close()
		f, err = os.OpenFile(name, os.O_WRONLY, 0)
		must(err)
		x, err = open(f)
		failed(fmt.Sprintf("write-only file %d", i), x, err, syscall.EBADF)
		f.Close()
		t.EvN("file-faults", 3)
		if t.p(30) {
			pr, pw, err := os.Pipe()
			must(err)
			sizes := []int{1 + t.Intn(50), 1 + t.Intn(5000)}
			go func() {
				defer pw.Close()
				for b, k := s.doc, 0; len(b) > 0; k++ {
					n := sizes[k%2]
					if n > len(b) {
						n = len(b)
					}
					if _, err := pw.Write(b[:n]); err != nil {
						return
					}
					b = b[n:]
				}
			}()
			x, err := open(pr)
			pr.Close()
			same(fmt.Sprintf("pipe %d", i), x, err)
			t.Ev("pipes")
		}
	}

	// Paths.
	must(os.Symlink(filepath.Join(dir, "nothing."+s.kind), filepath.Join(dir, "dangling."+s.kind)))
	must(os.Symlink("loop."+s.kind, filepath.Join(dir, "loop."+s.kind)))
	bad := []string{
		filepath.Join(dir, "missing."+s.kind), filepath.Join(dir, "missing", "x."+s.kind), filepath.Join(name, "x."+s.kind),
		filepath.Join(dir, "dangling."+s.kind), filepath.Join(dir, "loop."+s.kind), filepath.Join(dir, strings.Repeat("n", 300)+"."+s.kind),
		name + "\x00", "",
	}
	if !s.dirOK {
		bad = append(bad, dir, dir+"/")
	}
	for i, open := range s.path {
		x, err := open(name)
		same(fmt.Sprintf("path %d", i), x, err)
		for _, p := range bad {
			if p == "" && s.kind == "go" {
				continue // the current directory
			}
			t.Ev("path-faults")
			x, err := open(p)
			_, want := os.ReadFile(p)
			var number syscall.Errno
			if errors.As(want, &number) {
				want = number
			} else {
				want = nil
			}
			failed(fmt.Sprintf("path %d: %q", i, clip(p, 300)), x, err, want)
		}
	}
}
