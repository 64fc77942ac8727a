package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
)

func init() {
	register(&Check{
		ID:    "C15",
		Level: "fault_enumeration",
		Rule:  "generated PO and MO outputs written to a writer that fails at every byte offset (outputs up to 700 bytes; all block borders and random offsets of longer ones) in five ways, and to files limited at random offsets, full devices and uncreatable paths; non-trivial: every case",
		Quick: 2000, Thorough: 60000,
		Run:    runC15,
		Need:   map[string]int{"faults": 600000, "clean-writes": 3000, "file-faults": 15000, "po": 900, "mo": 900, "longer-than-a-block": 90, "large-outputs": 5, "long-headers": 10},
		Assume: []string{"error suppression (IgnoreErrors) is off"},
	})
	register(&Check{
		ID:    "C16",
		Rule:  "PO and MO outputs compiled to paths in every prior state (absent, file, empty file, longer file, read-only file, hard link, link to a file, dangling link, link to a directory, directory, FIFO) with and without force; non-trivial: every case",
		Quick: 3000, Thorough: 60000,
		Run:    runC16,
		Need:   map[string]int{"refused": 10000, "forced": 8000, "created": 2000},
		Assume: []string{"error suppression (IgnoreErrors) is off", "a FIFO is not compiled to with force, since opening it blocks"},
	})
	signal.Ignore(syscall.SIGXFSZ)
}

// output is a compilation whose destination can be chosen.
type output struct {
	name     string
	want     []byte
	toWriter []func(w io.Writer) error
	toFile   func(path string, force bool) []func() error
}

func (t *T) output() *output {
	var es po.Entries
	switch {
	case t.Case%200 >= 198: // both formats
		es = t.moEntries(200 + t.Intn(300))
		for i := 0; i < 8; i++ {
			es = append(es, po.Entry{ID: fmt.Sprintf("%d %s", i, t.long()), Str: t.long()})
		}
		es = dedup(es)
	case t.p(15):
		es = t.moEntries(20 + t.Intn(60))
	default:
		es = t.moEntries(t.Intn(5))
		for i := range es {
			if t.p(50) {
				es[i].Comments = t.lines(t.comment, 2)
			}
		}
	}
	if t.p(40) {
		var rest po.Entries
		for _, e := range es {
			if !e.IsHeader() {
				rest = append(rest, e)
			}
		}
		h := t.header()
		if t.Case%200 >= 198 || t.p(3) {
			h.Str += "X-Long: " + strings.Map(func(r rune) rune {
				if r == '\n' {
					return ' '
				}
				return r
			}, t.long()) + "\n"
			t.Ev("long-headers")
		}
		es = append(po.Entries{h}, rest...)
		if t.p(10) {
			es = es[:1]
		}
	}
	f := &po.File{Name: "x.po", Entries: es}
	o := &output{}
	if t.Case%2 == 0 {
		o.name = "po"
		var opts []compile.PoOption
		for _, x := range []compile.PoOption{
			compile.PoWithWordWrap(true), compile.PoWithManageHeader(true), compile.PoWithHeaderFields(true), compile.PoWithHeaderComments(true),
			compile.PoWithOmitHeader(true), compile.PoWithHighlight(compile.DefaultHighlight), compile.PoWithVerbose(true), compile.PoWithLogger(nil),
		} {
			if t.p(25) {
				opts = append(opts, x)
			}
		}
		o.want = compile.PoToBytes(f, opts...)
		o.toWriter = []func(io.Writer) error{
			func(w io.Writer) error { return compile.PoToWriter(f, w, opts...) },
			func(w io.Writer) error { return compile.PoToWriter(es, w, opts...) },
			func(w io.Writer) error { c := compile.NewPo(f); return c.ToWriterWithOptions(w, opts...) },
		}
		o.toFile = func(path string, force bool) []func() error {
			opts := append(opts[:len(opts):len(opts)], compile.PoWithForcePo(force))
			return []func() error{
				func() error { return compile.PoToFile(f, path, opts...) },
				func() error { return compile.NewPo(f, opts...).ToFile(path) },
				func() error { c := compile.NewPo(f); return c.ToFileWithOptions(path, opts...) },
			}
		}
		return o
	}
	o.name = "mo"
	opts := []compile.MoOption{
		compile.MoWithEndianness(pick(t.G, []compile.Endianness{compile.LittleEndian, compile.BigEndian, compile.NativeEndian})),
		compile.MoWithHashTable(t.p(60)), compile.MoWithDepureEntries(t.p(80)), compile.MoWithVerbose(t.p(20)),
	}
	o.want = compile.MoToBytes(f, opts...)
	o.toWriter = []func(io.Writer) error{
		func(w io.Writer) error { return compile.MoToWriter(f, w, opts...) },
		func(w io.Writer) error { return compile.MoToWriter(es, w, opts...) },
		func(w io.Writer) error { c := compile.NewMo(f); return c.ToWriterWithOptions(w, opts...) },
	}
	o.toFile = func(path string, force bool) []func() error {
		opts := append(opts[:len(opts):len(opts)], compile.MoWithForce(force))
		return []func() error{
			func() error { return compile.MoToFile(f, path, opts...) },
			func() error { return compile.NewMo(f, opts...).ToFile(path) },
			func() error { c := compile.NewMo(f); return c.ToFileWithOptions(path, opts...) },
		}
	}
	return o
}

const (
	faultError      = iota // part is written, error
	faultAllOrNone         // nothing of the write that crosses the offset is written, error
	faultShort             // part is written, no error (later writes fail)
	faultTransient         // fails once, later writes succeed
	faultAfterWrite        // everything is written, and an error is returned
	faultKinds
)

// faulty is a writer that fails when n bytes were written.
type faulty struct {
	n      int
	kind   int
	failed bool
	got    []byte
}

func (w *faulty) Write(p []byte) (int, error) {
	if w.failed {
		if w.kind == faultTransient {
			w.got = append(w.got, p...)
			return len(p), nil
		}
		if w.kind == faultShort {
			return 0, io.ErrShortWrite
		}
		return 0, errInjected
	}
	if len(w.got)+len(p) <= w.n && w.kind != faultAfterWrite || w.kind == faultAfterWrite && len(w.got)+len(p) < w.n {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	w.failed = true
	k := w.n - len(w.got)
	switch w.kind {
	case faultAllOrNone:
		k = 0
	case faultAfterWrite:
		k = len(p)
	}
	w.got = append(w.got, p[:k]...)
	if w.kind == faultShort {
		return k, nil
	}
	return k, errInjected
}

func runC15(t *T) {
	o := t.output()
	t.Ev(o.name)
	want := o.want
	if len(want) > 4096 {
		t.Ev("longer-than-a-block")
	}
	var offs []int
	if len(want) <= 700 {
		for i := 0; i <= len(want); i++ {
			offs = append(offs, i)
		}
	} else {
		for _, b := range []int{0, 1, 28, 4095, 4096, 4097, 8191, 8192, 8193, len(want) - 1, len(want)} {
			if b <= len(want) {
				offs = append(offs, b)
			}
		}
		// Every fault writes the whole prefix again.
		n := max(4, 120*min(len(want), 8192)/len(want))
		if len(want) > 64<<10 {
			n = 2
			t.Ev("large-outputs")
		}
		for i := 0; i < n; i++ {
			offs = append(offs, t.Intn(len(want)+1))
		}
	}
	ctx := func(how string, k, kind int) string {
		return fmt.Sprintf("%s: %s fails at byte %d of %d in way %d", o.name, how, k, len(want), kind)
	}
	for _, k := range offs {
		kind := t.Intn(faultKinds)
		for i := 0; i < 2; i++ {
			kind = (kind + 1) % faultKinds
			v := t.Intn(len(o.toWriter))
			w := &faulty{n: k, kind: kind}
			err := o.toWriter[v](w)
			if !bytes.HasPrefix(want, w.got) {
				t.Fail("not-prefix", "%s: the writer got %q, which isn't a prefix of %q", ctx(fmt.Sprint("writer ", v), k, kind), clip(string(w.got), 500), clip(string(want), 1000))
			}
			if !w.failed {
				t.Ev("clean-writes")
				if err != nil || !bytes.Equal(w.got, want) {
					t.Fail("clean", "%s: no fault happened: error %v, %d bytes of %d", ctx(fmt.Sprint("writer ", v), k, kind), err, len(w.got), len(want))
				}
				continue
			}
			t.Ev("faults")
			if err == nil {
				t.Fail("unreported", "%s: success is reported", ctx(fmt.Sprint("writer ", v), k, kind))
			}
			if kind == faultShort {
				if !errors.Is(err, io.ErrShortWrite) {
					t.Fail("wrong-error", "%s: error %v", ctx(fmt.Sprint("writer ", v), k, kind), err)
				}
			} else if !errors.Is(err, errInjected) {
				t.Fail("wrong-error", "%s: error %v doesn't wrap the writer's", ctx(fmt.Sprint("writer ", v), k, kind), err)
			}
		}
	}
	// Real files.
	path := filepath.Join(t.Dir, "out")
	for i := 0; i < 3; i++ {
		k := t.Intn(len(want) + 2)
		force := t.p(50)
		os.Remove(path)
		v := t.Intn(3)
		f := o.toFile(path, force)[v]
		var old syscall.Rlimit
		must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(k), Max: old.Max}))
		err := f()
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old))
		got, _ := os.ReadFile(path)
		t.Ev("file-faults")
		if !bytes.HasPrefix(want, got) {
			t.Fail("file-not-prefix", "%s: the file has %q", ctx("file", k, 0), clip(string(got), 500))
		}
		if k < len(want) && err == nil {
			t.Fail("file-unreported", "%s: success is reported, the file has %d bytes", ctx("file", k, 0), len(got))
		}
		if k >= len(want) && (err != nil || !bytes.Equal(got, want)) {
			t.Fail("file-clean", "%s: no fault happened: error %v, %d bytes", ctx("file", k, 0), err, len(got))
		}
		os.Remove(path)
	}
	must(os.WriteFile(path, nil, 0o600))
	bad := []string{
		filepath.Join(t.Dir, "missing", "out"), filepath.Join(path, "out"), t.Dir, "", filepath.Join(t.Dir, strings.Repeat("n", 300)), filepath.Join(t.Dir, "a\x00b"),
	}
	if fi, err := os.Stat("/dev/full"); err == nil && fi.Mode()&os.ModeCharDevice != 0 && len(want) > 0 {
		bad = append(bad, "/dev/full", "/dev/full")
	}
	for _, p := range bad {
		force := p == "/dev/full" || t.p(50)
		t.Ev("file-faults")
		for v, f := range o.toFile(p, force) {
			if err := f(); err == nil {
				t.Fail("path-unreported", "%s: writing to %q (variant %d, force %v) reports success", o.name, p, v, force)
			}
		}
	}
	os.Remove(path)
	t.Sig(want)
	t.Sample(func() string { return fmt.Sprintf("%s of %d bytes, %d offsets", o.name, len(want), len(offs)) })
}

func runC16(t *T) {
	o := t.output()
	want := o.want
	dir := filepath.Join(t.Dir, "c16")
	other := []byte("PRECIOUS " + strings.Repeat("x", t.Intn(3)*t.Intn(3000)))
	states := []string{"absent", "file", "empty", "longer", "prefix", "read-only", "hard link", "link", "dangling", "link to directory", "directory", "fifo"}
	for _, st := range states {
		force := t.p(50)
		if st == "fifo" {
			force = false
		}
		v := t.Intn(3)
		must(os.RemoveAll(dir))
		must(os.Mkdir(dir, 0o700))
		path := filepath.Join(dir, "out")
		target := filepath.Join(dir, "target")
		old := other
		switch st {
		case "file":
			must(os.WriteFile(path, old, 0o644))
		case "empty":
			old = nil
			must(os.WriteFile(path, nil, 0o644))
		case "longer":
			old = append(append([]byte{}, want...), other...)
			must(os.WriteFile(path, old, 0o644))
		case "prefix":
			old = append([]byte{}, want[:t.Intn(len(want)+1)]...)
			must(os.WriteFile(path, old, 0o644))
		case "read-only":
			must(os.WriteFile(path, old, 0o400))
		case "hard link":
			must(os.WriteFile(target, old, 0o644))
			must(os.Link(target, path))
		case "link":
			must(os.WriteFile(target, old, 0o644))
			must(os.Symlink("target", path))
		case "dangling":
			must(os.Symlink("target", path))
		case "link to directory":
			must(os.Mkdir(target, 0o755))
			must(os.WriteFile(filepath.Join(target, "f"), old, 0o644))
			must(os.Symlink("target", path))
		case "directory":
			must(os.Mkdir(path, 0o755))
			must(os.WriteFile(filepath.Join(path, "f"), old, 0o644))
		case "fifo":
			must(syscall.Mkfifo(path, 0o600))
		}
		var fifo *os.File
		if st == "fifo" {
			// A reader, so that writing to the pipe doesn't block.
			var err error
			fifo, err = os.OpenFile(path, os.O_RDWR, 0)
			must(err)
			go io.Copy(io.Discard, fifo)
		}
		before := treeState(dir)
		err := o.toFile(path, force)[v]()
		after := treeState(dir)
		if fifo != nil {
			fifo.Close()
		}
		ctx := fmt.Sprintf("%s, path is %s, force %v, variant %d", o.name, st, force, v)
		switch {
		case st == "absent" || force && st != "directory" && st != "link to directory":
			// The file is written. (Permissions don't stop root.)
			if err != nil && st == "read-only" && os.Geteuid() != 0 {
				continue
			}
			if err != nil {
				t.Fail("failed", "%s: %v", ctx, err)
			}
			got, err := os.ReadFile(path)
			if err != nil || !bytes.Equal(got, want) {
				t.Fail("content", "%s: the file has %d bytes instead of %d (%v)\n%q", ctx, len(got), len(want), err, clip(string(got), 600))
			}
			if st == "absent" {
				t.Ev("created")
			} else {
				t.Ev("forced")
			}
			if fi, err := os.Lstat(path); st == "link" && (err != nil || fi.Mode()&os.ModeSymlink == 0) {
				// Replacing the link would be fine for the link, but the content of
				// the target must then be the old one.
				if b, _ := os.ReadFile(target); !bytes.Equal(b, old) {
					t.Fail("link", "%s: the link was replaced and its target changed", ctx)
				}
			}
		default:
			t.Ev("refused")
			if err == nil {
				t.Fail("overwritten", "%s: success is reported", ctx)
			}
			if !force && !errors.Is(err, os.ErrExist) {
				t.Fail("cause", "%s: the error %q doesn't say that the file exists", ctx, err)
			}
			if before != after {
				t.Fail("touched", "%s: refused with %v, but the files changed\n- %s\n+ %s", ctx, err, before, after)
			}
		}
	}
	must(os.RemoveAll(dir))
	t.Sig(want)
	t.Sample(func() string { return fmt.Sprintf("%s of %d bytes in %d states", o.name, len(want), len(states)) })
}

// treeState describes a directory.
func treeState(dir string) string {
	var b strings.Builder
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			fmt.Fprintf(&b, "%s: %v\n", p, err)
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		fmt.Fprintf(&b, "%s %v", rel, fi.Mode())
		switch {
		case fi.Mode().IsRegular():
			c, _ := os.ReadFile(p)
			fmt.Fprintf(&b, " %q", c)
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			fmt.Fprintf(&b, " -> %s", l)
		}
		b.WriteByte('\n')
		return nil
	})
	return b.String()
}
