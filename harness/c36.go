package main

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	register(&Check{
		ID:    "C36",
		Level: "exploration",
		Rule:  "sequences of library operations on files, folders, readers and writers (sound, broken, missing, unreadable as what they are), with the garbage collector off; around every operation the open files, goroutines, working directory, environment, log settings, input files and scratch folders of the process are compared; non-trivial: every operation",
		Quick: 6000, Thorough: 100000,
		Run:  runC36,
		Need: map[string]int{"operations": 28000, "fail": 14000, "succeed": 12000, "caller-files": 6000, "wrapped": 6000, "trees": 1300, "broken-trees": 1300, "outputs": 6500, "refused": 900, "positions": 1200, "retained": 7000},
		Assume: []string{
			"a goroutine or file of an operation is gone within two seconds after its end",
			"access times aren't compared",
		},
	})
}

// procState is what an operation could leave behind in the process.
type procState struct {
	files []string
	gos   int
	rest  string
}

func openFiles() []string {
	var l []string
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		link, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err != nil || strings.HasPrefix(link, "anon_inode:") || strings.HasPrefix(link, "/proc/") {
			continue
		}
		n, _ := strconv.Atoi(e.Name())
		l = append(l, fmt.Sprintf("%d %s", n, link))
	}
	sort.Strings(l)
	return l
}

func processState() procState {
	wd, err := os.Getwd()
	env := os.Environ()
	sort.Strings(env)
	return procState{
		files: openFiles(),
		gos:   runtime.NumGoroutine(),
		rest: fmt.Sprintf("working directory %s %v\nenvironment %q\narguments %q\nlog %q %d %v %v\nstreams %p %p %p\nprocessors %d",
			wd, err, env, os.Args, log.Prefix(), log.Flags(), log.Writer() == os.Stderr, log.Default() == nil, os.Stdin, os.Stdout, os.Stderr, runtime.GOMAXPROCS(0)),
	}
}

// snapshot describes a folder with everything below it.
func snapshot(root string, skip map[string]bool) map[string]string {
	m := map[string]string{}
	must(filepath.Walk(root, func(p string, st os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if skip[p] {
			return nil
		}
		d := fmt.Sprintf("%v %d %d", st.Mode(), st.Size(), st.ModTime().UnixNano())
		if st.IsDir() {
			d = st.Mode().String() // the time changes with its files
		} else if st.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			must(err)
			d += " " + string(b)
		}
		m[p] = d
		return nil
	}))
	return m
}

func diffSnapshots(a, b map[string]string) string {
	for p, d := range a {
		if e, ok := b[p]; !ok {
			return p + " is gone"
		} else if e != d {
			return fmt.Sprintf("%s changes from %q to %q", p, clip(d, 200), clip(e, 200))
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			return p + " appears"
		}
	}
	return ""
}

// callerFile is a reader or writer of the caller, which only the caller closes.
type callerFile struct {
	io.Reader
	io.Writer
	calls []string
}

func (f *callerFile) Close() error { f.calls = append(f.calls, "Close"); return nil }
func (f *callerFile) Flush() error { f.calls = append(f.calls, "Flush"); return nil }

// libOp is one of them, and what it may change.
type libOp struct {
	name string
	run  func() error
	out  string // the path that it may write
	keep bool   // unless it fails
}

func runC36(t *T) {
	dir := filepath.Join(t.Dir, "c36")
	in, out, tmp, cwd := filepath.Join(dir, "in"), filepath.Join(dir, "out"), filepath.Join(dir, "tmp"), filepath.Join(dir, "cwd")
	for _, d := range []string{in, out, tmp, cwd} {
		must(os.MkdirAll(d, 0o755))
	}
	old, err := os.Getwd()
	must(err)
	oldTmp, hadTmp := os.LookupEnv("TMPDIR")
	must(os.Setenv("TMPDIR", tmp))
	must(os.Chdir(cwd))
	gc := debug.SetGCPercent(-1)
	var open []*os.File // of this case
	defer func() {
		debug.SetGCPercent(gc)
		for _, f := range open {
			f.Close()
		}
		os.Chdir(old)
		if hadTmp {
			os.Setenv("TMPDIR", oldTmp)
		} else {
			os.Unsetenv("TMPDIR")
		}
		os.RemoveAll(dir)
	}()

	d := t.inputs36(in, out)
	var ops []string
	defer func() { t.Sample(func() string { return strings.Join(ops, ", ") }) }()
	type kept struct {
		name      string
		got, want []byte
	}
	var retained []kept

	for i, n := 0, 3+t.Intn(5); i < n; i++ {
		op := t.operation36(d, &open, func(name string, b []byte) {
			retained = append(retained, kept{name, b, append([]byte(nil), b...)})
			t.Ev("retained")
		})
		ops = append(ops, op.name)
		t.Note("%v", ops)
		t.Ev("operations")
		skip := map[string]bool{}
		if op.out != "" {
			skip[op.out] = true
		}
		all := snapshot(dir, skip)
		target, hadTarget := os.ReadFile(op.out)
		st := processState()

		err := op.run()

		t.Sig(strings.ReplaceAll(op.name, dir, ""), err != nil, len(all), fmt.Sprint(d.sum))
		if err != nil {
			t.Ev("fail")
		} else {
			t.Ev("succeed")
		}
		var now procState
		for wait := 0; ; wait++ {
			now = processState()
			if strings.Join(now.files, "\n") == strings.Join(st.files, "\n") && now.gos <= st.gos || wait == 400 {
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
		ctx := fmt.Sprintf("%s (error: %v)", op.name, err)
		if a, b := strings.Join(st.files, "\n"), strings.Join(now.files, "\n"); a != b {
			t.Fail("files", "%s changes the open files from\n%s\nto\n%s", ctx, a, b)
		}
		if now.gos > st.gos {
			t.Fail("goroutines", "%s leaves %d goroutines behind\n%s", ctx, now.gos-st.gos, clip(allStacks(), 4000))
		}
		if st.rest != now.rest {
			t.Fail("process", "%s changes the process from\n%s\nto\n%s", ctx, st.rest, now.rest)
		}
		if d := diffSnapshots(all, snapshot(dir, skip)); d != "" {
			t.Fail("touched", "%s: %s", ctx, d)
		}
		if op.out != "" {
			t.Ev("outputs")
			if op.keep {
				b, e := os.ReadFile(op.out)
				if err == nil {
					t.Fail("overwritten", "%s writes to a path that is taken", ctx)
				}
				if (e == nil) != (hadTarget == nil) || !bytes.Equal(b, target) {
					t.Fail("overwritten", "%s changes the target that is there", ctx)
				}
				t.Ev("refused")
			}
		}
		for _, k := range retained {
			if !bytes.Equal(k.got, k.want) {
				t.Fail("reused", "%s changes the result of %s from %q to %q", ctx, k.name, clip(string(k.want), 500), clip(string(k.got), 500))
			}
		}
	}
}

type inputs36 struct {
	po, mo, gos, any []string // paths of documents, sound and not
	trees            []string
	broken           map[string]bool
	file             *po.File // to write
	in, out          string
	sum              int // of the sizes of the documents
}

// inputs36 writes documents of all kinds.
func (t *T) inputs36(in, out string) *inputs36 {
	d := &inputs36{in: in, out: out, broken: map[string]bool{}}
	write := func(name, text string) string {
		p := filepath.Join(in, name)
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		d.sum += len(text)
		must(os.WriteFile(p, []byte(text), pick(t.G, []os.FileMode{0o644, 0o444, 0o600})))
		return p
	}
	es := t.moEntries(1 + t.count(t.Intn(8), 7))
	d.file = &po.File{Entries: es}
	good := compile.PoToString(d.file)
	mo := compile.MoToBytes(d.file)
	goText := t.goFile(true, 1+t.Intn(4)).b.String()
	d.po = []string{write("good.po", good), write("bad.po", good+"msgid \"x\nmsgstr \"\"\n"), write("cut.po", good[:t.Intn(len(good)+1)])}
	d.mo = []string{write("good.mo", string(mo)), write("cut.mo", string(mo[:t.Intn(len(mo))])), write("bad.mo", "\xde\x12\x04\x95"+goText)}
	d.gos = []string{write("good.go", goText), write("bad.go", goText+"\nfunc {"), write("call.go", "package p\nimport \"github.com/leonelquinteros/gotext\"\nvar x = gotext.Get(1)\n")}
	d.any = append(append(append(d.any, d.po...), d.mo...), d.gos...)
	d.any = append(d.any, write("empty", ""), in, filepath.Join(in, "missing"), filepath.Join(in, "good.po", "x"))
	for _, name := range []string{"a", "b", "c.po"} {
		if t.p(60) {
			must(os.WriteFile(filepath.Join(out, name), []byte("old "+name), 0o644))
		}
	}
	for i := 0; i < 2; i++ {
		root := fmt.Sprintf("tree%d", i)
		n := 1 + t.Intn(8)
		if t.p(10) {
			n = 30 + t.Intn(60)
		}
		bad := -1
		if i == 1 {
			bad = t.Intn(n)
		}
		for j := 0; j < n; j++ {
			text := "package p\n"
			switch {
			case j == bad:
				text = "package p\nfunc {"
				d.broken[filepath.Join(in, root)] = true
			case t.p(40):
				text = t.goFile(true, 1).b.String()
			}
			write(filepath.Join(root, pick(t.G, []string{"", "a", "b", "a/c"}), fmt.Sprintf("f%d.go", j)), text)
		}
		d.trees = append(d.trees, filepath.Join(in, root))
	}
	return d
}

func (t *T) operation36(d *inputs36, open *[]*os.File, retain func(string, []byte)) libOp {
	// A document: mostly of the kind.
	doc := func(kind []string) string {
		if t.p(75) {
			return pick(t.G, kind)
		}
		return pick(t.G, d.any)
	}
	content := func(p string) []byte {
		b, _ := os.ReadFile(p)
		return b
	}
	opened := func(p string) *os.File {
		f, err := os.Open(p)
		if err != nil {
			f, err = os.Open(d.in)
			must(err)
		} else if st, err := f.Stat(); err == nil && st.Mode().IsRegular() && t.p(30) {
			t.Ev("positions")
			_, err = f.Seek(int64(t.Intn(int(st.Size())+1)), io.SeekStart)
			must(err)
		}
		*open = append(*open, f)
		t.Ev("caller-files")
		return f
	}
	parsed := func(p po.Parser, err error) error {
		if err != nil {
			return err
		}
		p.Parse()
		return p.Error()
	}
	second := func(_ *po.File, err error) error { return err }
	// checked runs it with a reader that has more methods.
	wrapped := func(b []byte, f func(r io.Reader) error) func() error {
		return func() error {
			t.Ev("wrapped")
			c := &callerFile{Reader: bytes.NewReader(b)}
			err := f(c)
			if len(c.calls) > 0 {
				t.Fail("closed", "the reader of the caller gets calls of %v", c.calls)
			}
			return err
		}
	}
	// from checks that a file is read from where it stands.
	from := func(f *os.File, read func(*os.File) (*po.File, error), bytes func([]byte, string) (*po.File, error)) error {
		at, err := f.Seek(0, io.SeekCurrent)
		must(err)
		st, err := f.Stat()
		must(err)
		got, err := read(f)
		if st.IsDir() {
			return err
		}
		b, e := os.ReadFile(f.Name())
		must(e)
		want, e := bytes(b[at:], f.Name())
		if (err == nil) != (e == nil) {
			t.Fail("position", "%s read from %d: %v, the bytes from there on: %v", f.Name(), at, err, e)
		}
		if err == nil {
			if d := diffEntries(got.Entries, want.Entries); d != "" {
				t.Fail("position", "%s read from %d: %s", f.Name(), at, d)
			}
		}
		return err
	}
	// stays checks that a file of the caller is still open after it.
	stays := func(f *os.File, run func() error) func() error {
		return func() error {
			err := run()
			if _, e := f.Stat(); e != nil {
				t.Fail("closed", "the file %s of the caller isn't usable any more: %v", f.Name(), e)
			}
			return err
		}
	}
	gOpts := []goparse.Option{goparse.WithNoHeader(t.p(50))}
	switch t.Intn(5) {
	case 0: // PO
		p := doc(d.po)
		b := content(p)
		switch t.Intn(9) {
		case 0:
			return libOp{name: "parse.Po " + p, run: func() error { return second(parse.Po(p)) }}
		case 1:
			return libOp{name: "parse.NewPo " + p, run: func() error {
				x, err := parse.NewPo(p)
				if err != nil {
					return err
				}
				return parsed(x, nil)
			}}
		case 2:
			f := opened(p)
			return libOp{name: "parse.PoFromFile " + p, run: stays(f, func() error {
				return from(f, func(f *os.File) (*po.File, error) { return parse.PoFromFile(f) }, func(b []byte, n string) (*po.File, error) { return parse.PoFromBytes(b, n) })
			})}
		case 3:
			f := opened(p)
			return libOp{name: "parse.NewPoFromFile " + p, run: stays(f, func() error {
				x, err := parse.NewPoFromFile(f)
				if err != nil {
					return err
				}
				return parsed(x, nil)
			})}
		case 4:
			return libOp{name: "parse.PoFromReader " + p, run: wrapped(b, func(r io.Reader) error { return second(parse.PoFromReader(r, "n")) })}
		case 5:
			return libOp{name: "parse.NewPoFromReader " + p, run: wrapped(b, func(r io.Reader) error {
				x, err := parse.NewPoFromReader(r, "n")
				if err != nil {
					return err
				}
				return parsed(x, nil)
			})}
		case 6:
			retain("the caller", b)
			return libOp{name: "parse.PoFromBytes " + p, run: func() error { return second(parse.PoFromBytes(b, "n")) }}
		case 7:
			return libOp{name: "compile.HighlightFromReader " + p, run: wrapped(b, func(r io.Reader) error {
				x, err := compile.HighlightFromReader(compile.DefaultHighlight, "n", r)
				retain("HighlightFromReader", x)
				return err
			})}
		}
		retain("the caller", b)
		return libOp{name: "compile.HighlightFromBytes " + p, run: func() error {
			x, err := compile.HighlightFromBytes(compile.DefaultHighlight, "n", b)
			retain("HighlightFromBytes", x)
			return err
		}}
	case 1: // MO
		p := doc(d.mo)
		b := content(p)
		switch t.Intn(6) {
		case 0:
			return libOp{name: "parse.Mo " + p, run: func() error { return second(parse.Mo(p)) }}
		case 1:
			return libOp{name: "parse.NewMo " + p, run: func() error {
				x, err := parse.NewMo(p)
				if err != nil {
					return err
				}
				return parsed(x, nil)
			}}
		case 2:
			f := opened(p)
			return libOp{name: "parse.MoFromFile " + p, run: stays(f, func() error {
				return from(f, func(f *os.File) (*po.File, error) { return parse.MoFromFile(f) }, func(b []byte, n string) (*po.File, error) { return parse.MoFromBytes(b, n) })
			})}
		case 3:
			return libOp{name: "parse.MoFromReader " + p, run: wrapped(b, func(r io.Reader) error { return second(parse.MoFromReader(r, "n")) })}
		case 4:
			return libOp{name: "parse.NewMoFromReader " + p, run: wrapped(b, func(r io.Reader) error {
				x, err := parse.NewMoFromReader(r, "n")
				if err != nil {
					return err
				}
				return parsed(x, nil)
			})}
		}
		retain("the caller", b)
		return libOp{name: "parse.MoFromBytes " + p, run: func() error { return second(parse.MoFromBytes(b, "n")) }}
	case 2: // Go
		p := doc(d.gos)
		if t.p(50) {
			p = pick(t.G, d.trees)
		}
		if d.broken[p] {
			t.Ev("broken-trees")
		} else if st, err := os.Stat(p); err == nil && st.IsDir() {
			t.Ev("trees")
		}
		b := content(p)
		cfg := goparse.DefaultConfig(gOpts...)
		newParser := func(x *goparse.Parser, err error) error {
			if err != nil {
				return err
			}
			return parsed(x, nil)
		}
		paths := []string{p}
		for i, n := 0, t.Intn(4); i < n; i++ {
			paths = append(paths, doc(d.gos))
		}
		t.Shuffle(len(paths), func(i, j int) { paths[i], paths[j] = paths[j], paths[i] })
		if t.p(30) {
			gOpts = append(gOpts, goparse.WithExclude(pick(t.G, paths), pick(t.G, d.any)))
		}
		switch t.Intn(10) {
		case 0:
			return libOp{name: "goparse.FromPath " + p, run: func() error { return second(goparse.FromPath(p, gOpts...)) }}
		case 1:
			return libOp{name: "goparse.NewParser " + p, run: func() error { return newParser(goparse.NewParser(p, gOpts...)) }}
		case 2:
			return libOp{name: fmt.Sprint("goparse.FromPaths ", paths), run: func() error { return second(goparse.FromPaths(paths, gOpts...)) }}
		case 3:
			return libOp{name: fmt.Sprint("goparse.NewParserFromPaths ", paths), run: func() error { return newParser(goparse.NewParserFromPaths(paths, gOpts...)) }}
		case 4, 5:
			var fs []*os.File
			for _, p := range paths {
				fs = append(fs, opened(p))
			}
			run := func() error { return second(goparse.FromFiles(fs, gOpts...)) }
			if t.p(50) {
				run = func() error { return newParser(goparse.NewParserFromFiles(fs, gOpts...)) }
			} else if t.p(50) {
				run = func() error {
					return from(fs[0], func(f *os.File) (*po.File, error) { return goparse.FromFile(f, gOpts...) },
						func(b []byte, n string) (*po.File, error) { return goparse.FromBytes(b, n, gOpts...) })
				}
			}
			return libOp{name: fmt.Sprint("goparse.FromFiles ", paths), run: func() error {
				err := run()
				for _, f := range fs {
					stays(f, func() error { return nil })()
				}
				return err
			}}
		case 6:
			return libOp{name: "goparse.NewFileFromPath " + p, run: func() error {
				f, err := goparse.NewFileFromPath(p, &cfg)
				if err != nil {
					return err
				}
				f.Entries()
				return f.Error()
			}}
		case 7:
			return libOp{name: "goparse.NewFile " + p, run: wrapped(b, func(r io.Reader) error {
				f, err := goparse.NewFile(r, "n", &cfg)
				if err != nil {
					return err
				}
				f.Entries()
				return f.Reset(bytes.NewReader(b), "m", &cfg)
			})}
		case 8:
			retain("the caller", b)
			return libOp{name: "goparse.FromBytes " + p, run: func() error { return second(goparse.FromBytes(b, "n", gOpts...)) }}
		}
		return libOp{name: "goparse.FromReader " + p, run: wrapped(b, func(r io.Reader) error { return second(goparse.FromReader(r, "n", gOpts...)) })}
	}
	// Writing.
	poc := compile.NewPo(d.file)
	moc := compile.NewMo(d.file)
	if t.p(30) {
		part := func() *po.File {
			f := &po.File{}
			for _, e := range d.file.Entries {
				if t.p(50) {
					f.Entries = append(f.Entries, e)
				}
			}
			f.Entries = append(f.Entries, po.Entry{ID: fmt.Sprint("number ", t.Intn(1000)), Str: t.str()})
			return f
		}
		name := "PoCompiler.ToBytes"
		f := func() []byte { poc.SetFile(part()); return poc.ToBytes() }
		switch t.Intn(4) {
		case 0:
			name, f = "PoToBytes", func() []byte { return compile.PoToBytes(part()) }
		case 1:
			name, f = "MoToBytes", func() []byte { return compile.MoToBytes(part()) }
		case 2:
			name, f = "MoCompiler.ToBytes", func() []byte { moc.SetFile(part()); return moc.ToBytes() }
		}
		return libOp{name: name, run: func() error {
			for i := 0; i < 2+t.Intn(3); i++ {
				retain(name, f())
			}
			return nil
		}}
	}
	if t.p(30) { // to a writer of the caller
		to := func(w io.Writer) error { return compile.PoToWriter(d.file, w) }
		want := compile.PoToBytes(d.file)
		name := "PoToWriter"
		switch t.Intn(4) {
		case 0:
			to = func(w io.Writer) error { return poc.ToWriterWithOptions(w, compile.PoWithNoLocation(false)) }
		case 1, 2:
			name, want = "MoToWriter", compile.MoToBytes(d.file)
			to = func(w io.Writer) error { return compile.MoToWriter(d.file, w) }
			if t.p(50) {
				to = func(w io.Writer) error { return moc.ToWriterWithOptions(w, compile.MoWithVerbose(false)) }
			}
		}
		if t.p(50) {
			return libOp{name: name, run: func() error {
				t.Ev("wrapped")
				var b bytes.Buffer
				c := &callerFile{Writer: &b}
				err := to(c)
				for _, x := range c.calls {
					if x == "Close" {
						t.Fail("closed", "%s closes the writer", name)
					}
				}
				return err
			}}
		}
		p := filepath.Join(d.out, "file")
		before := "before\n"
		must(os.WriteFile(p, []byte(before), 0o644))
		f, err := os.OpenFile(p, os.O_RDWR, 0)
		must(err)
		*open = append(*open, f)
		_, err = f.Seek(int64(len(before)), io.SeekStart)
		must(err)
		return libOp{name: name + " to a file", out: p, run: func() error {
			t.Ev("caller-files")
			err := to(f)
			if _, e := f.WriteString("after\n"); e != nil {
				t.Fail("closed", "%s: the file isn't usable any more: %v", name, e)
			}
			if b, _ := os.ReadFile(p); err == nil && string(b) != before+string(want)+"after\n" {
				t.Fail("position", "%s to a file at %d, then another line: %q", name, len(before), b)
			}
			return err
		}}
	}
	p := filepath.Join(d.out, pick(t.G, []string{"a", "b", "c.po", "sub", "missing/x", "a/x"}))
	if t.p(20) {
		os.MkdirAll(filepath.Join(d.out, "sub"), 0o755)
	}
	force := t.p(50)
	op := libOp{out: p, name: fmt.Sprintf("ToFile %s (force %v)", p, force)}
	if _, err := os.Lstat(p); err == nil && !force {
		op.keep = true
	}
	switch t.Intn(4) {
	case 0:
		op.run = func() error { return compile.PoToFile(d.file, p, compile.PoWithForcePo(force)) }
	case 1:
		op.run = func() error { return poc.ToFileWithOptions(p, compile.PoWithForcePo(force)) }
	case 2:
		op.run = func() error { return compile.MoToFile(d.file, p, compile.MoWithForce(force)) }
	default:
		op.run = func() error { return moc.ToFileWithOptions(p, compile.MoWithForce(force)) }
	}
	op.name = "compile." + op.name
	return op
}
