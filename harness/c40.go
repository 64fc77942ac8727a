package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	register(&Check{
		ID:    "C40",
		Rule:  "every read-only operation of the library, file operations and tool runs, each repeated in fresh processes with another environment, working directory, time zone, locale, file-creation mask, number of processors, garbage collector setting, order of operations and order and time of file creation; all results are compared byte for byte and searched for traces of the machine; non-trivial: every case",
		Quick: 1500, Thorough: 40000,
		Run:    runC40,
		Need:   map[string]int{"processes": 2250, "operations-compared": 130000, "tool-runs": 1100, "shuffled": 1500, "traces-searched": 67000},
		Assume: []string{"TERM and COLORTERM select the colours of highlighted output by design and are not varied with highlighting", "the clock can't be set: runs at another time are seconds apart, dates are searched for in the results", "time stamps of verbose log messages are not results"},
	})
}

// place is a difference of the surroundings of a process.
type place struct {
	Env    []string
	Procs  string
	Umask  int
	Order  int64 // of the operations and of the creation of files, 0: as they are
	Future bool  // the input files are from the future
	Parent string
}

func (p place) String() string {
	return fmt.Sprintf("environment %q, mask %o, order %d, future %v, below %s", p.Env, p.Umask, p.Order, p.Future, p.Parent)
}

// zone is a time zone with an offset in seconds.
func zone(path string, offset int) string {
	b := append([]byte("TZif"), make([]byte, 40)...)
	b[39] = 1 // one type
	b[43] = 4 // its name
	b = append(b, byte(offset>>24), byte(offset>>16), byte(offset>>8), byte(offset), 0, 0)
	b = append(b, "ABC\x00"...)
	must(os.WriteFile(path, b, 0o644))
	return path
}

func (t *T) place(i int) place {
	p := place{Umask: 0o22}
	if i == 0 { // where the results are compared with
		p.Env = []string{"HOME=/nonexistent", "PATH=/usr/bin:/bin", "LC_ALL=C.UTF-8", "TZ=UTC", "COLORTERM=truecolor"}
		p.Parent = filepath.Join(t.Dir, "a")
		return p
	}
	p.Parent = filepath.Join(t.Dir, pick(t.G, []string{"b", "another folder/with a longer name", "ñ"}))
	p.Env = []string{"COLORTERM=truecolor", "PATH=/usr/bin:/bin"}
	zones := []string{"UTC", "Asia/Tokyo", zone(filepath.Join(t.Dir, "east"), 14*3600), zone(filepath.Join(t.Dir, "west"), -12*3600), "nowhere"}
	vars := []struct {
		k string
		v []string
	}{
		{"TZ", zones}, {"TZ", zones[2:4]}, {"LC_ALL", []string{"", "C", "POSIX", "tr_TR.UTF-8", "de_DE.ISO-8859-1", "ja_JP.eucJP"}}, {"LANG", []string{"tr_TR.UTF-8", "az_AZ", "C", ""}},
		{"LC_COLLATE", []string{"sv_SE.UTF-8", "C"}}, {"LC_CTYPE", []string{"tr_TR.UTF-8", "C"}}, {"LC_MESSAGES", []string{"fr_FR.UTF-8"}}, {"LC_TIME", []string{"fr_FR.UTF-8"}}, {"LC_NUMERIC", []string{"de_DE.UTF-8"}},
		{"LANGUAGE", []string{"fr:de", ""}}, {"GOMAXPROCS", []string{"1", "2", "16"}}, {"GOGC", []string{"1", "5", "off"}}, {"HOME", []string{"", "/", "/root", t.Dir}}, {"USER", []string{"", "verif"}},
		{"LOGNAME", []string{"", "verif"}}, {"USERNAME", []string{"verif"}}, {"HOSTNAME", []string{"verif"}}, {"EMAIL", []string{"me@verif"}}, {"SHELL", []string{"", "/bin/false"}}, {"PWD", []string{"", "/", "/verifpwd"}},
		{"TMPDIR", []string{t.Dir, "/nonexistent"}}, {"SOURCE_DATE_EPOCH", []string{"0", "1700000000", "x"}}, {"OUTPUT_CHARSET", []string{"ISO-8859-1"}}, {"CHARSET", []string{"ISO-8859-1"}},
		{"TEXTDOMAIN", []string{"verif"}}, {"TEXTDOMAINDIR", []string{"/"}}, {"GETTEXTDATADIRS", []string{"/"}}, {"GETTEXTCLDRDIR", []string{"/"}}, {"GETTEXTIOENCODING", []string{"ISO-8859-1"}}, {"PO_STYLE", []string{"/x.css"}},
		{"VERSION_CONTROL", []string{"numbered", "simple"}}, {"SIMPLE_BACKUP_SUFFIX", []string{".verif"}}, {"POSIXLY_CORRECT", []string{"1"}}, {"COLUMNS", []string{"20", "200"}}, {"LINES", []string{"5"}}, {"EDITOR", []string{"x"}},
		{"GOPATH", []string{"/", "relative"}}, {"GOROOT", []string{"/nonexistent"}}, {"GOFLAGS", []string{"-mod=vendor"}}, {"GO111MODULE", []string{"off"}}, {"GOOS", []string{"windows", "plan9"}}, {"GOARCH", []string{"s390x", "386"}},
		{"GODEBUG", []string{"gctrace=0", "randautoseed=0", "madvdontneed=1"}}, {"DEBUG", []string{"1"}}, {"VERBOSE", []string{"1"}}, {"CI", []string{"true"}}, {"XDG_CONFIG_HOME", []string{"/nonexistent"}},
		{"GOTRACEBACK", []string{"none"}}, {"GOMEMLIMIT", []string{"20MiB"}},
	}
	seen := map[string]bool{}
	for _, v := range vars {
		if t.p(35) && !seen[v.k] {
			seen[v.k] = true
			p.Env = append(p.Env, v.k+"="+pick(t.G, v.v))
		}
	}
	p.Umask = pick(t.G, []int{0o22, 0, 0o77, 0o27})
	if t.p(70) {
		p.Order = 1 + t.Int63()>>1
		t.Ev("shuffled")
	}
	p.Future = t.p(40)
	return p
}

// probed is what a process of the probe reports.
type probed struct{ Name, Out string }

// probe runs the operations for a seed and writes their results.
func probe(seed int64, dir string, order int64, future bool, out string) {
	t := &T{C: checks["C40"], Dir: dir, G: newG(seed), events: map[string]int{}, sigs: map[uint64]struct{}{}}
	t.logLong, t.scaleTop = 11, 7
	w := t.world()
	// Files.
	files := map[string]string{}
	var names []string
	add := func(n, s string) {
		if _, ok := files[n]; !ok {
			names = append(names, n)
		}
		files[n] = s
	}
	for i, n := 0, 2+t.Intn(6); i < n; i++ {
		src := t.goFile(!t.p(10), t.Intn(12)).b.String()
		if t.p(10) {
			src = strings.Repeat("// "+strings.Repeat("x", 70)+"\n", t.Intn(3000)) + src // takes longer
		}
		add("src/"+pick(t.G, []string{"", "z/", "a/", "z/b/", ".h/"})+pick(t.G, []string{"a", "b", "B", "ñ", "_c", "x y"})+".go", src)
	}
	es := t.catalogue(6)
	add("in.po", t.doc(es))
	add("in.mo", string(compile.MoToBytes(cloneEntries(es))))
	r := rand.New(rand.NewSource(order))
	created := append([]string{}, names...)
	if order != 0 {
		r.Shuffle(len(created), func(i, j int) { created[i], created[j] = created[j], created[i] })
	}
	for _, n := range created {
		must(os.MkdirAll(filepath.Dir(n), 0o755))
		must(os.WriteFile(n, []byte(files[n]), 0o644))
		if future {
			tm := time.Unix(4000000000+r.Int63n(1e8), 0)
			must(os.Chtimes(n, tm, tm))
		}
	}
	op := func(name string, f func() *result) { w.ops = append(w.ops, operation{name, f}) }
	gopts := []goparse.Option{goparse.WithExtractAll(t.p(50)), goparse.WithCleanDuplicates(t.p(50)), goparse.WithNoHeader(t.p(20))}
	if t.p(40) {
		h := po.DefaultTemplateHeaderConfig(po.HeaderWithTemplate(t.p(70)), po.HeaderWithLanguage("xx"))
		gopts = append(gopts, goparse.WithHeaderConfig(&h))
	}
	show := func(f *po.File, err error) *result {
		if f == nil {
			return text(fmt.Sprint(err))
		}
		return text(f.Name + "\n" + f.String() + fmt.Sprint(err))
	}
	op("goparse tree", func() *result { return show(goparse.FromPath("src", gopts...)) })
	op("goparse trees", func() *result { return show(goparse.FromPaths([]string{"src/z", "src", "."}, gopts...)) })
	op("goparse files", func() *result { return show(goparse.FromPaths(names[:len(names)-2], gopts...)) })
	op("parse PO file", func() *result { return show(parse.Po("in.po")) })
	op("parse MO file", func() *result { return show(parse.Mo("in.mo")) })
	for i := 0; i < 2; i++ {
		i := i
		f := &po.File{Name: fmt.Sprintf("out%d", i), Entries: es}
		var popts []compile.PoOption
		for _, o := range []compile.PoOption{
			compile.PoWithManageHeader(true), compile.PoWithHeaderFields(true), compile.PoWithHeaderComments(true), compile.PoWithWordWrap(true),
			compile.PoWithTitle("T"), compile.PoWithPackageName("P"), compile.PoWithForeignUser(true), compile.PoWithCopyrightHolder("H"),
		} {
			if t.p(40) {
				popts = append(popts, o)
			}
		}
		op("compile PO file", func() *result {
			p := fmt.Sprintf("out%d.po", i)
			os.Remove(p)
			err := compile.PoToFile(*f, p, popts...)
			b, _ := os.ReadFile(p)
			return text(fmt.Sprintf("%v\n%s", err, b))
		})
		op("compile MO file", func() *result {
			p := fmt.Sprintf("out%d.mo", i)
			os.Remove(p)
			err := compile.MoToFile(*f, p)
			b, _ := os.ReadFile(p)
			return text(fmt.Sprintf("%v\n%q", err, b))
		})
	}
	// Long lists with many equal messages.
	var long po.Entries
	for i, n := 0, t.Intn(300); i < n; i++ {
		e := po.Entry{ID: pick(t.G, []string{"a", "b", "c d", "É"}) + fmt.Sprint(t.Intn(40)), Str: fmt.Sprint(i), Obsolete: t.p(10)}
		if t.p(20) {
			e.Flags = []string{"fuzzy"}
		}
		if t.p(30) {
			e.Locations = po.Locations{{File: "a.go", Line: t.Intn(5)}}
		}
		long = append(long, e)
	}
	list := func(es po.Entries) *result { return entriesResult(es, false, "") }
	cmps := []po.Cmp[po.Entry]{po.CompareEntry, po.CompareEntryByID, po.CompareEntryByFile, po.CompareEntryByLine, po.CompareEntryByFuzzy, po.CompareEntryByObsolete}
	cmp := cmps[t.Intn(len(cmps))]
	op("sort long", func() *result { return list(cloneEntries(long).SortFunc(cmp)) })
	op("solve long", func() *result { return list(cloneEntries(long).Solve()) })
	op("validate long", func() *result { return text(fmt.Sprint(long.Validate())) })
	half := len(long) / 2
	op("merge long", func() *result {
		return list(po.Merge(cloneEntries(long[:half]), cloneEntries(long[half:]), po.MergeWithFuzzyMatch(false)))
	})
	op("concatenate long", func() *result {
		return list(po.MsgcatMergeFiles([]*po.File{{Name: "1", Entries: cloneEntries(long[:half])}, {Name: "2", Entries: cloneEntries(long[half:])}}))
	})
	op("compile long", func() *result { return text(fmt.Sprintf("%q", compile.MoToBytes(cloneEntries(long.Solve())))) })
	op("new header", func() *result {
		h := po.NewHeader(po.HeaderWithTemplate(true), po.HeaderWithLanguage("xx"))
		c := po.DefaultTemplateHeaderConfig()
		return text(h.String() + c.String() + c.ToHeader().String() + h.ToEntry().String() + po.DefaultHeaderConfig().ToHeader().String())
	})
	idx := make([]int, len(w.ops))
	for i := range idx {
		idx[i] = i
	}
	if order != 0 {
		r.Shuffle(len(idx), func(i, j int) { idx[i], idx[j] = idx[j], idx[i] })
	}
	res := make([]probed, len(w.ops))
	for _, i := range idx {
		res[i] = probed{w.ops[i].name, fmt.Sprintf("%q", w.ops[i].run().render())}
	}
	j, err := json.Marshal(res)
	must(err)
	must(os.WriteFile(out, j, 0o644))
}

func (t *T) probe(seed int64, p place) []probed {
	dir := filepath.Join(p.Parent, "probe")
	must(os.RemoveAll(dir))
	must(os.MkdirAll(dir, 0o755))
	defer os.RemoveAll(dir)
	self, err := os.Executable()
	must(err)
	out := filepath.Join(t.Dir, "probe.json")
	os.Remove(out)
	cmd := exec.Command(self, "probe", "-seed", fmt.Sprint(seed), "-dir", dir, "-order", fmt.Sprint(p.Order), fmt.Sprintf("-future=%v", p.Future), "-out", out)
	cmd.Dir, cmd.Env = dir, p.Env
	var o bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &o
	defer syscall.Umask(syscall.Umask(p.Umask))
	t.Note("probe in %v", p)
	if err := cmd.Run(); err != nil {
		if bytes.Contains(o.Bytes(), []byte("gotext-tools")) {
			t.Fail("crash", "%v in %v\n%s", err, p, clip(o.String(), 6000))
		}
		panic(fmt.Sprintf("probe: %v %s", err, o.String()))
	}
	t.Ev("processes")
	b, err := os.ReadFile(out)
	must(err)
	var l []probed
	must(json.Unmarshal(b, &l))
	return l
}

// traces finds something of the machine in a result.
func (t *T) traces(s string) string {
	t.Ev("traces-searched")
	now := time.Now()
	var l []string
	for d := -1; d <= 1; d++ {
		for _, f := range []string{"2006-01-02", "2006/01/02", "01/02/2006", "Jan _2 2006", "02 Jan 2006", "Jan 2, 2006", "2006-1-2"} {
			l = append(l, now.AddDate(0, 0, d).Format(f))
		}
	}
	if h, err := os.Hostname(); err == nil && len(h) > 7 {
		l = append(l, h)
	}
	l = append(l, t.Dir)
	for _, x := range l {
		if strings.Contains(s, x) {
			return x
		}
	}
	return ""
}

var stamp = regexp.MustCompile(`(?m)^(\d{4}/\d\d/\d\d )?\d\d:\d\d:\d\d(\.\d+)?`)

func runC40(t *T) {
	if t.Case%2 == 0 {
		seed := t.Int63()
		base := t.place(0)
		want := t.probe(seed, base)
		for _, x := range want {
			if s := t.traces(x.Out); s != "" {
				t.Fail("trace", "%q is in the result of %s\n%s", s, x.Name, clip(x.Out, 3000))
			}
		}
		for i := 1; i < 3; i++ {
			p := t.place(i)
			got := t.probe(seed, p)
			if len(got) != len(want) {
				panic("the probe isn't reproducible")
			}
			for j := range want {
				t.Ev("operations-compared")
				if got[j] != want[j] {
					t.Fail("differs", "%s gives another result in %v\n%s\nthan in %v\n%s", want[j].Name, p, diffAt(got[j].Out, want[j].Out), base, diffAt(want[j].Out, got[j].Out))
				}
			}
		}
		t.Sig(fmt.Sprint(want))
		t.Sample(func() string { return fmt.Sprint(len(want), " operations, first: ", want[0]) })
		return
	}
	// Tools.
	seed := t.Int63()
	base := t.place(0)
	tool := t.Intn(7)
	run := func(p place) []string {
		t.G = newG(seed)
		c := &cli{T: t, dir: filepath.Join(p.Parent, fmt.Sprintf("x%d", t.Case)), env: p.Env, rec: &[]string{}}
		must(os.RemoveAll(c.dir))
		must(os.MkdirAll(c.dir, 0o755))
		must(os.Chdir(c.dir))
		defer c.done()
		if p.Order != 0 {
			r := rand.New(rand.NewSource(p.Order))
			c.mix = func() { remake(c.dir, r) }
		}
		defer syscall.Umask(syscall.Umask(p.Umask))
		func() {
			defer func() {
				r := recover()
				if f, ok := r.(failSignal); ok {
					if f.key == "timeout" || f.key == "killed" || f.key == "tool-panic" {
						panic(r)
					}
				} else if r != nil {
					panic(r)
				}
				// Whether the result is right is judged by C21, C23 and C24.
			}()
			[]func(){c.msgofmt, c.msgounfmt, c.msgocat, c.msgomerge, c.xgotext, c.joining, c.updating}[tool]()
		}()
		for i, s := range *c.rec {
			(*c.rec)[i] = strings.ReplaceAll(stamp.ReplaceAllString(s, "STAMP"), c.dir, "DIR")
		}
		return *c.rec
	}
	next := t.place(1)
	after := t.Int63()
	want, got := run(base), run(next)
	t.G = newG(after)
	if len(got) != len(want) {
		t.Fail("tool-differs", "%d runs in %v, %d in %v", len(got), next, len(want), base)
	}
	for i := range want {
		t.Ev("tool-runs")
		if s := t.traces(want[i]); s != "" {
			t.Fail("tool-trace", "%q is in the result\n%s", s, clip(want[i], 5000))
		}
		if got[i] != want[i] {
			t.Fail("tool-differs", "in %v\n%s\nin %v\n%s", next, diffAt(got[i], want[i]), base, diffAt(want[i], got[i]))
		}
	}
	if len(want) == 0 { // refused before
		return
	}
	t.Sig(want[0])
	t.Sample(func() string { return want[0] })
}

// remake creates the files of a directory again, in another order and of
// another age.
func remake(dir string, r *rand.Rand) {
	type file struct {
		path string
		mode os.FileMode
		data []byte
	}
	var l []file
	filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		must(err)
		if !d.Type().IsRegular() {
			return nil
		}
		i, err := d.Info()
		must(err)
		if i.Sys().(*syscall.Stat_t).Nlink == 1 {
			b, err := os.ReadFile(p)
			must(err)
			l = append(l, file{p, i.Mode().Perm(), b})
		}
		return nil
	})
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	for _, f := range l {
		must(os.Remove(f.path))
	}
	for _, f := range l {
		must(os.WriteFile(f.path, f.data, f.mode))
		must(os.Chmod(f.path, f.mode))
		tm := time.Unix(r.Int63n(4e9), 0)
		must(os.Chtimes(f.path, tm, tm))
	}
}

// diffAt is the part of a around its first difference from b.
func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := i - 300
	if from < 0 {
		from = 0
	}
	return clip(a, 300) + "\n[...] " + clip(a[from:], 700)
}

// record keeps the result of a run and what it left behind.
func (c *cli) record(r ran) {
	if c.rec == nil {
		return
	}
	m := c.snapshot()
	var l []string
	for p := range m {
		l = append(l, p)
	}
	sort.Strings(l)
	var b strings.Builder
	e := r.err
	fmt.Fprintf(&b, "%s\nstatus %d\nstdout %q\nstderr:\n%s\n", r.cmd, r.status, r.out, e)
	for _, p := range l {
		fmt.Fprintf(&b, "%s: %q\n", p, m[p])
	}
	*c.rec = append(*c.rec, b.String())
}
