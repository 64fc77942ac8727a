package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime/metrics"
	"strings"
	"time"

	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	register(&Check{
		ID:    "C06",
		Rule:  "hostile documents (mutated, truncated, spliced, repeated, random and patterned, up to 64 KB) of the three formats offered to the parsers through all entry points and options, then interpreted, validated and written; non-trivial: every mutated document",
		Quick: 160000, Thorough: 4000000,
		Run: runC06,
		CPU: 20 * time.Second,
		Need: map[string]int{
			"po": 40000, "mo": 40000, "go": 40000, "po-rejected": 20000, "po-accepted": 8000,
			"mo-rejected": 20000, "mo-accepted": 4000, "go-rejected": 20000, "go-accepted": 4000,
			"big": 2000, "reader-error": 2000, "headers": 4000, "written": 10000,
		},
		Assume: []string{
			"allocation is judged by the bytes allocated while parsing, against a bound linear in the size of the document",
		},
	})
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

var hostile = []string{
	"msgid", "msgstr", "msgctxt", "msgid_plural", "msgstr[", "msgstr[0]", "msgstr[18446744073709551616]", "msgstr[-1]", "msgstr[99999999]",
	"\"", "\"\"", "\\", "\\x", "\\400", "\\u12", "\\U00110000", "#", "#~", "#~|", "#|", "#:", "#,", "#.", "#~ ", "#~ #~ ", "#: :", "#: a:99999999999999999999999",
	"#: \u2068a b\u2069:3", "#, fuzzy", "domain \"x\"", "\n", "\r", "\r\n", "\x00", "\xff", "\ufeff", "\u2028", "\x1a",
	"Plural-Forms: nplurals=4294967295; plural=n;\\n", "Plural-Forms: nplurals=99999999999999999999; plural=;\\n", "Plural-Forms: nplurals=-1;\\n", "Plural-Forms: nplurals=;\\n",
	"Content-Type: text/plain; charset=UTF-16\\n", ":", "nplurals", "[", "]",
	"package p", "import", "func f() {", "gotext.Get(", "gotext.GetN(", "gotext.GetNDC(", ")", "}", "{", "`", "'", "/*", "*/", "//", "x.", "...", "gotext", "\"github.com/leonelquinteros/gotext\"", "func", "map[", "chan", "<-",
}

var words32 = []uint32{0, 1, 2, 3, 4, 7, 8, 20, 27, 28, 29, 32, 64, 255, 256, 65535, 65536, 1 << 20, 1 << 24, 1 << 28, 1<<29 - 1, 1 << 29, 1 << 30, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 8, 1<<32 - 4, 1<<32 - 1, 0x950412de, 0xde120495}

// mutate damages a document.
func (t *T) damage(b []byte, other func() []byte) []byte {
	b = append([]byte(nil), b...)
	for n := 1 + t.Intn(1+t.Intn(8)); n > 0; n-- {
		at := 0
		if len(b) > 0 {
			at = t.Intn(len(b))
		}
		end := at
		if len(b) > at {
			end += t.Intn(1 + minInt(len(b)-at, 1+t.Intn(200)))
		}
		insert := func(x []byte) {
			b = append(b[:at:at], append(append([]byte(nil), x...), b[at:]...)...)
		}
		switch t.Intn(13) {
		case 0:
			if len(b) > 0 {
				b[at] ^= 1 << uint(t.Intn(8))
			}
		case 1:
			if len(b) > 0 {
				b[at] = byte(t.Intn(256))
			}
		case 2:
			b = append(b[:at:at], b[end:]...)
		case 3:
			insert(b[at:end])
		case 4:
			if t.p(30) {
				b = b[:at]
			}
		case 5, 6:
			insert([]byte(pick(t.G, hostile)))
		case 7: // splice
			o := other()
			if len(o) > 0 {
				i := t.Intn(len(o))
				insert(o[i : i+t.Intn(1+minInt(len(o)-i, 400))])
			}
		case 8: // repeat
			if t.p(30) && end > at {
				r := bytes.Repeat(b[at:end], 1+t.Intn(1+t.Intn(2000)))
				if len(r) > 60000 {
					r = r[:60000]
				}
				insert(r)
			}
		case 9:
			if t.p(30) {
				h := pick(t.G, hostile)
				insert([]byte(strings.Repeat(h, 1+t.Intn(1+t.Intn(4000)/len(h)))))
			}
		case 10, 11: // a number of a MO file
			if len(b) >= 4 {
				i := t.Intn(minInt(len(b)/4, 1+t.Intn(40))) * 4
				v := pick(t.G, words32)
				if t.p(20) {
					v = uint32(len(b) - t.Intn(9) + 4)
				}
				if t.p(70) {
					binary.LittleEndian.PutUint32(b[i:], v)
				} else {
					binary.BigEndian.PutUint32(b[i:], v)
				}
			}
		case 12: // swap
			if end > at {
				m := at + (end-at)/2
				for i := 0; i < (end-at)/2; i++ {
					b[at+i], b[m+i] = b[m+i], b[at+i]
				}
			}
		}
		if len(b) > 1<<16 {
			b = b[:1<<16]
		}
	}
	return b
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (t *T) hostileDoc(kind int) []byte {
	other := func() []byte { return t.soundDoc(t.Intn(3)) }
	switch t.Intn(12) {
	case 0: // random bytes
		b := make([]byte, t.Intn(1+t.Intn(600)))
		for i := range b {
			b[i] = byte(t.Intn(256))
		}
		if kind == 1 && t.p(80) && len(b) >= 8 {
			binary.LittleEndian.PutUint32(b, 0x950412de)
			copy(b[4:], pick(t.G, []string{"\x00\x00\x00\x00", "\x01\x00\x00\x00", "\x00\x00\x01\x00"}))
		}
		return b
	case 1: // words
		var s bytes.Buffer
		for n := t.Intn(60); n > 0; n-- {
			s.WriteString(pick(t.G, hostile))
			s.WriteString(pick(t.G, []string{"", " ", "\n", "\"a\"", "\t"}))
		}
		return s.Bytes()
	case 2: // one pattern
		x := pick(t.G, hostile) + pick(t.G, []string{"", " ", "\n", "a", "\"a\"\n", "("})
		var y string
		if t.p(50) {
			y = pick(t.G, hostile) + pick(t.G, []string{"", "\n"})
		}
		n := 1 + t.Intn(1+t.Intn(3000))
		return []byte(pick(t.G, []string{"", "package p\n", "msgid \"\"\nmsgstr \"\"\n", "package p\nimport \"github.com/leonelquinteros/gotext\"\nvar _ = "}) + strings.Repeat(x, n) + strings.Repeat(y, n))
	case 3: // of another kind
		return other()
	case 4: // many messages
		if t.p(70) {
			break
		}
		t.Ev("many")
		n := 1 + t.Intn(1+t.Intn(1<<16))
		switch kind {
		case 0:
			var s bytes.Buffer
			same := t.p(50)
			obs := pick(t.G, []string{"", "", "#~ "})
			loc := pick(t.G, []string{"", "#: a.go:1\n", "#: a.go:1 b.go:2 c:3\n#, fuzzy, x\n# c\n"})
			for i := 0; s.Len() < n; i++ {
				if same {
					i = 0
				}
				fmt.Fprintf(&s, "%s%smsgid \"%d\"\n%smsgstr \"\"\n\n", loc, obs, i, obs)
			}
			return s.Bytes()
		case 1: // that share their strings
			long := t.Intn(n)
			k := (n - long) / 16
			var s bytes.Buffer
			w := func(x ...uint32) { binary.Write(&s, binary.LittleEndian, x) }
			w(0x950412de, 0, uint32(k), 28, uint32(28+8*k), 0, uint32(28+16*k))
			fill := pick(t.G, []byte{0, 'x', 4})
			for j := 0; j < 2; j++ {
				for i := 0; i < k; i++ {
					x := uint32(0)
					if t.p(70) && long > 0 {
						x = uint32(t.Intn(long))
						if fill == 0 && t.p(50) {
							x = 0
						}
					}
					w(uint32(long)-x, uint32(28+16*k)+x)
				}
			}
			s.Write(bytes.Repeat([]byte{fill}, long))
			s.WriteByte(0)
			return s.Bytes()
		default:
			var s bytes.Buffer
			s.WriteString("package p\nimport \"github.com/leonelquinteros/gotext\"\nfunc f() {\n")
			call := pick(t.G, []string{"gotext.Get(\"a\")\n", "gotext.GetN(\"a\",\"b\",1);", "gotext.Get(\"a\"", "gotext.Get(", "\"a\"+", "func(){\n", "x(\n"})
			for s.Len() < n {
				s.WriteString(call)
			}
			if i := strings.Count(call, "(") - strings.Count(call, ")"); i > 0 && t.p(70) {
				s.WriteString(strings.Repeat(")", i*(s.Len()/len(call)-3)))
			}
			s.WriteString("\n}\n")
			return s.Bytes()
		}
	}
	return t.damage(t.soundDoc(kind), other)
}

func (t *T) soundDoc(kind int) []byte {
	switch kind {
	case 0:
		es := t.entries(t.Intn(6), entryOpt{maxForm: 3})
		if t.p(50) {
			es = append(po.Entries{t.header()}, es...)
		}
		return []byte(t.layout().write(es))
	case 1:
		if t.p(50) {
			var bo binary.ByteOrder = binary.LittleEndian
			if t.p(50) {
				bo = binary.BigEndian
			}
			orig, trans := t.moPairs(t.Intn(6))
			return moLayout(t.G, bo, orig, trans)
		}
		return compile.MoToBytes(t.moEntries(t.Intn(6)), compile.MoWithHashTable(t.p(50)))
	default:
		return []byte(t.goFile(true, t.Intn(6)).b.String())
	}
}

type brokenReader struct {
	b     []byte
	err   error
	chunk int
}

func (r *brokenReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, r.err
	}
	n := minInt(r.chunk, minInt(len(p), len(r.b)))
	copy(p, r.b[:n])
	r.b = r.b[n:]
	if len(r.b) == 0 && r.chunk%2 == 0 {
		return n, r.err
	}
	return n, nil
}

var errBroken = errors.New("read error")

func runC06(t *T) {
	kind := t.Case % 3
	name := []string{"po", "mo", "go"}[kind]
	t.Ev(name)
	b := t.hostileDoc(kind)
	if len(b) > 8000 {
		t.Ev("big")
	}
	t.Sig(b)
	t.Note("%s document %q", name, clip(string(b), 3000))
	t.Sample(func() string { return fmt.Sprintf("%s document %q", name, b) })
	orig := string(b)
	how := t.Intn(4)
	var r io.Reader
	fails := false
	switch how {
	case 2:
		r = &brokenReader{b, io.EOF, 1 + t.Intn(700)}
	case 3:
		r, fails = &brokenReader{b, errBroken, 1 + t.Intn(700)}, true
	}
	var path string
	if how == 1 && t.p(30) {
		path = t.Dir + "/doc"
		must(os.WriteFile(path, b, 0o644))
	}
	before := allocated()
	var f *po.File
	var err error
	switch kind {
	case 0:
		var opts []parse.PoOption
		if t.p(50) {
			opts = append(opts, parse.PoWithParseObsolete(t.p(80)), parse.PoWithIgnoreComments(t.p(20)), parse.PoWithIgnoreAllComments(t.p(10)),
				parse.PoWithSkipHeader(t.p(20)), parse.PoWithCleanDuplicates(t.p(60)))
			if t.p(20) {
				opts = append(opts, parse.PoWithUseCustomObsoletePrefix(true), parse.PoWithCustomObsoletePrefix(pick(t.G, []rune{'!', '~', '#', '\n', 'é', '.', '|', ' ', '"', 'm', '\\', 0, -1})))
			}
		}
		switch {
		case path != "":
			f, err = parse.Po(path, opts...)
		case r != nil:
			f, err = parse.PoFromReader(r, "x.po", opts...)
		case how == 1:
			f, err = parse.PoFromString(orig, "x.po", opts...)
		default:
			f, err = parse.PoFromBytes(b, "x.po", opts...)
		}
	case 1:
		var opts []parse.MoOption
		if t.p(50) {
			opts = append(opts, parse.MoWithMustBeSorted(t.p(50)), parse.MoWithEndianness(pick(t.G, []parse.Endianness{parse.NativeEndian, parse.LittleEndian, parse.BigEndian})))
		}
		switch {
		case path != "":
			f, err = parse.Mo(path, opts...)
		case r != nil:
			f, err = parse.MoFromReader(r, "x.mo", opts...)
		default:
			f, err = parse.MoFromBytes(b, "x.mo", opts...)
		}
	case 2:
		var opts []goparse.Option
		if t.p(50) {
			opts = append(opts, goparse.WithExtractAll(t.p(50)), goparse.WithCleanDuplicates(t.p(50)), goparse.WithNoHeader(t.p(50)))
		}
		switch {
		case path != "":
			must(os.Rename(path, path+".go"))
			f, err = goparse.FromPath(path+".go", opts...)
		case r != nil:
			f, err = goparse.FromReader(r, "x.go", opts...)
		case how == 1:
			f, err = goparse.FromString(orig, "x.go", opts...)
		default:
			f, err = goparse.FromBytes(b, "x.go", opts...)
		}
	}
	used := allocated() - before
	t.bound(name, used, len(b))
	if f == nil && err == nil {
		t.Fail("nothing", "no file and no error\n%s document %q", name, orig)
	}
	if fails {
		t.Ev("reader-error")
		if !errors.Is(err, errBroken) && err == nil {
			t.Fail("reader-error", "the reader fails, but parsing doesn't\n%s document %q", name, orig)
		}
	}
	if err != nil {
		t.Ev(name + "-rejected")
		if err.Error() == "" {
			t.Ev("silent-error")
		}
	} else {
		t.Ev(name + "-accepted")
	}
	if f == nil {
		return
	}
	// What was read can be used.
	es := f.Entries
	if i := es.Index("", ""); i >= 0 {
		t.Ev("headers")
		h := es.HeaderFromIndex(i)
		h.Nplurals()
		c := h.ToConfig()
		c.Validate()
		h.ToEntry()
		c.ToHeader()
	}
	es.Header()
	f.Validate()
	es.Validate()
	for i := range es {
		es[i].Validate()
		es[i].UnifiedID()
	}
	if err == nil {
		t.Ev("written")
		compile.PoToString(f.Entries)
		compile.MoToBytes(f.Entries)
		es.SortFunc(po.CompareEntry)
	}
}

// bound judges what was allocated, garbage included.
func (t *T) bound(name string, used uint64, n int) {
	if used > 4<<20+3000*uint64(n) {
		t.Fail("memory", "parsing %d bytes allocates %d bytes\n%s", n, used, t.note)
	}
}
