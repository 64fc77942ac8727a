package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing/iotest"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	as := []string{"the independent MO reader and the lookups in refmo.go follow the GNU MO format and the gettext runtime", "strings without NUL and EOT"}
	register(&Check{
		ID:    "C04",
		Rule:  "random message lists (with fuzzy, obsolete, untranslated and duplicate messages, plural forms in any order, up to thousands of messages) compiled in both byte orders with and without hash table; non-trivial: at least one message",
		Quick: 64000, Thorough: 300000,
		Run:    runC04,
		Need:   map[string]int{"messages": 160000, "lookups-found": 160000, "lookups-absent": 160000, "huge-texts": 16, "big-endian": 12000, "hash-probes": 80000, "gnu-reads": 0},
		Assume: as,
	})
	register(&Check{
		ID:    "C05",
		Rule:  "random messages in random legal MO layouts of an independent writer, and compiled ones, parsed through every constructor with detected and forced byte order; non-trivial: at least one message",
		Quick: 100000, Thorough: 400000,
		Run:    runC05,
		Need:   map[string]int{"messages": 200000, "big-endian": 15000, "constructors": 200000, "single-form": 5000},
		Assume: as,
	})
	register(&Check{
		ID:    "C07",
		Rule:  "every truncation of random MO files and random corruptions of their header, tables and strings, judged by an independent strict reader; evaluations count base files, events count damaged files; non-trivial: a damaged file that differs from its base",
		Quick: 6400, Thorough: 30000,
		Run:    runC07,
		Level:  "fault_enumeration",
		Need:   map[string]int{"truncations": 400000, "corruptions": 240000, "rejected": 400000, "still-valid": 8000, "unsorted": 800},
		Assume: as,
	})
}

func orders(e compile.Endianness) binary.ByteOrder {
	if e == compile.BigEndian {
		return binary.BigEndian
	}
	return binary.LittleEndian // the native order of the supported platforms is checked by the magic number
}

func (t *T) moEntries(n int) po.Entries {
	es := t.entries(n, entryOpt{plain: true})
	for i := range es {
		if len(es[i].Plurals) > 0 && es[i].Plural == "" {
			es[i].Plural = t.nstr()
		}
		if t.p(30) {
			t.Shuffle(len(es[i].Plurals), func(a, b int) {
				p := es[i].Plurals
				p[a], p[b] = p[b], p[a]
			})
		}
	}
	return es
}

func runC04(t *T) {
	t.textTop = 24
	n := t.count(t.Case%60, 12)
	if t.Case%1000 == 999 {
		n = 500 + t.Intn(3000)
	}
	if t.Case == 7 {
		n = 66000
		t.Ev("messages>65536")
	}
	es := t.moEntries(n)
	if n >= 500 { // many short and similar keys
		es = nil
		for i := 0; i < n; i++ {
			es = append(es, po.Entry{ID: fmt.Sprintf("%s%d", pick(t.G, words), i), Str: "t"})
		}
		es = dedup(es)
	}
	if t.p(30) && !hasHeader(es) {
		es = append(es, t.header())
		t.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
	}
	dups := t.p(20) && len(es) > 0
	if dups { // duplicates of the same kind
		for i := 0; i < 1+t.Intn(4); i++ {
			d := cloneEntry(pick(t.G, es))
			if len(d.Plurals) > 0 {
				for j := range d.Plurals {
					d.Plurals[j].Str = t.str()
				}
			} else {
				d.Str = t.str()
			}
			d.Obsolete = t.p(30)
			if t.p(30) {
				d.Flags = []string{"fuzzy"}
			} else {
				d.Flags = nil
			}
			es = append(es, d)
		}
		t.Ev("with-duplicates")
	}
	t.features(es)
	end := pick(t.G, []compile.Endianness{compile.LittleEndian, compile.BigEndian, compile.NativeEndian})
	hash := t.p(65) || t.Case == 7
	opts := []compile.MoOption{compile.MoWithEndianness(end)}
	if !hash || t.p(50) { // the hash table is the default
		opts = append(opts, compile.MoWithHashTable(hash))
	}
	ctx := func() string { return fmt.Sprintf("endianness=%v hash=%v\n%s", end, hash, show(es)) }
	b := compile.MoToBytes(es, opts...)
	if t.huge > 0 {
		t.Ev("huge-texts")
	}
	m, err := readMO(b)
	if err != nil {
		t.Fail("malformed", "%v\n%s\n%q", err, ctx(), b)
	}
	if end == compile.BigEndian {
		t.Ev("big-endian")
	}
	if m.bo != orders(end) {
		t.Fail("byte-order", "written in %v\n%s", m.bo, ctx())
	}
	want := moSelected(es)
	var keys []string
	for k := range want {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var got []string
	for _, o := range m.orig {
		got = append(got, moKey(o))
	}
	if d := diffStrings("keys", got, keys); d != "" {
		t.Fail("content", "wrong set or order of messages: %s\n%s", d, ctx())
	}
	for i, k := range keys {
		e := want[k]
		plural := e.Plural != "" || len(e.Plurals) > 0
		orig, trans := k, e.Str
		if plural {
			if e.Plural != "" {
				orig += "\x00" + e.Plural
			}
			ps := append(po.PluralEntries(nil), e.Plurals...)
			sort.Slice(ps, func(a, b int) bool { return ps[a].ID < ps[b].ID })
			var fs []string
			for _, p := range ps {
				fs = append(fs, p.Str)
			}
			trans = strings.Join(fs, "\x00")
		}
		if m.orig[i] != orig || m.trans[i] != trans {
			t.Fail("content", "message %q is written as %q -> %q, want %q -> %q\n%s", k, m.orig[i], m.trans[i], orig, trans, ctx())
		}
	}
	if hash != (m.hashSize != 0) {
		t.Fail("hash-size", "hash table size %d\n%s", m.hashSize, ctx())
	}
	if hash {
		if m.hashSize <= 2 {
			t.Fail("hash-size", "hash table size %d is unusable\n%s", m.hashSize, ctx())
		}
		used := map[uint32]bool{}
		for _, v := range m.hash {
			if v != 0 {
				if used[v] || int(v) > len(m.orig) {
					t.Fail("hash-table", "bad hash table %v\n%s", m.hash, ctx())
				}
				used[v] = true
			}
		}
		if len(used) != len(m.orig) {
			t.Fail("hash-table", "the hash table has %d of %d strings\n%s", len(used), len(m.orig), ctx())
		}
	}
	look := func(key string, want int) {
		if want >= 0 {
			t.Ev("lookups-found")
		} else {
			t.Ev("lookups-absent")
		}
		if i := m.lookupBinary(key); i != want {
			t.Fail("binary-search", "lookup of %q finds %d, want %d\n%s", key, i, want, ctx())
		}
		if hash {
			t.Ev("hash-probes")
			i, err := m.lookupHash(key)
			if err != nil || i != want {
				t.Fail("hash-lookup", "lookup of %q finds %d (%v), want %d\n%s", key, i, err, want, ctx())
			}
		}
	}
	pos := map[string]int{}
	for i, k := range keys {
		pos[k] = i
		look(k, i)
	}
	absent := func(k string) {
		if _, ok := pos[k]; !ok {
			look(k, -1)
		}
	}
	for _, e := range es { // those that were left out, and similar keys
		absent(uid(e))
		absent(e.ID)
		absent(e.ID + "x")
		if e.Plural != "" {
			absent(e.Plural)
		}
	}
	absent("")
	absent(t.str())

	if t.Case%25 == 0 {
		var w bytes.Buffer
		if err := compile.MoToWriter(&po.File{Entries: es}, &w, opts...); err != nil || !bytes.Equal(w.Bytes(), b) {
			t.Fail("outputs-differ", "ToWriter gives something else (%v)\n%s", err, ctx())
		}
		path := filepath.Join(t.Dir, "o.mo")
		os.Remove(path)
		err := compile.MoToFile(po.File{Entries: es}, path, opts...)
		fb, _ := os.ReadFile(path)
		if err != nil || !bytes.Equal(fb, b) {
			t.Fail("outputs-differ", "ToFile gives something else (%v)\n%s", err, ctx())
		}
		if tool := gnuTool("msgunfmt"); tool != "" && t.Case%100 == 0 && !dups && gnuUTF8(want) {
			t.Ev("gnu-reads")
			_, eo, st := runTool(t.Dir, "", []string{"LC_ALL=C.UTF-8"}, tool, "--force-po", "-o", "/dev/null", path)
			if st != 0 {
				t.Fail("gnu-rejects", "msgunfmt rejects the file: %s\n%s", eo, ctx())
			}
		}
	}
	if n > 0 {
		t.Sig(b)
	}
	t.Sample(func() string { return ctx() })
}

// gnuUTF8: msgunfmt converts from the charset of the header.
func gnuUTF8(m map[string]po.Entry) bool {
	h, ok := m[""]
	return ok && strings.Contains(h.Str, "charset=UTF-8") && len(m) < 2
}

func hasHeader(es po.Entries) bool {
	for _, e := range es {
		if e.IsHeader() {
			return true
		}
	}
	return false
}

func dedup(es po.Entries) po.Entries {
	seen := map[string]bool{}
	var out po.Entries
	for _, e := range es {
		if !seen[uid(e)] {
			seen[uid(e)] = true
			out = append(out, e)
		}
	}
	return out
}

// moPairs are random pairs of strings of a MO file.
func (t *T) moPairs(n int) (orig, trans []string) {
	seen := map[string]bool{}
	for len(orig) < n {
		id := t.str()
		if t.p(30) {
			id = t.nstr() + "\x04" + id
		}
		if seen[id] {
			if t.p(10) {
				break
			}
			continue
		}
		seen[id] = true
		tr := t.str()
		if t.p(30) && id != "" {
			id += "\x00" + t.str()
			k := t.Intn(6)
			if k == 0 {
				t.Ev("single-form")
			}
			for i := 0; i < k; i++ {
				tr += "\x00" + t.str()
			}
		}
		orig, trans = append(orig, id), append(trans, tr)
	}
	if t.scale == "text" && len(orig) > 0 && t.scaleLeft > 0 {
		t.scaleLeft--
		t.logLong = t.textTop
		if trans[t.Intn(len(orig))] = t.long(); t.p(30) {
			orig[t.Intn(len(orig))] += t.long()
		}
		t.logLong = 0
	}
	return
}

func moDenoted(orig, trans []string) (es po.Entries) {
	for i := range orig {
		es = append(es, moMessage(orig[i], trans[i]))
	}
	return
}

func runC05(t *T) {
	t.textTop = 24
	n := t.count(t.Case%14, 12)
	if t.Case%2000 == 1999 {
		n = 500
	}
	if t.Case == 7 {
		n = 66000
	}
	var b []byte
	var want po.Entries
	var bo binary.ByteOrder = binary.LittleEndian
	how := ""
	if t.p(65) {
		how = "layout"
		if t.p(50) {
			bo = binary.BigEndian
		}
		orig, trans := t.moPairs(n)
		want = moDenoted(orig, trans)
		b = moLayout(t.G, bo, orig, trans)
	} else {
		how = "compiled"
		es := t.moEntries(n)
		e := compile.LittleEndian
		if t.p(50) {
			bo, e = binary.BigEndian, compile.BigEndian
		}
		b = compile.MoToBytes(es, compile.MoWithEndianness(e), compile.MoWithHashTable(t.p(50)))
		sel := moSelected(es)
		var keys []string
		for k := range sel {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			e := cloneEntry(sel[k])
			e.Flags, e.Obsolete = nil, false
			sort.Slice(e.Plurals, func(i, j int) bool { return e.Plurals[i].ID < e.Plurals[j].ID })
			if len(e.Plurals) == 1 {
				t.Ev("single-form")
			}
			want = append(want, e)
		}
	}
	if bo == binary.BigEndian {
		t.Ev("big-endian")
	}
	t.features(want)
	ctx := func() string { return fmt.Sprintf("%s, %v\n--- messages\n%s--- file\n%q", how, bo, show(want), b) }
	check := func(what string, f *po.File, err error, name string) {
		t.Ev("constructors")
		if err != nil {
			t.Fail("read-error", "%s: %v\n%s", what, err, ctx())
		}
		if f == nil {
			t.Fail("read-nil", "%s: no file\n%s", what, ctx())
		}
		if d := diffEntries(f.Entries, want); d != "" {
			t.Fail("read", "%s: %s\n%s", what, d, ctx())
		}
		if f.Name != name {
			t.Fail("name", "%s: name %q\n%s", what, f.Name, ctx())
		}
	}
	f, err := parse.MoFromBytes(b, "n.mo")
	check("bytes", f, err, "n.mo")
	forced := parse.LittleEndian
	if bo == binary.BigEndian {
		forced = parse.BigEndian
	}
	f, err = parse.MoFromBytes(b, "n.mo", parse.MoWithEndianness(forced))
	check("forced byte order", f, err, "n.mo")
	sorted := sort.SliceIsSorted(want, func(i, j int) bool { return uid(want[i]) < uid(want[j]) })
	if sorted {
		f, err = parse.MoFromBytes(b, "n.mo", parse.MoWithMustBeSorted(true))
		check("must be sorted", f, err, "n.mo")
	}
	if t.p(25) {
		f, err = parse.MoFromReader(iotest.OneByteReader(bytes.NewReader(b)), "n.mo")
		check("reader", f, err, "n.mo")
		path := filepath.Join(t.Dir, "in.mo")
		must(os.WriteFile(path, b, 0o600))
		f, err = parse.Mo(path)
		check("path", f, err, path)
		fh, e2 := os.Open(path)
		must(e2)
		f, err = parse.MoFromFile(fh)
		fh.Close()
		check("file", f, err, path)
		p := parse.NewMoFromBytes(b, "n.mo")
		p.Parse()
		f = p.Parse()
		check("second parse", f, p.Error(), "n.mo")
	}
	if n > 0 {
		t.Sig(b)
	}
	t.Sample(func() string { return ctx() })
}

func runC07(t *T) {
	n := t.count(1+t.Case%8, 9)
	var b []byte
	if t.p(50) {
		var bo binary.ByteOrder = binary.LittleEndian
		if t.p(50) {
			bo = binary.BigEndian
		}
		orig, trans := t.moPairs(n)
		b = moLayout(t.G, bo, orig, trans)
	} else {
		e := pick(t.G, []compile.Endianness{compile.LittleEndian, compile.BigEndian})
		b = compile.MoToBytes(t.moEntries(n), compile.MoWithEndianness(e), compile.MoWithHashTable(t.p(50)))
	}
	if len(b) > 3000 {
		b = compile.MoToBytes(po.Entries{{ID: "a", Str: "b"}, {ID: "c", Str: "d"}})
	}
	base, _ := readMO(b)
	judge := func(what string, d []byte, sortedOpt bool) {
		orig := append([]byte(nil), d...)
		var opts []parse.MoOption
		if sortedOpt {
			opts = append(opts, parse.MoWithMustBeSorted(true))
		}
		m, merr := readMO(d)
		if t.p(30) {
			e, order := parse.LittleEndian, binary.ByteOrder(binary.LittleEndian)
			if base != nil && base.bo == binary.BigEndian {
				e, order = parse.BigEndian, binary.BigEndian
			}
			opts = append(opts, parse.MoWithEndianness(e))
			what += fmt.Sprintf(" (read as %v)", order)
			t.Ev("explicit-order")
			if merr == nil && m.bo != order {
				merr = errors.New("it has the other byte order")
			}
		}
		t.Note("%s: %q", what, orig)
		f, err := parse.MoFromBytes(d, "n.mo", opts...)
		if merr != nil {
			t.Ev("rejected")
			if err == nil {
				t.Fail("accepted", "%s: no error, but the file is damaged: %v\n%q\nresult: %s", what, merr, orig, show(f.Entries))
			}
			return
		}
		keys := make([]string, len(m.orig))
		for i, o := range m.orig {
			if moOdd(o) {
				t.Ev("undefined-meaning")
				return
			}
			keys[i] = moKey(o)
		}
		if sortedOpt {
			inOrder, strict := true, true
			for i := 1; i < len(keys); i++ {
				inOrder = inOrder && keys[i-1] <= keys[i]
				strict = strict && keys[i-1] < keys[i]
			}
			if !inOrder {
				t.Ev("unsorted")
				if err == nil {
					t.Fail("unsorted-accepted", "%s: no error, but the keys aren't sorted: %q\n%q", what, keys, orig)
				}
				return
			}
			if !strict {
				return
			}
		}
		t.Ev("still-valid")
		if err != nil {
			t.Fail("valid-rejected", "%s: %v, but the file is well-formed\n%q", what, err, orig)
		}
		want := moDenoted(m.orig, m.trans)
		if f == nil {
			t.Fail("nil", "%s: neither file nor error\n%q", what, orig)
		}
		if d := diffEntries(f.Entries, want); d != "" {
			t.Fail("misread", "%s: %s\n%q", what, d, orig)
		}
	}
	for k := 0; k < len(b); k++ {
		t.Ev("truncations")
		judge(fmt.Sprintf("truncated at %d of %d", k, len(b)), b[:k:k], false)
	}
	judge("intact", b, false)
	judge("intact, must be sorted", b, true)
	for _, e := range []parse.Endianness{parse.LittleEndian, parse.BigEndian} {
		m, err := readMO(b)
		if err != nil {
			t.Fail("harness", "bad base file %q", b)
		}
		wrong := (m.bo == binary.BigEndian) != (e == parse.BigEndian)
		if _, err = parse.MoFromBytes(b, "n", parse.MoWithEndianness(e)); (err != nil) != wrong {
			t.Fail("byte-order", "forced byte order %v on a file in %v: error %v\n%q", e, m.bo, err, b)
		}
	}
	bo, _ := readMO(b)
	tab := bo.bo
	vals := []uint32{0, 1, 2, 3, 4, 7, 27, 28, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x20000000, 0x1fffffff, 0x10000, 0x10001, 2 << 16, 0x40000000, uint32(len(b)), uint32(len(b) - 1), uint32(len(b) + 1), uint32(len(b) - 8)}
	for i := 0; i < 60; i++ {
		d := append([]byte(nil), b...)
		what := ""
		for k := 0; k < 1+t.Intn(3); k++ {
			switch t.Intn(6) {
			case 0: // header field
				f := t.Intn(7)
				v := pick(t.G, vals)
				tab.PutUint32(d[4*f:], v)
				what += fmt.Sprintf("header field %d = %#x; ", f, v)
			case 1: // version halves
				if t.p(50) {
					d[4+t.Intn(4)] = byte(t.Intn(4))
				} else {
					d[t.Intn(4)] ^= 1 << t.Intn(8)
				}
				what += "magic or version; "
			case 2, 3: // table entry
				if len(bo.orig) == 0 {
					break
				}
				f := 12 + 4*t.Intn(2)
				off := int(tab.Uint32(b[f:])) + 4*t.Intn(2*len(bo.orig))
				v := pick(t.G, vals)
				if t.p(60) {
					v = tab.Uint32(b[off:]) + uint32(t.Intn(9)) - 4
				}
				tab.PutUint32(d[off:], v)
				what += fmt.Sprintf("table word at %d = %#x; ", off, v)
			case 4:
				k := t.Intn(len(d))
				d[k] = byte(t.Intn(256))
				what += fmt.Sprintf("byte %d = %#x; ", k, d[k])
			case 5: // two entries swapped
				if len(bo.orig) < 2 {
					break
				}
				n := len(bo.orig)
				x, y := t.Intn(n), t.Intn(n)
				o := int(tab.Uint32(b[12:]))
				var tmp [8]byte
				copy(tmp[:], d[o+8*x:])
				copy(d[o+8*x:o+8*x+8], d[o+8*y:])
				copy(d[o+8*y:], tmp[:])
				what += "two originals swapped; "
			}
		}
		t.Ev("corruptions")
		if !bytes.Equal(d, b) {
			t.Sig(d)
		}
		judge(what, d, t.p(30))
	}
	t.Sample(func() string { return fmt.Sprintf("%q", b) })
}
