package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
)

func init() {
	register(&Check{
		ID:    "C32",
		Rule:  "random message lists (fuzzy, obsolete, untranslated and repeated messages included) compiled to MO under all combinations of byte order, hash table, cleaning and sorting and through every output method, read by an independent reader; non-trivial: at least two messages",
		Quick: 48000, Thorough: 250000,
		Run:    runC32,
		Need:   map[string]int{"combinations": 1000000, "dropped": 80000, "not-clean": 96000, "unsorted": 96000, "swapped": 192000, "without-hash": 192000, "methods": 320000},
		Assume: []string{"the independent MO reader in harness/refmo.go", "plural messages with the same key are of the same kind"},
	})
}

type moPair struct{ orig, trans string }

// moPairOf is what is written for a message.
func moPairOf(e po.Entry) moPair {
	p := moPair{orig: uid(e), trans: e.Str}
	if e.Plural != "" {
		p.orig += "\x00" + e.Plural
	}
	if len(e.Plurals) > 0 {
		ps := append(po.PluralEntries(nil), e.Plurals...)
		sort.SliceStable(ps, func(a, b int) bool { return ps[a].ID < ps[b].ID })
		var fs []string
		for _, x := range ps {
			fs = append(fs, x.Str)
		}
		p.trans += strings.Join(fs, "\x00")
	}
	return p
}

// moWords reads every 32 bit number of the tables in the other byte order.
func moWords(b []byte, m *moFile) []byte {
	b = append([]byte(nil), b...)
	end := 28 + 16*len(m.orig) + 4*len(m.hash)
	if end > len(b) {
		end = len(b)
	}
	for i := 0; i+4 <= end; i += 4 {
		b[i], b[i+1], b[i+2], b[i+3] = b[i+3], b[i+2], b[i+1], b[i]
	}
	return b
}

func runC32(t *T) {
	n := t.count(t.Case%14, 11)
	if t.Case%400 == 399 {
		n = 100 + t.Intn(300)
	}
	es := t.moEntries(n)
	for i := range es {
		switch t.Intn(10) {
		case 0:
			es[i].Flags = append(es[i].Flags, "fuzzy")
		case 1:
			es[i].Obsolete = true
		case 2:
			es[i].Str = ""
			for j := range es[i].Plurals {
				es[i].Plurals[j].Str = ""
			}
		}
	}
	if t.p(30) && !hasHeader(es) {
		h := t.header()
		if t.p(30) {
			h.Flags = []string{"fuzzy"}
		}
		es = append(es, h)
		t.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
	}
	if t.p(30) && len(es) > 0 {
		for i := 0; i < 1+t.Intn(3); i++ {
			d := cloneEntry(pick(t.G, es))
			for j := range d.Plurals {
				d.Plurals[j].Str = t.str()
			}
			if len(d.Plurals) == 0 {
				d.Str = t.str()
			}
			es = append(es, d)
		}
	}
	if len(es) >= 2 {
		t.Sig(show(es))
	}
	t.Sample(func() string { return show(es) })

	// The pairs in the order of the list, all of them and the clean ones.
	var all, clean []moPair
	sel, seen := moSelected(es), map[string]bool{}
	for _, e := range es {
		all = append(all, moPairOf(e))
		if e.Obsolete || isFuzzy(e) && !(e.ID == "" && e.Context == "") || !translated(e) {
			t.Ev("dropped")
			continue
		}
		if x, ok := sel[uid(e)]; ok && !seen[uid(e)] {
			seen[uid(e)] = true
			clean = append(clean, moPairOf(x))
		}
	}
	native := compile.LittleEndian
	if binary.NativeEndian.Uint16([]byte{1, 0}) != 1 {
		native = compile.BigEndian
	}

	read := func(b []byte, ctx func() string) *moFile {
		m, err := readMO(b)
		if err != nil {
			t.Fail("malformed", "%v\n%s\n%q", err, ctx(), b)
		}
		return m
	}
	for _, depure := range []bool{true, false} {
		for _, order := range []bool{true, false} {
			base := []compile.MoOption{compile.MoWithDepureEntries(depure), compile.MoWithSortEntries(order)}
			if depure && order && t.p(50) {
				base = nil // the default
			}
			ctx := func() string { return fmt.Sprintf("cleaning=%v sorting=%v\n%s", depure, order, show(es)) }
			with := func(o ...compile.MoOption) []compile.MoOption { return append(base[:len(base):len(base)], o...) }
			t.EvN("combinations", 6)
			little := compile.MoToBytes(es, with(compile.MoWithEndianness(compile.LittleEndian))...)
			m := read(little, ctx)
			if m.bo != binary.LittleEndian {
				t.Fail("byte-order", "written in %v\n%s", m.bo, ctx())
			}

			// The messages.
			want := all
			if depure {
				want = clean
			} else {
				t.Ev("not-clean")
			}
			var got []moPair
			for i := range m.orig {
				got = append(got, moPair{m.orig[i], m.trans[i]})
			}
			if order {
				for i := 1; i < len(got); i++ {
					if moKey(got[i-1].orig) > moKey(got[i].orig) {
						t.Fail("not-sorted", "%q is before %q\n%s", got[i-1].orig, got[i].orig, ctx())
					}
				}
				want = append([]moPair(nil), want...)
				less := func(l []moPair) func(i, j int) bool {
					return func(i, j int) bool {
						if l[i].orig != l[j].orig {
							return l[i].orig < l[j].orig
						}
						return l[i].trans < l[j].trans
					}
				}
				got = append([]moPair(nil), got...)
				sort.Slice(want, less(want))
				sort.Slice(got, less(got))
			} else {
				t.Ev("unsorted")
			}
			if len(got) != len(want) {
				t.Fail("messages", "%d messages are written, want %d\n%s", len(got), len(want), ctx())
			}
			for i := range got {
				if got[i] != want[i] {
					t.Fail("messages", "message %d is %q, want %q\n%s", i, got[i], want[i], ctx())
				}
			}

			// The byte order changes the numbers only.
			big := compile.MoToBytes(es, with(compile.MoWithEndianness(compile.BigEndian))...)
			if !bytes.Equal(moWords(little, m), big) {
				t.Fail("swapped", "the other byte order isn't the same file\n%s\n%q\n%q", ctx(), little, big)
			}
			t.Ev("swapped")
			host := little
			if native == compile.BigEndian {
				host = big
			}
			if b := compile.MoToBytes(es, with(compile.MoWithEndianness(compile.NativeEndian))...); !bytes.Equal(b, host) {
				t.Fail("native", "the native byte order isn't that of the machine\n%s\n%q\n%q", ctx(), b, host)
			}

			// The hash table.
			off := compile.MoToBytes(es, with(compile.MoWithEndianness(compile.LittleEndian), compile.MoWithHashTable(false))...)
			mo := read(off, ctx)
			if mo.hashSize != 0 {
				t.Fail("hash-size", "hash table of %d entries, want none\n%s", mo.hashSize, ctx())
			}
			if m.hashSize == 0 {
				t.Fail("hash-size", "no hash table\n%s", ctx())
			}
			if strings.Join(mo.orig, "\x01") != strings.Join(m.orig, "\x01") || strings.Join(mo.trans, "\x01") != strings.Join(m.trans, "\x01") {
				t.Fail("hash-messages", "without hash table the messages are others\n%s\n%q\n%q", ctx(), little, off)
			}
			if len(off)+4*len(m.hash) != len(little) {
				t.Fail("hash-rest", "the hash table isn't the only difference: %d and %d bytes, hash table of %d entries\n%s", len(little), len(off), len(m.hash), ctx())
			}
			t.Ev("without-hash")
			used := map[uint32]bool{}
			for _, v := range m.hash {
				if v != 0 && (used[v] || int(v) > len(m.orig)) {
					t.Fail("hash-table", "bad hash table %v\n%s", m.hash, ctx())
				}
				used[v] = v != 0
			}
			for i, o := range m.orig {
				j, err := m.lookupHash(moKey(o))
				if err != nil || j < 0 || moKey(m.orig[j]) != moKey(o) {
					t.Fail("hash-lookup", "message %d (%q) isn't found: %d %v\n%s", i, o, j, err, ctx())
				}
			}

			// Options that change nothing, and every method.
			var lg bytes.Buffer
			opts := with(compile.MoWithEndianness(compile.LittleEndian), compile.MoWithVerbose(t.p(50)), compile.MoWithForce(true), compile.MoWithLogger(pick(t.G, []*log.Logger{nil, log.New(io.Discard, "", 0), log.New(&lg, "", 0)})), compile.MoWithIgnoreErrors(t.p(30)))
			f := &po.File{Name: "f", Entries: es}
			c := compile.NewMo(f, opts...)
			var w bytes.Buffer
			if err := c.ToWriter(&w); err != nil {
				t.Fail("error", "%v\n%s", err, ctx())
			}
			same := func(how string, b []byte) {
				t.Ev("methods")
				if !bytes.Equal(b, little) {
					t.Fail("methods", "%s gives another file\n%s\n%q\n%q", how, ctx(), b, little)
				}
			}
			same("ToWriter", w.Bytes())
			switch t.Intn(6) {
			case 5:
				// Temporary options last as long as one output, which may fail.
				o := pick(t.G, []compile.MoOption{
					compile.MoWithEndianness(compile.BigEndian), compile.MoWithHashTable(false), compile.MoWithSortEntries(!order),
					compile.MoWithDepureEntries(!depure), compile.MoWithForce(false), compile.MoWithIgnoreErrors(true), compile.MoWithConfig(compile.MoConfig{}),
				})
				p := filepath.Join(t.Dir, "temporary.mo")
				must(os.WriteFile(p, nil, 0o600))
				switch t.Intn(4) {
				case 0:
					c.ToFileWithOptions(filepath.Join(t.Dir, "no/dir"), o)
				case 1:
					c.ToFileWithOptions(p, o)
				case 2:
					c.ToWriterWithOptions(failingWriter{}, o)
				case 3:
					c.ToBytesWithOptions(o)
				}
				if err := c.ToFile(p); err != nil {
					t.Fail("error", "%v\n%s", err, ctx())
				}
				b, err := os.ReadFile(p)
				must(err)
				same("ToFile after temporary options", b)
			case 0:
				same("ToBytes", c.ToBytes())
			case 1:
				same("MoToBytes of the file", compile.MoToBytes(f, opts...))
			case 2:
				d := compile.NewMo(&po.File{Name: "other", Entries: po.Entries{{ID: "other", Str: "other"}}})
				d.SetFile(f)
				same("SetFile", d.ToBytesWithOptions(opts...))
			case 3:
				p := filepath.Join(t.Dir, "o.mo")
				if err := compile.MoToFile(es, p, opts...); err != nil {
					t.Fail("error", "%v\n%s", err, ctx())
				}
				b, err := os.ReadFile(p)
				must(err)
				same("MoToFile", b)
			case 4:
				cfg := compile.DefaultMoConfig(opts...)
				same("MoWithConfig", compile.MoToBytes(es, compile.MoWithConfig(cfg)))
			}
		}
	}
}

// failingWriter takes nothing.
type failingWriter struct{}

func (failingWriter) Write([]byte) (int, error) { return 0, io.ErrClosedPipe }
