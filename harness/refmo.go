package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

// moFile is what a MO file says, read by an independent strict reader.
type moFile struct {
	bo          binary.ByteOrder
	orig, trans []string
	hash        []uint32
	hashSize    uint32
}

var errMo = errors.New("malformed MO")

func readMO(b []byte) (*moFile, error) {
	if len(b) < 28 {
		return nil, fmt.Errorf("%w: short header", errMo)
	}
	m := &moFile{}
	switch string(b[:4]) {
	case "\xde\x12\x04\x95":
		m.bo = binary.LittleEndian
	case "\x95\x04\x12\xde":
		m.bo = binary.BigEndian
	default:
		return nil, fmt.Errorf("%w: magic", errMo)
	}
	u := func(off uint64) uint64 { return uint64(m.bo.Uint32(b[off:])) }
	rev := u(4)
	// The revision is one number: major in the high half.
	if rev>>16 > 1 || rev&0xffff > 1 {
		return nil, fmt.Errorf("%w: revision", errMo)
	}
	n, o, t, hs, ho := u(8), u(12), u(16), u(20), u(24)
	size := uint64(len(b))
	if o+8*n > size || t+8*n > size {
		return nil, fmt.Errorf("%w: table outside", errMo)
	}
	if hs > 0 && ho+4*hs > size {
		return nil, fmt.Errorf("%w: hash table outside", errMo)
	}
	m.hashSize = uint32(hs)
	for i := uint64(0); i < hs; i++ {
		m.hash = append(m.hash, uint32(u(ho+4*i)))
	}
	str := func(at uint64) (string, error) {
		l, off := u(at), u(at+4)
		if off+l+1 > size {
			return "", fmt.Errorf("%w: string outside", errMo)
		}
		if b[off+l] != 0 {
			return "", fmt.Errorf("%w: no terminator", errMo)
		}
		return string(b[off : off+l]), nil
	}
	for i := uint64(0); i < n; i++ {
		s, err := str(o + 8*i)
		if err != nil {
			return nil, err
		}
		m.orig = append(m.orig, s)
		if s, err = str(t + 8*i); err != nil {
			return nil, err
		}
		m.trans = append(m.trans, s)
	}
	return m, nil
}

// key is the part of the original string that identifies the message.
func moKey(orig string) string {
	if i := strings.IndexByte(orig, 0); i >= 0 {
		return orig[:i]
	}
	return orig
}

// moMessage is the message that a pair of strings denotes.
func moMessage(orig, trans string) (e po.Entry) {
	id := moKey(orig)
	plural := len(id) < len(orig)
	if plural {
		e.Plural = orig[len(id)+1:]
	}
	if i := strings.IndexByte(id, 4); i >= 0 {
		e.Context, id = id[:i], id[i+1:]
	}
	e.ID = id
	if plural || strings.IndexByte(trans, 0) >= 0 {
		for i, s := range strings.Split(trans, "\x00") {
			e.Plurals = append(e.Plurals, po.PluralEntry{ID: i, Str: s})
		}
	} else {
		e.Str = trans
	}
	return e
}

// odd reports whether the meaning of the original string isn't defined.
func moOdd(orig string) bool {
	return strings.Count(orig, "\x00") > 1 || strings.Count(orig, "\x04") > 1 ||
		strings.IndexByte(orig, 4) == 0 || strings.IndexByte(strings.TrimPrefix(orig, moKey(orig)), 4) >= 0
}

func hashpjw(s string) uint32 {
	var h uint32
	for i := 0; i < len(s); i++ {
		h = h<<4 + uint32(s[i])
		if g := h & 0xf0000000; g != 0 {
			h ^= g >> 24
			h ^= g
		}
	}
	return h
}

// lookupHash is the lookup of the GNU gettext runtime through the hash table:
// the index of the message or -1; it fails if it doesn't end.
func (m *moFile) lookupHash(key string) (int, error) {
	size := m.hashSize
	h := hashpjw(key)
	idx := h % size
	incr := 1 + h%(size-2)
	for steps := uint32(0); ; steps++ {
		if steps > size {
			return 0, errors.New("the lookup doesn't end")
		}
		n := m.hash[idx]
		if n == 0 {
			return -1, nil
		}
		n--
		if int(n) >= len(m.orig) {
			return 0, fmt.Errorf("hash table entry %d names string %d", idx, n)
		}
		if moKey(m.orig[n]) == key {
			return int(n), nil
		}
		if idx >= size-incr {
			idx -= size - incr
		} else {
			idx += incr
		}
	}
}

// lookupBinary is the lookup of the runtime without hash table.
func (m *moFile) lookupBinary(key string) int {
	bottom, top := 0, len(m.orig)
	for bottom < top {
		act := (bottom + top) / 2
		switch c := strings.Compare(key, moKey(m.orig[act])); {
		case c < 0:
			top = act
		case c > 0:
			bottom = act + 1
		default:
			return act
		}
	}
	return -1
}

// moLayout writes a MO file in any legal layout.
func moLayout(g *G, bo binary.ByteOrder, orig, trans []string) []byte {
	n := len(orig)
	hdr := 28
	var rev uint32
	switch g.Intn(6) {
	case 0:
		rev = 1 << 16
	case 1: // system dependent strings, none of them
		rev = 1
		hdr = 48
	}
	type part struct {
		kind int // 0 originals, 1 translations, 2 hash table, 3 a string
		idx  int
		data string
	}
	var parts []part
	parts = append(parts, part{kind: 0}, part{kind: 1})
	var hs int
	if g.p(50) {
		hs = 3 + g.Intn(2*n+3)
		parts = append(parts, part{kind: 2})
	}
	// A string can be the end of another one.
	var pool []string
	seen := map[string]bool{}
	for _, l := range [][]string{orig, trans} {
		for _, s := range l {
			if !seen[s] {
				seen[s] = true
				pool = append(pool, s)
			}
		}
	}
	share := g.p(60)
	all := "" // for sharing decisions
	if share {
		all = strings.Join(pool, "\x00\x00")
	}
	for i, s := range pool {
		if share && i > 0 && strings.Contains(all, s+"\x00") && g.p(50) {
			// Written only if no other string ends in it.
			ends := false
			for j, x := range pool {
				if j != i && len(x) > len(s) && strings.HasSuffix(x, s) {
					ends = true
				}
			}
			if ends {
				continue
			}
		}
		parts = append(parts, part{kind: 3, data: s})
	}
	if g.p(60) {
		g.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	}
	b := make([]byte, hdr)
	gap := func() {
		if g.p(20) {
			for i, k := 0, g.Intn(9); i < k; i++ {
				b = append(b, byte(g.Intn(256)))
			}
		}
	}
	var offO, offT, offH int
	at := map[string]int{}
	for _, p := range parts {
		gap()
		switch p.kind {
		case 0:
			offO = len(b)
			b = append(b, make([]byte, 8*n)...)
		case 1:
			offT = len(b)
			b = append(b, make([]byte, 8*n)...)
		case 2:
			offH = len(b)
			b = append(b, make([]byte, 4*hs)...)
		case 3:
			at[p.data] = len(b)
			b = append(b, p.data...)
			b = append(b, 0)
			if g.p(20) && !share { // written twice
				at[p.data] = len(b)
				b = append(b, p.data...)
				b = append(b, 0)
			}
		}
	}
	gap()
	find := func(s string) int {
		if o, ok := at[s]; ok {
			return o
		}
		for _, x := range pool { // not in the order of the map, for repeatable cases
			if o, ok := at[x]; ok && strings.HasSuffix(x, s) {
				return o + len(x) - len(s)
			}
		}
		panic("string not written")
	}
	put := func(off, v int) { bo.PutUint32(b[off:], uint32(v)) }
	put(0, 0x950412de)
	bo.PutUint32(b[4:], rev)
	put(8, n)
	put(12, offO)
	put(16, offT)
	put(20, hs)
	put(24, offH)
	for i := range orig {
		put(offO+8*i, len(orig[i]))
		put(offO+8*i+4, find(orig[i]))
		put(offT+8*i, len(trans[i]))
		put(offT+8*i+4, find(trans[i]))
	}
	if hs > 0 { // a correct hash table, if there is room
		if hs >= n+2 {
			for i := range orig {
				h := hashpjw(moKey(orig[i]))
				idx := h % uint32(hs)
				for k := 0; k < hs; k++ {
					o := offH + 4*int((idx+uint32(k))%uint32(hs))
					if bytes.Equal(b[o:o+4], []byte{0, 0, 0, 0}) {
						put(o, i+1)
						break
					}
				}
			}
		}
	}
	return b
}

// moSelected are the messages that a compiled file must contain, by key.
func moSelected(es po.Entries) map[string]po.Entry {
	m := map[string]po.Entry{}
	for _, e := range es {
		fuzzy := false
		for _, f := range e.Flags {
			fuzzy = fuzzy || f == "fuzzy"
		}
		header := e.ID == "" && e.Context == ""
		translated := e.Str != ""
		for _, p := range e.Plurals {
			translated = translated || p.Str != ""
		}
		if e.Obsolete || fuzzy && !header || !translated {
			continue
		}
		if _, ok := m[uid(e)]; !ok {
			m[uid(e)] = e
		}
	}
	return m
}
