package main

import (
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

// readPO is an independent, strict reader of PO text, written from the
// description of the format: it knows nothing of the parser under test. It
// reads the messages in the order of the text, obsolete ones included.
func readPO(text string, marker rune) (po.Entries, error) {
	r := &poReader{marker: "#" + string(marker)}
	lines := strings.Split(text, "\n")
	for i, l := range lines {
		r.n = i + 1
		l = strings.TrimSuffix(l, "\r")
		if err := r.line(l); err != nil {
			return nil, fmt.Errorf("line %d: %w: %q", r.n, err, l)
		}
	}
	if err := r.finish(); err != nil {
		return nil, fmt.Errorf("at the end: %w", err)
	}
	return r.out, nil
}

type poReader struct {
	marker string
	out    po.Entries
	n      int
	cur    po.Entry
	state  int // 0 comments, then the last keyword
	idx    int
	any    bool // cur has something
	obs    bool

	prevActive, prevObsolete bool // cur has previous ids of such messages
}

const (
	sNone = iota
	sCtx
	sID
	sPlural
	sStr
	sStrN
)

func (r *poReader) finish() error {
	if r.state == sNone {
		r.cur = po.Entry{} // comments of nothing
		r.prevActive, r.prevObsolete = false, false
		return nil
	}
	if r.state != sStr && r.state != sStrN {
		return errors.New("incomplete message")
	}
	r.cur.Obsolete = r.obs
	r.out = append(r.out, r.cur)
	r.cur = po.Entry{}
	r.state = sNone
	return nil
}

// poBlanks separate tokens.
const poBlanks = " \t\v\f\r"

func (r *poReader) line(l string) error {
	if strings.TrimLeft(l, poBlanks) == "" {
		return nil
	}
	if strings.HasPrefix(l, r.marker) {
		rest := strings.TrimLeft(strings.TrimPrefix(l, r.marker), " ")
		if strings.HasPrefix(rest, "|") {
			if r.state != sNone {
				if err := r.finish(); err != nil {
					return err
				}
			}
			r.cur.Previous = append(r.cur.Previous, strings.TrimLeft(rest[1:], " "))
			r.prevObsolete = true
			return nil
		}
		if rest == "" {
			return nil
		}
		return r.body(rest, true)
	}
	if strings.HasPrefix(l, "#") {
		if r.state != sNone {
			if err := r.finish(); err != nil {
				return err
			}
		}
		return r.comment(l)
	}
	return r.body(l, false)
}

func (r *poReader) comment(l string) error {
	c := &r.cur
	switch {
	case strings.HasPrefix(l, "#:"):
		ls, err := readRefs(strings.TrimLeft(l[2:], " "))
		if err != nil {
			return err
		}
		c.Locations = append(c.Locations, ls...)
	case strings.HasPrefix(l, "#,"):
		if len(c.Flags) > 0 { // other readers keep only the last line
			return errors.New("another line of flags")
		}
		if strings.TrimSpace(l[2:]) == "" {
			return errors.New("a line of no flags")
		}
		for _, f := range strings.Split(l[2:], ",") {
			if f = strings.TrimSpace(f); f != "" {
				c.Flags = append(c.Flags, f)
			}
		}
	case strings.HasPrefix(l, "#."):
		c.ExtractedComments = append(c.ExtractedComments, strings.TrimPrefix(l[2:], " "))
	case strings.HasPrefix(l, "#|"):
		c.Previous = append(c.Previous, strings.TrimLeft(l[2:], " "))
		r.prevActive = true
	case strings.HasPrefix(l, "#~"):
		return errors.New("unexpected obsolete marker")
	default:
		c.Comments = append(c.Comments, strings.TrimPrefix(l[1:], " "))
	}
	return nil
}

// readRefs reads the references of a comment as the tool writes them: one per
// line, so that names can contain blanks.
func readRefs(s string) (po.Locations, error) {
	if i := strings.LastIndexByte(s, ':'); i > 0 {
		if d := s[i+1:]; d != "" && strings.Trim(d, "0123456789") == "" {
			n, err := strconv.Atoi(d)
			if err != nil {
				return nil, err
			}
			return po.Locations{{File: s[:i], Line: n}}, nil
		}
	}
	if s == "" {
		return nil, nil
	}
	return po.Locations{{File: s, Line: -1}}, nil
}

func (r *poReader) body(l string, obs bool) error {
	l = strings.TrimLeft(l, poBlanks)
	kw := ""
	for _, k := range []string{"msgctxt", "msgid_plural", "msgid", "msgstr"} {
		if strings.HasPrefix(l, k) {
			kw = k
			break
		}
	}
	if kw == "msgctxt" || kw == "msgid" && r.state != sCtx {
		if r.state != sNone {
			if err := r.finish(); err != nil {
				return err
			}
		}
		r.obs = obs
		if obs && r.prevActive || !obs && r.prevObsolete { // an error of GNU gettext
			return errors.New("inconsistent use of the obsolete marker at the previous ids")
		}
		r.prevActive, r.prevObsolete = false, false
	}
	if kw != "" || l[0] == '"' {
		if r.state != sNone && r.obs != obs {
			return errors.New("message partly obsolete")
		}
		r.obs = obs
	}
	rest := strings.TrimPrefix(l, kw)
	switch kw {
	case "msgctxt":
		r.state = sCtx
	case "msgid":
		if r.state != sNone && r.state != sCtx {
			return errors.New("unexpected msgid")
		}
		r.state = sID
	case "msgid_plural":
		if r.state != sID {
			return errors.New("unexpected msgid_plural")
		}
		r.state = sPlural
	case "msgstr":
		if strings.HasPrefix(rest, "[") {
			i := strings.IndexByte(rest, ']')
			if i < 0 {
				return errors.New("bad index")
			}
			n, err := strconv.Atoi(rest[1:i])
			if err != nil {
				return err
			}
			if r.state != sPlural && r.state != sStrN || n != len(r.cur.Plurals) {
				return errors.New("unexpected plural form")
			}
			r.cur.Plurals = append(r.cur.Plurals, po.PluralEntry{ID: n})
			rest = rest[i+1:]
			r.state = sStrN
		} else {
			if r.state != sID {
				return errors.New("unexpected msgstr")
			}
			r.state = sStr
		}
	}
	s, err := readString(strings.TrimLeft(rest, poBlanks))
	if err != nil {
		return err
	}
	switch r.state {
	case sCtx:
		r.cur.Context += s
	case sID:
		r.cur.ID += s
	case sPlural:
		r.cur.Plural += s
	case sStr:
		r.cur.Str += s
	case sStrN:
		r.cur.Plurals[len(r.cur.Plurals)-1].Str += s
	default:
		return errors.New("string outside of a message")
	}
	return nil
}

func readString(s string) (string, error) {
	s = strings.TrimRight(s, poBlanks)
	if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
		return "", errors.New("not a string")
	}
	s = s[1 : len(s)-1]
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			return "", errors.New("quote inside string")
		}
		if c != '\\' {
			b = append(b, c)
			continue
		}
		i++
		if i == len(s) {
			return "", errors.New("escaped end")
		}
		switch c = s[i]; c {
		case 'n':
			b = append(b, '\n')
		case 't':
			b = append(b, '\t')
		case 'r':
			b = append(b, '\r')
		case 'a':
			b = append(b, 7)
		case 'b':
			b = append(b, 8)
		case 'v':
			b = append(b, 11)
		case 'f':
			b = append(b, 12)
		case '\\', '"':
			b = append(b, c)
		case 'x':
			if i+2 >= len(s) {
				return "", errors.New("bad escape")
			}
			n, err := strconv.ParseUint(s[i+1:i+3], 16, 8)
			if err != nil {
				return "", errors.New("bad escape")
			}
			b = append(b, byte(n))
			i += 2
		default:
			j := i
			for j < len(s) && j < i+3 && s[j] >= '0' && s[j] <= '7' {
				j++
			}
			if j == i {
				return "", fmt.Errorf("bad escape \\%c", c)
			}
			n, err := strconv.ParseUint(s[i:j], 8, 8)
			if err != nil {
				return "", errors.New("bad escape")
			}
			b = append(b, byte(n))
			i = j - 1
		}
	}
	return string(b), nil
}

// A layout writes messages in some legal way.
type layout struct {
	*G
	nl      string
	b       strings.Builder
	pre     string // of the current lines
	mark    string // of obsolete lines, after the hash
	calm    bool   // conventional layout
	nolines bool   // one line per message is allowed
}

func (w *layout) blank() string {
	if w.calm || w.p(80) {
		return " "
	}
	return pick(w.G, []string{"", "  ", "\t", " \t ", "   ", "\f", "\v", " \v\f\t"})
}

func (w *layout) escape(s string) string {
	var b strings.Builder
	style := w.Intn(4)
	for i := 0; i < len(s); i++ {
		c := s[i]
		named := map[byte]string{'\n': `\n`, '\t': `\t`, '\r': `\r`, 7: `\a`, 8: `\b`, 11: `\v`, 12: `\f`, '"': `\"`, '\\': `\\`}[c]
		mustEsc := c == '\n' || c == '\r' || c == '"' || c == '\\'
		numeric := w.p(3)
		if style == 0 {
			numeric = w.p(30)
		}
		switch {
		case numeric && w.p(50):
			fmt.Fprintf(&b, `\%03o`, c)
		case numeric && (i+1 == len(s) || !isHex(s[i+1])):
			fmt.Fprintf(&b, pick(w.G, []string{`\x%02x`, `\x%02X`}), c)
		case named != "" && (mustEsc || w.p(60)):
			b.WriteString(named)
		case mustEsc:
			b.WriteString(named)
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

func isHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

// eol ends a line of the body.
func (w *layout) eol() {
	if !w.calm && w.p(8) {
		w.b.WriteString(pick(w.G, []string{" ", "\t", "  ", "\f", "\v"}))
	}
	w.b.WriteString(w.nl)
	for !w.calm && w.p(6) {
		w.b.WriteString(pick(w.G, []string{"", " ", "\t", "\f", "\v", " \f"}) + w.nl)
	}
	w.b.WriteString(w.pre)
	if !w.calm && w.p(10) {
		w.b.WriteString(pick(w.G, []string{" ", "\t", "   ", "\f", "\v "}))
	}
}

// sep separates two tokens of the body.
func (w *layout) sep() {
	if w.calm || w.p(85) {
		w.eol()
		return
	}
	w.b.WriteString(pick(w.G, []string{" ", "  ", "\t", "\v", "\f"}))
}

func (w *layout) str(s string) {
	// Split into pieces anywhere, but not inside an escape.
	var pieces []string
	switch {
	case w.calm || w.p(60):
		pieces = []string{s}
	case w.p(50): // at the ends of lines
		pieces = strings.SplitAfter(s, "\n")
		if w.p(50) {
			pieces = append([]string{""}, pieces...)
		}
	default:
		for len(s) > 0 {
			n := 1 + w.Intn(len(s))
			pieces = append(pieces, s[:n])
			s = s[n:]
			if w.p(20) {
				pieces = append(pieces, "")
			}
		}
		if len(pieces) == 0 {
			pieces = []string{""}
		}
	}
	for i, p := range pieces {
		if i > 0 {
			w.sep()
		}
		w.b.WriteString(`"` + w.escape(p) + `"`)
	}
}

func (w *layout) kw(k, s string, first bool) {
	if !first {
		w.sep()
	}
	w.b.WriteString(k)
	if !w.calm && w.p(5) {
		w.eol()
	} else {
		w.b.WriteString(w.blank())
	}
	w.str(s)
}

func (w *layout) commentLine(s string) {
	if !w.calm && w.p(4) {
		w.b.WriteString(pick(w.G, []string{" ", "\t", "\f", "\v"}))
	}
	w.b.WriteString(s + w.nl)
	if !w.calm && w.p(4) {
		w.b.WriteString(w.nl)
	}
}

func (w *layout) comments(e po.Entry) {
	// The lines of each kind keep their order, the kinds are interleaved.
	var kinds [][]string
	tr := []string{}
	for _, c := range e.Comments {
		l := "# " + c
		if c == "" && w.p(50) {
			l = "#"
		} else if c != "" && !strings.ContainsAny(c[:1], " .:,|~!") && w.p(15) {
			l = "#" + c
		}
		tr = append(tr, l)
	}
	ex := []string{}
	for _, c := range e.ExtractedComments {
		l := "#. " + c
		if (c == "" || c[0] != ' ') && w.p(15) {
			l = "#." + c
		}
		ex = append(ex, l)
	}
	var fl []string
	for i := 0; i < len(e.Flags); {
		n := 1
		if w.p(60) {
			n += w.Intn(len(e.Flags) - i)
		}
		fl = append(fl, "#,"+w.blank()+strings.Join(e.Flags[i:i+n], pick(w.G, []string{", ", ",", " , "})))
		i += n
	}
	var rf []string
	for i := 0; i < len(e.Locations); {
		l := "#:"
		sepd := false
		for {
			x := e.Locations[i]
			if !sepd {
				l += pick(w.G, []string{" ", "", "  "})
				sepd = true
			} else {
				l += pick(w.G, []string{" ", "  "})
			}
			if x.Line < 0 {
				l += x.File
			} else {
				l += fmt.Sprintf("%s:%d", x.File, x.Line)
			}
			i++
			// After a name without a line only such names can follow.
			if i == len(e.Locations) || x.Line < 0 && e.Locations[i].Line >= 0 || w.p(50) || e.Locations[i].Line < 0 && !lineless(e.Locations[i].File) {
				break
			}
		}
		rf = append(rf, l)
	}
	var pv []string
	for _, c := range e.Previous {
		m := "#|"
		if e.Obsolete && w.p(70) {
			m = w.marker() + pick(w.G, []string{"|", "|", " |"})
		}
		pv = append(pv, m+w.blankOrNone()+c)
	}
	kinds = [][]string{tr, ex, rf, fl, pv}
	if w.calm || w.p(50) {
		for _, k := range kinds {
			for _, l := range k {
				w.commentLine(l)
			}
		}
		return
	}
	// #~| lines must come last: a comment before an obsolete line belongs to it anyway.
	for {
		var nonEmpty []int
		for i, k := range kinds {
			if len(k) > 0 {
				nonEmpty = append(nonEmpty, i)
			}
		}
		if len(nonEmpty) == 0 {
			return
		}
		i := pick(w.G, nonEmpty)
		w.commentLine(kinds[i][0])
		kinds[i] = kinds[i][1:]
	}
}

func (w *layout) marker() string {
	if w.mark == "" {
		return "#~"
	}
	return "#" + w.mark
}

func (w *layout) blankOrNone() string { return pick(w.G, []string{" ", " ", "", "  "}) }

func (w *layout) entry(e po.Entry) {
	w.pre = ""
	w.comments(e)
	if e.Obsolete {
		w.pre = w.marker() + pick(w.G, []string{" ", " ", " ", "", "  "})
	}
	w.b.WriteString(w.pre)
	first := true
	if e.Context != "" {
		w.kw("msgctxt", e.Context, first)
		first = false
	}
	w.kw("msgid", e.ID, first)
	if e.Plural != "" || len(e.Plurals) > 0 {
		w.kw("msgid_plural", e.Plural, false)
		for _, p := range e.Plurals {
			br := pick(w.G, []string{"msgstr[%d]", "msgstr[%d]", "msgstr[%d]", "msgstr [%d]", "msgstr[ %d ]"})
			if w.calm {
				br = "msgstr[%d]"
			}
			w.kw(fmt.Sprintf(br, p.ID), p.Str, false)
		}
	} else {
		w.kw("msgstr", e.Str, false)
	}
	w.pre = ""
	w.b.WriteString(w.nl)
	for w.calm || w.p(70) {
		w.b.WriteString(w.nl)
		if w.calm {
			break
		}
	}
}

// write lays out the messages in the given order.
func (w *layout) write(es po.Entries) string {
	w.b.Reset()
	for !w.calm && w.p(10) {
		w.b.WriteString(w.nl)
	}
	for _, e := range es {
		w.entry(e)
	}
	if !w.calm && w.p(20) {
		w.commentLine("# comment of nothing")
	}
	s := w.b.String()
	if !w.calm && w.p(40) {
		s = strings.TrimRight(s, "\r\n")
	}
	return s
}
