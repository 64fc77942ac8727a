package main

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// found is a string that extraction must find.
type found struct {
	id, plural, ctx string
	line            int
	off             int // where the call or literal begins
}

func (f found) String() string {
	return fmt.Sprintf("{id %q, plural %q, context %q, line %d}", f.id, f.plural, f.ctx, f.line)
}

// goSrc writes random Go source text and remembers what must be extracted
// from it. It writes text, not syntax trees, so that it knows every line.
type goSrc struct {
	*G
	b      strings.Builder
	names  []string // under which gotext is imported
	hidden []bool   // not empty: the names are hidden by declarations
	calls  []found  // calls of getters with a literal message
	lits   []found  // all other literals
	line   int
	depth  int
	simple bool
	ids    []string
}

func (s *goSrc) w(x string) {
	s.b.WriteString(x)
	s.line += strings.Count(x, "\n")
}

// ws writes optional white space and comments; nl: line breaks are allowed.
func (s *goSrc) ws(nl bool) {
	if s.simple || s.p(75) {
		return
	}
	switch s.Intn(6) {
	case 0:
		s.w(" ")
	case 1:
		s.w("\t ")
	case 2:
		s.w(pick(s.G, []string{"/* c */", "/**/", `/* gotext.Get("no") */`, "/* \" */", "/* ` */"}))
	default:
		if !nl {
			s.w(" ")
			return
		}
		s.w(pick(s.G, []string{"\n", "\n\n\t", " // gotext.Get(\"no\")\n", "// \"\n\t", "/* a\nb */\n", "// `\n", "/* gotext.GetN(\"no\",\n\"n\", 1) */ "}))
	}
}

// literal writes the string as a Go literal.
func (s *goSrc) literal(x string) {
	raw := utf8.ValidString(x) && !strings.ContainsAny(x, "`\r\x00\ufeff")
	if raw && s.p(35) {
		y := x
		if s.p(10) && !s.simple {
			y = strings.ReplaceAll(y, " ", "\r ") // carriage returns don't count
		}
		s.w("`" + y + "`")
		return
	}
	var b strings.Builder
	b.WriteByte('"')
	style := s.Intn(5)
	for i := 0; i < len(x); {
		r, n := utf8.DecodeRuneInString(x[i:])
		c := x[i]
		switch {
		case r == utf8.RuneError && n == 1:
			fmt.Fprintf(&b, pick(s.G, []string{`\x%02x`, `\x%02X`, `\%03o`}), c)
		case n > 1 && (r == 0xfeff || style == 1 && s.p(50)):
			if r > 0xffff {
				fmt.Fprintf(&b, `\U%08x`, r)
			} else {
				fmt.Fprintf(&b, pick(s.G, []string{`\u%04x`, `\u%04X`}), r)
			}
		case n > 1:
			b.WriteString(x[i : i+n])
		case c == '"' || c == '\\':
			b.WriteString(`\` + string(rune(c)))
		case c == '\n':
			b.WriteString(`\n`)
		case c == 0 || c == '\r' || style == 2 && s.p(40):
			fmt.Fprintf(&b, pick(s.G, []string{`\x%02x`, `\%03o`, `\u%04x`}), c)
		case c < ' ' && s.p(60):
			if e, ok := map[byte]string{7: `\a`, 8: `\b`, 12: `\f`, 9: `\t`, 11: `\v`}[c]; ok {
				b.WriteString(e)
			} else {
				fmt.Fprintf(&b, `\x%02x`, c)
			}
		default:
			b.WriteByte(c)
		}
		i += n
	}
	b.WriteByte('"')
	s.w(b.String())
}

// big tells whether the thing that is written next shall be large.
func (s *goSrc) big(scale string) bool {
	if s.scale != scale || s.scaleLeft == 0 || s.p(50) {
		return false
	}
	s.scaleLeft--
	return true
}

func (s *goSrc) text() string {
	if s.big("text") {
		return strings.Repeat(pick(s.G, words)+" ", s.large(14)/4)
	}
	if s.big("lines") {
		return strings.Repeat(pick(s.G, words)+"\n", s.large(12)/2)
	}
	if s.ids != nil && s.p(80) {
		return pick(s.G, s.ids)
	}
	if s.p(10) {
		return pick(s.G, []string{`gotext.Get("no")`, "`", "// no", "/*", "github.com/leonelquinteros/gotext"})
	}
	return s.nstr()
}

// lit writes a literal that isn't an argument of an extracted call.
func (s *goSrc) lit() {
	x := ""
	if s.p(93) {
		x = s.text()
	}
	line, off := s.line, s.b.Len()
	s.literal(x)
	if x != "" {
		s.lits = append(s.lits, found{id: x, line: line, off: off})
	}
}

func (s *goSrc) ident() string {
	return pick(s.G, []string{"x", "y", "foo", "ñ", "l", "err", "nil", "Get", "GetN", "T", "msgid"})
}

func (s *goSrc) list(n int, sep string, f func(i int)) {
	s.ws(true)
	for i := 0; i < n; i++ {
		if i > 0 {
			s.w(sep)
			if !s.simple && s.p(50) {
				s.w(" ")
			}
			s.ws(true)
		}
		f(i)
	}
	if n > 0 && !s.simple && s.p(10) {
		s.w(",")
		s.ws(true)
	}
}

// expr writes an expression; plain: it must not be a number or rune literal.
func (s *goSrc) expr(plain bool) {
	s.depth++
	defer func() { s.depth-- }()
	if s.big("previous") { // many levels
		n := s.large(9)
		for i := 0; i < n; i++ {
			s.w(pick(s.G, []string{"f(", "(", "(1 + ", "f(1, "}))
		}
		s.call()
		s.w(strings.Repeat(")", n))
		return
	}
	if s.big("extracted") { // many terms
		for i, n := 0, s.large(9); i < n; i++ {
			if s.p(50) {
				s.w(s.ident())
			} else {
				s.lit()
			}
			s.w(" + ")
		}
	}
	if s.depth > 5 {
		if s.p(50) {
			s.lit()
		} else {
			s.w(s.ident())
		}
		return
	}
	switch s.Intn(29) {
	case 0, 1:
		s.lit()
	case 22: // lists without their types, with keys
		s.w(pick(s.G, []string{"[][]string{", "[...]T{", "[]*T{"}))
		s.list(s.Intn(3), ",", func(i int) {
			if s.p(30) {
				s.w(fmt.Sprint(7*i) + ": ")
			}
			s.w("{")
			s.list(s.Intn(3), ",", func(int) { s.expr(false) })
			s.w("}")
		})
		s.w("}")
	case 23:
		s.structType()
		s.w("{}")
	case 24:
		s.w(s.ident() + "[(")
		s.expr(false)
		s.w("):(")
		s.expr(false)
		s.w("):(")
		s.expr(false)
		s.w(")]")
	case 25:
		s.w(pick(s.G, []string{"f[T[int], *L](", "append(x, ", "f.g().h(1, "}))
		s.w("(")
		s.expr(false)
		s.w(")...)")
	case 26:
		s.w("[len(")
		s.expr(false)
		s.w(")]int{}")
	case 27:
		s.w("func(p ")
		s.structType()
		s.w(", _ ...T) (r ")
		s.structType()
		s.w(") {")
		s.block(s.Intn(2))
		s.w("}")
	case 28:
		s.w("(&T{")
		s.ws(true)
		s.expr(false)
		s.w("}).Get")
		if s.p(50) {
			s.w("(")
			s.expr(false)
			s.w(")")
		}
	case 2:
		s.w(s.ident())
	case 3:
		if plain {
			s.w(s.ident())
			return
		}
		s.w(pick(s.G, []string{"1", "0x1f", "1.5e3", "'a'", `'"'`, `'\''`, "'`'", "2i"}))
	case 4, 5, 6, 7, 8:
		s.call()
	case 9:
		s.w("(")
		s.ws(true)
		s.expr(plain)
		s.ws(false)
		s.w(")")
	case 10:
		s.expr(false)
		s.w(" +")
		s.ws(true)
		s.w(" ")
		s.expr(false)
	case 11:
		s.w(s.ident() + "[")
		s.expr(false)
		s.w("]")
	case 12:
		s.w("[]string{")
		s.list(s.Intn(4), ",", func(int) { s.expr(false) })
		s.w("}")
	case 13:
		s.w("map[string]any{")
		s.list(s.Intn(3), ",", func(int) { s.expr(false); s.w(": "); s.expr(false) })
		s.w("}")
	case 14:
		s.w("T{")
		s.list(s.Intn(3), ",", func(int) { s.w("Get:"); s.ws(true); s.expr(false) })
		s.w("}")
	case 15:
		s.w("func(x int) string {")
		s.block(1 + s.Intn(2))
		s.w("}")
	case 16:
		s.w(pick(s.G, []string{"-", "!", "&", "<-"}))
		s.w("(")
		s.expr(false)
		s.w(")")
	case 17:
		s.w("(")
		s.expr(false)
		s.w(").(string)")
	case 18:
		s.w("(")
		s.expr(false)
		s.w(")[1:2]")
	case 19:
		s.other()
	case 20:
		s.w(pick(s.G, []string{"string", "f[int]", "[]byte", "func(string) string"}))
		if s.b.String()[s.b.Len()-1] == 'g' && s.p(30) {
			s.w(" ")
		}
		s.w("(")
		s.expr(false)
		s.w(")")
	default:
		s.other()
	}
}

// structType writes a type with tags.
func (s *goSrc) structType() {
	s.w("struct {")
	for i, n := 0, s.Intn(4); i < n; i++ {
		s.w("\n\t\t")
		switch s.Intn(8) {
		case 0:
			s.w(fmt.Sprintf("A%d string", i))
			continue
		case 1:
			s.w(fmt.Sprintf("A%d, B%d string ", i, i))
		case 2:
			s.w("T ")
		case 3:
			s.w("*T ")
		case 4:
			s.w("fmt.Stringer ")
		case 5:
			s.w("L[int] ")
		case 6:
			if s.depth < 4 {
				s.depth++
				s.w(fmt.Sprintf("A%d ", i))
				s.structType()
				s.w(" ")
				s.depth--
				break
			}
			fallthrough
		default:
			s.w(fmt.Sprintf("A%d string ", i))
		}
		s.lit()
	}
	s.w("\n\t}")
}

// other writes a call that isn't one of a getter of the package.
func (s *goSrc) other() {
	fun := pick(s.G, []string{"f", "Get", "GetN", "other.Get", "l.Get", "l.GetN", "x.gotext.Get", "gotext().Get", "l.po.GetND", "fmt.Sprintf", "errors.New", "(*l).Get", "f(1).GetC", "xs[0].Get"})
	name := "gotext"
	if len(s.names) > 0 {
		name = pick(s.G, s.names)
	} else if s.p(50) {
		fun = "gotext.Get" // not the wanted package, or not a package
	}
	if s.p(30) && fun != "gotext.Get" {
		fun = name + "." + pick(s.G, []string{"NewLocale", "Getx", "get", "GetNCD", "GetDN", "Configure", "SetDomain", "Po", "GET", "Gett", "IsTranslated", "GetVar.Get", "Get.Get"})
	}
	if s.isHidden() {
		fun = name + "." + pick(s.G, getters)
	}
	s.w(fun)
	s.ws(false)
	s.w("(")
	s.list(s.Intn(4), ",", func(int) { s.expr(false) })
	s.w(")")
}

var getters = []string{"Get", "GetN", "GetD", "GetND", "GetC", "GetNC", "GetDC", "GetNDC"}

func (s *goSrc) isHidden() bool { return len(s.hidden) > 0 }

// call writes a call of a getter.
func (s *goSrc) call() {
	if len(s.names) == 0 || s.isHidden() {
		s.other()
		return
	}
	name := pick(s.G, s.names)
	m := pick(s.G, getters)
	start := s.b.Len()
	paren := 0
	if !s.simple && s.p(4) {
		paren = 1 + s.Intn(2)
	}
	switch paren {
	case 1:
		s.w("(" + name + "." + m + ")")
	case 2:
		s.w("(" + name + ").")
		s.ws(true)
		s.w(m)
	default:
		s.w(name)
		s.ws(false)
		s.w(".")
		s.ws(true)
		s.w(m)
	}
	s.ws(false)
	s.w("(")
	// The arguments: d domain, i message, p plural, n number, c context.
	args := map[string]string{"Get": "i", "GetN": "ipn", "GetD": "di", "GetND": "dipn", "GetC": "ic", "GetNC": "ipnc", "GetDC": "dic", "GetNDC": "dipnc"}[m]
	if !s.simple && len(args) > 1 && s.p(4) { // all results of a call
		s.w("f(")
		if s.p(50) {
			s.expr(false)
		}
		s.w("))")
		return
	}
	f := found{off: start}
	var hold []found // literals of the call, if the message isn't one
	got := false
	kind := map[byte]int{} // 0 literal, 1 empty literal, 2 expression
	for _, c := range []byte("ipc") {
		switch r := s.Intn(100); {
		case r < 80 || s.simple:
			kind[c] = 0
		case r < 86:
			kind[c] = 1
		default:
			kind[c] = 2
		}
	}
	rest, many := 0, false
	if !s.simple && s.p(25) {
		rest = 1 + s.Intn(2)
	}
	if s.big("forms") {
		rest, many = s.large(10), true
	}
	s.list(len(args)+rest, ",", func(i int) {
		if i >= len(args) && many {
			s.w(s.ident())
			return
		}
		if i >= len(args) {
			s.expr(false)
			return
		}
		c := args[i]
		switch c {
		case 'd':
			s.expr(false)
			return
		case 'n':
			if s.p(60) {
				s.w(pick(s.G, []string{"1", "n", "len(x)"}))
			} else {
				s.expr(false)
			}
			return
		}
		switch kind[c] {
		case 2:
			// Neither a literal nor one in parentheses.
			switch s.Intn(3) {
			case 0:
				s.w(s.ident())
			case 1:
				s.expr(false)
				s.w(" + ")
				s.lit()
			default:
				s.other()
			}
			return
		case 1:
			s.w(pick(s.G, []string{`""`, "``"}))
			return
		}
		x := s.text()
		op := !s.simple && s.p(4)
		if op {
			s.w("(")
			s.ws(true)
		}
		line, off := s.line, s.b.Len()
		s.literal(x)
		if op {
			s.w(")")
		}
		switch c {
		case 'i':
			f.id, f.line = x, line
			got = true
		case 'p':
			f.plural = x
		case 'c':
			f.ctx = x
		}
		hold = append(hold, found{id: x, line: line, off: off})
	})
	s.w(")")
	if got {
		s.calls = append(s.calls, f)
	} else {
		s.lits = append(s.lits, hold...)
	}
}

func (s *goSrc) block(n int) {
	s.w("\n")
	for i := 0; i < n; i++ {
		s.stmt()
	}
}

func (s *goSrc) stmt() {
	s.depth++
	defer func() { s.depth-- }()
	k := s.Intn(24)
	if s.depth > 5 || s.simple {
		k = 0
	}
	s.w("\t")
	switch k {
	default:
		s.w("_ = ")
		s.expr(false)
	case 1:
		s.w("x := ")
		s.expr(false)
	case 2:
		s.w("if (")
		s.expr(false)
		s.w(") == (")
		s.expr(false)
		s.w(") {")
		s.block(s.Intn(3))
		s.w("} else {")
		s.block(s.Intn(2))
		s.w("}")
	case 3:
		s.w("for _, x := range (")
		s.expr(false)
		s.w(") {")
		s.block(s.Intn(3))
		s.w("}")
	case 4:
		s.w("switch (")
		s.expr(false)
		s.w(") {\ncase ")
		s.expr(false)
		s.w(", ")
		s.expr(false)
		s.w(":")
		s.block(s.Intn(2))
		s.w("default:")
		s.block(s.Intn(2))
		s.w("}")
	case 5:
		s.w(pick(s.G, []string{"go", "defer"}) + " func() {")
		s.block(1 + s.Intn(2))
		s.w("}()")
	case 6:
		s.w("defer f(")
		s.expr(false)
		s.w(")")
	case 7:
		s.w("return ")
		s.expr(false)
	case 8:
		s.w("const c = ")
		s.lit()
	case 9:
		s.w("var v, w string = ")
		s.expr(false)
		s.w(", ")
		s.expr(false)
	case 10:
		s.hide()
	case 11:
		s.w("type T " + pick(s.G, []string{"", "= ", "[]", "map[string]*", "func() "}))
		s.structType()
	case 12:
		lbl := "again"
		if len(s.names) > 0 {
			lbl = pick(s.G, s.names)
		}
		s.w(lbl + ":\n\tfor ; ; x++ {\n\tbreak " + lbl + "\n\t}")
	case 13:
		s.w("select {\n\tcase x := <-(")
		s.expr(false)
		s.w("):")
		s.block(s.Intn(2))
		s.w("}")
	case 14:
		s.w("{")
		s.block(s.Intn(3))
		s.w("}")
	case 15:
		s.w("x.y += ")
		s.expr(false)
	case 16:
		s.w("switch x := (")
		s.expr(false)
		s.w(").(type) {\n\tcase *T, func(")
		s.structType()
		s.w("):")
		s.block(s.Intn(2))
		s.w("}")
	case 17:
		s.w("for i := (")
		s.expr(false)
		s.w("); (")
		s.expr(false)
		s.w(") != nil; x[(")
		s.expr(false)
		s.w(")]++ {")
		s.block(s.Intn(2))
		s.w("}")
	case 18:
		s.w("if x, ok := (")
		s.expr(false)
		s.w("); !ok {")
		s.block(s.Intn(2))
		s.w("} else if x == (")
		s.expr(false)
		s.w(") {")
		s.block(s.Intn(2))
		s.w("}")
	case 19:
		s.w("x <- ")
		s.expr(false)
	}
	s.w(pick(s.G, []string{"\n", "\n", ";\n", " // \"no\"\n", "\n\n"}))
}

// hide writes a block in which the names of the package mean something else.
func (s *goSrc) hide() {
	if len(s.names) == 0 || s.isHidden() {
		s.w("{\n\t}")
		return
	}
	// Before the declaration takes effect the name still is the package.
	s.w("{\n")
	if s.p(30) {
		s.stmt()
	}
	s.w("\t")
	switch s.Intn(3) {
	case 0:
		for i, n := range s.names {
			if i > 0 {
				s.w(", ")
			}
			s.w(n)
		}
		s.w(" := ")
		for i := range s.names {
			if i > 0 {
				s.w(", ")
			}
			s.w("l")
		}
		s.w("\n")
		s.hidden = append(s.hidden, true)
		s.block(1 + s.Intn(2))
		s.hidden = s.hidden[:len(s.hidden)-1]
	case 1:
		s.w("var " + strings.Join(s.names, ", ") + " *L\n")
		s.hidden = append(s.hidden, true)
		s.block(1 + s.Intn(2))
		s.hidden = s.hidden[:len(s.hidden)-1]
	case 2:
		s.w("_ = func(" + strings.Join(s.names, ", ") + " *L) {")
		s.hidden = append(s.hidden, true)
		s.block(1 + s.Intn(2))
		s.hidden = s.hidden[:len(s.hidden)-1]
		s.w("}\n")
	}
	if s.p(20) {
		s.hidden = append(s.hidden, true)
		s.hidden = s.hidden[:len(s.hidden)-1]
	}
	s.w("\t}")
}

// goFile writes a whole file.
func (g *G) goFile(imports bool, stmts int) *goSrc {
	s := &goSrc{G: g, line: 1}
	s.file(imports, stmts)
	return s
}

const gotextPath = "github.com/leonelquinteros/gotext"

func (s *goSrc) file(imports bool, stmts int) {
	if !s.simple {
		if s.p(3) {
			s.w("\ufeff")
		}
		if s.p(20) {
			s.w("// Package p gotext.Get(\"no\")\n//line other.go:100\n\n")
		}
	}
	if s.big("comments") {
		for i, n := 0, s.large(15); i < n; i++ {
			s.w(pick(s.G, []string{"// gotext\n", "\n", "/* a\nb */\n"}))
		}
	}
	if s.p(10) {
		s.w(pick(s.G, []string{"//go:build ignore\n\n", "//go:build windows && !cgo\n// +build windows\n\n", "// Code generated by x. DO NOT EDIT.\n\n"}))
	}
	s.w("package " + pick(s.G, []string{"p", "main", "gotext", "p_test"}) + "\n\n")
	var specs []string
	for _, o := range []string{`"fmt"`, `str "strings"`, `_ "embed"`, `"` + gotextPath + `/v2"`, `"x/gotext"`, `"gotext"`} {
		if s.p(15) {
			specs = append(specs, o)
		}
	}
	if s.big("references") {
		for i, n := 0, s.large(9); i < n; i++ {
			specs = append(specs, fmt.Sprintf(`p%d "x/p%d"`, i, i))
		}
	}
	if imports {
		n := 1
		if !s.simple && s.p(5) {
			n = 2
		}
		for i := 0; i < n; i++ {
			q := `"` + gotextPath + `"`
			if !s.simple && s.p(8) {
				q = "`" + gotextPath + "`"
			}
			name := "gotext"
			if s.p(45) || i > 0 {
				name = pick(s.G, []string{"t", "i18n", "G", "ñ2", "gt", "gotext"})
				if name != "gotext" || s.p(50) {
					q = name + " " + q
				}
			}
			dup := false
			for _, x := range s.names {
				dup = dup || x == name
			}
			if !dup {
				s.names = append(s.names, name)
				specs = append(specs, q)
			}
		}
		if !s.simple && s.p(5) {
			specs = append(specs, `_ "`+gotextPath+`"`)
		}
		s.Shuffle(len(specs), func(i, j int) { specs[i], specs[j] = specs[j], specs[i] })
	}
	if len(specs) > 0 {
		if s.p(60) {
			s.w("import (\n")
			for _, x := range specs {
				s.w("\t" + x + "\n")
			}
			s.w(")\n\n")
		} else {
			for _, x := range specs {
				s.w("import " + x + "\n")
			}
		}
	}
	for stmts > 0 {
		n := 1 + s.Intn(6)
		if n > stmts {
			n = stmts
		}
		stmts -= n
		k := s.Intn(6)
		if s.simple {
			k = 0
		}
		switch k {
		default:
			s.w(fmt.Sprintf("func f%d() {", stmts))
			s.block(n)
			s.w("}\n\n")
		case 1:
			s.w(fmt.Sprintf("var v%d = ", stmts))
			s.expr(false)
			s.w("\n\n")
		case 2:
			s.w("var (\n")
			for i := 0; i < n; i++ {
				s.w(fmt.Sprintf("\tw%d_%d = ", stmts, i))
				s.expr(false)
				s.w("\n")
			}
			s.w(")\n")
		case 3:
			if s.p(50) {
				s.w(fmt.Sprintf("type T%d[X any] struct {\n\tF string ", stmts))
				s.lit()
				s.w("\n\tgotext int\n}\n")
				break
			}
			s.w(fmt.Sprintf("type (\n\tT%d ", stmts))
			s.structType()
			s.w(fmt.Sprintf("\n\tI%d interface{ m(", stmts))
			s.structType()
			s.w(") }\n)\n")
		case 4:
			s.w(fmt.Sprintf("const c%d = ", stmts))
			s.lit()
			s.w("\n")
			s.w(fmt.Sprintf("func (l *L) Get%d(x ...any) string {", stmts))
			s.block(n)
			s.w("}\n\n")
		}
	}
}

// wanted is what extraction must find.
func (s *goSrc) wanted(all bool) []found {
	if all {
		return append(append([]found(nil), s.calls...), s.lits...)
	}
	return s.calls
}
