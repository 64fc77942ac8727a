package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func init() {
	register(&Check{
		ID:    "C20",
		Rule:  "random header fields and configurations carried through entries, PO text, managed headers and MO files, and random operation sequences against an ordered map; non-trivial: every case",
		Quick: 40000, Thorough: 500000,
		Run:  runC20,
		Need: map[string]int{"fields": 120000, "po-trips": 30000, "mo-trips": 20000, "operations": 200000, "configs": 40000, "plural-forms": 40000, "default-configs": 100000, "malformed-plural-forms": 10000},
		Assume: []string{
			"keys without colon, line break, NUL, EOT and surrounding white space; values without line break, NUL, EOT and surrounding white space",
			"configurations: values as above; plural expressions without semicolon; media types of two lower case tokens; a custom field isn't one of the standard ones and isn't repeated",
		},
	})
}

func (t *T) fieldValue() string {
	s := strings.TrimSpace(strings.ReplaceAll(t.str(), "\n", "|"))
	if t.p(40) {
		s = pick(t.G, []string{"a: b", ":", "nplurals=3; plural=n;", "text/plain; charset=UTF-8", "2024-01-01 10:00+0100", "Ana <ana@x.org>", "x\\ny", "\"q\"", "http://x.org:80/"})
	}
	return strings.TrimSpace(s)
}

// Names of header fields seen in the wild.
var wildKeys = []string{
	"X-Poedit-Basepath", "X-Poedit-SourceCharset", "X-Poedit-KeywordsList", "X-Poedit-SearchPath-0", "X-Crowdin-Project", "X-Language", "X-Domain",
	"X-Source-Language", "X-Bugs", "X-Accelerator-Marker", "X-POOTLE-MTIME", "X-Launchpad-Export-Date", "X-Loco-Source-Locale", "X-Qt-Contexts", "X-Transifex",
}

// nplurals returns a number of plural forms.
func (t *T) nplurals() uint {
	switch t.Intn(8) {
	case 0:
		return uint(1) << t.Intn(64)
	case 1:
		return uint(1)<<t.Intn(64) - 1
	case 2:
		return uint(t.Intn(2000))
	}
	return uint(t.Intn(8))
}

func (t *T) fieldKey() string {
	if t.p(20) {
		return pick(t.G, wildKeys)
	}
	if t.p(50) {
		return pick(t.G, []string{"Language", "Plural-Forms", "Content-Type", "MIME-Version", "X-Generator", "X-Custom", "X Two Words", "Project-Id-Version", "ñ", "x"})
	}
	return strings.TrimSpace(strings.NewReplacer("\n", "", ":", "").Replace(t.str()))
}

var pluralExprs = []string{
	"0", "(n != 1)", "n != 1", "n>1", "(n > 1)", "(n==1) ? 0 : 1", "n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2",
	"(n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5)", "n==1||n==2", "EXPRESSION", "n=1",
}

func diffFields(a, b []po.HeaderField) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%q != %q", a, b)
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("field %d: %q != %q", i, a[i], b[i])
		}
	}
	return ""
}

func runC20(t *T) {
	// Fields.
	var h po.Header
	h.Template = t.p(30)
	nf := t.Intn(9)
	if t.p(1) {
		nf = t.Intn(200)
	}
	for i := 0; i < nf; i++ {
		h.Fields = append(h.Fields, po.HeaderField{Key: t.fieldKey(), Value: t.fieldValue()})
		t.Ev("fields")
	}
	want := append([]po.HeaderField(nil), h.Fields...)
	ctx := func() string { return fmt.Sprintf("template=%v fields=%q", h.Template, want) }
	e := h.ToEntry()
	if e.ID != "" || e.Context != "" || isPlural(e) || e.Obsolete || !e.IsHeader() {
		t.Fail("entry", "the entry isn't a header: %s\n%s", show(po.Entries{e}), ctx())
	}
	wantFlags := 0
	if h.Template {
		wantFlags = 1
	}
	if isFuzzy(e) != h.Template || len(e.Flags) != wantFlags {
		t.Fail("template", "flags %q\n%s", e.Flags, ctx())
	}
	// The text of the header as others read it.
	lines := strings.Split(strings.TrimSuffix(e.Str, "\n"), "\n")
	if len(want) == 0 {
		lines = nil
	}
	if len(lines) != len(want) || len(want) > 0 && !strings.HasSuffix(e.Str, "\n") {
		t.Fail("text", "%q\n%s", e.Str, ctx())
	}
	for i, l := range lines {
		k, v, ok := strings.Cut(l, ":")
		if !ok || strings.TrimSpace(k) != want[i].Key || strings.TrimSpace(v) != want[i].Value {
			t.Fail("text", "line %q, want %q\n%s", l, want[i], ctx())
		}
	}
	check := func(how string, got po.Header, template bool) {
		if d := diffFields(got.Fields, want); d != "" {
			t.Fail("fields", "%s: %s\n%s", how, d, ctx())
		}
		if got.Template != template {
			t.Fail("template", "%s: template is %v\n%s", how, got.Template, ctx())
		}
	}
	check("entry", po.EntryToHeader(e), h.Template)
	others := po.Entries{{ID: "a", Str: "b"}, {Context: "c", ID: "", Str: "Language: x\n"}}
	list := append(append(po.Entries{}, others[:t.Intn(3)]...), e)
	list = append(list, others[0])
	if !list.HasHeader() || others.HasHeader() {
		t.Fail("has-header", "HasHeader\n%s", ctx())
	}
	check("entries", list.Header(), h.Template)
	if x := others.Header(); len(x.Fields) != 0 || x.Template {
		t.Fail("no-header", "header of a list without one: %v", x)
	}
	// PO text, plain and managed.
	popts := []compile.PoOption{compile.PoWithWordWrap(t.p(50))}
	f, err := parse.PoFromString(compile.PoToString(po.Entries{e, others[0]}, popts...), "x")
	t.Ev("po-trips")
	if err != nil {
		t.Fail("po", "%v\n%s", err, ctx())
	}
	check("PO text", f.Header(), h.Template)
	txt := compile.PoToString(po.Entries{e, others[0]}, compile.PoWithManageHeader(true), compile.PoWithHeaderFields(true), compile.PoWithHeaderComments(t.p(50)))
	f, err = parse.PoFromString(txt, "x")
	if err != nil {
		t.Fail("po-managed", "%v\n%s\n%s", err, ctx(), txt)
	}
	check("managed PO text", f.Header(), h.Template)
	if len(want) > 0 {
		t.Ev("mo-trips")
		f, err = parse.MoFromBytes(compile.MoToBytes(po.Entries{others[0], e}), "x")
		if err != nil {
			t.Fail("mo", "%v\n%s", err, ctx())
		}
		check("MO file", f.Header(), false)
	}

	// Ordered map.
	model := append([]po.HeaderField(nil), h.Fields...)
	keys := []string{"Language", "language", "", "X", "X-Custom"}
	for _, fl := range model {
		keys = append(keys, fl.Key)
	}
	first := func(k string) int {
		for i := range model {
			if model[i].Key == k {
				return i
			}
		}
		return -1
	}
	var trace []string
	for i, n := 0, t.Intn(14); i < n; i++ {
		t.Ev("operations")
		k := pick(t.G, keys)
		j := first(k)
		switch t.Intn(3) {
		case 0:
			v := t.str()
			trace = append(trace, fmt.Sprintf("Set(%q,%q)", k, v))
			h.Set(k, v)
			if j >= 0 {
				model[j].Value = v
			} else {
				model = append(model, po.HeaderField{Key: k, Value: v})
			}
		case 1:
			var vs []string
			for x := t.Intn(3); x > 0; x-- {
				vs = append(vs, t.str())
			}
			trace = append(trace, fmt.Sprintf("Register(%q,%q)", k, vs))
			h.Register(k, vs...)
			if j < 0 {
				v := strings.Join(vs, "")
				model = append(model, po.HeaderField{Key: k, Value: v})
			}
		default:
			w := ""
			if j >= 0 {
				w = model[j].Value
			}
			trace = append(trace, fmt.Sprintf("Load(%q)", k))
			if got := h.Load(k); got != w {
				t.Fail("load", "%q, want %q after %v", got, w, trace)
			}
		}
		if d := diffFields(h.Fields, model); d != "" {
			t.Fail("map", "%s after %v", d, trace)
		}
	}

	// Configurations.
	t.Ev("configs")
	val := func() string {
		if t.p(30) {
			return ""
		}
		return t.fieldValue()
	}
	c := po.HeaderConfig{
		Template: t.p(40), ProjectIDVersion: val(), ReportMsgidBugsTo: val(), POTCreationDate: val(), PORevisionDate: val(), LastTranslator: val(),
		LanguageTeam: val(), Language: val(), MimeVersion: val(), XGenerator: val(),
		MediaType:               pick(t.G, []string{"", "text/plain", "text/plain", "text/html", "application/x-po"}),
		Charset:                 pick(t.G, []string{"", "UTF-8", "UTF-8", "ISO-8859-1", "CP1252", "KOI8-R", "CHARSET", "latin 1", "utf-8"}),
		ContentTransferEncoding: pick(t.G, []string{"", "8bit"}),
		Nplurals:                t.nplurals(), Plural: pick(t.G, append([]string{""}, pluralExprs...)),
	}
	seen := map[string]bool{}
	for i, n := 0, t.Intn(4); i < n; i++ {
		fl := po.HeaderField{Key: "X-" + t.fieldKey(), Value: t.fieldValue()}
		if t.p(40) {
			fl.Key = pick(t.G, wildKeys)
		}
		if fl.Key != "X-Generator" && !seen[fl.Key] && fl.Value != "" {
			seen[fl.Key] = true
			c.ExtraFields = append(c.ExtraFields, fl)
		}
	}
	w := c
	if !c.Template {
		w.POTCreationDate = ""
	}
	if c.Template || c.Nplurals == 0 || c.Plural == "" {
		w.Nplurals, w.Plural = 2, ""
	}
	if w.MimeVersion == "" {
		w.MimeVersion = "1.0"
	}
	w.ContentTransferEncoding = "8bit"
	if c.MediaType == "" || c.Charset == "" {
		w.MediaType, w.Charset = "text/plain", "UTF-8"
	}
	if w.Charset == "CHARSET" || w.Charset == "latin 1" || w.Charset == "utf-8" {
		w.Charset = "UTF-8"
	}
	// The values that come back must be representable.
	if w.ExtraFields == nil {
		w.ExtraFields = []po.HeaderField{}
	}
	same := func(how string, got po.HeaderConfig) {
		if got.ExtraFields == nil {
			got.ExtraFields = []po.HeaderField{}
		}
		if !reflect.DeepEqual(got, w) {
			t.Fail("config", "%s:\ngot  %+v\nwant %+v\nfrom %+v", how, got, w, c)
		}
	}
	ch := c.ToHeader()
	same("header", ch.ToConfig())
	same("entry", po.EntryToHeader(ch.ToEntry()).ToConfig())
	if ch.Template != c.Template || isFuzzy(ch.ToEntry()) != c.Template {
		t.Fail("template", "template flag of %+v", ch)
	}
	f, err = parse.PoFromString(compile.PoToString(po.Entries{others[0]}.Solve(), compile.PoWithManageHeader(true)), "x")
	if err != nil || f.HasHeader() {
		t.Fail("managed", "a header appeared: %v", err)
	}
	f, err = parse.PoFromString(compile.PoToString(po.Entries{{Str: "Language: xx\n"}, others[0]}, compile.PoWithManageHeader(true), compile.PoWithHeaderFields(true),
		func(pc *compile.PoConfig) { pc.HeaderConfig = &c }), "x")
	if err != nil {
		t.Fail("config-po", "%v from %+v", err, c)
	}
	same("managed PO text", f.Header().ToConfig())
	// Options are the fields.
	var o po.HeaderConfig
	o.ExtraFields = c.ExtraFields
	opts := []po.HeaderOption{
		po.HeaderWithTemplate(c.Template), po.HeaderWithPlural(c.Plural), po.HeaderWithPOTCreationDate(c.POTCreationDate), po.HeaderWithPORevisionDate(c.PORevisionDate),
		po.HeaderWithXGenerator(c.XGenerator), po.HeaderWtihContentTransferEncoding(c.ContentTransferEncoding), po.HeaderWithMediaType(c.MediaType), po.HeaderWithCharset(c.Charset),
		po.HeaderWithMimeVersion(c.MimeVersion), po.HeaderWithNplurals(c.Nplurals), po.HeaderWithProjectIDVersion(c.ProjectIDVersion), po.HeaderWithReportMsgidBugsTo(c.ReportMsgidBugsTo),
		po.HeaderWithLanguage(c.Language), po.HeaderWithLanguageTeam(c.LanguageTeam), po.HeaderWithLastTranslator(c.LastTranslator),
	}
	t.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	opts = append([]po.HeaderOption{po.HeaderWithConfig(o)}, opts...)
	if got := po.HeaderConfigFromOptions(opts...); !reflect.DeepEqual(got, c) {
		t.Fail("options", "got  %+v\nwant %+v", got, c)
	}
	nh := po.NewHeader(opts...)
	if d := diffFields(nh.Fields, ch.Fields); d != "" || nh.Template != ch.Template {
		t.Fail("options", "NewHeader: %s", d)
	}
	d := po.DefaultHeaderConfig(po.HeaderWithLanguage(c.Language))
	if d.Language != c.Language || d.Charset != "UTF-8" || d.Nplurals != 2 || d.Template {
		t.Fail("defaults", "%+v", d)
	}
	if d := po.DefaultTemplateHeaderConfig(); !d.Template || !isFuzzy(d.ToHeader().ToEntry()) {
		t.Fail("defaults", "%+v", d)
	}

	// An option changes one field of the defaults.
	k := t.Intn(15)
	one := []po.HeaderOption{
		po.HeaderWithPlural(c.Plural), po.HeaderWithPOTCreationDate(c.POTCreationDate), po.HeaderWithPORevisionDate(c.PORevisionDate),
		po.HeaderWithXGenerator(c.XGenerator), po.HeaderWtihContentTransferEncoding(c.ContentTransferEncoding), po.HeaderWithMediaType(c.MediaType), po.HeaderWithCharset(c.Charset),
		po.HeaderWithMimeVersion(c.MimeVersion), po.HeaderWithNplurals(c.Nplurals), po.HeaderWithProjectIDVersion(c.ProjectIDVersion), po.HeaderWithReportMsgidBugsTo(c.ReportMsgidBugsTo),
		po.HeaderWithLanguage(c.Language), po.HeaderWithLanguageTeam(c.LanguageTeam), po.HeaderWithLastTranslator(c.LastTranslator), po.HeaderWithTemplate(c.Template),
	}[k]
	for _, def := range []func(...po.HeaderOption) po.HeaderConfig{po.DefaultHeaderConfig, po.DefaultTemplateHeaderConfig, po.HeaderConfigFromOptions} {
		a, b := reflect.ValueOf(def()), reflect.ValueOf(def(one))
		source := reflect.ValueOf(c)
		for i := 0; i < a.NumField(); i++ {
			name := a.Type().Field(i).Name
			if mine := name == []string{"Plural", "POTCreationDate", "PORevisionDate", "XGenerator", "ContentTransferEncoding", "MediaType", "Charset", "MimeVersion", "Nplurals",
				"ProjectIDVersion", "ReportMsgidBugsTo", "Language", "LanguageTeam", "LastTranslator", "Template"}[k]; mine {
				if !reflect.DeepEqual(b.Field(i).Interface(), source.Field(i).Interface()) {
					t.Fail("option", "%s is %v, want %v", name, b.Field(i), source.Field(i))
				}
			} else if !reflect.DeepEqual(a.Field(i).Interface(), b.Field(i).Interface()) {
				t.Fail("option", "option %d changes %s from %v to %v", k, name, a.Field(i), b.Field(i))
			}
		}
		t.Ev("default-configs")
	}
	for _, h := range []po.Header{po.DefaultHeaderConfig().ToHeader(), po.DefaultTemplateHeaderConfig().ToHeader()} {
		charset := "UTF-8"
		if h.Template {
			charset = "CHARSET"
		}
		if h.Load("MIME-Version") != "1.0" || h.Load("Content-Transfer-Encoding") != "8bit" || !strings.EqualFold(h.Load("Content-Type"), "text/plain; charset="+charset) {
			t.Fail("defaults", "%q", h.Fields)
		}
	}

	// The number of plural forms.
	for i := 0; i < 3; i++ {
		n := t.nplurals()
		ex := pick(t.G, pluralExprs)
		value, want := "", uint(2)
		switch t.Intn(10) {
		case 0:
			value, want = fmt.Sprintf("nplurals=%d; plural=%s;", n, ex), n
		case 1:
			value, want = fmt.Sprintf("nplurals=%d; plural=%s", n, ex), n
		case 2:
			value, want = fmt.Sprintf("plural=%s; nplurals=%d;", ex, n), n
		case 3:
			value, want = fmt.Sprintf("nplurals=%d", n), n
		case 4:
			value, want = fmt.Sprintf("  nplurals = %d ;plural = %s ; ", n, ex), n
		case 5:
			value = fmt.Sprintf("nplurals=%s; plural=%s;", pick(t.G, []string{"x", "-1", "INTEGER", "1.5", "99999999999999999999999", "0x2", "3a"}), ex)
			t.Ev("malformed-plural-forms")
		case 6:
			value = pick(t.G, []string{"", "nplurals", "nplurals;", "plural=" + ex + ";", "nplurals 3; plural=1;", ";;;", "xnplurals=3;"})
			t.Ev("malformed-plural-forms")
		case 7:
			value, want = fmt.Sprintf("nplurals=%d;plural=%s;", n, ex), n
		case 8:
			value, want = fmt.Sprintf("nplurals=%d; plural=%s; X=nplurals", n, ex), n
		case 9:
			value, want = fmt.Sprintf("nplurals=%d ; plural=%s;", n/2+10, ex), n/2+10
		}
		var ph po.Header
		if t.p(50) {
			ph.Set("Language", "es")
		}
		if t.p(90) {
			ph.Set("Plural-Forms", value)
		} else {
			want = 2
		}
		t.Ev("plural-forms")
		if got := ph.Nplurals(); got != want {
			t.Fail("nplurals", "%q: %d forms, want %d", value, got, want)
		}
		if got := ph.ToConfig().Nplurals; got != want {
			t.Fail("nplurals", "%q: configuration has %d forms, want %d", value, got, want)
		}
		if got := po.EntryToHeader(ph.ToEntry()); got.Nplurals() != want {
			t.Fail("nplurals", "%q: entry has %d forms, want %d", value, got.Nplurals(), want)
		}
	}
	t.Sig(e.Str, fmt.Sprintf("%+v", c), strings.Join(trace, ";"))
	t.Sample(func() string { return fmt.Sprintf("%q %+v %v", e.Str, c, trace) })
}
