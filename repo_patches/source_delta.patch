From b29fce16c08ebaa55f327bb90bb5d0c362c3138e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:45 +0000
Subject: [PATCH 01/89] fix: PO lexer accepts strings ending in an escaped
 backslash

---
 internal/util/po_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/po_parse.go b/internal/util/po_parse.go
index 4db6769..69086d9 100644
--- a/internal/util/po_parse.go
+++ b/internal/util/po_parse.go
@@ -43,7 +43,7 @@ var (
 		{Name: "Integer", Pattern: `\d+`},
 		{Name: "LB", Pattern: `\[`},
 		{Name: "RB", Pattern: `\]`},
-		{Name: "String", Pattern: `"(\\"|[^"])*"`},
+		{Name: "String", Pattern: `"(\\.|[^"\\])*"`},
 		{Name: "Msgctxt", Pattern: "msgctxt"},
 		{Name: "MsgidPlural", Pattern: "msgid_plural"},
 		{Name: "Msgid", Pattern: "msgid"},
-- 
2.43.0


From 10e60db77509062bd62c26d1d0da7908c529a6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:48 +0000
Subject: [PATCH 02/89] fix: PO parser keeps the bytes of strings that are not
 valid UTF-8

---
 internal/util/po_parse.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/internal/util/po_parse.go b/internal/util/po_parse.go
index 69086d9..5c62045 100644
--- a/internal/util/po_parse.go
+++ b/internal/util/po_parse.go
@@ -1,6 +1,8 @@
 package util
 
 import (
+	"strconv"
+
 	"github.com/alecthomas/participle/v2"
 	"github.com/alecthomas/participle/v2/lexer"
 )
@@ -27,6 +29,38 @@ type (
 	}
 )
 
+// unquoteToken replaces a String token with its unescaped content. Unlike
+// [strconv.Unquote], bytes that aren't valid UTF-8 are kept as they are, the
+// file can be in any charset.
+func unquoteToken(t lexer.Token) (lexer.Token, error) {
+	s := t.Value[1 : len(t.Value)-1]
+	b := make([]byte, 0, len(s))
+
+	for len(s) > 0 {
+		switch s[0] {
+		case '\n':
+			return t, participle.Errorf(t.Pos, "end-of-line within string %q", t.Value)
+		case '\\':
+			r, multibyte, tail, err := strconv.UnquoteChar(s, '"')
+			if err != nil {
+				return t, participle.Errorf(t.Pos, "invalid quoted string %q: %s", t.Value, err)
+			}
+			if multibyte {
+				b = append(b, string(r)...)
+			} else {
+				b = append(b, byte(r))
+			}
+			s = tail
+		default:
+			b = append(b, s[0])
+			s = s[1:]
+		}
+	}
+	t.Value = string(b)
+
+	return t, nil
+}
+
 func SearchSymbol(t lexer.TokenType) string {
 	for k, tt := range PoSymbols {
 		if tt == t {
@@ -53,7 +87,7 @@ var (
 	PoLexer  = lexer.MustSimple(PoRules)
 	PoParser = participle.MustBuild[poFile](
 		participle.Lexer(PoLexer),
-		participle.Unquote("String"),
+		participle.Map(unquoteToken, "String"),
 		participle.Elide(
 			"WS",
 			"Comment",
-- 
2.43.0


From 21b13e8b4aa6c2641943577d4e459622e9344bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:15 +0000
Subject: [PATCH 03/89] fix: PO parser does not write into the caller's buffer
 nor glue its marker to a last line without newline

---
 pkg/po/parse/po_parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index 695b438..ef90cc7 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -236,7 +236,8 @@ func (p *PoParser) ParseWithOptions(opts ...PoOption) *po.File {
 	return p.Parse()
 }
 
-const safeTemplate = `msgid "---"
+const safeTemplate = `
+msgid "---"
 msgstr "---"`
 
 // Parse reads and parses the PO file into a po.File structure.
@@ -249,8 +250,7 @@ func (p *PoParser) Parse() *po.File {
 	// unnecessary heavy and slow thing of ANTLR.
 
 	// Add temporary marker to handle edge cases
-	p.data = p.originalData
-	p.data = append(p.data, []byte(safeTemplate)...)
+	p.data = append(slices.Clip(p.originalData), safeTemplate...)
 
 	// Parse the file using the participle parser
 	pFile, err := util.PoParser.ParseBytes(p.filename, p.data)
-- 
2.43.0


From 9848673c4ddfc9b4f091219de51cad85d949c285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:17 +0000
Subject: [PATCH 04/89] fix: PO comments are classified by their first
 characters only

---
 pkg/po/parse/po_parser.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index ef90cc7..10c6163 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -126,12 +126,12 @@ func (p *PoParser) Errors() []error {
 
 // Regular expressions for parsing different types of PO file comments.
 var (
-	locationRegex  = regexp.MustCompile(`#: *(.*)`)  // Source location comments
-	generalRegex   = regexp.MustCompile(`# *(.*)`)   // General translator comments
-	extractedRegex = regexp.MustCompile(`#\. *(.*)`) // Extracted comments
-	flagRegex      = regexp.MustCompile(`#, *(.*)`)  // Flag comments
-	obsoleteRegex  = regexp.MustCompile(`#~ *(.*)`)  // Obsolete entry markers
-	previousRegex  = regexp.MustCompile(`#\| *(.*)`) // Previous message comments
+	locationRegex  = regexp.MustCompile(`^#: *(.*)`)  // Source location comments
+	generalRegex   = regexp.MustCompile(`^# *(.*)`)   // General translator comments
+	extractedRegex = regexp.MustCompile(`^#\. *(.*)`) // Extracted comments
+	flagRegex      = regexp.MustCompile(`^#, *(.*)`)  // Flag comments
+	obsoleteRegex  = regexp.MustCompile(`^#~ *(.*)`)  // Obsolete entry markers
+	previousRegex  = regexp.MustCompile(`^#\| *(.*)`) // Previous message comments
 )
 
 // parseObsoleteEntries extracts and parses obsolete entries from the PO file.
-- 
2.43.0


From 090ee2c16449d3eb66e2068652f3df9fbbb77772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 05/89] fix: PO parser reads every reference of a location
 comment, with or without line

---
 pkg/po/parse/po_parser.go | 43 ++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index 10c6163..e9d2172 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -132,6 +132,9 @@ var (
 	flagRegex      = regexp.MustCompile(`^#, *(.*)`)  // Flag comments
 	obsoleteRegex  = regexp.MustCompile(`^#~ *(.*)`)  // Obsolete entry markers
 	previousRegex  = regexp.MustCompile(`^#\| *(.*)`) // Previous message comments
+
+	// A "file:line" reference of a location comment.
+	referenceRegex = regexp.MustCompile(`(\S.*?):(\d+)(?:\s+|$)`)
 )
 
 // parseObsoleteEntries extracts and parses obsolete entries from the PO file.
@@ -178,6 +181,27 @@ func (p *PoParser) parseObsoleteEntries(tokens []lexer.Token) po.Entries {
 	return f.Entries
 }
 
+// parseLocations parses the content of a location comment, a list of
+// references with the form "file:line" or "file" separated by spaces.
+func parseLocations(comment string) (locations po.Locations, err error) {
+	last := 0
+	for _, m := range referenceRegex.FindAllStringSubmatchIndex(comment, -1) {
+		line, err := strconv.Atoi(comment[m[4]:m[5]])
+		if err != nil {
+			return nil, fmt.Errorf("error parsing integer: %w", err)
+		}
+		locations = append(locations, po.Location{Line: line, File: comment[m[2]:m[3]]})
+		last = m[1]
+	}
+
+	// References without a line number.
+	for _, file := range strings.Fields(comment[last:]) {
+		locations = append(locations, po.Location{Line: -1, File: file})
+	}
+
+	return locations, nil
+}
+
 // parseComments processes all comment tokens associated with an entry and
 // populates the corresponding fields in the Entry struct.
 func parseComments(entry *po.Entry, tokens []lexer.Token) (err error) {
@@ -190,21 +214,12 @@ func parseComments(entry *po.Entry, tokens []lexer.Token) (err error) {
 		}
 		switch {
 		case locationRegex.MatchString(t.String()):
-			matches := locationRegex.FindStringSubmatch(t.String())
-			parts := strings.SplitN(matches[1], ":", 2)
-			line := -1
-			if parts[1] != "" {
-				line, err = strconv.Atoi(parts[1])
-				if err != nil {
-					return fmt.Errorf("error parsing integer: %w", err)
-				}
-			}
-
-			loc := po.Location{
-				Line: line,
-				File: parts[0],
+			var locations po.Locations
+			locations, err = parseLocations(locationRegex.FindStringSubmatch(t.String())[1])
+			if err != nil {
+				return err
 			}
-			entry.Locations = append(entry.Locations, loc)
+			entry.Locations = append(entry.Locations, locations...)
 		case extractedRegex.MatchString(t.String()):
 			entry.ExtractedComments = append(entry.ExtractedComments,
 				extractedRegex.FindStringSubmatch(t.String())[1],
-- 
2.43.0


From e41fa313f8045520e5543a867ddc794a58ec8e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:21 +0000
Subject: [PATCH 06/89] fix: PO parser splits the flags of a flag comment

---
 pkg/po/parse/po_parser.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index e9d2172..c60eb2e 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -196,7 +196,7 @@ func parseLocations(comment string) (locations po.Locations, err error) {
 
 	// References without a line number.
 	for _, file := range strings.Fields(comment[last:]) {
-		locations = append(locations, po.Location{Line: -1, File: file})
+		locations = append(locations, po.Location{Line: -1, File: strings.TrimSuffix(file, ":")})
 	}
 
 	return locations, nil
@@ -225,9 +225,11 @@ func parseComments(entry *po.Entry, tokens []lexer.Token) (err error) {
 				extractedRegex.FindStringSubmatch(t.String())[1],
 			)
 		case flagRegex.MatchString(t.String()):
-			entry.Flags = append(entry.Flags,
-				flagRegex.FindStringSubmatch(t.String())[1],
-			)
+			for _, flag := range strings.Split(flagRegex.FindStringSubmatch(t.String())[1], ",") {
+				if flag = strings.TrimSpace(flag); flag != "" {
+					entry.Flags = append(entry.Flags, flag)
+				}
+			}
 		case previousRegex.MatchString(t.String()):
 			entry.Previous = append(entry.Previous,
 				previousRegex.FindStringSubmatch(t.String())[1],
-- 
2.43.0


From 4fa9981b8a8e76717af000788c758fbbc029d068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:42 +0000
Subject: [PATCH 07/89] fix: PO parser does not keep the carriage return of
 comments in CRLF files

---
 pkg/po/parse/po_parser.go | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index c60eb2e..446678d 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -137,6 +137,12 @@ var (
 	referenceRegex = regexp.MustCompile(`(\S.*?):(\d+)(?:\s+|$)`)
 )
 
+// commentText returns the text of a comment token without the carriage return
+// of a CRLF line ending.
+func commentText(t lexer.Token) string {
+	return strings.TrimSuffix(t.String(), "\r")
+}
+
 // parseObsoleteEntries extracts and parses obsolete entries from the PO file.
 func (p *PoParser) parseObsoleteEntries(tokens []lexer.Token) po.Entries {
 	comp := obsoleteRegex
@@ -154,12 +160,13 @@ func (p *PoParser) parseObsoleteEntries(tokens []lexer.Token) po.Entries {
 		if token.Type != util.PoSymbols["Comment"] {
 			continue
 		}
-		if !comp.MatchString(token.String()) {
+		comment := commentText(token)
+		if !comp.MatchString(comment) {
 			continue
 		}
 
 		cleanedLines = append(cleanedLines,
-			comp.FindStringSubmatch(token.String())[1],
+			comp.FindStringSubmatch(comment)[1],
 		)
 	}
 
@@ -209,34 +216,35 @@ func parseComments(entry *po.Entry, tokens []lexer.Token) (err error) {
 		if t.Type != util.PoSymbols["Comment"] {
 			continue
 		}
-		if obsoleteRegex.MatchString(t.String()) {
+		comment := commentText(t)
+		if obsoleteRegex.MatchString(comment) {
 			continue
 		}
 		switch {
-		case locationRegex.MatchString(t.String()):
+		case locationRegex.MatchString(comment):
 			var locations po.Locations
-			locations, err = parseLocations(locationRegex.FindStringSubmatch(t.String())[1])
+			locations, err = parseLocations(locationRegex.FindStringSubmatch(comment)[1])
 			if err != nil {
 				return err
 			}
 			entry.Locations = append(entry.Locations, locations...)
-		case extractedRegex.MatchString(t.String()):
+		case extractedRegex.MatchString(comment):
 			entry.ExtractedComments = append(entry.ExtractedComments,
-				extractedRegex.FindStringSubmatch(t.String())[1],
+				extractedRegex.FindStringSubmatch(comment)[1],
 			)
-		case flagRegex.MatchString(t.String()):
-			for _, flag := range strings.Split(flagRegex.FindStringSubmatch(t.String())[1], ",") {
+		case flagRegex.MatchString(comment):
+			for _, flag := range strings.Split(flagRegex.FindStringSubmatch(comment)[1], ",") {
 				if flag = strings.TrimSpace(flag); flag != "" {
 					entry.Flags = append(entry.Flags, flag)
 				}
 			}
-		case previousRegex.MatchString(t.String()):
+		case previousRegex.MatchString(comment):
 			entry.Previous = append(entry.Previous,
-				previousRegex.FindStringSubmatch(t.String())[1],
+				previousRegex.FindStringSubmatch(comment)[1],
 			)
 		default:
 			entry.Comments = append(entry.Comments,
-				generalRegex.FindStringSubmatch(t.String())[1],
+				generalRegex.FindStringSubmatch(comment)[1],
 			)
 		}
 	}
-- 
2.43.0


From 29694decf1c414b85de3ed1aba356b1e077e7980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:46 +0000
Subject: [PATCH 08/89] fix: PO parser keeps the comments of obsolete entries
 and detects custom obsolete prefixes

---
 pkg/po/parse/po_parser.go | 84 ++++++++++++++++++++++++++++-----------
 1 file changed, 60 insertions(+), 24 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index 446678d..f8390f8 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -143,31 +143,49 @@ func commentText(t lexer.Token) string {
 	return strings.TrimSuffix(t.String(), "\r")
 }
 
+// obsoleteRegexp returns the expression that matches the lines of the obsolete
+// entries according to the configuration.
+func (p *PoParser) obsoleteRegexp() *regexp.Regexp {
+	if !p.Config.UseCustomObsoletePrefix {
+		return obsoleteRegex
+	}
+
+	return regexp.MustCompile(
+		fmt.Sprintf(`^#%s *(.*)`, regexp.QuoteMeta(string(p.Config.CustomObsoletePrefix))),
+	)
+}
+
 // parseObsoleteEntries extracts and parses obsolete entries from the PO file.
 func (p *PoParser) parseObsoleteEntries(tokens []lexer.Token) po.Entries {
-	comp := obsoleteRegex
-	if p.Config.UseCustomObsoletePrefix {
-		var err error
-		comp, err = regexp.Compile(fmt.Sprintf(`#%s *(.*)`, string(p.Config.CustomObsoletePrefix)))
-		if err != nil {
-			p.warn(err.Error())
-			return nil
-		}
-	}
+	comp := p.obsoleteRegexp()
 
-	cleanedLines := make([]string, 0, len(tokens))
+	var cleanedLines []string
+	var pending []string // Comments that can belong to an obsolete entry.
 	for _, token := range tokens {
-		if token.Type != util.PoSymbols["Comment"] {
+		switch token.Type {
+		case util.PoSymbols["Comment"]:
+		case util.PoSymbols["WS"]:
+			continue
+		default:
+			pending = nil
 			continue
 		}
+
 		comment := commentText(token)
-		if !comp.MatchString(comment) {
+		matches := comp.FindStringSubmatch(comment)
+		if matches == nil {
+			pending = append(pending, comment)
 			continue
 		}
 
-		cleanedLines = append(cleanedLines,
-			comp.FindStringSubmatch(comment)[1],
-		)
+		line := matches[1]
+		if strings.HasPrefix(line, "|") {
+			line = "#" + line
+		}
+
+		cleanedLines = append(cleanedLines, pending...)
+		cleanedLines = append(cleanedLines, line)
+		pending = nil
 	}
 
 	fullFile := strings.Join(cleanedLines, "\n")
@@ -176,12 +194,15 @@ func (p *PoParser) parseObsoleteEntries(tokens []lexer.Token) po.Entries {
 		fullFile,
 		"tmp",
 		PoWithConfig(p.Config),
+		PoWithParseObsolete(false), // They are already unmarked.
 		poWithMarkAllAsObsolete(true),
 	)
 
 	f := parser.Parse()
-	err := parser.Error()
-	if err != nil {
+	if err := parser.Error(); err != nil {
+		p.error("error parsing obsolete entries: %w", err)
+	}
+	if f == nil {
 		return nil
 	}
 
@@ -211,13 +232,27 @@ func parseLocations(comment string) (locations po.Locations, err error) {
 
 // parseComments processes all comment tokens associated with an entry and
 // populates the corresponding fields in the Entry struct.
-func parseComments(entry *po.Entry, tokens []lexer.Token) (err error) {
-	for _, t := range tokens {
+func (p *PoParser) parseComments(entry *po.Entry, tokens []lexer.Token) (err error) {
+	comp := p.obsoleteRegexp()
+
+	// The comments before an obsolete entry belong to it.
+	first := 0
+	for i, t := range tokens {
+		if t.Type == util.PoSymbols["Comment"] {
+			if comp.MatchString(commentText(t)) {
+				first = i + 1
+			}
+		} else if t.Type != util.PoSymbols["WS"] {
+			break
+		}
+	}
+
+	for _, t := range tokens[first:] {
 		if t.Type != util.PoSymbols["Comment"] {
 			continue
 		}
 		comment := commentText(t)
-		if obsoleteRegex.MatchString(comment) {
+		if comp.MatchString(comment) || obsoleteRegex.MatchString(comment) {
 			continue
 		}
 		switch {
@@ -322,7 +357,7 @@ func (p *PoParser) Parse() *po.File {
 		}
 
 		// Parse comments associated with this entry
-		err = parseComments(&newEntry, e.Tokens)
+		err = p.parseComments(&newEntry, e.Tokens)
 		if err != nil {
 			p.error(err.Error())
 		}
@@ -338,9 +373,10 @@ func (p *PoParser) Parse() *po.File {
 	}
 
 	// Process obsolete entries if configured to do so
-	if slices.ContainsFunc(pFile.Tokens, func(t lexer.Token) bool {
-		return t.Type == util.PoSymbols["Comment"] && obsoleteRegex.MatchString(t.String())
-	}) && p.Config.ParseObsoletes {
+	comp := p.obsoleteRegexp()
+	if p.Config.ParseObsoletes && slices.ContainsFunc(pFile.Tokens, func(t lexer.Token) bool {
+		return t.Type == util.PoSymbols["Comment"] && comp.MatchString(t.String())
+	}) {
 		entries = append(entries, p.parseObsoleteEntries(pFile.Tokens)...)
 	}
 
-- 
2.43.0


From 015d3ba24d29de0bfd6606a658ee35b4c62afbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:59 +0000
Subject: [PATCH 09/89] fix: PO parser keeps the indentation of comments

---
 pkg/po/parse/po_parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index f8390f8..36f8dad 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -127,8 +127,8 @@ func (p *PoParser) Errors() []error {
 // Regular expressions for parsing different types of PO file comments.
 var (
 	locationRegex  = regexp.MustCompile(`^#: *(.*)`)  // Source location comments
-	generalRegex   = regexp.MustCompile(`^# *(.*)`)   // General translator comments
-	extractedRegex = regexp.MustCompile(`^#\. *(.*)`) // Extracted comments
+	generalRegex   = regexp.MustCompile(`^# ?(.*)`)   // General translator comments
+	extractedRegex = regexp.MustCompile(`^#\. ?(.*)`) // Extracted comments
 	flagRegex      = regexp.MustCompile(`^#, *(.*)`)  // Flag comments
 	obsoleteRegex  = regexp.MustCompile(`^#~ *(.*)`)  // Obsolete entry markers
 	previousRegex  = regexp.MustCompile(`^#\| *(.*)`) // Previous message comments
-- 
2.43.0


From 232105436790197c22ebd2b187d0dbb81615380e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:05 +0000
Subject: [PATCH 10/89] fix: PO compiler writes non-printable characters and
 bytes without altering them

---
 pkg/po/compile/po_compiler_util.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/pkg/po/compile/po_compiler_util.go b/pkg/po/compile/po_compiler_util.go
index 872559f..9467b6f 100644
--- a/pkg/po/compile/po_compiler_util.go
+++ b/pkg/po/compile/po_compiler_util.go
@@ -4,8 +4,8 @@ import (
 	"bufio"
 	"fmt"
 	"io"
-	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/Tom5521/gotext-tools/v2/internal/slices"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
@@ -41,25 +41,26 @@ func (c PoCompiler) compileEntries(writer io.Writer, eb *entryBuilder, entries p
 
 func escapePOString(s string) string {
 	var buf strings.Builder
-	for _, r := range s {
-		switch r {
-		case '"':
+	for len(s) > 0 {
+		r, size := utf8.DecodeRuneInString(s)
+		switch {
+		case r == '"':
 			buf.WriteString(`\"`)
-		case '\\':
+		case r == '\\':
 			buf.WriteString(`\\`)
-		case '\n':
+		case r == '\n':
 			buf.WriteString(`\n`)
-		case '\t':
+		case r == '\t':
 			buf.WriteString(`\t`)
-		case '\r':
+		case r == '\r':
 			buf.WriteString(`\r`)
+		case r < ' ' || r == 0x7f:
+			fmt.Fprintf(&buf, `\%03o`, r)
 		default:
-			if strconv.IsPrint(r) {
-				buf.WriteRune(r)
-			} else {
-				fmt.Fprintf(&buf, "\\x%02x", r)
-			}
+			// Invalid UTF-8 bytes are kept, the file can be in other charset.
+			buf.WriteString(s[:size])
 		}
+		s = s[size:]
 	}
 	return buf.String()
 }
-- 
2.43.0


From 2c2e63f1a28170b7d2e99e04329ee3f59f7bd49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:26 +0000
Subject: [PATCH 11/89] fix: PO compiler does not delete the header from the
 file being compiled

---
 pkg/po/compile/po_compiler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/po/compile/po_compiler.go b/pkg/po/compile/po_compiler.go
index dafc01d..c904aa9 100644
--- a/pkg/po/compile/po_compiler.go
+++ b/pkg/po/compile/po_compiler.go
@@ -93,7 +93,8 @@ func (c *PoCompiler) ToBytesWithOptions(opts ...PoOption) []byte {
 // ToWriter writes compiled PO content to an io.Writer.
 // Handles header writing, duplicate cleaning, and optional syntax highlighting.
 func (c PoCompiler) ToWriter(outputWriter io.Writer) error {
-	entries := c.File.Entries
+	// The header can be removed from it, so don't touch the entries of the file.
+	entries := slices.Clone(c.File.Entries)
 
 	var highlightBackup *bytes.Buffer
 	buffer := bufio.NewWriter(outputWriter)
-- 
2.43.0


From 8948c3a9bb0ef41b163c4423b3892826e65f9379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:29 +0000
Subject: [PATCH 12/89] fix: PO compiler writes the managed header once, with
 its fields escaped

---
 pkg/po/compile/po_compiler_format.go | 17 ++++++-----------
 pkg/po/compile/po_compiler_util.go   |  4 ++--
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 6b01765..2591843 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -113,25 +113,20 @@ func (eb *entryBuilder) BuildHeader(header po.Header) []byte {
 		}
 
 		fmt.Fprintf(&buf, headerFormat, eb.Config.Title, copyright)
-	} else {
-		fmt.Fprint(&buf, headerEntry)
 	}
+	if header.Template {
+		fmt.Fprintln(&buf, "#, fuzzy")
+	}
+	fmt.Fprint(&buf, headerEntry)
 
 	if eb.Config.HeaderFields {
-		for i, field := range header.Fields {
-			fmt.Fprintf(&buf, headerFieldFormat, field.Key, field.Value)
-
-			if i != len(header.Fields) {
-				fmt.Fprint(&buf, "\n")
-			}
+		for _, field := range header.Fields {
+			fmt.Fprintf(&buf, headerFieldFormat, escapePOString(field.Key), escapePOString(field.Value))
 		}
 	}
 
 	fmt.Fprintln(&buf)
 
-	buf.WriteString(eb.msgid())
-	buf.WriteString(eb.msgstr())
-
 	return buf.Bytes()
 }
 
diff --git a/pkg/po/compile/po_compiler_util.go b/pkg/po/compile/po_compiler_util.go
index 9467b6f..b637af7 100644
--- a/pkg/po/compile/po_compiler_util.go
+++ b/pkg/po/compile/po_compiler_util.go
@@ -18,11 +18,11 @@ const (
 	headerFormat           = `# %s
 %s
 #
-` + headerEntry
+`
 	headerEntry = `msgid ""
 msgstr ""
 `
-	headerFieldFormat = `"%s: %s\n"`
+	headerFieldFormat = `"%s: %s\n"` + "\n"
 )
 
 func (c PoCompiler) compileEntries(writer io.Writer, eb *entryBuilder, entries po.Entries) error {
-- 
2.43.0


From 7496fb5b6626ddd6894e1ea5354d53bcab28c85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:02 +0000
Subject: [PATCH 13/89] fix: PO compiler writes locations without line and does
 not panic without a location mode

---
 pkg/po/compile/po_compiler_format.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 2591843..3980c10 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -216,15 +216,19 @@ func (eb *entryBuilder) referenceComment() string {
 
 	var writeRef func(id int)
 	switch eb.Config.AddLocation {
-	case PoLocationModeFull:
+	case PoLocationModeFile:
 		writeRef = func(id int) {
 			l := eb.Locations[id]
-			fmt.Fprintf(&b, "%s:%d\n", l.File, l.Line)
+			fmt.Fprintf(&b, "%s\n", l.File)
 		}
-	case PoLocationModeFile:
+	default:
 		writeRef = func(id int) {
 			l := eb.Locations[id]
-			fmt.Fprintf(&b, "%s\n", l.File)
+			if l.Line < 0 { // The line is unknown.
+				fmt.Fprintf(&b, "%s\n", l.File)
+				return
+			}
+			fmt.Fprintf(&b, "%s:%d\n", l.File, l.Line)
 		}
 	}
 
-- 
2.43.0


From cfa25347094871a19c47d63abc39bce18697fa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:04 +0000
Subject: [PATCH 14/89] fix: PO compiler marks every line of a comment with
 several lines

---
 pkg/po/compile/po_compiler_format.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 3980c10..a668eda 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -181,6 +181,11 @@ func (eb *entryBuilder) msgstr() string {
 	return msgstr.String()
 }
 
+// prefixLines writes the prefix before each line of text.
+func prefixLines(prefix, text string) string {
+	return prefix + strings.ReplaceAll(text, "\n", "\n"+prefix) + "\n"
+}
+
 func (eb *entryBuilder) comment() string {
 	var b strings.Builder
 	b.WriteString(eb.translatorComment())
@@ -195,7 +200,7 @@ func (eb *entryBuilder) comment() string {
 func (eb *entryBuilder) translatorComment() string {
 	var b strings.Builder
 	for _, comment := range eb.Comments {
-		fmt.Fprintf(&b, "# %s\n", comment)
+		b.WriteString(prefixLines("# ", comment))
 	}
 	return b.String()
 }
@@ -203,7 +208,7 @@ func (eb *entryBuilder) translatorComment() string {
 func (eb *entryBuilder) extractedComment() string {
 	var b strings.Builder
 	for _, comment := range eb.ExtractedComments {
-		fmt.Fprintf(&b, "#. %s\n", comment)
+		b.WriteString(prefixLines("#. ", comment))
 	}
 	return b.String()
 }
@@ -253,7 +258,7 @@ func (eb *entryBuilder) flagComment() string {
 func (eb *entryBuilder) previousComment() string {
 	var b strings.Builder
 	for _, p := range eb.Previous {
-		fmt.Fprintf(&b, "#| %s\n", p)
+		b.WriteString(prefixLines("#| ", p))
 	}
 	return b.String()
 }
-- 
2.43.0


From c3b05d8f61569e03888728f98793bf779a07a756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 15/89] fix: PO compiler marks the previous lines of obsolete
 entries as obsolete

---
 pkg/po/compile/po_compiler_format.go | 48 +++++++++++++---------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index a668eda..23cb9f7 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -67,36 +67,27 @@ func applyColor(c TermColorer, str string) string {
 	return c.Sprint(str)
 }
 
+// obsoletePrefix returns the marker of the lines of the obsolete entries.
+func (eb *entryBuilder) obsoletePrefix() string {
+	if eb.Config.UseCustomObsoletePrefix {
+		return "#" + string(eb.Config.CustomObsoletePrefixRune)
+	}
+	return "#~"
+}
+
 func (eb *entryBuilder) BuildEntry() []byte {
 	var buf bytes.Buffer
 	buf.WriteString(eb.comment())
-	buf.WriteString(eb.msgid())
-	buf.WriteString(eb.msgstr())
-
-	commentFuzzy := eb.IsFuzzy() && eb.Config.CommentFuzzy
 
-	if eb.Obsolete || commentFuzzy {
-		entry := buf.String()
-		buf.Reset()
-
-		prefix := "#"
-		if eb.Obsolete {
-			if eb.Config.UseCustomObsoletePrefix {
-				prefix += string(eb.Config.CustomObsoletePrefixRune)
-			} else {
-				prefix += "~"
-			}
-		}
-		prefix += " "
+	entry := eb.msgid() + eb.msgstr()
 
-		for _, line := range strings.Split(entry, "\n") {
-			if strings.HasPrefix(line, "#") || line == "" {
-				buf.WriteString(line + "\n")
-				continue
-			}
-
-			buf.WriteString(prefix + line + "\n")
-		}
+	switch commentFuzzy := eb.IsFuzzy() && eb.Config.CommentFuzzy; {
+	case eb.Obsolete:
+		buf.WriteString(prefixLines(eb.obsoletePrefix()+" ", strings.TrimSuffix(entry, "\n")))
+	case commentFuzzy:
+		buf.WriteString(prefixLines("# ", strings.TrimSuffix(entry, "\n")))
+	default:
+		buf.WriteString(entry)
 	}
 
 	buf.WriteByte('\n')
@@ -256,9 +247,14 @@ func (eb *entryBuilder) flagComment() string {
 }
 
 func (eb *entryBuilder) previousComment() string {
+	prefix := "#| "
+	if eb.Obsolete {
+		prefix = eb.obsoletePrefix() + "| "
+	}
+
 	var b strings.Builder
 	for _, p := range eb.Previous {
-		b.WriteString(prefixLines("#| ", p))
+		b.WriteString(prefixLines(prefix, p))
 	}
 	return b.String()
 }
-- 
2.43.0


From 10bc8c56c4df55d11fc7f53ac92fc0780ab0bd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:09 +0000
Subject: [PATCH 16/89] fix: highlighting does not break the markers of
 obsolete entries

---
 pkg/po/compile/po_compiler_format.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 23cb9f7..e1a9a90 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -185,7 +185,11 @@ func (eb *entryBuilder) comment() string {
 	b.WriteString(eb.flagComment())
 	b.WriteString(eb.previousComment())
 
-	return eb.applyStyle(b.String(), "comment")
+	if b.Len() == 0 {
+		return ""
+	}
+
+	return eb.applyStyle(strings.TrimSuffix(b.String(), "\n"), "comment") + "\n"
 }
 
 func (eb *entryBuilder) translatorComment() string {
@@ -270,25 +274,28 @@ func (eb *entryBuilder) string(str string, styles ...string) string {
 			fmt.Fprint(&builder, `"`)
 			fmt.Fprint(&builder, eb.text(escapePOString(line),
 				slices.Delete(styles, 0, 1)...))
-			builder.WriteString(eb.applyStyle(`"`, "string") + "\n")
+			builder.WriteString(eb.applyStyle(`"`, "string"))
+			if i != len(lines)-1 {
+				builder.WriteByte('\n')
+			}
 		}
 		return eb.applyStyle(
 			builder.String(),
 			append(styles, "string")...,
-		)
+		) + "\n"
 	}
 
 	fmt.Fprint(&builder, `"`)
 	fmt.Fprint(&builder, eb.text(escapePOString(str),
 		slices.Delete(styles, 0, 1)...,
 	))
-	builder.WriteString(eb.applyStyle(`"`, "string") + "\n")
+	builder.WriteString(eb.applyStyle(`"`, "string"))
 	// fmt.Fprintf(&builder, "\"%s\"\n", escapePOString(str))
 
 	return eb.applyStyle(
 		builder.String(),
 		append(styles, "string")...,
-	)
+	) + "\n"
 }
 
 func (eb *entryBuilder) text(str string, styles ...string) string {
-- 
2.43.0


From 808f73f0c086381371d6e06829ec38f7f131667b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:24 +0000
Subject: [PATCH 17/89] fix: PO compiler does not apply the msgstr prefix and
 suffix to the header

---
 pkg/po/compile/po_compiler_format.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index e1a9a90..fc0521e 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -141,6 +141,13 @@ func (eb *entryBuilder) msgid() string {
 func (eb *entryBuilder) msgstr() string {
 	var msgstr strings.Builder
 	const format = "msgstr[%d]"
+
+	prefix, suffix := eb.Config.MsgstrPrefix, eb.Config.MsgstrSuffix
+	if eb.IsHeader() {
+		// It isn't a translation.
+		prefix, suffix = "", ""
+	}
+
 	if eb.IsPlural() {
 		if len(eb.Plurals) == 0 {
 			id := eb.string(eb.ID, "msgstr")
@@ -154,7 +161,7 @@ func (eb *entryBuilder) msgstr() string {
 			fmt.Fprint(&msgstr, eb.keyword(fmt.Sprintf(format, pe.ID)))
 			fmt.Fprint(&msgstr,
 				eb.string(
-					eb.Config.MsgstrPrefix+pe.Str+eb.Config.MsgstrSuffix,
+					prefix+pe.Str+suffix,
 					"msgstr",
 				),
 			)
@@ -165,7 +172,7 @@ func (eb *entryBuilder) msgstr() string {
 
 	fmt.Fprint(&msgstr, eb.keyword("msgstr"))
 	fmt.Fprint(&msgstr, eb.string(
-		eb.Config.MsgstrPrefix+eb.Str+eb.Config.MsgstrSuffix,
+		prefix+eb.Str+suffix,
 		"msgstr",
 	))
 
-- 
2.43.0


From b68166160dedea7b18212c1371d4097e0ee6d521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:20 +0000
Subject: [PATCH 18/89] fix: MsgcatMergeFiles applies the less-than and
 more-than criteria

---
 pkg/po/msgcat_merge.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/po/msgcat_merge.go b/pkg/po/msgcat_merge.go
index 757ea5e..23fd763 100644
--- a/pkg/po/msgcat_merge.go
+++ b/pkg/po/msgcat_merge.go
@@ -62,9 +62,13 @@ func MsgcatMergeFiles(files []*File, opts ...MsgcatMergeOption) Entries {
 	}
 
 	return slices.DeleteFunc(process.entriesSlice, func(entry Entry) bool {
+		if entry.IsHeader() {
+			// The selection criteria are for messages.
+			return false
+		}
 		info := process.entriesMap[entry.UnifiedID()]
 
-		return info.timesFound >= process.config.LessThan &&
+		return info.timesFound >= process.config.LessThan ||
 			info.timesFound <= process.config.MoreThan
 	})
 }
-- 
2.43.0


From e1cfc0ed5662746e1f72ed802342b9a42675629a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:23 +0000
Subject: [PATCH 19/89] fix: MsgcatMergeFiles merges flags as flags and only
 marks conflicting translations as fuzzy

---
 pkg/po/entry.go        |  6 ++++++
 pkg/po/msgcat_merge.go | 22 +++++++++++++++-------
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/pkg/po/entry.go b/pkg/po/entry.go
index 2600b32..4fc0e34 100644
--- a/pkg/po/entry.go
+++ b/pkg/po/entry.go
@@ -40,6 +40,12 @@ func (e *Entry) markAsFuzzy() {
 	}
 }
 
+// isTranslated reports whether the entry has any translation.
+func (e Entry) isTranslated() bool {
+	return e.Str != "" ||
+		slices.ContainsFunc(e.Plurals, func(pe PluralEntry) bool { return pe.Str != "" })
+}
+
 // IsHeader reports whether the entry is a header (i.e., both ID and context are empty).
 func (e Entry) IsHeader() bool {
 	return e.ID == "" && e.Context == ""
diff --git a/pkg/po/msgcat_merge.go b/pkg/po/msgcat_merge.go
index 23fd763..90b1812 100644
--- a/pkg/po/msgcat_merge.go
+++ b/pkg/po/msgcat_merge.go
@@ -130,12 +130,7 @@ func msgcatMergeEntry(
 	originalFilename, newFilename string,
 ) Entry {
 	mergedEntry := Entry{
-		Flags: msgcatMergeComments(
-			originalEntry.Flags,
-			newEntry.Flags,
-			originalFilename,
-			newFilename,
-		),
+		Flags: msgcatMergeFlags(originalEntry.Flags, newEntry.Flags),
 		Comments: msgcatMergeComments(
 			originalEntry.Comments,
 			newEntry.Comments,
@@ -178,13 +173,26 @@ func msgcatMergeEntry(
 
 	if !mergedEntry.IsFuzzy() &&
 		(originalEntry.FullUnifiedID() != newEntry.FullUnifiedID() ||
-			originalEntry.UnifiedStr() != newEntry.UnifiedStr()) {
+			originalEntry.UnifiedStr() != newEntry.UnifiedStr()) &&
+		originalEntry.isTranslated() && newEntry.isTranslated() {
 		mergedEntry.Flags = append(mergedEntry.Flags, "fuzzy")
 	}
 
 	return mergedEntry
 }
 
+// msgcatMergeFlags returns the flags present in any of the entries.
+func msgcatMergeFlags(originalFlags, newFlags []string) []string {
+	flags := slices.Clone(originalFlags)
+	for _, flag := range newFlags {
+		if !slices.Contains(flags, flag) {
+			flags = append(flags, flag)
+		}
+	}
+
+	return flags
+}
+
 // msgcatMergePlurals handles merging of plural form strings.
 func msgcatMergePlurals(
 	originalEntry, newEntry Entry,
-- 
2.43.0


From 0fc2fbface613c5688b72aeb12dbf919e18f6eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:44 +0000
Subject: [PATCH 20/89] fix: Equal compares the first field of structs inside
 slices

---
 internal/util/equal.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/util/equal.go b/internal/util/equal.go
index 602c8b2..7d77361 100644
--- a/internal/util/equal.go
+++ b/internal/util/equal.go
@@ -11,7 +11,14 @@ func FuzzyEqual(x, y string) bool {
 	return fuzzy.Ratio(x, y) >= 80
 }
 
-type visitedPairs map[[2]uintptr]struct{}
+// visit is a pair of values being compared. The type is necessary because
+// a struct and its first field have the same address.
+type visit struct {
+	addr1, addr2 uintptr
+	typ          reflect.Type
+}
+
+type visitedPairs map[visit]struct{}
 
 func Equal[X, Y any](x X, y Y) bool {
 	return equal(reflect.ValueOf(x), reflect.ValueOf(y), make(visitedPairs))
@@ -38,7 +45,7 @@ func equal(v1, v2 reflect.Value, visited visitedPairs) bool {
 	}
 	if v1.CanAddr() && v2.CanAddr() {
 		addr1, addr2 := v1.UnsafeAddr(), v2.UnsafeAddr()
-		pair := [2]uintptr{addr1, addr2}
+		pair := visit{addr1, addr2, v1.Type()}
 		if _, found := visited[pair]; found {
 			return true
 		}
-- 
2.43.0


From 420870f99f0ab5ee2df758090af41ff1a576aaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:45 +0000
Subject: [PATCH 21/89] fix: Entry.Equal does not require both entries to be
 obsolete

---
 pkg/po/entry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/po/entry.go b/pkg/po/entry.go
index 4fc0e34..dd667b4 100644
--- a/pkg/po/entry.go
+++ b/pkg/po/entry.go
@@ -147,7 +147,7 @@ func (e Entry) Hash() uint32 {
 func (e Entry) Equal(x Entry) bool {
 	ok1 := e.FullUnifiedID() == x.FullUnifiedID() && e.UnifiedStr() == x.UnifiedStr()
 	ok2 := slices.CompareFunc(e.Flags, x.Flags, strings.Compare) == 0
-	ok3 := e.Obsolete && x.Obsolete
+	ok3 := e.Obsolete == x.Obsolete
 	return ok1 && ok2 && ok3
 }
 
-- 
2.43.0


From 3fddd5c0957ea1aee4151f2096396a82c98b2872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:48 +0000
Subject: [PATCH 22/89] fix: MsgcatMergeFiles keeps every plural form and the
 obsolete mark

---
 pkg/po/entry.go        | 12 ++++++++++++
 pkg/po/msgcat_merge.go | 36 ++++++++++++++++++------------------
 2 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/pkg/po/entry.go b/pkg/po/entry.go
index dd667b4..53ce37e 100644
--- a/pkg/po/entry.go
+++ b/pkg/po/entry.go
@@ -46,6 +46,18 @@ func (e Entry) isTranslated() bool {
 		slices.ContainsFunc(e.Plurals, func(pe PluralEntry) bool { return pe.Str != "" })
 }
 
+// toPlural makes a singular entry plural, its translation is the first form.
+func (e *Entry) toPlural(plural string) {
+	if e.IsPlural() {
+		return
+	}
+	e.Plural = plural
+	if e.Str != "" {
+		e.Plurals = PluralEntries{{ID: 0, Str: e.Str}}
+		e.Str = ""
+	}
+}
+
 // IsHeader reports whether the entry is a header (i.e., both ID and context are empty).
 func (e Entry) IsHeader() bool {
 	return e.ID == "" && e.Context == ""
diff --git a/pkg/po/msgcat_merge.go b/pkg/po/msgcat_merge.go
index 90b1812..894b38a 100644
--- a/pkg/po/msgcat_merge.go
+++ b/pkg/po/msgcat_merge.go
@@ -129,6 +129,13 @@ func msgcatMergeEntry(
 	newEntry Entry,
 	originalFilename, newFilename string,
 ) Entry {
+	// If any is plural, the message is plural.
+	if newEntry.IsPlural() {
+		originalEntry.toPlural(newEntry.Plural)
+	} else if originalEntry.IsPlural() {
+		newEntry.toPlural(originalEntry.Plural)
+	}
+
 	mergedEntry := Entry{
 		Flags: msgcatMergeFlags(originalEntry.Flags, newEntry.Flags),
 		Comments: msgcatMergeComments(
@@ -166,9 +173,10 @@ func msgcatMergeEntry(
 			newFilename,
 		),
 		Locations: append(
-			originalEntry.Locations,
+			slices.Clip(originalEntry.Locations),
 			newEntry.Locations...,
 		),
+		Obsolete: originalEntry.Obsolete && newEntry.Obsolete,
 	}
 
 	if !mergedEntry.IsFuzzy() &&
@@ -198,26 +206,18 @@ func msgcatMergePlurals(
 	originalEntry, newEntry Entry,
 	originalFilename, newFilename string,
 ) PluralEntries {
-	if !originalEntry.IsPlural() {
-		return originalEntry.Plurals
-	}
+	mergedEntries := slices.Clone(originalEntry.Plurals)
 
-	mergedEntries := make(PluralEntries, 0, len(originalEntry.Plurals)+len(newEntry.Plurals))
-
-	for i, original := range originalEntry.Plurals {
-		if i >= len(newEntry.Plurals) {
-			mergedEntries = append(mergedEntries, original)
+	for _, newPlural := range newEntry.Plurals {
+		i := slices.IndexFunc(mergedEntries, func(pe PluralEntry) bool { return pe.ID == newPlural.ID })
+		if i == -1 {
+			mergedEntries = append(mergedEntries, newPlural)
 			continue
 		}
-
-		newPlural := newEntry.Plurals[i]
-		mergedEntries = append(mergedEntries, PluralEntry{
-			ID: original.ID,
-			Str: msgcatMergeStrings(
-				original.Str, newPlural.Str,
-				originalFilename, newFilename,
-			),
-		})
+		mergedEntries[i].Str = msgcatMergeStrings(
+			mergedEntries[i].Str, newPlural.Str,
+			originalFilename, newFilename,
+		)
 	}
 
 	return mergedEntries
-- 
2.43.0


From fc1cc372bd6c186a1223b523fa2e13c028f8c5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:20 +0000
Subject: [PATCH 23/89] fix: match ratios compare the strings and do not divide
 by zero

---
 internal/util/average.go | 3 +++
 pkg/po/cmp.go            | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/util/average.go b/internal/util/average.go
index c59c242..7980251 100644
--- a/internal/util/average.go
+++ b/internal/util/average.go
@@ -8,6 +8,9 @@ type Number interface {
 
 func Average[T Number](values ...T) T {
 	var total T
+	if len(values) == 0 {
+		return total
+	}
 
 	for _, v := range values {
 		total += v
diff --git a/pkg/po/cmp.go b/pkg/po/cmp.go
index 470019b..5e241d2 100644
--- a/pkg/po/cmp.go
+++ b/pkg/po/cmp.go
@@ -36,7 +36,7 @@ func EntryStrMatchRatio(e1, e2 Entry) int {
 
 	var ratios []int
 	if e1.Str != "" || e2.Str != "" {
-		ratios = append(ratios, ratio(e1.ID, e2.ID))
+		ratios = append(ratios, ratio(e1.Str, e2.Str))
 	}
 	if e1.IsPlural() || e2.IsPlural() {
 		for i, pe := range e1.Plurals {
-- 
2.43.0


From 532375aa12a7a3bee8832882620e8ec72827db65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:23 +0000
Subject: [PATCH 24/89] fix: merging locations does not write into the array of
 the merged entries

---
 pkg/po/entries.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/po/entries.go b/pkg/po/entries.go
index 0db5337..600e05e 100644
--- a/pkg/po/entries.go
+++ b/pkg/po/entries.go
@@ -140,7 +140,7 @@ func (e Entries) CleanObsoletes() Entries {
 // CleanDuplicates removes duplicate entries with the same ID and context, merging their locations.
 func (e Entries) CleanDuplicates() Entries {
 	return e.SolveFunc(func(a, b Entry) *Entry {
-		a.Locations = append(a.Locations, b.Locations...)
+		a.Locations = append(slices.Clip(a.Locations), b.Locations...)
 		return &a
 	})
 }
@@ -215,7 +215,7 @@ func SolveMerge(a, b Entry) *Entry {
 	}
 
 	// Combine the Locations from both entries.
-	preferred.Locations = append(a.Locations, b.Locations...)
+	preferred.Locations = append(slices.Clip(a.Locations), b.Locations...)
 
 	// Choose the preferred Str and Plurals based on CompareEntryByStr.
 	if CompareEntryByStr(a, b) > 0 {
-- 
2.43.0


From e65c8d22bed75513663521117bcb7059f59f7dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:55 +0000
Subject: [PATCH 25/89] fix: solving duplicates keeps the plural forms and the
 translation when only one definition has them

---
 pkg/po/entries.go | 21 ++++++++++++++-------
 pkg/po/entry.go   | 14 ++++++++++++++
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/pkg/po/entries.go b/pkg/po/entries.go
index 600e05e..fb47e16 100644
--- a/pkg/po/entries.go
+++ b/pkg/po/entries.go
@@ -141,6 +141,7 @@ func (e Entries) CleanObsoletes() Entries {
 func (e Entries) CleanDuplicates() Entries {
 	return e.SolveFunc(func(a, b Entry) *Entry {
 		a.Locations = append(slices.Clip(a.Locations), b.Locations...)
+		a.adoptPlural(b)
 		return &a
 	})
 }
@@ -203,7 +204,8 @@ func MergeUsingPriorityOrFallback(priorList Entries) MergeFunc {
 // SolveMerge merges two Entry objects based on certain preference criteria.
 // It prefers the Entry with a higher priority according to CompareEntry.
 // It combines the Locations from both entries.
-// Then, it chooses the Str and Plurals fields based on CompareEntryByStr.
+// Then, it chooses the Str, Plural and Plurals fields based on CompareEntryByStr,
+// an untranslated Entry is never chosen over a translated one.
 func SolveMerge(a, b Entry) *Entry {
 	var preferred Entry
 
@@ -218,13 +220,18 @@ func SolveMerge(a, b Entry) *Entry {
 	preferred.Locations = append(slices.Clip(a.Locations), b.Locations...)
 
 	// Choose the preferred Str and Plurals based on CompareEntryByStr.
-	if CompareEntryByStr(a, b) > 0 {
-		preferred.Str = a.Str
-		preferred.Plurals = a.Plurals
-	} else {
-		preferred.Str = b.Str
-		preferred.Plurals = b.Plurals
+	chosen, other := b, a
+	if a.isTranslated() != b.isTranslated() {
+		if a.isTranslated() {
+			chosen, other = a, b
+		}
+	} else if CompareEntryByStr(a, b) > 0 {
+		chosen, other = a, b
 	}
+	preferred.Str = chosen.Str
+	preferred.Plural = chosen.Plural
+	preferred.Plurals = chosen.Plurals
+	preferred.adoptPlural(other)
 
 	return &preferred
 }
diff --git a/pkg/po/entry.go b/pkg/po/entry.go
index 53ce37e..6ffd288 100644
--- a/pkg/po/entry.go
+++ b/pkg/po/entry.go
@@ -58,6 +58,20 @@ func (e *Entry) toPlural(plural string) {
 	}
 }
 
+// adoptPlural makes a singular entry plural if x, another definition of the
+// same message, is plural. The translation of e is kept as the first form.
+func (e *Entry) adoptPlural(x Entry) {
+	if e.IsPlural() || !x.IsPlural() {
+		return
+	}
+	e.toPlural(x.Plural)
+	for _, pe := range x.Plurals {
+		if len(e.Plurals) == 0 || pe.ID != e.Plurals[0].ID {
+			e.Plurals = append(e.Plurals, pe)
+		}
+	}
+}
+
 // IsHeader reports whether the entry is a header (i.e., both ID and context are empty).
 func (e Entry) IsHeader() bool {
 	return e.ID == "" && e.Context == ""
-- 
2.43.0


From bf3262b8bcfa7834a858628bcb2204994fa662a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:55 +0000
Subject: [PATCH 26/89] fix: Merge leaves every message of the reference
 exactly once, with its references, and does not lose translations

---
 pkg/po/compile/po_compiler_format.go |   3 +-
 pkg/po/merge.go                      | 112 ++++++++++++++++++++-------
 2 files changed, 86 insertions(+), 29 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index fc0521e..15aaf4d 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -150,10 +150,9 @@ func (eb *entryBuilder) msgstr() string {
 
 	if eb.IsPlural() {
 		if len(eb.Plurals) == 0 {
-			id := eb.string(eb.ID, "msgstr")
 			for i := 0; i < 2; i++ {
 				fmt.Fprint(&msgstr, eb.keyword(fmt.Sprintf(format, i)))
-				fmt.Fprint(&msgstr, id)
+				fmt.Fprint(&msgstr, eb.string(prefix+suffix, "msgstr"))
 			}
 			return msgstr.String()
 		}
diff --git a/pkg/po/merge.go b/pkg/po/merge.go
index 9ebe727..ba9fb9e 100644
--- a/pkg/po/merge.go
+++ b/pkg/po/merge.go
@@ -1,5 +1,9 @@
 package po
 
+import (
+	"github.com/Tom5521/gotext-tools/v2/internal/slices"
+)
+
 // SortMode defines the mode used to sort PO entries.
 type SortMode int
 
@@ -92,22 +96,34 @@ func MergeWithKeepPreviousIDs(k bool) MergeOption {
 // If KeepPreviousIDs is set, original IDs are preserved in unmatched entries.
 // If Sort is enabled, the resulting set is sorted using the given SortMode.
 func MergeWithConfig(config MergeConfig, def, ref Entries) Entries {
-	// NOTE: The implicit memory aliasing in loops
-	// are intentional, don't try to change it.
+	header := def.Header()
+	if !def.HasHeader() {
+		header = ref.Header()
+	}
+	nplurals := int(header.Nplurals())
 
-	nplurals := int(ref.Header().Nplurals())
 	def = def.Solve()
+	// Obsolete entries aren't up-to-date messages.
+	ref = ref.CleanDuplicates().CleanObsoletes()
 
-	for i, entry := range def {
-		if mergeDef(config, &entry, ref) {
-			continue
-		}
-		def[i] = entry
+	// Messages of ref that are already in the result.
+	found := make(map[string]bool, len(ref))
+	for _, entry := range def {
+		found[entry.UnifiedID()] = true
 	}
 
-	for _, entry := range ref {
+	for i := range def {
+		mergeDef(config, &def[i], ref, found)
+	}
 
-		if mergeRef(config, &entry, def, nplurals) {
+	candidates := slices.Clip(def)
+	for _, entry := range ref {
+		if found[entry.UnifiedID()] {
+			continue
+		}
+		mergeRef(config, &entry, candidates, nplurals)
+		if entry.IsHeader() {
+			def = append(Entries{entry}, def...)
 			continue
 		}
 		def = append(def, entry)
@@ -120,33 +136,54 @@ func MergeWithConfig(config MergeConfig, def, ref Entries) Entries {
 	return def
 }
 
-func mergeRef(config MergeConfig, entry *Entry, def Entries, nplurals int) bool {
-	if def.ContainsUnifiedID(entry.UnifiedID()) || entry.IsHeader() {
-		return true
-	}
-	if config.FuzzyMatch {
-		if bestID, ratio := def.BestIDRatio(*entry); ratio >= 50 {
+// mergeRef prepares an entry of ref that isn't in def.
+func mergeRef(config MergeConfig, entry *Entry, def Entries, nplurals int) {
+	if config.FuzzyMatch && !entry.IsHeader() && !entry.isTranslated() {
+		bestID, ratio := def.BestIDRatio(*entry)
+		if ratio >= 50 && def[bestID].isTranslated() {
+			entry.Flags = slices.Clip(entry.Flags)
 			entry.markAsFuzzy()
-			best := def[bestID]
-			mergeEntryStrings(entry, best)
+			mergeEntryStrings(entry, def[bestID])
 		}
-	} else if entry.IsPlural() {
+	}
+	if entry.IsPlural() && len(entry.Plurals) == 0 {
 		for i := 0; i < nplurals; i++ {
-			entry.Plurals = append(entry.Plurals, PluralEntry{i, entry.ID})
+			entry.Plurals = append(entry.Plurals, PluralEntry{ID: i})
 		}
 	}
-	return false
 }
 
-func mergeDef(config MergeConfig, e *Entry, ref Entries) bool {
-	if ref.ContainsUnifiedID(e.UnifiedID()) || e.IsHeader() {
-		return true
+// mergeDef updates an entry of def with the messages of ref. The messages of
+// ref that it takes are marked as found.
+func mergeDef(config MergeConfig, e *Entry, ref Entries, found map[string]bool) {
+	if e.IsHeader() {
+		return
 	}
+
+	e.Flags = slices.Clip(e.Flags)
+	if i := ref.IndexByUnifiedID(e.UnifiedID()); i != -1 {
+		mergeReferences(e, ref[i])
+		return
+	}
+	if e.Obsolete {
+		return
+	}
+
 	switch {
 	case config.FuzzyMatch:
-		if bestID, ratio := ref.BestIDRatio(*e); ratio >= 50 {
+		available := make(Entries, 0, len(ref))
+		for _, entry := range ref {
+			if !found[entry.UnifiedID()] {
+				available = append(available, entry)
+			}
+		}
+		if bestID, ratio := available.BestIDRatio(*e); ratio >= 50 {
+			best := available[bestID]
+			found[best.UnifiedID()] = true
 			e.markAsFuzzy()
-			e.ID = ref[bestID].ID
+			e.ID = best.ID
+			e.Context = best.Context
+			mergeReferences(e, best)
 		} else {
 			e.markAsObsolete()
 		}
@@ -155,7 +192,27 @@ func mergeDef(config MergeConfig, e *Entry, ref Entries) bool {
 	default:
 		e.markAsObsolete()
 	}
-	return false
+}
+
+// mergeReferences updates an entry with the information that depends on the
+// source code, its translation and its comments are kept.
+func mergeReferences(e *Entry, ref Entry) {
+	e.Obsolete = false
+	e.ExtractedComments = ref.ExtractedComments
+	e.Locations = ref.Locations
+
+	if e.Plural == ref.Plural && e.IsPlural() == ref.IsPlural() {
+		return
+	}
+
+	// The message changed, so the translation must be reviewed.
+	updated := *e
+	updated.Plural, updated.Plurals, updated.Str = ref.Plural, ref.Plurals, ""
+	mergeEntryStrings(&updated, *e)
+	*e = updated
+	if e.isTranslated() {
+		e.markAsFuzzy()
+	}
 }
 
 // mergeEntryStrings copies translation strings from source to target.
@@ -167,6 +224,7 @@ func mergeEntryStrings(target *Entry, source Entry) {
 	case target.IsPlural() && source.IsPlural():
 		target.Plurals = source.Plurals
 	case target.IsPlural() && !source.IsPlural():
+		target.Plurals = slices.Clone(target.Plurals)
 		if len(target.Plurals) == 0 {
 			target.Plurals = make(PluralEntries, 1)
 		}
-- 
2.43.0


From 819e286f58f9a2ba228ee3eac6312d4c05bb5357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:12 +0000
Subject: [PATCH 27/89] fix: sorting keeps the order of the entries that
 compare equal

---
 internal/slices/slices_go1.21.go | 3 ++-
 internal/slices/slices_legacy.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/slices/slices_go1.21.go b/internal/slices/slices_go1.21.go
index bc4fe2d..52c4f06 100644
--- a/internal/slices/slices_go1.21.go
+++ b/internal/slices/slices_go1.21.go
@@ -10,6 +10,7 @@ import (
 
 type Ordered = cmp.Ordered
 
+// SortFunc is a stable sort.
 func SortFunc[S ~[]E, E any](x S, cmp func(a, b E) int) {
-	slices.SortFunc(x, cmp)
+	slices.SortStableFunc(x, cmp)
 }
diff --git a/internal/slices/slices_legacy.go b/internal/slices/slices_legacy.go
index be4e4ba..0b92ff5 100644
--- a/internal/slices/slices_legacy.go
+++ b/internal/slices/slices_legacy.go
@@ -12,8 +12,9 @@ type Ordered interface {
 		~string
 }
 
+// SortFunc is a stable sort.
 func SortFunc[S ~[]E, E any](x S, cmp func(a, b E) int) {
-	sort.Slice(x, func(i, j int) bool {
+	sort.SliceStable(x, func(i, j int) bool {
 		return cmp(x[i], x[j]) < 0
 	})
 }
-- 
2.43.0


From 74bcb631920149f53398019cd887bdbfdf0608da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:15 +0000
Subject: [PATCH 28/89] fix: sorting a template does not move its header after
 the messages

---
 pkg/po/cmp.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/po/cmp.go b/pkg/po/cmp.go
index 5e241d2..8f431c9 100644
--- a/pkg/po/cmp.go
+++ b/pkg/po/cmp.go
@@ -80,7 +80,15 @@ func CompareEntryByObsolete(a, b Entry) int {
 }
 
 // CompareEntryByFuzzy compares entries by their fuzzy flag.
+//
+// The header goes before any message, its flag only means that the file is a template.
 func CompareEntryByFuzzy(a, b Entry) int {
+	if a.IsHeader() && !b.IsHeader() {
+		return -1
+	} else if !a.IsHeader() && b.IsHeader() {
+		return 1
+	}
+
 	aContains := a.IsFuzzy()
 	bContains := b.IsFuzzy()
 
-- 
2.43.0


From 4fac67a583e6e81430a62b8ef3215850e0046e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 29/89] fix: header fields end at the first colon

---
 pkg/po/header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/po/header.go b/pkg/po/header.go
index dfecccb..3ba9337 100644
--- a/pkg/po/header.go
+++ b/pkg/po/header.go
@@ -49,7 +49,7 @@ func NewHeader(options ...HeaderOption) Header {
 }
 
 var (
-	headerRegex = regexp.MustCompile(`(.*)\s*:\s*(.*)`)
+	headerRegex = regexp.MustCompile(`^([^:]*?)\s*:\s*(.*)$`)
 	exprRegex   = regexp.MustCompile(
 		`(?: *(\S+?) *= *(.+?) *; *)`,
 	)
-- 
2.43.0


From 60388db3d5be5254bfc27fc4717e9689c2616078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:32 +0000
Subject: [PATCH 30/89] fix: header entries do not have blank lines between
 fields

---
 pkg/po/header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/po/header.go b/pkg/po/header.go
index 3ba9337..867f2a6 100644
--- a/pkg/po/header.go
+++ b/pkg/po/header.go
@@ -169,7 +169,7 @@ func (h Header) ToEntry() Entry {
 		if field.Value != " " {
 			field.Value = " " + field.Value
 		}
-		fmt.Fprintf(&b, "\n%s:%s\n", field.Key, field.Value)
+		fmt.Fprintf(&b, "%s:%s\n", field.Key, field.Value)
 	}
 	entry := Entry{Str: b.String()}
 	if h.Template {
-- 
2.43.0


From 198c61907171da6649edbe33040361a35f7e7223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 31/89] fix: PJWHash hashes the bytes of the string, as gettext
 does

---
 internal/util/hash.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/util/hash.go b/internal/util/hash.go
index a1bff94..bf79784 100644
--- a/internal/util/hash.go
+++ b/internal/util/hash.go
@@ -4,8 +4,9 @@ package util
 func PJWHash(str string) uint32 {
 	var h, g uint32
 
-	for _, c := range str {
-		h = (h << 4) + uint32(c)
+	// The algorithm works with bytes, not with runes.
+	for i := 0; i < len(str); i++ {
+		h = (h << 4) + uint32(str[i])
 		g = h & 0xF0000000 // Check the top 4 bits
 		if g != 0 {
 			h ^= g >> 24 // XOR with the high bits
-- 
2.43.0


From 6c50c78e68acfc78cd3fd956645f7c2460715af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:54 +0000
Subject: [PATCH 32/89] fix: MO files are written and read with the magic
 number in their own byte order

---
 internal/util/bytes.go    | 16 +++-------------
 pkg/po/parse/mo_parser.go |  2 +-
 2 files changed, 4 insertions(+), 14 deletions(-)

diff --git a/internal/util/bytes.go b/internal/util/bytes.go
index 6508c2c..ca08c31 100644
--- a/internal/util/bytes.go
+++ b/internal/util/bytes.go
@@ -41,20 +41,10 @@ func (e Endianness) Order() binary.ByteOrder {
 	}
 }
 
+// MagicNumber returns the magic number of the MO files, it's the same in any
+// byte order. It is [BigEndianMagicNumber] when it's read in the opposite one.
 func (e Endianness) MagicNumber() uint32 {
-	switch e {
-	case LittleEndian:
-		return LittleEndianMagicNumber
-	case BigEndian:
-		return BigEndianMagicNumber
-	case NativeEndian:
-		fallthrough
-	default:
-		if IsBigEndian {
-			return BigEndianMagicNumber
-		}
-		return LittleEndianMagicNumber
-	}
+	return LittleEndianMagicNumber
 }
 
 func (e Endianness) String() string {
diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index d871851..ff55149 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -108,7 +108,7 @@ func (m *MoParser) defineOrder(reader *bytes.Reader) (order bin.ByteOrder) {
 	var magic u32
 
 	if m.Config.Endianness == NativeEndian {
-		err := bin.Read(reader, NativeEndian.Order(), &magic)
+		err := bin.Read(reader, LittleEndian.Order(), &magic)
 		if err != nil {
 			m.error("error reading magic number: %w", err)
 			return
-- 
2.43.0


From 14a966fa0b605e7c749697620894c764423b9dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:56 +0000
Subject: [PATCH 33/89] fix: MO parser rejects tables and strings that are
 outside of the file

---
 pkg/po/parse/mo_parser.go | 121 ++++++++++++++------------------------
 1 file changed, 45 insertions(+), 76 deletions(-)

diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index ff55149..797170e 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -15,8 +15,7 @@ import (
 // Type aliases for cleaner code.
 type (
 	u32 = uint32
-	i64 = int64
-	i32 = int32
+	u64 = uint64
 )
 
 // Common byte sequences used in MO file parsing.
@@ -151,7 +150,6 @@ func (m *MoParser) ParseWithOptions(opts ...MoOption) (file *po.File) {
 
 // Parse reads and parses the MO file into a po.File structure.
 func (m *MoParser) Parse() (file *po.File) {
-	var err error
 	r := bytes.NewReader(m.data)
 
 	bo := m.defineOrder(r)
@@ -160,7 +158,7 @@ func (m *MoParser) Parse() (file *po.File) {
 	}
 
 	var header util.MoHeader
-	if err = bin.Read(r, bo, &header); err != nil {
+	if err := bin.Read(r, bo, &header); err != nil {
 		m.error("error reading header: %w", err)
 		return
 	}
@@ -175,56 +173,29 @@ func (m *MoParser) Parse() (file *po.File) {
 	}
 
 	// Read message ID table
-	msgIDStart := make([]u32, header.Nstrings)
-	msgIDLen := make([]u32, header.Nstrings)
-	_, err = r.Seek(i64(header.OrigTabOffset), 0)
+	msgIDStart, msgIDLen, err := m.readTable(bo, header.OrigTabOffset, header.Nstrings)
 	if err != nil {
 		m.error("bad original table offset(%d): %w", header.OrigTabOffset, err)
 		return
 	}
 
-	for i := u32(0); i < header.Nstrings; i++ {
-		if err = bin.Read(r, bo, &msgIDLen[i]); err != nil {
-			m.error("error reading msgid len[%d]: %w", i, err)
-			return
-		}
-		if err = bin.Read(r, bo, &msgIDStart[i]); err != nil {
-			m.error("error reading msgid start[%d]: %w", i, err)
-			return
-		}
-	}
-
 	// Read message string table
-	msgStrStart := make([]i32, header.Nstrings)
-	msgStrLen := make([]i32, header.Nstrings)
-	_, err = r.Seek(i64(header.TransTabOffset), 0)
+	msgStrStart, msgStrLen, err := m.readTable(bo, header.TransTabOffset, header.Nstrings)
 	if err != nil {
 		m.error("bad translation table offset(%d): %w", header.TransTabOffset, err)
 		return
 	}
 
-	for i := u32(0); i < header.Nstrings; i++ {
-		if err = bin.Read(r, bo, &msgStrLen[i]); err != nil {
-			m.error("error reading msgstr len[%d]: %w", i, err)
-			return
-		}
-		if err = bin.Read(r, bo, &msgStrStart[i]); err != nil {
-			m.error("error reading msgstr start[%d]: %w", i, err)
-			return
-		}
+	entries, err := m.makeEntries(msgIDStart, msgIDLen, msgStrStart, msgStrLen)
+	if err != nil {
+		m.error("%w", err)
+		return
 	}
 
 	// Create the po.File structure with all entries
 	file = &po.File{
-		Name: m.filename,
-		Entries: m.makeEntries(
-			r,
-			&header,
-			msgIDStart,
-			msgIDLen,
-			msgStrStart,
-			msgStrLen,
-		),
+		Name:    m.filename,
+		Entries: entries,
 	}
 
 	// Validate sorting if required by configuration
@@ -238,55 +209,53 @@ func (m *MoParser) Parse() (file *po.File) {
 	return
 }
 
+// section returns the data in the given range, it must be inside the file.
+func (m *MoParser) section(offset, length u64) ([]byte, error) {
+	size := u64(len(m.data))
+	if offset > size || length > size-offset {
+		return nil, fmt.Errorf("[start: %d len: %d]: %w", offset, length, io.ErrUnexpectedEOF)
+	}
+
+	return m.data[offset : offset+length], nil
+}
+
+// readTable reads a table of n string descriptors.
+func (m *MoParser) readTable(bo bin.ByteOrder, offset, n u32) (starts, lens []u32, err error) {
+	table, err := m.section(u64(offset), u64(n)*8)
+	if err != nil {
+		return nil, nil, err
+	}
+
+	starts = make([]u32, n)
+	lens = make([]u32, n)
+	for i := range starts {
+		lens[i] = bo.Uint32(table[i*8:])
+		starts[i] = bo.Uint32(table[i*8+4:])
+	}
+
+	return starts, lens, nil
+}
+
 // makeEntries creates po.Entries from the parsed MO file data.
 func (m *MoParser) makeEntries(
-	r *bytes.Reader,
-	header *util.MoHeader,
 	msgIDStart, msgIDLen []u32,
-	msgStrStart, msgStrLen []i32,
-) (entries po.Entries) {
-	for i := u32(0); i < header.Nstrings; i++ {
-		idStart := i64(msgIDStart[i])
-		idLen := msgIDLen[i]
-		strStart := i64(msgStrStart[i])
-		strLen := msgStrLen[i]
-
-		// Read message ID data
-		_, err := r.Seek(idStart, 0)
+	msgStrStart, msgStrLen []u32,
+) (entries po.Entries, err error) {
+	for i := range msgIDStart {
+		msgIDData, err := m.section(u64(msgIDStart[i]), u64(msgIDLen[i]))
 		if err != nil {
-			m.error("bad msgid start[%d]: %w", idStart, err)
+			return nil, fmt.Errorf("error reading msgid data[%d]%w", i, err)
 		}
 
-		msgIDData := make([]byte, idLen)
-		_, err = r.Read(msgIDData)
+		msgStrData, err := m.section(u64(msgStrStart[i]), u64(msgStrLen[i]))
 		if err != nil {
-			m.error(
-				"error reading msgid data[start: %d len: %d]: %w",
-				idStart,
-				idLen,
-				err,
-			)
-		}
-
-		// Read message string data
-		_, err = r.Seek(strStart, 0)
-		if err != nil {
-			m.error("bad msgstr start[%d]: %w", strStart, err)
-		}
-		msgStrData := make([]byte, strLen)
-		_, err = r.Read(msgStrData)
-		if err != nil {
-			m.error("error reading msgstr data[start: %d len: %d]: %w",
-				strStart,
-				strLen,
-				err,
-			)
+			return nil, fmt.Errorf("error reading msgstr data[%d]%w", i, err)
 		}
 
 		entries = append(entries, makeEntry(msgIDData, msgStrData))
 	}
 
-	return
+	return entries, nil
 }
 
 // Is there a way to make this code more... clean? maybe...
-- 
2.43.0


From f5a73e26af220366d5a5961b5fee06d4ce60290a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:27 +0000
Subject: [PATCH 34/89] fix: MO parser rejects strings without terminator

---
 pkg/po/parse/mo_parser.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index 797170e..9939111 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -219,6 +219,19 @@ func (m *MoParser) section(offset, length u64) ([]byte, error) {
 	return m.data[offset : offset+length], nil
 }
 
+// readString returns the string in the given range, without its terminator.
+func (m *MoParser) readString(offset, length u64) ([]byte, error) {
+	data, err := m.section(offset, length+1)
+	if err != nil {
+		return nil, err
+	}
+	if data[length] != 0 {
+		return nil, fmt.Errorf("[start: %d len: %d]: the string isn't NUL terminated", offset, length)
+	}
+
+	return data[:length], nil
+}
+
 // readTable reads a table of n string descriptors.
 func (m *MoParser) readTable(bo bin.ByteOrder, offset, n u32) (starts, lens []u32, err error) {
 	table, err := m.section(u64(offset), u64(n)*8)
@@ -242,12 +255,12 @@ func (m *MoParser) makeEntries(
 	msgStrStart, msgStrLen []u32,
 ) (entries po.Entries, err error) {
 	for i := range msgIDStart {
-		msgIDData, err := m.section(u64(msgIDStart[i]), u64(msgIDLen[i]))
+		msgIDData, err := m.readString(u64(msgIDStart[i]), u64(msgIDLen[i]))
 		if err != nil {
 			return nil, fmt.Errorf("error reading msgid data[%d]%w", i, err)
 		}
 
-		msgStrData, err := m.section(u64(msgStrStart[i]), u64(msgStrLen[i]))
+		msgStrData, err := m.readString(u64(msgStrStart[i]), u64(msgStrLen[i]))
 		if err != nil {
 			return nil, fmt.Errorf("error reading msgstr data[%d]%w", i, err)
 		}
-- 
2.43.0


From 9fe6a809a6af9ade981e6ba8aede5cf4a1932111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:29 +0000
Subject: [PATCH 35/89] fix: MO parser does not report the errors of a previous
 parse

---
 pkg/po/parse/mo_parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index 9939111..6510170 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -150,6 +150,7 @@ func (m *MoParser) ParseWithOptions(opts ...MoOption) (file *po.File) {
 
 // Parse reads and parses the MO file into a po.File structure.
 func (m *MoParser) Parse() (file *po.File) {
+	m.errors = nil
 	r := bytes.NewReader(m.data)
 
 	bo := m.defineOrder(r)
-- 
2.43.0


From ae44b2aa0296c602dd2a8b910efbfc603e41e72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:31 +0000
Subject: [PATCH 36/89] fix: MO parser keeps plural messages of languages with
 a single plural form

---
 pkg/po/parse/mo_parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index 6510170..06add35 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -282,7 +282,7 @@ func makeEntry(msgid, msgstr []byte) (entry po.Entry) {
 	)
 
 	// Split context from message ID (separated by EOT)
-	d := bytes.Split(msgid, eot)
+	d := bytes.SplitN(msgid, eot, 2)
 	if len(d) == 1 {
 		msgid = d[0]
 	} else {
@@ -303,7 +303,7 @@ func makeEntry(msgid, msgstr []byte) (entry po.Entry) {
 
 	// Handle plural forms in message string
 	msgstrParts := bytes.Split(msgstr, nul)
-	if len(msgstrParts) == 1 {
+	if len(msgstrParts) == 1 && len(msgidParts) == 1 {
 		entry.Str = string(msgstrParts[0])
 	} else {
 		for i, s := range msgstrParts {
-- 
2.43.0


From d28308a7bff5b4a5fb2280a532da4859b5ed484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:33 +0000
Subject: [PATCH 37/89] fix: MO compiler keeps every active translation and the
 header, and only them

---
 pkg/po/compile/mo_compile.go | 16 ++++++++++++++--
 pkg/po/compile/mo_config.go  |  2 +-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/pkg/po/compile/mo_compile.go b/pkg/po/compile/mo_compile.go
index e5e75e8..ee0f1fa 100644
--- a/pkg/po/compile/mo_compile.go
+++ b/pkg/po/compile/mo_compile.go
@@ -5,7 +5,9 @@ import (
 	bin "encoding/binary"
 	"fmt"
 	"io"
+	"strings"
 
+	"github.com/Tom5521/gotext-tools/v2/internal/slices"
 	"github.com/Tom5521/gotext-tools/v2/internal/util"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
 )
@@ -54,10 +56,14 @@ func flen[X any, Y ~[]X](value Y) u32 {
 //
 // Returns an error if any step fails, unless IgnoreErrors is true.
 func (mc *MoCompiler) writeTo(writer io.Writer) error {
-	entries := mc.File.Entries
+	entries := slices.Clone(mc.File.Entries)
 	if mc.Config.DepureEntries {
 		mc.info("cleaning entries...")
-		entries = mc.File.Entries.CleanDuplicates().CleanFuzzy().CleanObsoletes()
+		// The duplicates must be cleaned at the end, otherwise a valid
+		// translation could be merged into an entry that isn't going to be written.
+		entries = slices.DeleteFunc(entries, func(e po.Entry) bool {
+			return e.Obsolete || e.IsFuzzy() && !e.IsHeader() || isUntranslated(e)
+		}).CleanDuplicates()
 	}
 	if mc.Config.SortEntries {
 		mc.info("sorting entries...")
@@ -150,6 +156,12 @@ func (mc *MoCompiler) writeTo(writer io.Writer) error {
 	return nil
 }
 
+// isUntranslated reports whether the entry has no translation. With an empty
+// translation in the MO file, the message would be shown as an empty string.
+func isUntranslated(e po.Entry) bool {
+	return strings.Trim(e.UnifiedStr(), "\x00") == ""
+}
+
 // buildHashTable creates a hash table for the given PO entries using the specified size.
 // The implementation is translated from gettext's write-mo.c:
 // https://github.com/autotools-mirror/gettext/blob/master/gettext-tools/src/write-mo.c#L876
diff --git a/pkg/po/compile/mo_config.go b/pkg/po/compile/mo_config.go
index c9f1885..74a36e1 100644
--- a/pkg/po/compile/mo_config.go
+++ b/pkg/po/compile/mo_config.go
@@ -33,7 +33,7 @@ type MoConfig struct {
 	// NOTE: This reaaaaalyyy need to be exposed?
 
 	// DepureEntries determines whether fuzzy,
-	// obsolete, and duplicate entries will be
+	// obsolete, untranslated and duplicate entries will be
 	// deleted before starting the process.
 	//
 	// WARNING: Only disable this if you know what you're doing.
-- 
2.43.0


From 96b467e3c6ecac51905169164c9dc37573f857a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:07 +0000
Subject: [PATCH 38/89] fix: temporary options are reverted even if they
 replace the whole configuration

---
 pkg/go/parse/config.go      | 5 ++++-
 pkg/po/compile/mo_config.go | 5 ++++-
 pkg/po/compile/po_config.go | 9 +++++++--
 pkg/po/parse/mo_config.go   | 5 ++++-
 pkg/po/parse/po_config.go   | 5 ++++-
 5 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/pkg/go/parse/config.go b/pkg/go/parse/config.go
index b8cd0b9..4903f4d 100644
--- a/pkg/go/parse/config.go
+++ b/pkg/go/parse/config.go
@@ -34,11 +34,14 @@ func (c *Config) RestoreLastCfg() {
 // saving the previous state so that it can be restored
 // later with [Config.RestoreLastCfg] if desired.
 func (c *Config) ApplyOptions(opts ...Option) {
-	c.lastCfg = *c
+	prev := *c
 
 	for _, opt := range opts {
 		opt(c)
 	}
+
+	// An option can replace the whole configuration, including the saved one.
+	c.lastCfg = prev
 }
 
 func DefaultConfig(opts ...Option) Config {
diff --git a/pkg/po/compile/mo_config.go b/pkg/po/compile/mo_config.go
index 74a36e1..62fccc3 100644
--- a/pkg/po/compile/mo_config.go
+++ b/pkg/po/compile/mo_config.go
@@ -54,11 +54,14 @@ const (
 // saving the previous state so that it can be restored
 // later with [MoConfig.RestoreLastCfg] if desired.
 func (mc *MoConfig) ApplyOptions(opts ...MoOption) {
-	mc.lastCfg = *mc
+	prev := *mc
 
 	for _, opt := range opts {
 		opt(mc)
 	}
+
+	// An option can replace the whole configuration, including the saved one.
+	mc.lastCfg = prev
 }
 
 // RestoreLastCfg restores the configuration state prior to the last
diff --git a/pkg/po/compile/po_config.go b/pkg/po/compile/po_config.go
index bfd7926..09c48c9 100644
--- a/pkg/po/compile/po_config.go
+++ b/pkg/po/compile/po_config.go
@@ -64,16 +64,21 @@ func NewPoConfigFromOptions(opts ...PoOption) PoConfig {
 // saving the previous state so that it can be restored
 // later with [PoConfig.RestoreLastCfg] if desired.
 func (c *PoConfig) ApplyOptions(opts ...PoOption) {
-	c.lastCfg = *c
+	prev := *c
 	for _, po := range opts {
 		po(c)
 	}
+
+	// An option can replace the whole configuration, including the saved one.
+	c.lastCfg = prev
 }
 
 // RestoreLastCfg restores the configuration state prior to the last
 // [PoConfig.ApplyOptions] if it exists, otherwise it does nothing.
 func (c *PoConfig) RestoreLastCfg() {
-	*c = c.lastCfg.(PoConfig)
+	if c.lastCfg != nil {
+		*c = c.lastCfg.(PoConfig)
+	}
 }
 
 type PoLocationMode string
diff --git a/pkg/po/parse/mo_config.go b/pkg/po/parse/mo_config.go
index 6d70504..e0408b5 100644
--- a/pkg/po/parse/mo_config.go
+++ b/pkg/po/parse/mo_config.go
@@ -42,11 +42,14 @@ func (mc *MoConfig) RestoreLastCfg() {
 // saving the previous state so that it can be restored
 // later with [MoConfig.RestoreLastCfg] if desired.
 func (mc *MoConfig) ApplyOptions(opts ...MoOption) {
-	mc.lastCfg = *mc
+	prev := *mc
 
 	for _, mo := range opts {
 		mo(mc)
 	}
+
+	// An option can replace the whole configuration, including the saved one.
+	mc.lastCfg = prev
 }
 
 // Endianness represents byte order options for MO files.
diff --git a/pkg/po/parse/po_config.go b/pkg/po/parse/po_config.go
index 846b87a..4cbaf0e 100644
--- a/pkg/po/parse/po_config.go
+++ b/pkg/po/parse/po_config.go
@@ -49,10 +49,13 @@ func (p *PoConfig) RestoreLastCfg() {
 // saving the previous state so that it can be restored
 // later with [PoConfig.RestoreLastCfg] if desired.
 func (p *PoConfig) ApplyOptions(opts ...PoOption) {
-	p.lastCfg = *p
+	prev := *p
 	for _, opt := range opts {
 		opt(p)
 	}
+
+	// An option can replace the whole configuration, including the saved one.
+	p.lastCfg = prev
 }
 
 // DefaultPoConfig returns a new PoConfig with recommended defaults:
-- 
2.43.0


From 1ce8b83a8d9dd2b77b80a4a3e619895566acd9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:35 +0000
Subject: [PATCH 39/89] fix: line of raw strings that start with a line break

---
 pkg/go/parse/process.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/go/parse/process.go b/pkg/go/parse/process.go
index e03b80a..95c8b44 100644
--- a/pkg/go/parse/process.go
+++ b/pkg/go/parse/process.go
@@ -64,7 +64,8 @@ func (f *File) basicLitToEntry(n *ast.BasicLit) (po.Entry, error) {
 	return po.Entry{
 		ID: str,
 		Locations: []po.Location{{
-			Line: util.FindLineFromReader(f.reader, n.Pos()),
+			// The positions start at 1.
+			Line: util.FindLineFromReader(f.reader, n.Pos()-1),
 			File: f.name,
 		}},
 	}, nil
@@ -137,7 +138,7 @@ func (f *File) processPoCall(
 			entry.Locations = append(entry.Locations,
 				po.Location{
 					File: f.name,
-					Line: util.FindLineFromReader(f.reader, arg.pos),
+					Line: util.FindLineFromReader(f.reader, arg.pos-1),
 				},
 			)
 			fallthrough
-- 
2.43.0


From c2c8be6c5b39a8894786cf627342d015608e1ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:36 +0000
Subject: [PATCH 40/89] fix: empty raw strings are not extracted as messages

---
 pkg/go/parse/process.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pkg/go/parse/process.go b/pkg/go/parse/process.go
index 95c8b44..953f3b7 100644
--- a/pkg/go/parse/process.go
+++ b/pkg/go/parse/process.go
@@ -98,18 +98,19 @@ func (f *File) extractArg(index int, call *ast.CallExpr) (a argumentData) {
 		return
 	}
 
-	if lit.Value == `""` {
-		return
-	}
-
-	f.seenNodes[lit] = struct{}{}
-
 	str, err := strconv.Unquote(lit.Value)
 	if err != nil {
 		a.err = f.error("error unquoting basic literal: %w", err)
 		return
 	}
 
+	// The empty string is reserved for the header, even as a raw string.
+	if str == "" {
+		return
+	}
+
+	f.seenNodes[lit] = struct{}{}
+
 	return argumentData{str, true, err, lit.Pos()}
 }
 
@@ -188,7 +189,7 @@ func (f *File) processNode(n ast.Node) (po.Entries, []error) {
 		}
 	case *ast.BasicLit:
 		_, ok := f.seenNodes[t]
-		if t.Kind != token.STRING || ok || t.Value == `""` {
+		if t.Kind != token.STRING || ok {
 			break
 		}
 		f.seenNodes[t] = struct{}{}
@@ -197,6 +198,9 @@ func (f *File) processNode(n ast.Node) (po.Entries, []error) {
 			errors = append(errors, err)
 			break
 		}
+		if entry.ID == "" {
+			break
+		}
 		entries = append(entries, entry)
 	}
 
-- 
2.43.0


From 337d5c44bc6350e2b6bdfe388fa4b3efa98f459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 41/89] fix: a call that can't be extracted does not discard
 the messages of its file silently

---
 pkg/go/parse/parser.go  | 4 ++--
 pkg/go/parse/process.go | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/go/parse/parser.go b/pkg/go/parse/parser.go
index 8499b4d..0e898c6 100644
--- a/pkg/go/parse/parser.go
+++ b/pkg/go/parse/parser.go
@@ -203,8 +203,8 @@ func (p *Parser) Parse() (file *po.File) {
 	for _, f := range p.files {
 		p.info("parsing %s...", f.name)
 		entries := f.Entries()
-		if err := f.Error(); err != nil {
-			continue
+		for _, err := range f.Errors() {
+			p.errors = append(p.errors, fmt.Errorf("%s: %w", f.name, err))
 		}
 		file.Entries = append(file.Entries, entries...)
 	}
diff --git a/pkg/go/parse/process.go b/pkg/go/parse/process.go
index 953f3b7..cbb4788 100644
--- a/pkg/go/parse/process.go
+++ b/pkg/go/parse/process.go
@@ -84,6 +84,12 @@ func (f *File) extractArg(index int, call *ast.CallExpr) (a argumentData) {
 	if index == -1 {
 		return
 	}
+	if index >= len(call.Args) && len(call.Args) == 1 {
+		// The results of a call can be all the arguments: Get(f())
+		if _, ok := call.Args[0].(*ast.CallExpr); ok {
+			return
+		}
+	}
 	if index < 0 || index >= len(call.Args) {
 		a.err = f.error("index (%d) out of range", index)
 		return
-- 
2.43.0


From d68e7bf2a6d395a287b1a9d3ffc399ce50bbc29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 42/89] fix: extracting all the strings includes the arguments
 of the calls that are not extracted

---
 pkg/go/parse/process.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/go/parse/process.go b/pkg/go/parse/process.go
index cbb4788..155aa32 100644
--- a/pkg/go/parse/process.go
+++ b/pkg/go/parse/process.go
@@ -115,8 +115,6 @@ func (f *File) extractArg(index int, call *ast.CallExpr) (a argumentData) {
 		return
 	}
 
-	f.seenNodes[lit] = struct{}{}
-
 	return argumentData{str, true, err, lit.Pos()}
 }
 
@@ -133,6 +131,15 @@ func (f *File) processPoCall(
 		f.extractArg(method.Plural, call),
 	}
 
+	if args[0].valid {
+		// These literals are not messages on their own.
+		for _, i := range []int{method.ID, method.Context, method.Plural} {
+			if i >= 0 && i < len(call.Args) {
+				f.seenNodes[call.Args[i]] = struct{}{}
+			}
+		}
+	}
+
 	for i, arg := range args {
 		if arg.err != nil {
 			err = arg.err
-- 
2.43.0


From 9c84e32e21184c99a931ea33097801483dac6b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 43/89] fix: File.Reset does not keep the import of the
 previous file

---
 pkg/go/parse/file.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/go/parse/file.go b/pkg/go/parse/file.go
index 11a2004..9f3fce4 100644
--- a/pkg/go/parse/file.go
+++ b/pkg/go/parse/file.go
@@ -58,6 +58,8 @@ func (f *File) error(format string, a ...any) error {
 func (f *File) Reset(d io.Reader, name string, config *Config) error {
 	f.seenNodes = nil
 	f.errors = nil
+	f.pkgName = DefaultPackageName
+	f.hasGotext = false
 
 	if r, ok := d.(*bytes.Reader); ok {
 		f.reader = r
-- 
2.43.0


From c3c6a1f436cfbc3f58e821a8a9cd09e90301020f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:02 +0000
Subject: [PATCH 44/89] fix: input paths that can't be read are not ignored
 silently

---
 cli/xgotext/cmd/input.go | 3 +++
 pkg/go/parse/parser.go   | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/cli/xgotext/cmd/input.go b/cli/xgotext/cmd/input.go
index 17ac4a4..3f0a92f 100644
--- a/cli/xgotext/cmd/input.go
+++ b/cli/xgotext/cmd/input.go
@@ -73,6 +73,9 @@ func readFiles(paths []string) ([]*os.File, error) {
 	for _, path := range paths {
 		walker := krfs.Walk(path)
 		for walker.Step() {
+			if err := walker.Err(); err != nil {
+				return nil, err
+			}
 			if util.ShouldSkipFile(walker, exclude, &seenFiles, logger) {
 				continue
 			}
diff --git a/pkg/go/parse/parser.go b/pkg/go/parse/parser.go
index 0e898c6..4c2f1e0 100644
--- a/pkg/go/parse/parser.go
+++ b/pkg/go/parse/parser.go
@@ -58,6 +58,10 @@ func (p *Parser) appendFiles(files ...string) error {
 	for _, file := range files {
 		walker := krfs.Walk(file)
 		for walker.Step() {
+			if err := walker.Err(); err != nil {
+				p.error("error walking %s: %w", walker.Path(), err)
+				return p.lastErr()
+			}
 			if util.ShouldSkipFile(walker, p.Config.Exclude, &p.seen, p.Config.Logger) {
 				continue
 			}
-- 
2.43.0


From 6c2003dafdc7f8148b060613f6ffb4bb15c0ad0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 45/89] fix: excluded directories exclude their files

---
 internal/util/skip.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/util/skip.go b/internal/util/skip.go
index c27a3b9..e4248a9 100644
--- a/internal/util/skip.go
+++ b/internal/util/skip.go
@@ -3,6 +3,7 @@ package util
 import (
 	"log"
 	"path/filepath"
+	"strings"
 
 	"github.com/Tom5521/gotext-tools/v2/internal/slices"
 	krfs "github.com/kr/fs"
@@ -40,11 +41,17 @@ func ShouldSkipFile(
 	return isExcludedPath(w.Path(), excludedPaths)
 }
 
-// isExcludedPath checks if a path is in the exclude list defined in the configuration.
+// isExcludedPath checks if a path, or one of its parent directories, is in the
+// exclude list defined in the configuration.
 func isExcludedPath(path string, exclude []string) bool {
 	return slices.ContainsFunc(exclude, func(s string) bool {
 		abs1, err1 := filepath.Abs(s)
 		abs2, err2 := filepath.Abs(path)
-		return (abs1 == abs2) && (err1 == nil && err2 == nil)
+		if err1 != nil || err2 != nil {
+			return false
+		}
+
+		rel, err := filepath.Rel(abs1, abs2)
+		return err == nil && rel != ".." && !strings.HasPrefix(rel, ".."+string(filepath.Separator))
 	})
 }
-- 
2.43.0


From 019aee139148db248b7e2aed8d0213267831e540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 46/89] fix: xgotext does not mix its log with the output

---
 cli/xgotext/cmd/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/xgotext/cmd/root.go b/cli/xgotext/cmd/root.go
index 83f33b6..42ca0e0 100644
--- a/cli/xgotext/cmd/root.go
+++ b/cli/xgotext/cmd/root.go
@@ -10,7 +10,7 @@ import (
 	"github.com/spf13/cobra"
 )
 
-var logger = log.New(os.Stdout, "", log.Ltime)
+var logger = log.New(os.Stderr, "", log.Ltime)
 
 var use = "xgotext"
 
-- 
2.43.0


From e165bec3eed6068eaf87f6e79d0abfc4e5e2a87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:45 +0000
Subject: [PATCH 47/89] fix: xgotext ignores the empty lines of the list of
 files and reads the standard input with --directory

---
 cli/xgotext/cmd/input.go | 3 +++
 cli/xgotext/cmd/root.go  | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/cli/xgotext/cmd/input.go b/cli/xgotext/cmd/input.go
index 3f0a92f..7570136 100644
--- a/cli/xgotext/cmd/input.go
+++ b/cli/xgotext/cmd/input.go
@@ -31,6 +31,9 @@ func processInput(inputFiles []string) (*parse.Parser, error) {
 	}
 	if directory != "" {
 		for i, file := range inputFiles {
+			if file == "-" {
+				continue
+			}
 			inputFiles[i] = filepath.Join(directory, file)
 		}
 		for i, file := range exclude {
diff --git a/cli/xgotext/cmd/root.go b/cli/xgotext/cmd/root.go
index 42ca0e0..88f6f52 100644
--- a/cli/xgotext/cmd/root.go
+++ b/cli/xgotext/cmd/root.go
@@ -74,6 +74,10 @@ func readFilesFrom(path string) ([]string, error) {
 	}
 	var files []string
 	for _, line := range bytes.Split(file, []byte{'\n'}) {
+		line = bytes.TrimSuffix(line, []byte{'\r'})
+		if len(line) == 0 {
+			continue
+		}
 		files = append(files, string(line))
 	}
 
-- 
2.43.0


From 636e8808dfeb07738a966d25927528c1124d7b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:59 +0000
Subject: [PATCH 48/89] fix: xgotext joins the existing file before overwriting
 it

---
 cli/xgotext/cmd/config.go |  3 +-
 cli/xgotext/cmd/join.go   | 62 +++++++++++++++++++++------------------
 cli/xgotext/cmd/output.go | 27 +++++++++--------
 cli/xgotext/cmd/root.go   | 21 +++++--------
 4 files changed, 58 insertions(+), 55 deletions(-)

diff --git a/cli/xgotext/cmd/config.go b/cli/xgotext/cmd/config.go
index f92b5a7..c213835 100644
--- a/cli/xgotext/cmd/config.go
+++ b/cli/xgotext/cmd/config.go
@@ -60,6 +60,7 @@ func initConfig() {
 	}
 
 	PoParserCfg = poparse.PoConfig{
-		Logger: logger,
+		Logger:         logger,
+		ParseObsoletes: true,
 	}
 }
diff --git a/cli/xgotext/cmd/join.go b/cli/xgotext/cmd/join.go
index 31c8152..9a701dc 100644
--- a/cli/xgotext/cmd/join.go
+++ b/cli/xgotext/cmd/join.go
@@ -1,48 +1,52 @@
 package cmd
 
 import (
-	"os"
+	"errors"
+	"io/fs"
 
-	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
-	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
 	poparse "github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
 )
 
-func join(newParse *goparse.Parser, rawfile *os.File) error {
-	baseParse, err := poparse.NewPoFromReader(
-		rawfile,
-		rawfile.Name(),
-		poparse.PoWithConfig(PoParserCfg),
-	)
-	if err != nil {
-		return err
+// join adds the extracted messages to the ones of the existing file.
+func join(extracted *po.File, path string) (*po.File, error) {
+	if path == "-" {
+		return nil, errors.New("--join-existing cannot be used when output is written to stdout")
 	}
 
-	poParsed := baseParse.Parse()
-	if len(baseParse.Errors()) > 0 {
-		return baseParse.Errors()[0]
+	existing, err := poparse.Po(path, poparse.PoWithConfig(PoParserCfg))
+	if errors.Is(err, fs.ErrNotExist) {
+		return extracted, nil
 	}
-
-	goParsed := newParse.Parse()
-	if len(newParse.Errors()) > 0 {
-		return newParse.Errors()[0]
+	if err != nil {
+		return nil, err
 	}
 
-	poParsed.Entries = po.Merge(poParsed.Entries, goParsed.Entries)
-
-	compiler := compile.NewPo(poParsed, compile.PoWithConfig(CompilerCfg))
+	found := make(map[string]bool, len(extracted.Entries))
+	for _, entry := range extracted.Entries {
+		found[entry.UnifiedID()] = true
+	}
 
-	// Truncate file.
-	rawfile, err = os.Create(rawfile.Name())
-	if err != nil {
-		return err
+	joined := append(existing.Entries, extracted.Entries...).CleanDuplicates()
+	for i := range joined {
+		if found[joined[i].UnifiedID()] {
+			joined[i].Obsolete = false
+		}
+		joined[i].Locations = uniqueLocations(joined[i].Locations)
 	}
 
-	err = compiler.ToWriter(rawfile)
-	if err != nil {
-		return err
+	return &po.File{Name: path, Entries: joined}, nil
+}
+
+func uniqueLocations(locations po.Locations) po.Locations {
+	var unique po.Locations
+	seen := make(map[po.Location]bool, len(locations))
+	for _, location := range locations {
+		if !seen[location] {
+			seen[location] = true
+			unique = append(unique, location)
+		}
 	}
 
-	return nil
+	return unique
 }
diff --git a/cli/xgotext/cmd/output.go b/cli/xgotext/cmd/output.go
index a0d2aef..d66c341 100644
--- a/cli/xgotext/cmd/output.go
+++ b/cli/xgotext/cmd/output.go
@@ -1,27 +1,30 @@
 package cmd
 
 import (
-	"fmt"
 	"os"
 	"path/filepath"
 )
 
-func processOutput() (*os.File, error) {
+// outputPath returns the path of the output file, or "-" for the standard output.
+func outputPath() string {
 	if output == "-" {
-		return os.Stdout, nil
+		return output
 	}
 
-	customOutput := output != ""
-	outputFilePath := filepath.Join(outputDir, defaultDomain+".pot")
-	if customOutput {
-		outputFilePath = filepath.Join(outputDir, output)
+	if output != "" {
+		return filepath.Join(outputDir, output)
 	}
 
-	_, err := os.OpenFile(outputFilePath, os.O_RDWR, os.ModePerm)
-	if os.IsExist(err) && !forcePo && customOutput {
-		return nil, fmt.Errorf("file %s already exists", outputFilePath)
+	return filepath.Join(outputDir, defaultDomain+".pot")
+}
+
+// writeOutput writes the already compiled content, so the output file isn't
+// touched if something fails before.
+func writeOutput(path string, content []byte) error {
+	if path == "-" {
+		_, err := os.Stdout.Write(content)
+		return err
 	}
 
-	// Truncate file.
-	return os.Create(outputFilePath)
+	return os.WriteFile(path, content, 0o666)
 }
diff --git a/cli/xgotext/cmd/root.go b/cli/xgotext/cmd/root.go
index 88f6f52..be46587 100644
--- a/cli/xgotext/cmd/root.go
+++ b/cli/xgotext/cmd/root.go
@@ -44,26 +44,21 @@ Similarly for optional arguments.`,
 			)
 		}
 
-		out, err := processOutput()
-		if err != nil {
-			return err
-		}
-		defer func() {
-			if out != os.Stdout {
-				out.Close()
-			}
-		}()
-
+		path := outputPath()
 		if joinExisting {
-			return join(parser, out)
+			parsedFile, err = join(parsedFile, path)
+			if err != nil {
+				return fmt.Errorf("error joining with the existing file: %w", err)
+			}
 		}
 
-		err = compile.PoToWriter(parsedFile, out, compile.PoWithConfig(CompilerCfg))
+		var out bytes.Buffer
+		err = compile.PoToWriter(parsedFile, &out, compile.PoWithConfig(CompilerCfg))
 		if err != nil {
 			return fmt.Errorf("error compiling translations: %w", err)
 		}
 
-		return
+		return writeOutput(path, out.Bytes())
 	},
 }
 
-- 
2.43.0


From 7113111c8a5484e63a9a2788e7c7797d830e2e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:16 +0000
Subject: [PATCH 49/89] fix: xgotext does not extract the messages of the file
 of --exclude-file

---
 cli/xgotext/cmd/exclude.go | 27 +++++++++++++++++++++++++++
 cli/xgotext/cmd/input.go   |  9 ---------
 cli/xgotext/cmd/root.go    |  7 +++++++
 3 files changed, 34 insertions(+), 9 deletions(-)
 create mode 100644 cli/xgotext/cmd/exclude.go

diff --git a/cli/xgotext/cmd/exclude.go b/cli/xgotext/cmd/exclude.go
new file mode 100644
index 0000000..75d373f
--- /dev/null
+++ b/cli/xgotext/cmd/exclude.go
@@ -0,0 +1,27 @@
+package cmd
+
+import (
+	"github.com/Tom5521/gotext-tools/v2/internal/slices"
+	"github.com/Tom5521/gotext-tools/v2/pkg/po"
+	poparse "github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
+)
+
+// excludeEntries removes from the file the messages of a PO or POT file.
+func excludeEntries(file *po.File, path string) error {
+	excluded, err := poparse.Po(path, poparse.PoWithConfig(PoParserCfg))
+	if err != nil {
+		return err
+	}
+
+	uids := make(map[string]bool, len(excluded.Entries))
+	for _, entry := range excluded.Entries {
+		uids[entry.UnifiedID()] = !entry.IsHeader()
+	}
+
+	file.Entries = slices.DeleteFunc(
+		file.Entries,
+		func(entry po.Entry) bool { return uids[entry.UnifiedID()] },
+	)
+
+	return nil
+}
diff --git a/cli/xgotext/cmd/input.go b/cli/xgotext/cmd/input.go
index 7570136..226983e 100644
--- a/cli/xgotext/cmd/input.go
+++ b/cli/xgotext/cmd/input.go
@@ -20,15 +20,6 @@ func processInput(inputFiles []string) (*parse.Parser, error) {
 		inputFiles = files
 	}
 
-	if excludeFile != "" {
-		var files []string
-		files, err := readFilesFrom(excludeFile)
-		if err != nil {
-			return nil, fmt.Errorf("error reading file %s: %w", excludeFile, err)
-		}
-
-		exclude = append(exclude, files...)
-	}
 	if directory != "" {
 		for i, file := range inputFiles {
 			if file == "-" {
diff --git a/cli/xgotext/cmd/root.go b/cli/xgotext/cmd/root.go
index be46587..64b5454 100644
--- a/cli/xgotext/cmd/root.go
+++ b/cli/xgotext/cmd/root.go
@@ -44,6 +44,13 @@ Similarly for optional arguments.`,
 			)
 		}
 
+		if excludeFile != "" {
+			err = excludeEntries(parsedFile, excludeFile)
+			if err != nil {
+				return fmt.Errorf("error reading file %s: %w", excludeFile, err)
+			}
+		}
+
 		path := outputPath()
 		if joinExisting {
 			parsedFile, err = join(parsedFile, path)
-- 
2.43.0


From af65357d4fca847e6de915ea726b2d025147b1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:58 +0000
Subject: [PATCH 50/89] fix: msgomerge does not touch any file until the merge
 is done

---
 cli/msgomerge/cmd/root.go | 78 ++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 43 deletions(-)

diff --git a/cli/msgomerge/cmd/root.go b/cli/msgomerge/cmd/root.go
index 7b813c9..571e4f2 100644
--- a/cli/msgomerge/cmd/root.go
+++ b/cli/msgomerge/cmd/root.go
@@ -1,8 +1,8 @@
 package cmd
 
 import (
+	"bytes"
 	"fmt"
-	"io"
 	"os"
 	"path/filepath"
 
@@ -34,13 +34,7 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 %s es.po en.pot -U`,
 		use, use, use,
 	),
-	Args: func(cmd *cobra.Command, args []string) error {
-		if len(args) != 2 && len(compendium) < 1 {
-			return cobra.ExactArgs(2)(cmd, args)
-		}
-
-		return nil
-	},
+	Args:   cobra.ExactArgs(2),
 	PreRun: initConfig,
 	RunE: func(cmd *cobra.Command, args []string) (err error) {
 		defPath, refPath := args[0], args[1]
@@ -53,34 +47,11 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 			refPath = filepath.Join(directory, refPath)
 		}
 
-		var defFile, refFile *os.File
-		if defFile, err = os.OpenFile(defPath, os.O_RDWR, os.ModePerm); err != nil {
-			return err
-		}
-		if refFile, err = os.OpenFile(refPath, os.O_RDWR, os.ModePerm); err != nil {
-			return err
-		}
-		defer defFile.Close()
-		defer refFile.Close()
-
-		var outWriter io.Writer
-		if outputPath == "-" {
-			outWriter = os.Stdout
-		} else {
-			var file *os.File
-			file, err = os.OpenFile(outputPath, os.O_TRUNC|os.O_CREATE|os.O_WRONLY, os.ModePerm)
-			if err != nil {
-				return err
-			}
-			defer file.Close()
-			outWriter = file
-		}
-
 		var def, ref *po.File
-		if def, err = parse.PoFromFile(defFile); err != nil {
+		if def, err = parse.Po(defPath); err != nil {
 			return err
 		}
-		if ref, err = parse.PoFromFile(refFile); err != nil {
+		if ref, err = parse.Po(refPath); err != nil {
 			return err
 		}
 
@@ -97,27 +68,48 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 			ref.Entries = ref.Solve()
 		}
 
+		out := &po.File{
+			Name:    outputPath,
+			Entries: po.MergeWithConfig(mergeCfg, def.Entries, ref.Entries),
+		}
+
+		// Don't touch any file until everything is done.
+		var content bytes.Buffer
+		if err = compile.PoToWriter(out, &content, compile.PoWithConfig(compilerCfg)); err != nil {
+			return err
+		}
+
 		if update {
-			// Reset and truncate defFile
-			if _, err := defFile.Seek(0, 0); err != nil {
+			if err = updateFile(defPath, content.Bytes()); err != nil {
 				return err
 			}
-			if err := defFile.Truncate(0); err != nil {
-				return err
+			if outputPath == "-" {
+				return nil
 			}
-
-			outWriter = io.MultiWriter(defFile, outWriter)
 		}
 
-		out := &po.File{
-			Name:    outputPath,
-			Entries: po.MergeWithConfig(mergeCfg, def.Entries, ref.Entries),
+		if outputPath == "-" {
+			_, err = os.Stdout.Write(content.Bytes())
+			return err
 		}
 
-		return compile.PoToWriter(out, outWriter, compile.PoWithConfig(compilerCfg))
+		return os.WriteFile(outputPath, content.Bytes(), os.ModePerm)
 	},
 }
 
+// updateFile does nothing if the file is already up to date.
+func updateFile(path string, content []byte) error {
+	old, err := os.ReadFile(path)
+	if err != nil {
+		return err
+	}
+	if bytes.Equal(old, content) {
+		return nil
+	}
+
+	return os.WriteFile(path, content, os.ModePerm)
+}
+
 func Execute() {
 	err := root.Execute()
 	if err != nil {
-- 
2.43.0


From 314ae6351b18c4179875275edc8a1ca6dd6718ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:00 +0000
Subject: [PATCH 51/89] fix: msgomerge keeps the header

---
 cli/msgomerge/cmd/config.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cli/msgomerge/cmd/config.go b/cli/msgomerge/cmd/config.go
index 04b9c55..2a83ff3 100644
--- a/cli/msgomerge/cmd/config.go
+++ b/cli/msgomerge/cmd/config.go
@@ -22,7 +22,6 @@ func initConfig(cmd *cobra.Command, args []string) {
 		AddLocation: compile.PoLocationMode(addLocation),
 		WordWrap:    !noWrap,
 		ForcePo:     forcePo,
-		OmitHeader:  true,
 		Verbose:     verbose,
 		Logger:      log.Default(),
 	}
-- 
2.43.0


From c0fbe95f1eeb6908fe0c28b88c5d50767333e95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 52/89] fix: msgomerge takes translations from the compendiums
 instead of adding their messages

---
 cli/msgomerge/cmd/compendium.go | 55 +++++++++++++++++++++++++++++++++
 cli/msgomerge/cmd/root.go       |  5 +--
 2 files changed, 56 insertions(+), 4 deletions(-)
 create mode 100644 cli/msgomerge/cmd/compendium.go

diff --git a/cli/msgomerge/cmd/compendium.go b/cli/msgomerge/cmd/compendium.go
new file mode 100644
index 0000000..5d25f55
--- /dev/null
+++ b/cli/msgomerge/cmd/compendium.go
@@ -0,0 +1,55 @@
+package cmd
+
+import (
+	"github.com/Tom5521/gotext-tools/v2/pkg/po"
+)
+
+// applyCompendium translates the messages of ref that def doesn't translate
+// with the ones of the compendium, which doesn't add messages.
+func applyCompendium(def, ref, compendium po.Entries) {
+	translations := make(map[string]po.Entry, len(compendium))
+	for _, entry := range compendium {
+		if !entry.IsHeader() && !entry.Obsolete && isTranslated(entry) {
+			translations[entry.UnifiedID()] = entry
+		}
+	}
+
+	defIndex := make(map[string]int, len(def))
+	for i, entry := range def {
+		defIndex[entry.UnifiedID()] = i
+	}
+
+	for i := range ref {
+		translation, ok := translations[ref[i].UnifiedID()]
+		if !ok || translation.IsPlural() != ref[i].IsPlural() {
+			continue
+		}
+
+		entry := &ref[i]
+		if index, ok := defIndex[entry.UnifiedID()]; ok {
+			entry = &def[index]
+		}
+		if isTranslated(*entry) || translation.IsPlural() != entry.IsPlural() {
+			continue
+		}
+
+		entry.Str = translation.Str
+		entry.Plurals = translation.Plurals
+		if translation.IsFuzzy() && !entry.IsFuzzy() {
+			entry.Flags = append(entry.Flags, "fuzzy")
+		}
+	}
+}
+
+func isTranslated(entry po.Entry) bool {
+	if entry.IsPlural() {
+		for _, plural := range entry.Plurals {
+			if plural.Str != "" {
+				return true
+			}
+		}
+		return false
+	}
+
+	return entry.Str != ""
+}
diff --git a/cli/msgomerge/cmd/root.go b/cli/msgomerge/cmd/root.go
index 571e4f2..08c8f11 100644
--- a/cli/msgomerge/cmd/root.go
+++ b/cli/msgomerge/cmd/root.go
@@ -62,10 +62,7 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 			if err != nil {
 				return err
 			}
-			ref.Entries = append(ref.Entries, c.Entries...)
-		}
-		if len(compendium) > 0 {
-			ref.Entries = ref.Solve()
+			applyCompendium(def.Entries, ref.Entries, c.Entries)
 		}
 
 		out := &po.File{
-- 
2.43.0


From e1434bfcc1b12e10d5fc175dae076fd051efbb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:03 +0000
Subject: [PATCH 53/89] fix: msgomerge sets the language of the header with
 --lang

---
 cli/msgomerge/cmd/root.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cli/msgomerge/cmd/root.go b/cli/msgomerge/cmd/root.go
index 08c8f11..27829dc 100644
--- a/cli/msgomerge/cmd/root.go
+++ b/cli/msgomerge/cmd/root.go
@@ -70,6 +70,10 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 			Entries: po.MergeWithConfig(mergeCfg, def.Entries, ref.Entries),
 		}
 
+		if cmd.Flags().Changed("lang") {
+			setLanguage(out.Entries, lang)
+		}
+
 		// Don't touch any file until everything is done.
 		var content bytes.Buffer
 		if err = compile.PoToWriter(out, &content, compile.PoWithConfig(compilerCfg)); err != nil {
@@ -94,6 +98,18 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 	},
 }
 
+// setLanguage sets the Language field of the header, if there is one.
+func setLanguage(entries po.Entries, lang string) {
+	index := entries.Index("", "")
+	if index == -1 {
+		return
+	}
+
+	header := entries.HeaderFromIndex(index)
+	header.Set("Language", lang)
+	entries[index].Str = header.ToEntry().Str
+}
+
 // updateFile does nothing if the file is already up to date.
 func updateFile(path string, content []byte) error {
 	old, err := os.ReadFile(path)
-- 
2.43.0


From 3740cda2ce69b95d896f9d7f30ca76a7a7516a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:40 +0000
Subject: [PATCH 54/89] fix: msgofmt writes to the standard output if the
 output is -

---
 cli/msgofmt/cmd/root.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/msgofmt/cmd/root.go b/cli/msgofmt/cmd/root.go
index 64dc529..a499ffc 100644
--- a/cli/msgofmt/cmd/root.go
+++ b/cli/msgofmt/cmd/root.go
@@ -38,7 +38,9 @@ If input file is -, standard input is read.`,
 	},
 	RunE: func(cmd *cobra.Command, args []string) (err error) {
 		if directory != "" {
-			output = filepath.Join(directory, output)
+			if output != "-" {
+				output = filepath.Join(directory, output)
+			}
 			for i, v := range args {
 				if v == "-" {
 					continue
@@ -105,6 +107,9 @@ If input file is -, standard input is read.`,
 			return
 		}
 
+		if output == "-" {
+			return compile.MoToWriter(allEntries, os.Stdout, compile.MoWithConfig(compilerCfg))
+		}
 		return compile.MoToFile(allEntries, output, compile.MoWithConfig(compilerCfg))
 	},
 }
-- 
2.43.0


From fbdc137b0d6d0c25015fc502e9e3a379125750c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 55/89] fix: msgofmt --directory compiles the given files, or
 the PO files of the directory with the given options

---
 cli/msgofmt/cmd/root.go | 68 +++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 36 deletions(-)

diff --git a/cli/msgofmt/cmd/root.go b/cli/msgofmt/cmd/root.go
index a499ffc..b8a6576 100644
--- a/cli/msgofmt/cmd/root.go
+++ b/cli/msgofmt/cmd/root.go
@@ -47,42 +47,8 @@ If input file is -, standard input is read.`,
 				}
 				args[i] = filepath.Join(directory, v)
 			}
-			if len(args) >= 0 {
-				var entries []os.DirEntry
-				entries, err = os.ReadDir(directory)
-				if err != nil {
-					return
-				}
-				if len(args) > 0 {
-					for _, de := range entries {
-						if !de.IsDir() && filepath.Ext(de.Name()) == ".po" {
-							args = append(args, filepath.Join(directory, de.Name()))
-						}
-					}
-				} else {
-					for _, de := range entries {
-						if de.IsDir() {
-							continue
-						}
-						basename := strings.TrimSuffix(de.Name(), filepath.Ext(de.Name()))
-						newMo := filepath.Join(directory, basename+".mo")
-
-						var poFile *po.File
-						poFile, err = parse.Po(filepath.Join(directory, de.Name()))
-						if err != nil {
-							return
-						}
-						if errs := poFile.Validate(); len(errs) > 0 {
-							err = errs[0]
-							return
-						}
-						err = compile.MoToFile(poFile, newMo)
-						if err != nil {
-							return
-						}
-					}
-					return
-				}
+			if len(args) == 0 {
+				return compileDirectory(directory)
 			}
 		}
 
@@ -114,6 +80,36 @@ If input file is -, standard input is read.`,
 	},
 }
 
+// compileDirectory compiles every PO file of the directory.
+func compileDirectory(dir string) error {
+	entries, err := os.ReadDir(dir)
+	if err != nil {
+		return err
+	}
+
+	for _, de := range entries {
+		if de.IsDir() || filepath.Ext(de.Name()) != ".po" {
+			continue
+		}
+
+		poFile, err := parse.Po(filepath.Join(dir, de.Name()))
+		if err != nil {
+			return err
+		}
+		if errs := poFile.Validate(); len(errs) > 0 {
+			return errs[0]
+		}
+
+		newMo := filepath.Join(dir, strings.TrimSuffix(de.Name(), ".po")+".mo")
+		err = compile.MoToFile(poFile, newMo, compile.MoWithConfig(compilerCfg))
+		if err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
 func Execute() {
 	err := root.Execute()
 	if err != nil {
-- 
2.43.0


From 9496933c20e083e33ccf84fea0f251180dd812c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 56/89] fix: msgofmt and msgounfmt read the standard input
 without arguments

---
 cli/msgofmt/cmd/root.go   | 10 ++++------
 cli/msgounfmt/cmd/root.go |  4 +++-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/cli/msgofmt/cmd/root.go b/cli/msgofmt/cmd/root.go
index b8a6576..4c37279 100644
--- a/cli/msgofmt/cmd/root.go
+++ b/cli/msgofmt/cmd/root.go
@@ -22,12 +22,6 @@ var root = &cobra.Command{
 Mandatory arguments to long options are mandatory for short options too.
 Similarly for optional arguments.
 If input file is -, standard input is read.`,
-	Args: func(cmd *cobra.Command, args []string) error {
-		if directory != "" {
-			return nil
-		}
-		return cobra.MinimumNArgs(1)(cmd, args)
-	},
 	Example: fmt.Sprintf(`%s -o my-messages.mo - < my-file.po
 %s es.po -o es.mo
 %s -D domains/es -f
@@ -52,6 +46,10 @@ If input file is -, standard input is read.`,
 			}
 		}
 
+		if len(args) == 0 {
+			args = []string{"-"}
+		}
+
 		var allEntries po.Entries
 		opts := []parse.PoOption{parse.PoWithCleanDuplicates(false)}
 		for _, arg := range args {
diff --git a/cli/msgounfmt/cmd/root.go b/cli/msgounfmt/cmd/root.go
index f725082..fedab43 100644
--- a/cli/msgounfmt/cmd/root.go
+++ b/cli/msgounfmt/cmd/root.go
@@ -25,11 +25,13 @@ Input file location:
   FILE ...                    input .mo files
 If no input file is given or if it is -, standard input is read.`,
 	PreRunE: initCfg,
-	Args:    cobra.MinimumNArgs(1),
 	RunE: func(cmd *cobra.Command, args []string) error {
 		file := &po.File{
 			Name: "input.mo",
 		}
+		if len(args) == 0 {
+			args = []string{"-"}
+		}
 		for _, arg := range args {
 			var f *po.File
 			var err error
-- 
2.43.0


From 7f25b48d318bffe3599b1bdda7d8033119ae3269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 57/89] fix: msgocat reads the list of files of --files-from

---
 cli/msgocat/cmd/parse.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cli/msgocat/cmd/parse.go b/cli/msgocat/cmd/parse.go
index 9c107de..370853e 100644
--- a/cli/msgocat/cmd/parse.go
+++ b/cli/msgocat/cmd/parse.go
@@ -22,8 +22,11 @@ func expandArgsWithFiles(args []string) ([]string, error) {
 		return nil, err
 	}
 
-	if len(filesFromContent) > 0 {
-		filesFromContent = strings.Split(string(filesFromBinContent), "\n")
+	for _, line := range strings.Split(string(filesFromBinContent), "\n") {
+		line = strings.TrimSuffix(line, "\r")
+		if line != "" {
+			filesFromContent = append(filesFromContent, line)
+		}
 	}
 
 	var directoryContent []string
-- 
2.43.0


From 919e1e8cf895095f1d4d3270aef6e4483cb62bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:12 +0000
Subject: [PATCH 58/89] fix: comparing line numbers and plural ids doesn't
 overflow

---
 pkg/po/cmp.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/po/cmp.go b/pkg/po/cmp.go
index 8f431c9..c49227c 100644
--- a/pkg/po/cmp.go
+++ b/pkg/po/cmp.go
@@ -150,7 +150,7 @@ func ComparePluralEntryByStr(a, b PluralEntry) int {
 
 // ComparePluralEntryByID compares two plural entries by their numeric IDs.
 func ComparePluralEntryByID(a, b PluralEntry) int {
-	return a.ID - b.ID
+	return compareInt(a.ID, b.ID)
 }
 
 // CompareLocationsFunc compares two slices of locations using the given comparison function.
@@ -168,7 +168,19 @@ func CompareLocation(a, b Location) int {
 
 // CompareLocationByLine compares two locations by line number.
 func CompareLocationByLine(a, b Location) int {
-	return a.Line - b.Line
+	return compareInt(a.Line, b.Line)
+}
+
+// compareInt compares two integers, their difference could overflow.
+func compareInt(a, b int) int {
+	switch {
+	case a < b:
+		return -1
+	case a > b:
+		return 1
+	default:
+		return 0
+	}
 }
 
 // CompareLocationByFile compares two locations by cleaned file path string.
-- 
2.43.0


From 2e0f2a8cd7d00a3bb01d9d379cd7258aedfd1b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:08 +0000
Subject: [PATCH 59/89] fix: all the flags of a message are written on one line

---
 pkg/po/compile/po_compiler_format.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 15aaf4d..9d6b31b 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -246,14 +246,14 @@ func (eb *entryBuilder) referenceComment() string {
 	return b.String()
 }
 
+// flagComment writes all the flags on one line, in the gettext tools
+// every flag line replaces the previous one.
 func (eb *entryBuilder) flagComment() string {
-	var comments string
-	for _, f := range eb.Flags {
-		comment := fmt.Sprintf("#, %s\n", f)
-		comments += comment
+	if len(eb.Flags) == 0 {
+		return ""
 	}
 
-	return comments
+	return "#, " + strings.Join(eb.Flags, ", ") + "\n"
 }
 
 func (eb *entryBuilder) previousComment() string {
-- 
2.43.0


From 54ec4c90711c2b1b1bcf0123ae46a36f912767c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:23 +0000
Subject: [PATCH 60/89] fix: a MO file with a truncated hash table is an error

---
 pkg/po/parse/mo_parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index 06add35..47e1488 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -187,6 +187,12 @@ func (m *MoParser) Parse() (file *po.File) {
 		return
 	}
 
+	// The hash table isn't used, but it must be there.
+	if _, err = m.section(u64(header.HashTabOffset), u64(header.HashTabSize)*4); err != nil && header.HashTabSize > 0 {
+		m.error("bad hash table offset(%d): %w", header.HashTabOffset, err)
+		return
+	}
+
 	entries, err := m.makeEntries(msgIDStart, msgIDLen, msgStrStart, msgStrLen)
 	if err != nil {
 		m.error("%w", err)
-- 
2.43.0


From f6489bb0643a6c58483cadfec75e5095471797ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:36 +0000
Subject: [PATCH 61/89] fix: comparing entries by translation is transitive

A singular entry was equal to every plural entry that has the same Str, though
the plural ones differed from each other.
---
 go.sum        | 3 +++
 pkg/po/cmp.go | 8 +++-----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/go.sum b/go.sum
index 92426d6..cb000c3 100644
--- a/go.sum
+++ b/go.sum
@@ -4,6 +4,7 @@ github.com/alecthomas/participle/v2 v2.1.4/go.mod h1:8tqVbpTX20Ru4NfYQgZf4mP18eX
 github.com/alecthomas/repr v0.4.0 h1:GhI2A8MACjfegCPVq9f1FLvIBS+DrQ2KQBFZP1iFzXc=
 github.com/davecgh/go-spew v0.0.0-20161028175848-04cdfd42973b/go.mod h1:J7Y8YcW2NihsgmVo/mv3lAwl/skON4iLHjSsI+c5H38=
 github.com/davecgh/go-spew v1.1.1 h1:vj9j/u1bqnvCEfJOwUhtlOARqs3+rkHYY13jYWTU97c=
+github.com/davecgh/go-spew v1.1.1/go.mod h1:J7Y8YcW2NihsgmVo/mv3lAwl/skON4iLHjSsI+c5H38=
 github.com/hexops/gotextdiff v1.0.3 h1:gitA9+qJrrTCsiCl7+kh75nPqQt1cx4ZkudSTLoUqJM=
 github.com/kr/fs v0.1.0 h1:Jskdu9ieNAYnjxsi0LbQp1ulIKZV1LAFgK1tWhpZgl8=
 github.com/kr/fs v0.1.0/go.mod h1:FFnZGqtBN9Gxj7eW1uZ42v5BccTP0vu6NEaFoC2HwRg=
@@ -11,6 +12,7 @@ github.com/paul-mannino/go-fuzzywuzzy v0.0.0-20241117160931-a1769aeb6b21 h1:9wRP
 github.com/paul-mannino/go-fuzzywuzzy v0.0.0-20241117160931-a1769aeb6b21/go.mod h1:AMWhKRluACdXhJMWJiVOuqwmZvJOcdmjgbla/9zOKzE=
 github.com/pmezard/go-difflib v0.0.0-20151028094244-d8ed2627bdf0/go.mod h1:iKH77koFhYxTK1pcRnkKkqfTogsbg7gZNVY4sRDYZ/4=
 github.com/pmezard/go-difflib v1.0.0 h1:4DBwDE0NGyQoBHbLQYPwSUPoCMWR5BEzIk/f1lZbAQM=
+github.com/pmezard/go-difflib v1.0.0/go.mod h1:iKH77koFhYxTK1pcRnkKkqfTogsbg7gZNVY4sRDYZ/4=
 github.com/rogpeppe/go-internal v1.9.1-0.20230322174110-50a14409f175 h1:OHgbIoWFlJeVGcsH+qQn34bUXhBk1IuyRloCR4zA7t0=
 github.com/rogpeppe/go-internal v1.9.1-0.20230322174110-50a14409f175/go.mod h1:4Mil7+jMQwl6WAbNNjE/FqNKu9NS0F+BfyOGACbB+EE=
 github.com/sanity-io/litter v1.5.8 h1:uM/2lKrWdGbRXDrIq08Lh9XtVYoeGtcQxk9rtQ7+rYg=
@@ -24,3 +26,4 @@ golang.org/x/exp v0.0.0-20220909182711-5c715a9e8561 h1:MDc5xs78ZrZr3HMQugiXOAkSZ
 golang.org/x/sys v0.30.0 h1:QjkSwP/36a20jFYWkSue1YwXzLmsV5Gfq7Eiy72C1uc=
 golang.org/x/sys v0.30.0/go.mod h1:/VUhepiaJMQUp4+oa/7Zr1D23ma6VTLIYjOOTFZPUcA=
 gopkg.in/yaml.v3 v3.0.1 h1:fxVm/GzAzEWqLHuvctI91KS9hhNmmWOoWu0XTYJS7CA=
+gopkg.in/yaml.v3 v3.0.1/go.mod h1:K4uyk7z7BCEPqu6E+C64Yfv1cQ7kz7rIZviUmN+EgEM=
diff --git a/pkg/po/cmp.go b/pkg/po/cmp.go
index c49227c..c0c53d3 100644
--- a/pkg/po/cmp.go
+++ b/pkg/po/cmp.go
@@ -107,12 +107,10 @@ func CompareEntryByLocation(a, b Entry) int {
 
 // CompareEntryByStr compares entries by their translation strings, including plural forms.
 func CompareEntryByStr(a, b Entry) int {
-	if a.IsPlural() && b.IsPlural() {
-		if i := ComparePluralEntriesFunc(a.Plurals, b.Plurals, ComparePluralEntryByStr); i != 0 {
-			return i
-		}
+	if i := strings.Compare(a.Str, b.Str); i != 0 {
+		return i
 	}
-	return strings.Compare(a.Str, b.Str)
+	return ComparePluralEntriesFunc(a.Plurals, b.Plurals, ComparePluralEntryByStr)
 }
 
 // CompareEntryByLine compares entries by line numbers in their locations.
-- 
2.43.0


From 84f2faa4aed41f85936df2541fcb4c523b30c45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:08 +0000
Subject: [PATCH 62/89] fix: FuzzyFind finds messages without context

The match ratio of two empty strings is zero.
---
 internal/util/equal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/equal.go b/internal/util/equal.go
index 7d77361..4704c31 100644
--- a/internal/util/equal.go
+++ b/internal/util/equal.go
@@ -8,7 +8,7 @@ import (
 )
 
 func FuzzyEqual(x, y string) bool {
-	return fuzzy.Ratio(x, y) >= 80
+	return x == y || fuzzy.Ratio(x, y) >= 80
 }
 
 // visit is a pair of values being compared. The type is necessary because
-- 
2.43.0


From fdebb2c0212cbbb261cae106a1c6365e582d2139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 63/89] fix: merging doesn't mix the plural forms of two
 catalogues

When a translated message became plural, its translation was the first form but
the other ones were those of the reference.
---
 pkg/po/merge.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/po/merge.go b/pkg/po/merge.go
index ba9fb9e..ce57a8f 100644
--- a/pkg/po/merge.go
+++ b/pkg/po/merge.go
@@ -228,6 +228,9 @@ func mergeEntryStrings(target *Entry, source Entry) {
 		if len(target.Plurals) == 0 {
 			target.Plurals = make(PluralEntries, 1)
 		}
+		for i := range target.Plurals {
+			target.Plurals[i].Str = ""
+		}
 		target.Plurals[0].Str = source.Str
 	case !target.IsPlural() && source.IsPlural():
 		if len(source.Plurals) > 0 {
-- 
2.43.0


From 0b273bc7c55c8a47e526e09212db3880e96012c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 64/89] fix: restoring a configuration before applying options
 does nothing

The default configurations saved themselves without the options they were
given, so restoring right after construction dropped those options.
---
 pkg/go/parse/config.go      | 1 +
 pkg/po/compile/mo_config.go | 1 +
 pkg/po/compile/po_config.go | 2 ++
 pkg/po/parse/mo_config.go   | 1 +
 pkg/po/parse/po_config.go   | 1 +
 5 files changed, 6 insertions(+)

diff --git a/pkg/go/parse/config.go b/pkg/go/parse/config.go
index 4903f4d..0d642a9 100644
--- a/pkg/go/parse/config.go
+++ b/pkg/go/parse/config.go
@@ -53,6 +53,7 @@ func DefaultConfig(opts ...Option) Config {
 	for _, opt := range opts {
 		opt(&c)
 	}
+	c.lastCfg = nil // There is no previous configuration.
 
 	return c
 }
diff --git a/pkg/po/compile/mo_config.go b/pkg/po/compile/mo_config.go
index 62fccc3..01617cb 100644
--- a/pkg/po/compile/mo_config.go
+++ b/pkg/po/compile/mo_config.go
@@ -81,6 +81,7 @@ func DefaultMoConfig(opts ...MoOption) MoConfig {
 		SortEntries:   true,
 	}
 	c.ApplyOptions(opts...)
+	c.lastCfg = nil // There is no previous configuration.
 	return c
 }
 
diff --git a/pkg/po/compile/po_config.go b/pkg/po/compile/po_config.go
index 09c48c9..55befda 100644
--- a/pkg/po/compile/po_config.go
+++ b/pkg/po/compile/po_config.go
@@ -56,6 +56,7 @@ func NewPoConfigFromOptions(opts ...PoOption) PoConfig {
 	var config PoConfig
 
 	config.ApplyOptions(opts...)
+	config.lastCfg = nil // There is no previous configuration.
 
 	return config
 }
@@ -98,6 +99,7 @@ func DefaultPoConfig(opts ...PoOption) PoConfig {
 	}
 
 	c.ApplyOptions(opts...)
+	c.lastCfg = nil // There is no previous configuration.
 
 	return c
 }
diff --git a/pkg/po/parse/mo_config.go b/pkg/po/parse/mo_config.go
index e0408b5..515054e 100644
--- a/pkg/po/parse/mo_config.go
+++ b/pkg/po/parse/mo_config.go
@@ -27,6 +27,7 @@ func DefaultMoConfig(opts ...MoOption) MoConfig {
 	mc := MoConfig{}
 
 	mc.ApplyOptions(opts...)
+	mc.lastCfg = nil // There is no previous configuration.
 	return mc
 }
 
diff --git a/pkg/po/parse/po_config.go b/pkg/po/parse/po_config.go
index 4cbaf0e..fa2e7fd 100644
--- a/pkg/po/parse/po_config.go
+++ b/pkg/po/parse/po_config.go
@@ -67,6 +67,7 @@ func DefaultPoConfig(opts ...PoOption) PoConfig {
 		ParseObsoletes:  true,
 	}
 	c.ApplyOptions(opts...)
+	c.lastCfg = nil // There is no previous configuration.
 	return c
 }
 
-- 
2.43.0


From 43739fa29eef477178621fdf75be8837d1f7f28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:36 +0000
Subject: [PATCH 65/89] fix: completing plural forms doesn't write behind the
 input's lists

Appending to an empty list with spare capacity wrote into the array that
the entry of the input shares.
---
 pkg/po/entry.go | 1 +
 pkg/po/merge.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pkg/po/entry.go b/pkg/po/entry.go
index 6ffd288..9cd2685 100644
--- a/pkg/po/entry.go
+++ b/pkg/po/entry.go
@@ -65,6 +65,7 @@ func (e *Entry) adoptPlural(x Entry) {
 		return
 	}
 	e.toPlural(x.Plural)
+	e.Plurals = slices.Clip(e.Plurals)
 	for _, pe := range x.Plurals {
 		if len(e.Plurals) == 0 || pe.ID != e.Plurals[0].ID {
 			e.Plurals = append(e.Plurals, pe)
diff --git a/pkg/po/merge.go b/pkg/po/merge.go
index ce57a8f..d1727d6 100644
--- a/pkg/po/merge.go
+++ b/pkg/po/merge.go
@@ -147,6 +147,7 @@ func mergeRef(config MergeConfig, entry *Entry, def Entries, nplurals int) {
 		}
 	}
 	if entry.IsPlural() && len(entry.Plurals) == 0 {
+		entry.Plurals = slices.Clip(entry.Plurals)
 		for i := 0; i < nplurals; i++ {
 			entry.Plurals = append(entry.Plurals, PluralEntry{ID: i})
 		}
-- 
2.43.0


From 2888788371d69d9deb2720de6a55f75df56858e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:24 +0000
Subject: [PATCH 66/89] fix: recognise a gotext import whose path is a raw
 string

---
 pkg/go/parse/file.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/go/parse/file.go b/pkg/go/parse/file.go
index 9f3fce4..3707710 100644
--- a/pkg/go/parse/file.go
+++ b/pkg/go/parse/file.go
@@ -9,6 +9,7 @@ import (
 	"go/token"
 	"io"
 	"os"
+	"strconv"
 
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
 )
@@ -137,8 +138,10 @@ func (f *File) parse() error {
 // determinePackageInfo analyzes the file's AST to extract package-related information.
 // It determines the package name and checks if the desired "gotext" package is imported.
 func (f *File) determinePackageInfo() {
+	wanted, _ := strconv.Unquote(WantedImport)
 	for _, imp := range f.file.Imports {
-		if imp.Path.Value == WantedImport {
+		// The path can also be a raw string.
+		if path, err := strconv.Unquote(imp.Path.Value); err == nil && path == wanted {
 			f.hasGotext = true
 			if imp.Name != nil {
 				f.pkgName = imp.Name.String()
-- 
2.43.0


From 4e92672f4b4a249c842fed851562b5381a74b1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:25 +0000
Subject: [PATCH 67/89] fix: a variable that hides the gotext package isn't the
 package

---
 pkg/go/parse/process.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/go/parse/process.go b/pkg/go/parse/process.go
index 155aa32..063126f 100644
--- a/pkg/go/parse/process.go
+++ b/pkg/go/parse/process.go
@@ -45,8 +45,9 @@ func (f *File) isGotextCall(n ast.Node) bool {
 		return false
 	}
 
+	// A local declaration can hide the package.
 	ident, ok := selectorExpr.X.(*ast.Ident)
-	if !ok || ident.Name != f.pkgName {
+	if !ok || ident.Name != f.pkgName || ident.Obj != nil {
 		return false
 	}
 
-- 
2.43.0


From 7a90ef797fd03be9042a769377f97ffc8a69b100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:26 +0000
Subject: [PATCH 68/89] fix: extract calls and arguments in parentheses

---
 pkg/go/parse/process.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/pkg/go/parse/process.go b/pkg/go/parse/process.go
index 063126f..4a42c1e 100644
--- a/pkg/go/parse/process.go
+++ b/pkg/go/parse/process.go
@@ -33,6 +33,17 @@ var translationMethods = map[string]translationMethod{
 	}, // (dom string, str string, plural string, n int, ctx string, vars ...interface{})
 }
 
+// unparen returns the expression without the parentheses around it.
+func unparen(e ast.Expr) ast.Expr {
+	for {
+		paren, ok := e.(*ast.ParenExpr)
+		if !ok {
+			return e
+		}
+		e = paren.X
+	}
+}
+
 // isGotextCall checks if an AST node represents a gotext GET function call.
 func (f *File) isGotextCall(n ast.Node) bool {
 	callExpr, ok := n.(*ast.CallExpr)
@@ -40,13 +51,13 @@ func (f *File) isGotextCall(n ast.Node) bool {
 		return false
 	}
 
-	selectorExpr, ok := callExpr.Fun.(*ast.SelectorExpr)
+	selectorExpr, ok := unparen(callExpr.Fun).(*ast.SelectorExpr)
 	if !ok {
 		return false
 	}
 
 	// A local declaration can hide the package.
-	ident, ok := selectorExpr.X.(*ast.Ident)
+	ident, ok := unparen(selectorExpr.X).(*ast.Ident)
 	if !ok || ident.Name != f.pkgName || ident.Obj != nil {
 		return false
 	}
@@ -87,7 +98,7 @@ func (f *File) extractArg(index int, call *ast.CallExpr) (a argumentData) {
 	}
 	if index >= len(call.Args) && len(call.Args) == 1 {
 		// The results of a call can be all the arguments: Get(f())
-		if _, ok := call.Args[0].(*ast.CallExpr); ok {
+		if _, ok := unparen(call.Args[0]).(*ast.CallExpr); ok {
 			return
 		}
 	}
@@ -95,7 +106,7 @@ func (f *File) extractArg(index int, call *ast.CallExpr) (a argumentData) {
 		a.err = f.error("index (%d) out of range", index)
 		return
 	}
-	lit, ok := call.Args[index].(*ast.BasicLit)
+	lit, ok := unparen(call.Args[index]).(*ast.BasicLit)
 	if !ok {
 		return
 	}
@@ -123,7 +134,7 @@ func (f *File) extractArg(index int, call *ast.CallExpr) (a argumentData) {
 func (f *File) processPoCall(
 	call *ast.CallExpr,
 ) (entry po.Entry, valid bool, err error) {
-	selector, _ := call.Fun.(*ast.SelectorExpr)
+	selector, _ := unparen(call.Fun).(*ast.SelectorExpr)
 	method := translationMethods[selector.Sel.Name]
 
 	args := []argumentData{
@@ -136,7 +147,7 @@ func (f *File) processPoCall(
 		// These literals are not messages on their own.
 		for _, i := range []int{method.ID, method.Context, method.Plural} {
 			if i >= 0 && i < len(call.Args) {
-				f.seenNodes[call.Args[i]] = struct{}{}
+				f.seenNodes[unparen(call.Args[i])] = struct{}{}
 			}
 		}
 	}
-- 
2.43.0


From 0036d678e676bc983d55f52ef28bf9b62852185b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:43 +0000
Subject: [PATCH 69/89] fix: recognise every name under which a file imports
 gotext

---
 pkg/go/parse/file.go    | 21 +++++++++++----------
 pkg/go/parse/process.go |  5 ++++-
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/pkg/go/parse/file.go b/pkg/go/parse/file.go
index 3707710..2c86499 100644
--- a/pkg/go/parse/file.go
+++ b/pkg/go/parse/file.go
@@ -31,9 +31,9 @@ type File struct {
 	seenNodes map[ast.Node]struct{}
 	file      *ast.File // The parsed abstract syntax tree (AST) of the file.
 	reader    *bytes.Reader
-	name      string // The path to the file.
-	pkgName   string // The name of the package declared in the file.
-	hasGotext bool   // Indicates if the file imports the desired "gotext" package.
+	name      string              // The path to the file.
+	pkgNames  map[string]struct{} // The names under which the file imports "gotext".
+	hasGotext bool                // Indicates if the file imports the desired "gotext" package.
 
 	errors []error
 }
@@ -59,7 +59,7 @@ func (f *File) error(format string, a ...any) error {
 func (f *File) Reset(d io.Reader, name string, config *Config) error {
 	f.seenNodes = nil
 	f.errors = nil
-	f.pkgName = DefaultPackageName
+	f.pkgNames = nil
 	f.hasGotext = false
 
 	if r, ok := d.(*bytes.Reader); ok {
@@ -90,10 +90,9 @@ func (f *File) Reset(d io.Reader, name string, config *Config) error {
 
 func NewFileFromBytes(b []byte, name string, config *Config) (*File, error) {
 	file := &File{
-		reader:  bytes.NewReader(b),
-		name:    name,
-		pkgName: DefaultPackageName,
-		config:  config,
+		reader: bytes.NewReader(b),
+		name:   name,
+		config: config,
 	}
 
 	if err := file.parse(); err != nil {
@@ -138,15 +137,17 @@ func (f *File) parse() error {
 // determinePackageInfo analyzes the file's AST to extract package-related information.
 // It determines the package name and checks if the desired "gotext" package is imported.
 func (f *File) determinePackageInfo() {
+	f.pkgNames = make(map[string]struct{})
 	wanted, _ := strconv.Unquote(WantedImport)
 	for _, imp := range f.file.Imports {
 		// The path can also be a raw string.
 		if path, err := strconv.Unquote(imp.Path.Value); err == nil && path == wanted {
 			f.hasGotext = true
+			name := DefaultPackageName
 			if imp.Name != nil {
-				f.pkgName = imp.Name.String()
+				name = imp.Name.String()
 			}
-			break
+			f.pkgNames[name] = struct{}{}
 		}
 	}
 }
diff --git a/pkg/go/parse/process.go b/pkg/go/parse/process.go
index 4a42c1e..8d73952 100644
--- a/pkg/go/parse/process.go
+++ b/pkg/go/parse/process.go
@@ -58,7 +58,10 @@ func (f *File) isGotextCall(n ast.Node) bool {
 
 	// A local declaration can hide the package.
 	ident, ok := unparen(selectorExpr.X).(*ast.Ident)
-	if !ok || ident.Name != f.pkgName || ident.Obj != nil {
+	if !ok || ident.Obj != nil {
+		return false
+	}
+	if _, ok = f.pkgNames[ident.Name]; !ok {
 		return false
 	}
 
-- 
2.43.0


From 8df6ad6979213ef9b4bbd6f621d1221782f6c7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:00 +0000
Subject: [PATCH 70/89] fix: report a plural message without msgstr

---
 internal/util/po_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/po_parse.go b/internal/util/po_parse.go
index 5c62045..cc47629 100644
--- a/internal/util/po_parse.go
+++ b/internal/util/po_parse.go
@@ -20,7 +20,7 @@ type (
 		ID          []string        `Msgid @String+`
 		Str         []string        `(Msgstr @String+`
 		MsgidPlural []string        `| (MsgidPlural @String+`
-		Plurals     []pluralEntries `@@*))`
+		Plurals     []pluralEntries `@@+))`
 	}
 
 	pluralEntries struct {
-- 
2.43.0


From 2404f055732e928b04e84efafe4a6b1b621cf118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:01 +0000
Subject: [PATCH 71/89] fix: report a msgctxt without message at the end of the
 data

---
 pkg/po/parse/po_parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index 36f8dad..5e506a5 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -319,6 +319,12 @@ func (p *PoParser) Parse() *po.File {
 		return nil
 	}
 
+	// A msgctxt at the end of the data would be taken for the one of the marker
+	if len(pFile.Entries[len(pFile.Entries)-1].Context) > 0 {
+		p.error("unexpected end of data after msgctxt")
+		return nil
+	}
+
 	// Remove the temporary marker entry
 	pFile.Entries = slices.Delete(pFile.Entries, len(pFile.Entries)-1, len(pFile.Entries))
 
-- 
2.43.0


From 69ef5b4da328060195728dc60f052ef6f49dd2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:27 +0000
Subject: [PATCH 72/89] restore go.sum

---
 go.sum | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/go.sum b/go.sum
index cb000c3..92426d6 100644
--- a/go.sum
+++ b/go.sum
@@ -4,7 +4,6 @@ github.com/alecthomas/participle/v2 v2.1.4/go.mod h1:8tqVbpTX20Ru4NfYQgZf4mP18eX
 github.com/alecthomas/repr v0.4.0 h1:GhI2A8MACjfegCPVq9f1FLvIBS+DrQ2KQBFZP1iFzXc=
 github.com/davecgh/go-spew v0.0.0-20161028175848-04cdfd42973b/go.mod h1:J7Y8YcW2NihsgmVo/mv3lAwl/skON4iLHjSsI+c5H38=
 github.com/davecgh/go-spew v1.1.1 h1:vj9j/u1bqnvCEfJOwUhtlOARqs3+rkHYY13jYWTU97c=
-github.com/davecgh/go-spew v1.1.1/go.mod h1:J7Y8YcW2NihsgmVo/mv3lAwl/skON4iLHjSsI+c5H38=
 github.com/hexops/gotextdiff v1.0.3 h1:gitA9+qJrrTCsiCl7+kh75nPqQt1cx4ZkudSTLoUqJM=
 github.com/kr/fs v0.1.0 h1:Jskdu9ieNAYnjxsi0LbQp1ulIKZV1LAFgK1tWhpZgl8=
 github.com/kr/fs v0.1.0/go.mod h1:FFnZGqtBN9Gxj7eW1uZ42v5BccTP0vu6NEaFoC2HwRg=
@@ -12,7 +11,6 @@ github.com/paul-mannino/go-fuzzywuzzy v0.0.0-20241117160931-a1769aeb6b21 h1:9wRP
 github.com/paul-mannino/go-fuzzywuzzy v0.0.0-20241117160931-a1769aeb6b21/go.mod h1:AMWhKRluACdXhJMWJiVOuqwmZvJOcdmjgbla/9zOKzE=
 github.com/pmezard/go-difflib v0.0.0-20151028094244-d8ed2627bdf0/go.mod h1:iKH77koFhYxTK1pcRnkKkqfTogsbg7gZNVY4sRDYZ/4=
 github.com/pmezard/go-difflib v1.0.0 h1:4DBwDE0NGyQoBHbLQYPwSUPoCMWR5BEzIk/f1lZbAQM=
-github.com/pmezard/go-difflib v1.0.0/go.mod h1:iKH77koFhYxTK1pcRnkKkqfTogsbg7gZNVY4sRDYZ/4=
 github.com/rogpeppe/go-internal v1.9.1-0.20230322174110-50a14409f175 h1:OHgbIoWFlJeVGcsH+qQn34bUXhBk1IuyRloCR4zA7t0=
 github.com/rogpeppe/go-internal v1.9.1-0.20230322174110-50a14409f175/go.mod h1:4Mil7+jMQwl6WAbNNjE/FqNKu9NS0F+BfyOGACbB+EE=
 github.com/sanity-io/litter v1.5.8 h1:uM/2lKrWdGbRXDrIq08Lh9XtVYoeGtcQxk9rtQ7+rYg=
@@ -26,4 +24,3 @@ golang.org/x/exp v0.0.0-20220909182711-5c715a9e8561 h1:MDc5xs78ZrZr3HMQugiXOAkSZ
 golang.org/x/sys v0.30.0 h1:QjkSwP/36a20jFYWkSue1YwXzLmsV5Gfq7Eiy72C1uc=
 golang.org/x/sys v0.30.0/go.mod h1:/VUhepiaJMQUp4+oa/7Zr1D23ma6VTLIYjOOTFZPUcA=
 gopkg.in/yaml.v3 v3.0.1 h1:fxVm/GzAzEWqLHuvctI91KS9hhNmmWOoWu0XTYJS7CA=
-gopkg.in/yaml.v3 v3.0.1/go.mod h1:K4uyk7z7BCEPqu6E+C64Yfv1cQ7kz7rIZviUmN+EgEM=
-- 
2.43.0


From 682e6a885cdec6630fcc44e7f0d8a6b4e87e2ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:04 +0000
Subject: [PATCH 73/89] fix: a failed write leaves the existing output file of
 a tool as it was

---
 cli/msgocat/cmd/run.go      | 36 ++++++++++++++++++++----------------
 cli/msgofmt/cmd/root.go     | 21 +++++++++++++++++++--
 cli/msgomerge/cmd/root.go   |  5 +++--
 cli/msgounfmt/cmd/root.go   | 11 ++++++++++-
 cli/xgotext/cmd/output.go   |  4 +++-
 internal/util/write_file.go | 21 +++++++++++++++++++++
 6 files changed, 76 insertions(+), 22 deletions(-)
 create mode 100644 internal/util/write_file.go

diff --git a/cli/msgocat/cmd/run.go b/cli/msgocat/cmd/run.go
index 2dadb84..57860dd 100644
--- a/cli/msgocat/cmd/run.go
+++ b/cli/msgocat/cmd/run.go
@@ -1,10 +1,11 @@
 package cmd
 
 import (
+	"bytes"
 	"fmt"
-	"io"
 	"os"
 
+	"github.com/Tom5521/gotext-tools/v2/internal/util"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
@@ -70,23 +71,26 @@ func run(cmd *cobra.Command, args []string) error {
 	if sortByFile {
 		mergedFiles = mergedFiles.SortFunc(po.CompareEntryByFile)
 	}
-	var out io.Writer
+	var out bytes.Buffer
 
-	if output == "-" {
-		out = os.Stdout
-	} else {
-		var fileRef *os.File
-		fileRef, err = os.OpenFile(output, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o600)
-		if err != nil {
-			return fmt.Errorf("error openning output file %s: %w", output, err)
-		}
-		defer fileRef.Close()
-		out = fileRef
-	}
-
-	return compile.PoToWriter(
+	err = compile.PoToWriter(
 		mergedFiles,
-		out,
+		&out,
 		compile.PoWithConfig(compilerCfg),
 	)
+	if err != nil {
+		return err
+	}
+
+	if output == "-" {
+		_, err = os.Stdout.Write(out.Bytes())
+		return err
+	}
+
+	err = util.WriteFile(output, out.Bytes(), 0o600)
+	if err != nil {
+		return fmt.Errorf("error writing output file %s: %w", output, err)
+	}
+
+	return nil
 }
diff --git a/cli/msgofmt/cmd/root.go b/cli/msgofmt/cmd/root.go
index 4c37279..a831486 100644
--- a/cli/msgofmt/cmd/root.go
+++ b/cli/msgofmt/cmd/root.go
@@ -1,11 +1,13 @@
 package cmd
 
 import (
+	"bytes"
 	"fmt"
 	"os"
 	"path/filepath"
 	"strings"
 
+	"github.com/Tom5521/gotext-tools/v2/internal/util"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
@@ -74,10 +76,25 @@ If input file is -, standard input is read.`,
 		if output == "-" {
 			return compile.MoToWriter(allEntries, os.Stdout, compile.MoWithConfig(compilerCfg))
 		}
-		return compile.MoToFile(allEntries, output, compile.MoWithConfig(compilerCfg))
+		return writeMo(&po.File{Entries: allEntries}, output)
 	},
 }
 
+// writeMo writes the binary file, which must not exist unless it's forced.
+func writeMo(file *po.File, path string) error {
+	if !force {
+		return compile.MoToFile(file, path, compile.MoWithConfig(compilerCfg))
+	}
+
+	var content bytes.Buffer
+	err := compile.MoToWriter(file, &content, compile.MoWithConfig(compilerCfg))
+	if err != nil {
+		return err
+	}
+
+	return util.WriteFile(path, content.Bytes(), 0o600)
+}
+
 // compileDirectory compiles every PO file of the directory.
 func compileDirectory(dir string) error {
 	entries, err := os.ReadDir(dir)
@@ -99,7 +116,7 @@ func compileDirectory(dir string) error {
 		}
 
 		newMo := filepath.Join(dir, strings.TrimSuffix(de.Name(), ".po")+".mo")
-		err = compile.MoToFile(poFile, newMo, compile.MoWithConfig(compilerCfg))
+		err = writeMo(poFile, newMo)
 		if err != nil {
 			return err
 		}
diff --git a/cli/msgomerge/cmd/root.go b/cli/msgomerge/cmd/root.go
index 27829dc..eb03209 100644
--- a/cli/msgomerge/cmd/root.go
+++ b/cli/msgomerge/cmd/root.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"path/filepath"
 
+	"github.com/Tom5521/gotext-tools/v2/internal/util"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
@@ -94,7 +95,7 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 			return err
 		}
 
-		return os.WriteFile(outputPath, content.Bytes(), os.ModePerm)
+		return util.WriteFile(outputPath, content.Bytes(), os.ModePerm)
 	},
 }
 
@@ -120,7 +121,7 @@ func updateFile(path string, content []byte) error {
 		return nil
 	}
 
-	return os.WriteFile(path, content, os.ModePerm)
+	return util.WriteFile(path, content, os.ModePerm)
 }
 
 func Execute() {
diff --git a/cli/msgounfmt/cmd/root.go b/cli/msgounfmt/cmd/root.go
index fedab43..9820f3c 100644
--- a/cli/msgounfmt/cmd/root.go
+++ b/cli/msgounfmt/cmd/root.go
@@ -1,8 +1,10 @@
 package cmd
 
 import (
+	"bytes"
 	"os"
 
+	"github.com/Tom5521/gotext-tools/v2/internal/util"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
@@ -59,9 +61,16 @@ If no input file is given or if it is -, standard input is read.`,
 
 		if output == "-" {
 			return compile.PoToWriter(file, os.Stdout, compile.PoWithConfig(compilerCfg))
-		} else {
+		}
+		if !forcePo {
 			return compile.PoToFile(file, output, compile.PoWithConfig(compilerCfg))
 		}
+
+		var content bytes.Buffer
+		if err := compile.PoToWriter(file, &content, compile.PoWithConfig(compilerCfg)); err != nil {
+			return err
+		}
+		return util.WriteFile(output, content.Bytes(), 0o600)
 	},
 }
 
diff --git a/cli/xgotext/cmd/output.go b/cli/xgotext/cmd/output.go
index d66c341..6104207 100644
--- a/cli/xgotext/cmd/output.go
+++ b/cli/xgotext/cmd/output.go
@@ -3,6 +3,8 @@ package cmd
 import (
 	"os"
 	"path/filepath"
+
+	"github.com/Tom5521/gotext-tools/v2/internal/util"
 )
 
 // outputPath returns the path of the output file, or "-" for the standard output.
@@ -26,5 +28,5 @@ func writeOutput(path string, content []byte) error {
 		return err
 	}
 
-	return os.WriteFile(path, content, 0o666)
+	return util.WriteFile(path, content, 0o666)
 }
diff --git a/internal/util/write_file.go b/internal/util/write_file.go
new file mode 100644
index 0000000..87d5c76
--- /dev/null
+++ b/internal/util/write_file.go
@@ -0,0 +1,21 @@
+package util
+
+import "os"
+
+// WriteFile writes the content to a file like [os.WriteFile], but an existing
+// file gets its former content back if it can't be written completely.
+func WriteFile(path string, content []byte, perm os.FileMode) error {
+	info, err := os.Stat(path)
+	if err != nil || !info.Mode().IsRegular() {
+		return os.WriteFile(path, content, perm)
+	}
+
+	old, readErr := os.ReadFile(path)
+
+	err = os.WriteFile(path, content, perm)
+	if err != nil && readErr == nil {
+		_ = os.WriteFile(path, old, perm)
+	}
+
+	return err
+}
-- 
2.43.0


From fa07508601520c44e16933afdeaa9d9f04ec7064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:31 +0000
Subject: [PATCH 74/89] fix: msgofmt -D writes nothing if one of the catalogues
 is invalid

---
 cli/msgofmt/cmd/root.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cli/msgofmt/cmd/root.go b/cli/msgofmt/cmd/root.go
index a831486..f1a2d54 100644
--- a/cli/msgofmt/cmd/root.go
+++ b/cli/msgofmt/cmd/root.go
@@ -102,6 +102,8 @@ func compileDirectory(dir string) error {
 		return err
 	}
 
+	// Don't write any file until all of them are known to be valid.
+	var files []*po.File
 	for _, de := range entries {
 		if de.IsDir() || filepath.Ext(de.Name()) != ".po" {
 			continue
@@ -115,8 +117,11 @@ func compileDirectory(dir string) error {
 			return errs[0]
 		}
 
-		newMo := filepath.Join(dir, strings.TrimSuffix(de.Name(), ".po")+".mo")
-		err = writeMo(poFile, newMo)
+		files = append(files, poFile)
+	}
+
+	for _, poFile := range files {
+		err = writeMo(poFile, strings.TrimSuffix(poFile.Name, ".po")+".mo")
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 043a01764e770aae2264d0997fb47757cca2b683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:39 +0000
Subject: [PATCH 75/89] fix: joining keeps obsolete messages at the end of the
 catalogue

New messages were added after them, and moved when the same sources were
joined again.
---
 cli/xgotext/cmd/join.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/cli/xgotext/cmd/join.go b/cli/xgotext/cmd/join.go
index 9a701dc..12ab589 100644
--- a/cli/xgotext/cmd/join.go
+++ b/cli/xgotext/cmd/join.go
@@ -28,14 +28,21 @@ func join(extracted *po.File, path string) (*po.File, error) {
 	}
 
 	joined := append(existing.Entries, extracted.Entries...).CleanDuplicates()
-	for i := range joined {
-		if found[joined[i].UnifiedID()] {
-			joined[i].Obsolete = false
+	// Obsolete messages come last, as when the file is read again.
+	var active, obsolete po.Entries
+	for _, entry := range joined {
+		if found[entry.UnifiedID()] {
+			entry.Obsolete = false
+		}
+		entry.Locations = uniqueLocations(entry.Locations)
+		if entry.Obsolete {
+			obsolete = append(obsolete, entry)
+		} else {
+			active = append(active, entry)
 		}
-		joined[i].Locations = uniqueLocations(joined[i].Locations)
 	}
 
-	return &po.File{Name: path, Entries: joined}, nil
+	return &po.File{Name: path, Entries: append(active, obsolete...)}, nil
 }
 
 func uniqueLocations(locations po.Locations) po.Locations {
-- 
2.43.0


From fcc2a683759c67ed76d7f3138fdcd2caa7e91e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:44 +0000
Subject: [PATCH 76/89] fix: joining with a missing file doesn't repeat
 references

They disappeared when the same sources were joined again.
---
 cli/xgotext/cmd/join.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/xgotext/cmd/join.go b/cli/xgotext/cmd/join.go
index 12ab589..e5c7733 100644
--- a/cli/xgotext/cmd/join.go
+++ b/cli/xgotext/cmd/join.go
@@ -16,7 +16,7 @@ func join(extracted *po.File, path string) (*po.File, error) {
 
 	existing, err := poparse.Po(path, poparse.PoWithConfig(PoParserCfg))
 	if errors.Is(err, fs.ErrNotExist) {
-		return extracted, nil
+		existing, err = &po.File{}, nil
 	}
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 55d989c063ad1bdbc322a2a1bae2a3fa93bddad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:02 +0000
Subject: [PATCH 77/89] fix: translations of the compendium come before fuzzy
 matches

Messages that have an exact translation in the compendium could get the one
of a similar message instead, obsolete messages of the template were
translated as well, and messages that changed between singular and plural
were only translated by the next update.
---
 cli/msgomerge/cmd/compendium.go | 5 +++--
 pkg/po/merge.go                 | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/cli/msgomerge/cmd/compendium.go b/cli/msgomerge/cmd/compendium.go
index 5d25f55..974bbd5 100644
--- a/cli/msgomerge/cmd/compendium.go
+++ b/cli/msgomerge/cmd/compendium.go
@@ -21,7 +21,7 @@ func applyCompendium(def, ref, compendium po.Entries) {
 
 	for i := range ref {
 		translation, ok := translations[ref[i].UnifiedID()]
-		if !ok || translation.IsPlural() != ref[i].IsPlural() {
+		if !ok || ref[i].Obsolete || translation.IsPlural() != ref[i].IsPlural() {
 			continue
 		}
 
@@ -29,10 +29,11 @@ func applyCompendium(def, ref, compendium po.Entries) {
 		if index, ok := defIndex[entry.UnifiedID()]; ok {
 			entry = &def[index]
 		}
-		if isTranslated(*entry) || translation.IsPlural() != entry.IsPlural() {
+		if isTranslated(*entry) {
 			continue
 		}
 
+		entry.Plural = ref[i].Plural
 		entry.Str = translation.Str
 		entry.Plurals = translation.Plurals
 		if translation.IsFuzzy() && !entry.IsFuzzy() {
diff --git a/pkg/po/merge.go b/pkg/po/merge.go
index d1727d6..76dcaf1 100644
--- a/pkg/po/merge.go
+++ b/pkg/po/merge.go
@@ -174,7 +174,7 @@ func mergeDef(config MergeConfig, e *Entry, ref Entries, found map[string]bool)
 	case config.FuzzyMatch:
 		available := make(Entries, 0, len(ref))
 		for _, entry := range ref {
-			if !found[entry.UnifiedID()] {
+			if !found[entry.UnifiedID()] && !entry.isTranslated() {
 				available = append(available, entry)
 			}
 		}
-- 
2.43.0


From eed9006bcd82a1992cb7f1874ed2bc41a273c41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:15 +0000
Subject: [PATCH 78/89] fix: strings of a MO file that share data don't take
 unbounded memory

Every string was copied, so a file of some kilobytes whose descriptors all
point to the same data took gigabytes.
---
 pkg/po/parse/mo_parser.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index 47e1488..6eb550c 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -256,11 +256,23 @@ func (m *MoParser) readTable(bo bin.ByteOrder, offset, n u32) (starts, lens []u3
 	return starts, lens, nil
 }
 
+// maxSharing is how many times bigger than the file its strings can be.
+const maxSharing = 16
+
 // makeEntries creates po.Entries from the parsed MO file data.
 func (m *MoParser) makeEntries(
 	msgIDStart, msgIDLen []u32,
 	msgStrStart, msgStrLen []u32,
 ) (entries po.Entries, err error) {
+	// Strings can share data, but the result must not be much bigger than the file.
+	var total u64
+	for i := range msgIDLen {
+		total += u64(msgIDLen[i]) + u64(msgStrLen[i])
+	}
+	if total > maxSharing*u64(len(m.data)) {
+		return nil, fmt.Errorf("the strings share too much data (%d bytes of %d)", total, len(m.data))
+	}
+
 	for i := range msgIDStart {
 		msgIDData, err := m.readString(u64(msgIDStart[i]), u64(msgIDLen[i]))
 		if err != nil {
-- 
2.43.0


From 1be331b4d42b9abda14d35e49e9e78ff6acfd73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:17 +0000
Subject: [PATCH 79/89] fix: cleaning many duplicates doesn't copy the
 locations again and again

---
 pkg/po/entries.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/po/entries.go b/pkg/po/entries.go
index fb47e16..a21a3cb 100644
--- a/pkg/po/entries.go
+++ b/pkg/po/entries.go
@@ -140,7 +140,7 @@ func (e Entries) CleanObsoletes() Entries {
 // CleanDuplicates removes duplicate entries with the same ID and context, merging their locations.
 func (e Entries) CleanDuplicates() Entries {
 	return e.SolveFunc(func(a, b Entry) *Entry {
-		a.Locations = append(slices.Clip(a.Locations), b.Locations...)
+		a.Locations = append(a.Locations, b.Locations...)
 		a.adoptPlural(b)
 		return &a
 	})
@@ -257,6 +257,8 @@ func (e Entries) SolveFunc(merger MergeFunc) Entries {
 
 		// If not seen before, add it to the cleaned list and map.
 		seened[uid] = len(cleaned)
+		// A merger that appends locations doesn't write into the list of e.
+		entry.Locations = slices.Clip(entry.Locations)
 		cleaned = append(cleaned, entry)
 	}
 
-- 
2.43.0


From e82cb534e1f2b90b4a32732591e50673b5b57ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:43 +0000
Subject: [PATCH 80/89] fix: errors in obsolete entries name the document and
 its line

---
 pkg/po/parse/po_parser.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index 5e506a5..af5b84b 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -159,8 +159,17 @@ func (p *PoParser) obsoleteRegexp() *regexp.Regexp {
 func (p *PoParser) parseObsoleteEntries(tokens []lexer.Token) po.Entries {
 	comp := p.obsoleteRegexp()
 
-	var cleanedLines []string
-	var pending []string // Comments that can belong to an obsolete entry.
+	// The lines keep their numbers, so that the errors name the right ones.
+	var cleaned strings.Builder
+	lines := 1
+	addLine := func(number int, line string) {
+		for ; lines < number; lines++ {
+			cleaned.WriteByte('\n')
+		}
+		cleaned.WriteString(line)
+	}
+
+	var pending []lexer.Token // Comments that can belong to an obsolete entry.
 	for _, token := range tokens {
 		switch token.Type {
 		case util.PoSymbols["Comment"]:
@@ -174,7 +183,7 @@ func (p *PoParser) parseObsoleteEntries(tokens []lexer.Token) po.Entries {
 		comment := commentText(token)
 		matches := comp.FindStringSubmatch(comment)
 		if matches == nil {
-			pending = append(pending, comment)
+			pending = append(pending, token)
 			continue
 		}
 
@@ -183,16 +192,16 @@ func (p *PoParser) parseObsoleteEntries(tokens []lexer.Token) po.Entries {
 			line = "#" + line
 		}
 
-		cleanedLines = append(cleanedLines, pending...)
-		cleanedLines = append(cleanedLines, line)
+		for _, p := range pending {
+			addLine(p.Pos.Line, commentText(p))
+		}
+		addLine(token.Pos.Line, line)
 		pending = nil
 	}
 
-	fullFile := strings.Join(cleanedLines, "\n")
-
 	parser := NewPoFromString(
-		fullFile,
-		"tmp",
+		cleaned.String(),
+		p.filename,
 		PoWithConfig(p.Config),
 		PoWithParseObsolete(false), // They are already unmarked.
 		poWithMarkAllAsObsolete(true),
-- 
2.43.0


From a93705148122f9b74daee54e97a646e4b37c382e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:51 +0000
Subject: [PATCH 81/89] fix: errors about references and trailing contexts name
 their place

---
 pkg/po/parse/po_parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index af5b84b..4e90b87 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -269,7 +269,7 @@ func (p *PoParser) parseComments(entry *po.Entry, tokens []lexer.Token) (err err
 			var locations po.Locations
 			locations, err = parseLocations(locationRegex.FindStringSubmatch(comment)[1])
 			if err != nil {
-				return err
+				return fmt.Errorf("%s: %w", t.Pos, err)
 			}
 			entry.Locations = append(entry.Locations, locations...)
 		case extractedRegex.MatchString(comment):
@@ -330,7 +330,7 @@ func (p *PoParser) Parse() *po.File {
 
 	// A msgctxt at the end of the data would be taken for the one of the marker
 	if len(pFile.Entries[len(pFile.Entries)-1].Context) > 0 {
-		p.error("unexpected end of data after msgctxt")
+		p.error("%s: unexpected end of data after msgctxt", p.filename)
 		return nil
 	}
 
-- 
2.43.0


From 7b2f13f0689c47fe7c0460df088c68eccd08018c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:53 +0000
Subject: [PATCH 82/89] fix: errors in MO files name the file

---
 pkg/po/parse/mo_parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index 6eb550c..c74bd07 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -46,6 +46,9 @@ func (m *MoParser) error(format string, a ...any) {
 	} else {
 		err = fmt.Errorf(format, a...)
 	}
+	if m.filename != "" {
+		err = fmt.Errorf("%s: %w", m.filename, err)
+	}
 
 	if m.Config.Logger != nil {
 		m.Config.Logger.Println("ERROR:", err)
-- 
2.43.0


From c82b13c166bb800a6b58115a32ab81ff823d805b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 83/89] fix: errors about calls in Go sources name the line

---
 pkg/go/parse/process.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/go/parse/process.go b/pkg/go/parse/process.go
index 8d73952..9dfc3d3 100644
--- a/pkg/go/parse/process.go
+++ b/pkg/go/parse/process.go
@@ -106,7 +106,8 @@ func (f *File) extractArg(index int, call *ast.CallExpr) (a argumentData) {
 		}
 	}
 	if index < 0 || index >= len(call.Args) {
-		a.err = f.error("index (%d) out of range", index)
+		line := util.FindLineFromReader(f.reader, call.Pos()-1)
+		a.err = f.error("line %d: index (%d) out of range", line, index)
 		return
 	}
 	lit, ok := unparen(call.Args[index]).(*ast.BasicLit)
@@ -115,7 +116,8 @@ func (f *File) extractArg(index int, call *ast.CallExpr) (a argumentData) {
 	}
 
 	if lit.Kind != token.STRING {
-		a.err = f.error("the specified argument (%d) is not a string", index)
+		line := util.FindLineFromReader(f.reader, lit.Pos()-1)
+		a.err = f.error("line %d: the specified argument (%d) is not a string", line, index)
 		return
 	}
 
-- 
2.43.0


From 30e816363c7c69c6e10a623319b5d858ebadaa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:52 +0000
Subject: [PATCH 84/89] fix: don't let merged messages share their plural forms

A message that gets its translation from a similar one by fuzzy matching
kept the slice of forms of that message, so that editing a form of one of
them in place changed the other one, too.
---
 pkg/po/merge.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/po/merge.go b/pkg/po/merge.go
index 76dcaf1..3dcbb58 100644
--- a/pkg/po/merge.go
+++ b/pkg/po/merge.go
@@ -223,7 +223,8 @@ func mergeReferences(e *Entry, ref Entry) {
 func mergeEntryStrings(target *Entry, source Entry) {
 	switch {
 	case target.IsPlural() && source.IsPlural():
-		target.Plurals = source.Plurals
+		// The messages don't share their forms.
+		target.Plurals = slices.Clone(source.Plurals)
 	case target.IsPlural() && !source.IsPlural():
 		target.Plurals = slices.Clone(target.Plurals)
 		if len(target.Plurals) == 0 {
-- 
2.43.0


From 6c2aa2878336ccce340e5e76933ed714f4341f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:29 +0000
Subject: [PATCH 85/89] fix: keep the references of the header in msgocat
 --lang

The header entry was rebuilt from its fields, which lost its references.
---
 cli/msgocat/cmd/run.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/cli/msgocat/cmd/run.go b/cli/msgocat/cmd/run.go
index 57860dd..7917d49 100644
--- a/cli/msgocat/cmd/run.go
+++ b/cli/msgocat/cmd/run.go
@@ -51,17 +51,11 @@ func run(cmd *cobra.Command, args []string) error {
 	if lang != "" {
 		hindex := mergedFiles.Index("", "")
 		if hindex != -1 {
-			oldHeader := mergedFiles[hindex]
 			header := mergedFiles.HeaderFromIndex(hindex)
 			header.Set("Language", lang)
 
-			newHeader := header.ToEntry()
-			newHeader.Flags = oldHeader.Flags
-			newHeader.Comments = oldHeader.Comments
-			newHeader.ExtractedComments = oldHeader.ExtractedComments
-			newHeader.Previous = oldHeader.Previous
-
-			mergedFiles[hindex] = newHeader
+			// Only the fields change.
+			mergedFiles[hindex].Str = header.ToEntry().Str
 		}
 	}
 
-- 
2.43.0


From 8afb0b05e68e326cbf662764b0f8df850fbe6238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:44 +0000
Subject: [PATCH 86/89] fix: keep the style of wrapped strings on every line

---
 pkg/po/compile/po_compiler_format.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 9d6b31b..7f13e0b 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -277,18 +277,16 @@ func (eb *entryBuilder) string(str string, styles ...string) string {
 			if i != len(lines)-1 {
 				line += "\n"
 			}
-			fmt.Fprint(&builder, `"`)
-			fmt.Fprint(&builder, eb.text(escapePOString(line),
-				slices.Delete(styles, 0, 1)...))
-			builder.WriteString(eb.applyStyle(`"`, "string"))
-			if i != len(lines)-1 {
-				builder.WriteByte('\n')
-			}
+			// The style of the string is applied to each line, it would end with
+			// the first style inside.
+			text := eb.text(escapePOString(line), slices.Delete(styles, 0, 1)...)
+			builder.WriteString(eb.applyStyle(
+				`"`+text+eb.applyStyle(`"`, "string"),
+				append(styles, "string")...,
+			))
+			builder.WriteByte('\n')
 		}
-		return eb.applyStyle(
-			builder.String(),
-			append(styles, "string")...,
-		) + "\n"
+		return builder.String()
 	}
 
 	fmt.Fprint(&builder, `"`)
-- 
2.43.0


From 4f91a278533d06ae52fdefa29cc66fbd59a364aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:58 +0000
Subject: [PATCH 87/89] fix: apply the styles of the strings of ids and
 translations

---
 pkg/po/compile/po_compiler_format.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 7f13e0b..c4bf07b 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -279,7 +279,7 @@ func (eb *entryBuilder) string(str string, styles ...string) string {
 			}
 			// The style of the string is applied to each line, it would end with
 			// the first style inside.
-			text := eb.text(escapePOString(line), slices.Delete(styles, 0, 1)...)
+			text := eb.text(escapePOString(line), styles...)
 			builder.WriteString(eb.applyStyle(
 				`"`+text+eb.applyStyle(`"`, "string"),
 				append(styles, "string")...,
@@ -290,9 +290,7 @@ func (eb *entryBuilder) string(str string, styles ...string) string {
 	}
 
 	fmt.Fprint(&builder, `"`)
-	fmt.Fprint(&builder, eb.text(escapePOString(str),
-		slices.Delete(styles, 0, 1)...,
-	))
+	fmt.Fprint(&builder, eb.text(escapePOString(str), styles...))
 	builder.WriteString(eb.applyStyle(`"`, "string"))
 	// fmt.Fprintf(&builder, "\"%s\"\n", escapePOString(str))
 
-- 
2.43.0


From 3d45590017379e74fd258e6b021029043b6bc9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:35 +0000
Subject: [PATCH 88/89] fix: vertical tabs between the tokens of a PO file
 weren't accepted

---
 internal/util/po_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/po_parse.go b/internal/util/po_parse.go
index cc47629..25ce6be 100644
--- a/internal/util/po_parse.go
+++ b/internal/util/po_parse.go
@@ -73,7 +73,7 @@ func SearchSymbol(t lexer.TokenType) string {
 var (
 	PoSymbols = PoLexer.Symbols()
 	PoRules   = []lexer.SimpleRule{
-		{Name: "WS", Pattern: `\s+`},
+		{Name: "WS", Pattern: `[\s\v]+`},
 		{Name: "Integer", Pattern: `\d+`},
 		{Name: "LB", Pattern: `\[`},
 		{Name: "RB", Pattern: `\]`},
-- 
2.43.0


From 11384671f86c3b3b7d1a165cbf71f1d83f81a84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:32 +0000
Subject: [PATCH 89/89] fix: the lines of a title after the first weren't
 comments

---
 pkg/po/compile/po_compiler_format.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index c4bf07b..528e35c 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -98,12 +98,14 @@ func (eb *entryBuilder) BuildHeader(header po.Header) []byte {
 	var buf bytes.Buffer
 
 	if eb.Config.HeaderComments {
-		copyright := fmt.Sprintf(copyrightFormat, eb.Config.CopyrightHolder, eb.Config.PackageName)
+		comment := func(s string) string { return strings.ReplaceAll(s, "\n", "\n# ") }
+		copyright := fmt.Sprintf(copyrightFormat,
+			comment(eb.Config.CopyrightHolder), comment(eb.Config.PackageName))
 		if eb.Config.ForeignUser {
 			copyright = foreignCopyrightFormat
 		}
 
-		fmt.Fprintf(&buf, headerFormat, eb.Config.Title, copyright)
+		fmt.Fprintf(&buf, headerFormat, comment(eb.Config.Title), copyright)
 	}
 	if header.Template {
 		fmt.Fprintln(&buf, "#, fuzzy")
-- 
2.43.0

