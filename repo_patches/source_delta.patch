From 49f9e940a310aa6a1310caa47827fe5f64f87671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:14 +0000
Subject: [PATCH 01/67] fix: lex PO strings that end in a backslash

A string such as "C:\\" was not recognised as closed because its final
escaped backslash was taken as escaping the quote, so the file could not be
parsed.
---
 internal/util/po_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/po_parse.go b/internal/util/po_parse.go
index 4db6769..69086d9 100644
--- a/internal/util/po_parse.go
+++ b/internal/util/po_parse.go
@@ -43,7 +43,7 @@ var (
 		{Name: "Integer", Pattern: `\d+`},
 		{Name: "LB", Pattern: `\[`},
 		{Name: "RB", Pattern: `\]`},
-		{Name: "String", Pattern: `"(\\"|[^"])*"`},
+		{Name: "String", Pattern: `"(\\.|[^"\\])*"`},
 		{Name: "Msgctxt", Pattern: "msgctxt"},
 		{Name: "MsgidPlural", Pattern: "msgid_plural"},
 		{Name: "Msgid", Pattern: "msgid"},
-- 
2.43.0


From 57660332dd3ce608b1814ee2a0963d2941a92912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:31 +0000
Subject: [PATCH 02/67] fix: keep the PO parser's end marker apart from the
 input

The marker was appended to the caller's slice, overwriting its spare
capacity, and became part of a last comment line without newline, which
made such files unreadable.
---
 pkg/po/parse/po_parser.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index 695b438..7d219ba 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -236,7 +236,9 @@ func (p *PoParser) ParseWithOptions(opts ...PoOption) *po.File {
 	return p.Parse()
 }
 
-const safeTemplate = `msgid "---"
+// The leading newline keeps a final comment without end of line apart from it.
+const safeTemplate = `
+msgid "---"
 msgstr "---"`
 
 // Parse reads and parses the PO file into a po.File structure.
@@ -248,9 +250,9 @@ func (p *PoParser) Parse() *po.File {
 	// bruh; limitations of the parser, but it was this, or the
 	// unnecessary heavy and slow thing of ANTLR.
 
-	// Add temporary marker to handle edge cases
-	p.data = p.originalData
-	p.data = append(p.data, []byte(safeTemplate)...)
+	// Add temporary marker to handle edge cases, in a copy:
+	// the data belongs to the caller, and so does its spare capacity.
+	p.data = append(slices.Clone(p.originalData), []byte(safeTemplate)...)
 
 	// Parse the file using the participle parser
 	pFile, err := util.PoParser.ParseBytes(p.filename, p.data)
-- 
2.43.0


From 2e050d04656575efb50dbc2c99da6a3d38766ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:32 +0000
Subject: [PATCH 03/67] fix: classify PO comments by how they start

A translator comment that merely mentions another comment marker, such as
"# see #: foo" or "# about #~", was taken for that kind of comment.
---
 pkg/po/parse/po_parser.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index 7d219ba..88440da 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -126,12 +126,12 @@ func (p *PoParser) Errors() []error {
 
 // Regular expressions for parsing different types of PO file comments.
 var (
-	locationRegex  = regexp.MustCompile(`#: *(.*)`)  // Source location comments
-	generalRegex   = regexp.MustCompile(`# *(.*)`)   // General translator comments
-	extractedRegex = regexp.MustCompile(`#\. *(.*)`) // Extracted comments
-	flagRegex      = regexp.MustCompile(`#, *(.*)`)  // Flag comments
-	obsoleteRegex  = regexp.MustCompile(`#~ *(.*)`)  // Obsolete entry markers
-	previousRegex  = regexp.MustCompile(`#\| *(.*)`) // Previous message comments
+	locationRegex  = regexp.MustCompile(`^#: *(.*)`)  // Source location comments
+	generalRegex   = regexp.MustCompile(`^# *(.*)`)   // General translator comments
+	extractedRegex = regexp.MustCompile(`^#\. *(.*)`) // Extracted comments
+	flagRegex      = regexp.MustCompile(`^#, *(.*)`)  // Flag comments
+	obsoleteRegex  = regexp.MustCompile(`^#~ *(.*)`)  // Obsolete entry markers
+	previousRegex  = regexp.MustCompile(`^#\| *(.*)`) // Previous message comments
 )
 
 // parseObsoleteEntries extracts and parses obsolete entries from the PO file.
@@ -139,7 +139,7 @@ func (p *PoParser) parseObsoleteEntries(tokens []lexer.Token) po.Entries {
 	comp := obsoleteRegex
 	if p.Config.UseCustomObsoletePrefix {
 		var err error
-		comp, err = regexp.Compile(fmt.Sprintf(`#%s *(.*)`, string(p.Config.CustomObsoletePrefix)))
+		comp, err = regexp.Compile(fmt.Sprintf(`^#%s *(.*)`, string(p.Config.CustomObsoletePrefix)))
 		if err != nil {
 			p.warn(err.Error())
 			return nil
-- 
2.43.0


From 46b7cf917272332c32e416a4161bb6b8e946ab06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:52 +0000
Subject: [PATCH 04/67] fix: read every form of PO reference comments

A reference without line number, as written by AddLocation=file and GNU
--add-location=file, crashed the parser; several references on one line,
the layout GNU tools use, and file names with a colon made it fail.
---
 pkg/po/parse/po_parser.go | 66 ++++++++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 22 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index 88440da..76291b3 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -178,9 +178,48 @@ func (p *PoParser) parseObsoleteEntries(tokens []lexer.Token) po.Entries {
 	return f.Entries
 }
 
+// parseReferences splits the text of a location comment into its references.
+//
+// References are separated by white space and have the form "file:line", or only
+// "file" if the line is unknown (-1). A file name of a numbered reference may contain
+// white space.
+func parseReferences(text string) (locations []po.Location) {
+	fields := strings.Fields(text)
+	start := 0 // First field of the pending reference.
+
+	for i, field := range fields {
+		colon := strings.LastIndexByte(field, ':')
+		if colon == -1 {
+			continue
+		}
+
+		line := -1
+		if number := field[colon+1:]; number != "" {
+			var err error
+			line, err = strconv.Atoi(number)
+			if err != nil {
+				continue
+			}
+		}
+
+		name := append(slices.Clone(fields[start:i]), field[:colon])
+		locations = append(locations, po.Location{
+			Line: line,
+			File: strings.Join(name, " "),
+		})
+		start = i + 1
+	}
+
+	for _, field := range fields[start:] {
+		locations = append(locations, po.Location{Line: -1, File: field})
+	}
+
+	return locations
+}
+
 // parseComments processes all comment tokens associated with an entry and
 // populates the corresponding fields in the Entry struct.
-func parseComments(entry *po.Entry, tokens []lexer.Token) (err error) {
+func parseComments(entry *po.Entry, tokens []lexer.Token) {
 	for _, t := range tokens {
 		if t.Type != util.PoSymbols["Comment"] {
 			continue
@@ -190,21 +229,9 @@ func parseComments(entry *po.Entry, tokens []lexer.Token) (err error) {
 		}
 		switch {
 		case locationRegex.MatchString(t.String()):
-			matches := locationRegex.FindStringSubmatch(t.String())
-			parts := strings.SplitN(matches[1], ":", 2)
-			line := -1
-			if parts[1] != "" {
-				line, err = strconv.Atoi(parts[1])
-				if err != nil {
-					return fmt.Errorf("error parsing integer: %w", err)
-				}
-			}
-
-			loc := po.Location{
-				Line: line,
-				File: parts[0],
-			}
-			entry.Locations = append(entry.Locations, loc)
+			entry.Locations = append(entry.Locations,
+				parseReferences(locationRegex.FindStringSubmatch(t.String())[1])...,
+			)
 		case extractedRegex.MatchString(t.String()):
 			entry.ExtractedComments = append(entry.ExtractedComments,
 				extractedRegex.FindStringSubmatch(t.String())[1],
@@ -223,8 +250,6 @@ func parseComments(entry *po.Entry, tokens []lexer.Token) (err error) {
 			)
 		}
 	}
-
-	return nil
 }
 
 // ParseWithOptions parses the PO file with temporary configuration options.
@@ -299,10 +324,7 @@ func (p *PoParser) Parse() *po.File {
 		}
 
 		// Parse comments associated with this entry
-		err = parseComments(&newEntry, e.Tokens)
-		if err != nil {
-			p.error(err.Error())
-		}
+		parseComments(&newEntry, e.Tokens)
 
 		// Optionally filter out comments
 		if p.Config.IgnoreComments {
-- 
2.43.0


From 29d431704382d4b63acb261a6d79be0330f54af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:54 +0000
Subject: [PATCH 05/67] fix: split PO flag comments into flags

"#, fuzzy, c-format" was read as one flag, so that such messages were not
recognised as fuzzy and ended up in MO files.
---
 pkg/po/parse/po_parser.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index 76291b3..49c6216 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -237,9 +237,12 @@ func parseComments(entry *po.Entry, tokens []lexer.Token) {
 				extractedRegex.FindStringSubmatch(t.String())[1],
 			)
 		case flagRegex.MatchString(t.String()):
-			entry.Flags = append(entry.Flags,
-				flagRegex.FindStringSubmatch(t.String())[1],
-			)
+			flags := flagRegex.FindStringSubmatch(t.String())[1]
+			for _, flag := range strings.Split(flags, ",") {
+				if flag = strings.TrimSpace(flag); flag != "" {
+					entry.Flags = append(entry.Flags, flag)
+				}
+			}
 		case previousRegex.MatchString(t.String()):
 			entry.Previous = append(entry.Previous,
 				previousRegex.FindStringSubmatch(t.String())[1],
-- 
2.43.0


From 627ec754b43bf9841930ce18f88ff84b2e8ef9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:12 +0000
Subject: [PATCH 06/67] fix: keep the indentation of PO comments

Only the space that separates the marker from the text belongs to the
marker; further spaces were dropped on every read.
---
 pkg/po/parse/po_parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index 49c6216..a1bf373 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -127,11 +127,11 @@ func (p *PoParser) Errors() []error {
 // Regular expressions for parsing different types of PO file comments.
 var (
 	locationRegex  = regexp.MustCompile(`^#: *(.*)`)  // Source location comments
-	generalRegex   = regexp.MustCompile(`^# *(.*)`)   // General translator comments
-	extractedRegex = regexp.MustCompile(`^#\. *(.*)`) // Extracted comments
+	generalRegex   = regexp.MustCompile(`^# ?(.*)`)   // General translator comments
+	extractedRegex = regexp.MustCompile(`^#\. ?(.*)`) // Extracted comments
 	flagRegex      = regexp.MustCompile(`^#, *(.*)`)  // Flag comments
 	obsoleteRegex  = regexp.MustCompile(`^#~ *(.*)`)  // Obsolete entry markers
-	previousRegex  = regexp.MustCompile(`^#\| *(.*)`) // Previous message comments
+	previousRegex  = regexp.MustCompile(`^#\| ?(.*)`) // Previous message comments
 )
 
 // parseObsoleteEntries extracts and parses obsolete entries from the PO file.
-- 
2.43.0


From d01926fd828874a869f70c6aa699998ef13f927e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:14 +0000
Subject: [PATCH 07/67] fix: do not keep the carriage return of PO comment
 lines

In files with Windows line endings it became part of each comment.
---
 pkg/po/parse/po_parser.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index a1bf373..2d94e9a 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -224,32 +224,33 @@ func parseComments(entry *po.Entry, tokens []lexer.Token) {
 		if t.Type != util.PoSymbols["Comment"] {
 			continue
 		}
-		if obsoleteRegex.MatchString(t.String()) {
+		comment := strings.TrimSuffix(t.String(), "\r")
+		if obsoleteRegex.MatchString(comment) {
 			continue
 		}
 		switch {
-		case locationRegex.MatchString(t.String()):
+		case locationRegex.MatchString(comment):
 			entry.Locations = append(entry.Locations,
-				parseReferences(locationRegex.FindStringSubmatch(t.String())[1])...,
+				parseReferences(locationRegex.FindStringSubmatch(comment)[1])...,
 			)
-		case extractedRegex.MatchString(t.String()):
+		case extractedRegex.MatchString(comment):
 			entry.ExtractedComments = append(entry.ExtractedComments,
-				extractedRegex.FindStringSubmatch(t.String())[1],
+				extractedRegex.FindStringSubmatch(comment)[1],
 			)
-		case flagRegex.MatchString(t.String()):
-			flags := flagRegex.FindStringSubmatch(t.String())[1]
+		case flagRegex.MatchString(comment):
+			flags := flagRegex.FindStringSubmatch(comment)[1]
 			for _, flag := range strings.Split(flags, ",") {
 				if flag = strings.TrimSpace(flag); flag != "" {
 					entry.Flags = append(entry.Flags, flag)
 				}
 			}
-		case previousRegex.MatchString(t.String()):
+		case previousRegex.MatchString(comment):
 			entry.Previous = append(entry.Previous,
-				previousRegex.FindStringSubmatch(t.String())[1],
+				previousRegex.FindStringSubmatch(comment)[1],
 			)
 		default:
 			entry.Comments = append(entry.Comments,
-				generalRegex.FindStringSubmatch(t.String())[1],
+				generalRegex.FindStringSubmatch(comment)[1],
 			)
 		}
 	}
-- 
2.43.0


From 7a4a569f50dc59afe275fc47ba98e8ecfc9dbf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:57 +0000
Subject: [PATCH 08/67] fix: read obsolete PO entries with their comments

The comments and flags of an obsolete entry, which are not marked as
obsolete themselves, were attached to the next active entry (making it
fuzzy, for instance) and lost from the obsolete one. A previous msgid of an
obsolete entry ("#~|"), and any error in one of them, silently dropped all
obsolete entries. Entries with a custom obsolete prefix were never read.
---
 pkg/po/parse/po_parser.go | 111 +++++++++++++++++++++++---------------
 1 file changed, 68 insertions(+), 43 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index 2d94e9a..ba125ba 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -134,44 +134,70 @@ var (
 	previousRegex  = regexp.MustCompile(`^#\| ?(.*)`) // Previous message comments
 )
 
-// parseObsoleteEntries extracts and parses obsolete entries from the PO file.
-func (p *PoParser) parseObsoleteEntries(tokens []lexer.Token) po.Entries {
-	comp := obsoleteRegex
-	if p.Config.UseCustomObsoletePrefix {
-		var err error
-		comp, err = regexp.Compile(fmt.Sprintf(`^#%s *(.*)`, string(p.Config.CustomObsoletePrefix)))
-		if err != nil {
-			p.warn(err.Error())
-			return nil
-		}
+// obsoletePattern returns the expression that recognizes the lines of obsolete entries.
+func (p *PoParser) obsoletePattern() *regexp.Regexp {
+	if !p.Config.UseCustomObsoletePrefix {
+		return obsoleteRegex
 	}
+	prefix := regexp.QuoteMeta(string(p.Config.CustomObsoletePrefix))
 
-	cleanedLines := make([]string, 0, len(tokens))
-	for _, token := range tokens {
-		if token.Type != util.PoSymbols["Comment"] {
-			continue
+	return regexp.MustCompile(`^#` + prefix + ` *(.*)`)
+}
+
+// splitObsoletes separates the lines of the obsolete entries in front of an entry from
+// the tokens of the entry itself.
+//
+// The comments of an obsolete entry are not marked as obsolete, so all comments up to the
+// last obsolete line belong to the obsolete entries.
+func splitObsoletes(
+	tokens []lexer.Token,
+	pattern *regexp.Regexp,
+) (obsoletes []string, own []lexer.Token) {
+	isObsolete := func(t lexer.Token) bool {
+		return t.Type == util.PoSymbols["Comment"] && pattern.MatchString(t.String())
+	}
+
+	end := 0
+	for i, t := range tokens {
+		if t.Type != util.PoSymbols["Comment"] && t.Type != util.PoSymbols["WS"] {
+			break
 		}
-		if !comp.MatchString(token.String()) {
-			continue
+		if isObsolete(t) {
+			end = i + 1
 		}
+	}
 
-		cleanedLines = append(cleanedLines,
-			comp.FindStringSubmatch(token.String())[1],
-		)
+	for i, t := range tokens {
+		switch {
+		case isObsolete(t):
+			line := pattern.FindStringSubmatch(t.String())[1]
+			if strings.HasPrefix(line, "|") {
+				line = "#" + line // Previous msgid of an obsolete entry.
+			}
+			obsoletes = append(obsoletes, line)
+		case i >= end:
+			own = append(own, t)
+		case t.Type == util.PoSymbols["Comment"]:
+			obsoletes = append(obsoletes, t.String())
+		}
 	}
 
-	fullFile := strings.Join(cleanedLines, "\n")
+	return obsoletes, own
+}
 
+// parseObsoleteEntries parses the lines of the obsolete entries of the PO file.
+func (p *PoParser) parseObsoleteEntries(lines []string) po.Entries {
 	parser := NewPoFromString(
-		fullFile,
-		"tmp",
+		strings.Join(lines, "\n"),
+		p.filename,
 		PoWithConfig(p.Config),
+		PoWithLogger(nil),
 		poWithMarkAllAsObsolete(true),
 	)
 
 	f := parser.Parse()
-	err := parser.Error()
-	if err != nil {
+	if err := parser.Error(); err != nil {
+		p.error("error parsing obsolete entries: %w", err)
 		return nil
 	}
 
@@ -225,9 +251,6 @@ func parseComments(entry *po.Entry, tokens []lexer.Token) {
 			continue
 		}
 		comment := strings.TrimSuffix(t.String(), "\r")
-		if obsoleteRegex.MatchString(comment) {
-			continue
-		}
 		switch {
 		case locationRegex.MatchString(comment):
 			entry.Locations = append(entry.Locations,
@@ -290,24 +313,28 @@ func (p *PoParser) Parse() *po.File {
 		return nil
 	}
 
-	// Remove the temporary marker entry
-	pFile.Entries = slices.Delete(pFile.Entries, len(pFile.Entries)-1, len(pFile.Entries))
-
-	// Optionally filter out all comments
-	if p.Config.IgnoreAllComments {
-		pFile.Tokens = slices.DeleteFunc(pFile.Tokens, func(t lexer.Token) bool {
-			return t.Type == util.PoSymbols["Comment"]
-		})
-	}
-
-	// Process each entry in the parsed file
-	for _, e := range pFile.Entries {
+	// Optionally filter out all comments, otherwise take out the obsolete entries
+	var obsoletes []string
+	obsoletePattern := p.obsoletePattern()
+	for i := range pFile.Entries {
+		e := &pFile.Entries[i]
 		if p.Config.IgnoreAllComments {
 			e.Tokens = slices.DeleteFunc(e.Tokens, func(t lexer.Token) bool {
 				return t.Type == util.PoSymbols["Comment"]
 			})
+			continue
 		}
 
+		var lines []string
+		lines, e.Tokens = splitObsoletes(e.Tokens, obsoletePattern)
+		obsoletes = append(obsoletes, lines...)
+	}
+
+	// Remove the temporary marker entry
+	pFile.Entries = slices.Delete(pFile.Entries, len(pFile.Entries)-1, len(pFile.Entries))
+
+	// Process each entry in the parsed file
+	for _, e := range pFile.Entries {
 		// Create new entry with joined strings
 		newEntry := po.Entry{
 			Context:  strings.Join(e.Context, ""),
@@ -341,10 +368,8 @@ func (p *PoParser) Parse() *po.File {
 	}
 
 	// Process obsolete entries if configured to do so
-	if slices.ContainsFunc(pFile.Tokens, func(t lexer.Token) bool {
-		return t.Type == util.PoSymbols["Comment"] && obsoleteRegex.MatchString(t.String())
-	}) && p.Config.ParseObsoletes {
-		entries = append(entries, p.parseObsoleteEntries(pFile.Tokens)...)
+	if len(obsoletes) > 0 && p.Config.ParseObsoletes {
+		entries = append(entries, p.parseObsoleteEntries(obsoletes)...)
 	}
 
 	// Apply post-processing options
-- 
2.43.0


From a75d36e9e43ed56d91e09b35ed778c4deb1dea39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:42 +0000
Subject: [PATCH 09/67] fix: escape control characters in PO strings so that
 they read back

---
 pkg/po/compile/po_compiler_util.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pkg/po/compile/po_compiler_util.go b/pkg/po/compile/po_compiler_util.go
index 872559f..b18dba0 100644
--- a/pkg/po/compile/po_compiler_util.go
+++ b/pkg/po/compile/po_compiler_util.go
@@ -4,7 +4,6 @@ import (
 	"bufio"
 	"fmt"
 	"io"
-	"strconv"
 	"strings"
 
 	"github.com/Tom5521/gotext-tools/v2/internal/slices"
@@ -41,8 +40,8 @@ func (c PoCompiler) compileEntries(writer io.Writer, eb *entryBuilder, entries p
 
 func escapePOString(s string) string {
 	var buf strings.Builder
-	for _, r := range s {
-		switch r {
+	for i := 0; i < len(s); i++ {
+		switch c := s[i]; c {
 		case '"':
 			buf.WriteString(`\"`)
 		case '\\':
@@ -53,11 +52,21 @@ func escapePOString(s string) string {
 			buf.WriteString(`\t`)
 		case '\r':
 			buf.WriteString(`\r`)
+		case '\a':
+			buf.WriteString(`\a`)
+		case '\b':
+			buf.WriteString(`\b`)
+		case '\f':
+			buf.WriteString(`\f`)
+		case '\v':
+			buf.WriteString(`\v`)
 		default:
-			if strconv.IsPrint(r) {
-				buf.WriteRune(r)
+			// Octal escapes have a fixed width, so, unlike hexadecimal
+			// ones, they can't swallow the characters that follow.
+			if c < ' ' || c == 0x7f {
+				fmt.Fprintf(&buf, "\\%03o", c)
 			} else {
-				fmt.Fprintf(&buf, "\\x%02x", r)
+				buf.WriteByte(c)
 			}
 		}
 	}
-- 
2.43.0


From 0afb2661fc258ab2a8eb39a65005f9118953d11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:22 +0000
Subject: [PATCH 10/67] fix: report PO entries that are cut off after msgctxt
 or msgid_plural

---
 internal/util/po_parse.go | 2 +-
 pkg/po/parse/po_parser.go | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/util/po_parse.go b/internal/util/po_parse.go
index 69086d9..c67f122 100644
--- a/internal/util/po_parse.go
+++ b/internal/util/po_parse.go
@@ -18,7 +18,7 @@ type (
 		ID          []string        `Msgid @String+`
 		Str         []string        `(Msgstr @String+`
 		MsgidPlural []string        `| (MsgidPlural @String+`
-		Plurals     []pluralEntries `@@*))`
+		Plurals     []pluralEntries `@@+))`
 	}
 
 	pluralEntries struct {
diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index ba125ba..c9fcd03 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -330,6 +330,12 @@ func (p *PoParser) Parse() *po.File {
 		obsoletes = append(obsoletes, lines...)
 	}
 
+	// An unfinished entry takes the marker for its own continuation
+	if marker := pFile.Entries[len(pFile.Entries)-1]; len(marker.Context) > 0 {
+		p.error("%s: unexpected end of file: msgctxt without msgid", p.filename)
+		return nil
+	}
+
 	// Remove the temporary marker entry
 	pFile.Entries = slices.Delete(pFile.Entries, len(pFile.Entries)-1, len(pFile.Entries))
 
-- 
2.43.0


From e070526d0fa57eac74e989c09219d382cf05c9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:21 +0000
Subject: [PATCH 11/67] fix: split PO header fields at their first colon

---
 pkg/po/header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/po/header.go b/pkg/po/header.go
index dfecccb..2d60edd 100644
--- a/pkg/po/header.go
+++ b/pkg/po/header.go
@@ -49,7 +49,7 @@ func NewHeader(options ...HeaderOption) Header {
 }
 
 var (
-	headerRegex = regexp.MustCompile(`(.*)\s*:\s*(.*)`)
+	headerRegex = regexp.MustCompile(`^\s*([^:]*?)\s*:\s*(.*)$`)
 	exprRegex   = regexp.MustCompile(
 		`(?: *(\S+?) *= *(.+?) *; *)`,
 	)
-- 
2.43.0


From dce59f1573816cc25499b81a86e9a6ab4340dca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 12/67] fix: do not write blank lines between PO header fields

---
 pkg/po/header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/po/header.go b/pkg/po/header.go
index 2d60edd..1dfb7b0 100644
--- a/pkg/po/header.go
+++ b/pkg/po/header.go
@@ -169,7 +169,7 @@ func (h Header) ToEntry() Entry {
 		if field.Value != " " {
 			field.Value = " " + field.Value
 		}
-		fmt.Fprintf(&b, "\n%s:%s\n", field.Key, field.Value)
+		fmt.Fprintf(&b, "%s:%s\n", field.Key, field.Value)
 	}
 	entry := Entry{Str: b.String()}
 	if h.Template {
-- 
2.43.0


From a8cafb09dd2498e72137503ef9f7ffce03a3dbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:36 +0000
Subject: [PATCH 13/67] fix: do not alter the catalog when the PO header is
 omitted or managed

---
 pkg/po/compile/po_compiler.go      | 3 ++-
 pkg/po/compile/po_compiler_util.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/po/compile/po_compiler.go b/pkg/po/compile/po_compiler.go
index dafc01d..920c3b6 100644
--- a/pkg/po/compile/po_compiler.go
+++ b/pkg/po/compile/po_compiler.go
@@ -107,7 +107,8 @@ func (c PoCompiler) ToWriter(outputWriter io.Writer) error {
 	if c.Config.OmitHeader {
 		i := c.File.Index("", "")
 		if i != -1 {
-			entries = slices.Delete(entries, i, i+1)
+			// The entries belong to the caller, so take a copy.
+			entries = slices.Delete(slices.Clone(entries), i, i+1)
 		}
 	}
 
diff --git a/pkg/po/compile/po_compiler_util.go b/pkg/po/compile/po_compiler_util.go
index b18dba0..7611cf7 100644
--- a/pkg/po/compile/po_compiler_util.go
+++ b/pkg/po/compile/po_compiler_util.go
@@ -100,7 +100,8 @@ func (c PoCompiler) writeHeader(writer io.Writer, entries *po.Entries, eb *entry
 		return nil
 	}
 	header := c.File.HeaderFromIndex(i)
-	*entries = slices.Delete(*entries, i, i+1)
+	// The entries belong to the caller, so take a copy.
+	*entries = slices.Delete(slices.Clone(*entries), i, i+1)
 
 	if c.Config.HeaderConfig != nil {
 		header = c.Config.HeaderConfig.ToHeader()
-- 
2.43.0


From e02a81e5ffea1b71d61f55f9ad1025c6227a6cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:11 +0000
Subject: [PATCH 14/67] fix: write a managed PO header as one well-formed entry

---
 pkg/po/compile/po_compiler_format.go | 25 ++++++++++++-------------
 pkg/po/compile/po_compiler_util.go   |  6 +++---
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 6b01765..0d13dc8 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -103,6 +103,7 @@ func (eb *entryBuilder) BuildEntry() []byte {
 	return buf.Bytes()
 }
 
+// BuildHeader writes the current entry, the header, with the given fields.
 func (eb *entryBuilder) BuildHeader(header po.Header) []byte {
 	var buf bytes.Buffer
 
@@ -112,25 +113,23 @@ func (eb *entryBuilder) BuildHeader(header po.Header) []byte {
 			copyright = foreignCopyrightFormat
 		}
 
-		fmt.Fprintf(&buf, headerFormat, eb.Config.Title, copyright)
-	} else {
-		fmt.Fprint(&buf, headerEntry)
+		comments := fmt.Sprintf(headerCommentsFormat, eb.Config.Title, copyright)
+		buf.WriteString(eb.applyStyle(comments, "comment"))
+		// These take the place of the translator comments.
+		eb.Comments = nil
 	}
 
-	if eb.Config.HeaderFields {
-		for i, field := range header.Fields {
-			fmt.Fprintf(&buf, headerFieldFormat, field.Key, field.Value)
+	buf.WriteString(eb.comment())
+	buf.WriteString(headerEntry)
 
-			if i != len(header.Fields) {
-				fmt.Fprint(&buf, "\n")
-			}
+	if eb.Config.HeaderFields {
+		for _, field := range header.Fields {
+			line := field.Key + ": " + strings.TrimSpace(field.Value) + "\n"
+			buf.WriteString(`"` + escapePOString(line) + "\"\n")
 		}
 	}
 
-	fmt.Fprintln(&buf)
-
-	buf.WriteString(eb.msgid())
-	buf.WriteString(eb.msgstr())
+	buf.WriteByte('\n')
 
 	return buf.Bytes()
 }
diff --git a/pkg/po/compile/po_compiler_util.go b/pkg/po/compile/po_compiler_util.go
index 7611cf7..2552829 100644
--- a/pkg/po/compile/po_compiler_util.go
+++ b/pkg/po/compile/po_compiler_util.go
@@ -14,14 +14,13 @@ const (
 	copyrightFormat = `# Copyright (C) %s
 # This file is distributed under the same license as the %s package.`
 	foreignCopyrightFormat = `# This file is put in the public domain.`
-	headerFormat           = `# %s
+	headerCommentsFormat   = `# %s
 %s
 #
-` + headerEntry
+`
 	headerEntry = `msgid ""
 msgstr ""
 `
-	headerFieldFormat = `"%s: %s\n"`
 )
 
 func (c PoCompiler) compileEntries(writer io.Writer, eb *entryBuilder, entries po.Entries) error {
@@ -99,6 +98,7 @@ func (c PoCompiler) writeHeader(writer io.Writer, entries *po.Entries, eb *entry
 	if i == -1 {
 		return nil
 	}
+	eb.Entry = c.File.Entries[i]
 	header := c.File.HeaderFromIndex(i)
 	// The entries belong to the caller, so take a copy.
 	*entries = slices.Delete(slices.Clone(*entries), i, i+1)
-- 
2.43.0


From e9e34c944043e1e9c1d27a871baff0beae90cd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:50 +0000
Subject: [PATCH 15/67] fix: restore the configuration even if an option
 replaced all of it

---
 pkg/go/parse/config.go      |  5 ++++-
 pkg/po/compile/mo_config.go |  5 ++++-
 pkg/po/compile/po_config.go | 10 ++++++++--
 pkg/po/parse/mo_config.go   |  5 ++++-
 pkg/po/parse/po_config.go   |  6 +++++-
 5 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/pkg/go/parse/config.go b/pkg/go/parse/config.go
index b8cd0b9..6b16c24 100644
--- a/pkg/go/parse/config.go
+++ b/pkg/go/parse/config.go
@@ -34,11 +34,14 @@ func (c *Config) RestoreLastCfg() {
 // saving the previous state so that it can be restored
 // later with [Config.RestoreLastCfg] if desired.
 func (c *Config) ApplyOptions(opts ...Option) {
-	c.lastCfg = *c
+	lastCfg := *c
 
 	for _, opt := range opts {
 		opt(c)
 	}
+
+	// An option may replace the whole configuration, so this goes last.
+	c.lastCfg = lastCfg
 }
 
 func DefaultConfig(opts ...Option) Config {
diff --git a/pkg/po/compile/mo_config.go b/pkg/po/compile/mo_config.go
index c9f1885..11486e4 100644
--- a/pkg/po/compile/mo_config.go
+++ b/pkg/po/compile/mo_config.go
@@ -54,11 +54,14 @@ const (
 // saving the previous state so that it can be restored
 // later with [MoConfig.RestoreLastCfg] if desired.
 func (mc *MoConfig) ApplyOptions(opts ...MoOption) {
-	mc.lastCfg = *mc
+	lastCfg := *mc
 
 	for _, opt := range opts {
 		opt(mc)
 	}
+
+	// An option may replace the whole configuration, so this goes last.
+	mc.lastCfg = lastCfg
 }
 
 // RestoreLastCfg restores the configuration state prior to the last
diff --git a/pkg/po/compile/po_config.go b/pkg/po/compile/po_config.go
index bfd7926..20c5f4d 100644
--- a/pkg/po/compile/po_config.go
+++ b/pkg/po/compile/po_config.go
@@ -64,16 +64,22 @@ func NewPoConfigFromOptions(opts ...PoOption) PoConfig {
 // saving the previous state so that it can be restored
 // later with [PoConfig.RestoreLastCfg] if desired.
 func (c *PoConfig) ApplyOptions(opts ...PoOption) {
-	c.lastCfg = *c
+	lastCfg := *c
+
 	for _, po := range opts {
 		po(c)
 	}
+
+	// An option may replace the whole configuration, so this goes last.
+	c.lastCfg = lastCfg
 }
 
 // RestoreLastCfg restores the configuration state prior to the last
 // [PoConfig.ApplyOptions] if it exists, otherwise it does nothing.
 func (c *PoConfig) RestoreLastCfg() {
-	*c = c.lastCfg.(PoConfig)
+	if c.lastCfg != nil {
+		*c = c.lastCfg.(PoConfig)
+	}
 }
 
 type PoLocationMode string
diff --git a/pkg/po/parse/mo_config.go b/pkg/po/parse/mo_config.go
index 6d70504..b831286 100644
--- a/pkg/po/parse/mo_config.go
+++ b/pkg/po/parse/mo_config.go
@@ -42,11 +42,14 @@ func (mc *MoConfig) RestoreLastCfg() {
 // saving the previous state so that it can be restored
 // later with [MoConfig.RestoreLastCfg] if desired.
 func (mc *MoConfig) ApplyOptions(opts ...MoOption) {
-	mc.lastCfg = *mc
+	lastCfg := *mc
 
 	for _, mo := range opts {
 		mo(mc)
 	}
+
+	// An option may replace the whole configuration, so this goes last.
+	mc.lastCfg = lastCfg
 }
 
 // Endianness represents byte order options for MO files.
diff --git a/pkg/po/parse/po_config.go b/pkg/po/parse/po_config.go
index 846b87a..00aee6e 100644
--- a/pkg/po/parse/po_config.go
+++ b/pkg/po/parse/po_config.go
@@ -49,10 +49,14 @@ func (p *PoConfig) RestoreLastCfg() {
 // saving the previous state so that it can be restored
 // later with [PoConfig.RestoreLastCfg] if desired.
 func (p *PoConfig) ApplyOptions(opts ...PoOption) {
-	p.lastCfg = *p
+	lastCfg := *p
+
 	for _, opt := range opts {
 		opt(p)
 	}
+
+	// An option may replace the whole configuration, so this goes last.
+	p.lastCfg = lastCfg
 }
 
 // DefaultPoConfig returns a new PoConfig with recommended defaults:
-- 
2.43.0


From 04d5309143a33f928f6707f19672d712549a784e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 16/67] fix: do not present the msgid of an untranslated plural
 as its translation

---
 pkg/po/compile/po_compiler_format.go | 5 +++--
 pkg/po/merge.go                      | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 0d13dc8..c540999 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -156,10 +156,11 @@ func (eb *entryBuilder) msgstr() string {
 	const format = "msgstr[%d]"
 	if eb.IsPlural() {
 		if len(eb.Plurals) == 0 {
-			id := eb.string(eb.ID, "msgstr")
+			// There is no translation yet.
+			empty := eb.string("", "msgstr")
 			for i := 0; i < 2; i++ {
 				fmt.Fprint(&msgstr, eb.keyword(fmt.Sprintf(format, i)))
-				fmt.Fprint(&msgstr, id)
+				fmt.Fprint(&msgstr, empty)
 			}
 			return msgstr.String()
 		}
diff --git a/pkg/po/merge.go b/pkg/po/merge.go
index 9ebe727..844b299 100644
--- a/pkg/po/merge.go
+++ b/pkg/po/merge.go
@@ -130,9 +130,9 @@ func mergeRef(config MergeConfig, entry *Entry, def Entries, nplurals int) bool
 			best := def[bestID]
 			mergeEntryStrings(entry, best)
 		}
-	} else if entry.IsPlural() {
+	} else if entry.IsPlural() && len(entry.Plurals) == 0 {
 		for i := 0; i < nplurals; i++ {
-			entry.Plurals = append(entry.Plurals, PluralEntry{i, entry.ID})
+			entry.Plurals = append(entry.Plurals, PluralEntry{ID: i})
 		}
 	}
 	return false
-- 
2.43.0


From a12c489c3893f9aa9fb4194921c2457e3e077cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:11 +0000
Subject: [PATCH 17/67] fix: do not write an unknown line number into PO
 references

---
 pkg/po/compile/po_compiler_format.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index c540999..9e54ea5 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -224,6 +224,10 @@ func (eb *entryBuilder) referenceComment() string {
 	case PoLocationModeFull:
 		writeRef = func(id int) {
 			l := eb.Locations[id]
+			if l.Line < 0 { // Unknown line.
+				fmt.Fprintf(&b, "%s\n", l.File)
+				return
+			}
 			fmt.Fprintf(&b, "%s:%d\n", l.File, l.Line)
 		}
 	case PoLocationModeFile:
-- 
2.43.0


From 5a4ced523993ff5e10b8d75da610a37e7de59349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:11 +0000
Subject: [PATCH 18/67] fix: mark the lines of obsolete and commented PO
 entries consistently

---
 pkg/po/compile/po_compiler_format.go | 64 ++++++++++++++++------------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 9e54ea5..3856dc7 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -3,6 +3,7 @@ package compile
 import (
 	"bytes"
 	"fmt"
+	"regexp"
 	"strings"
 
 	"github.com/Tom5521/gotext-tools/v2/internal/color"
@@ -68,39 +69,41 @@ func applyColor(c TermColorer, str string) string {
 }
 
 func (eb *entryBuilder) BuildEntry() []byte {
-	var buf bytes.Buffer
-	buf.WriteString(eb.comment())
-	buf.WriteString(eb.msgid())
-	buf.WriteString(eb.msgstr())
+	comment := eb.comment()
+	message := eb.msgid() + eb.msgstr()
+
+	switch {
+	case eb.Obsolete:
+		message = prefixLines(eb.obsoletePrefix()+" ", message)
+	case eb.IsFuzzy() && eb.Config.CommentFuzzy:
+		// The comments too, otherwise they would pass to the next entry.
+		comment = prefixLines("# ", comment)
+		message = prefixLines("# ", message)
+	}
 
-	commentFuzzy := eb.IsFuzzy() && eb.Config.CommentFuzzy
+	return []byte(comment + message + "\n")
+}
 
-	if eb.Obsolete || commentFuzzy {
-		entry := buf.String()
-		buf.Reset()
+// obsoletePrefix returns the marker of the lines of obsolete entries.
+func (eb *entryBuilder) obsoletePrefix() string {
+	if eb.Config.UseCustomObsoletePrefix {
+		return "#" + string(eb.Config.CustomObsoletePrefixRune)
+	}
+	return "#~"
+}
 
-		prefix := "#"
-		if eb.Obsolete {
-			if eb.Config.UseCustomObsoletePrefix {
-				prefix += string(eb.Config.CustomObsoletePrefixRune)
-			} else {
-				prefix += "~"
-			}
-		}
-		prefix += " "
+var colorRegex = regexp.MustCompile("\x1b\\[[0-9;]*m")
 
-		for _, line := range strings.Split(entry, "\n") {
-			if strings.HasPrefix(line, "#") || line == "" {
-				buf.WriteString(line + "\n")
-				continue
-			}
-
-			buf.WriteString(prefix + line + "\n")
+// prefixLines writes prefix in front of each line that has any text, apart from colors.
+func prefixLines(prefix, text string) string {
+	var b strings.Builder
+	for _, line := range strings.SplitAfter(text, "\n") {
+		if strings.TrimSpace(colorRegex.ReplaceAllString(line, "")) != "" {
+			b.WriteString(prefix)
 		}
+		b.WriteString(line)
 	}
-
-	buf.WriteByte('\n')
-	return buf.Bytes()
+	return b.String()
 }
 
 // BuildHeader writes the current entry, the header, with the given fields.
@@ -256,9 +259,14 @@ func (eb *entryBuilder) flagComment() string {
 }
 
 func (eb *entryBuilder) previousComment() string {
+	marker := "#"
+	if eb.Obsolete {
+		marker = eb.obsoletePrefix()
+	}
+
 	var b strings.Builder
 	for _, p := range eb.Previous {
-		fmt.Fprintf(&b, "#| %s\n", p)
+		fmt.Fprintf(&b, "%s| %s\n", marker, p)
 	}
 	return b.String()
 }
-- 
2.43.0


From 0ccde08e140ed3e1deb59a34e82fe4ed25e543be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 19/67] fix: keep the msgstr prefix and suffix out of the PO
 header

---
 pkg/po/compile/po_compiler_format.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 3856dc7..3c33a5f 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -180,11 +180,13 @@ func (eb *entryBuilder) msgstr() string {
 		return msgstr.String()
 	}
 
+	str := eb.Str
+	if !eb.IsHeader() { // The header isn't a translation.
+		str = eb.Config.MsgstrPrefix + str + eb.Config.MsgstrSuffix
+	}
+
 	fmt.Fprint(&msgstr, eb.keyword("msgstr"))
-	fmt.Fprint(&msgstr, eb.string(
-		eb.Config.MsgstrPrefix+eb.Str+eb.Config.MsgstrSuffix,
-		"msgstr",
-	))
+	fmt.Fprint(&msgstr, eb.string(str, "msgstr"))
 
 	return msgstr.String()
 }
-- 
2.43.0


From 11d68b48af9e6c44a9c0559f7345f13b37103cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 20/67] fix: do not crash on PO references when no location
 mode is given

---
 pkg/po/compile/po_compiler_format.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 3c33a5f..784dfff 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -226,7 +226,12 @@ func (eb *entryBuilder) referenceComment() string {
 
 	var writeRef func(id int)
 	switch eb.Config.AddLocation {
-	case PoLocationModeFull:
+	case PoLocationModeFile:
+		writeRef = func(id int) {
+			l := eb.Locations[id]
+			fmt.Fprintf(&b, "%s\n", l.File)
+		}
+	default: // PoLocationModeFull, or not specified.
 		writeRef = func(id int) {
 			l := eb.Locations[id]
 			if l.Line < 0 { // Unknown line.
@@ -235,11 +240,6 @@ func (eb *entryBuilder) referenceComment() string {
 			}
 			fmt.Fprintf(&b, "%s:%d\n", l.File, l.Line)
 		}
-	case PoLocationModeFile:
-		writeRef = func(id int) {
-			l := eb.Locations[id]
-			fmt.Fprintf(&b, "%s\n", l.File)
-		}
 	}
 
 	for i := range eb.Locations {
-- 
2.43.0


From 7b499d192676a8f734b69e6deadd8e8969acffbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:44 +0000
Subject: [PATCH 21/67] fix: write and expect the MO magic number in the byte
 order of the file

---
 internal/util/bytes.go       | 22 ++----------------
 pkg/po/compile/mo_compile.go |  2 +-
 pkg/po/parse/mo_parser.go    | 44 +++++++++++++-----------------------
 3 files changed, 19 insertions(+), 49 deletions(-)

diff --git a/internal/util/bytes.go b/internal/util/bytes.go
index 6508c2c..36cbedf 100644
--- a/internal/util/bytes.go
+++ b/internal/util/bytes.go
@@ -6,10 +6,8 @@ import (
 	"golang.org/x/sys/cpu"
 )
 
-const (
-	BigEndianMagicNumber    uint32 = 0xde120495
-	LittleEndianMagicNumber uint32 = 0x950412de
-)
+// MoMagicNumber is the number MO files start with, in the byte order of the file.
+const MoMagicNumber uint32 = 0x950412de
 
 var IsBigEndian = cpu.IsBigEndian
 
@@ -41,22 +39,6 @@ func (e Endianness) Order() binary.ByteOrder {
 	}
 }
 
-func (e Endianness) MagicNumber() uint32 {
-	switch e {
-	case LittleEndian:
-		return LittleEndianMagicNumber
-	case BigEndian:
-		return BigEndianMagicNumber
-	case NativeEndian:
-		fallthrough
-	default:
-		if IsBigEndian {
-			return BigEndianMagicNumber
-		}
-		return LittleEndianMagicNumber
-	}
-}
-
 func (e Endianness) String() string {
 	switch e {
 	case LittleEndian:
diff --git a/pkg/po/compile/mo_compile.go b/pkg/po/compile/mo_compile.go
index e5e75e8..c28908c 100644
--- a/pkg/po/compile/mo_compile.go
+++ b/pkg/po/compile/mo_compile.go
@@ -75,7 +75,7 @@ func (mc *MoCompiler) writeTo(writer io.Writer) error {
 	const origTabOffset = 7 * 4
 
 	header := util.MoHeader{
-		Magic:          mc.Config.Endianness.MagicNumber(),
+		Magic:          util.MoMagicNumber,
 		Nstrings:       flen(entries),
 		OrigTabOffset:  origTabOffset,
 		TransTabOffset: origTabOffset + flen(entries)*8,
diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index d871851..82fec48 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -105,39 +105,27 @@ func (m MoParser) Errors() []error {
 // defineOrder determines the byte order (endianness) of the MO file.
 // It reads the magic number from the file header to detect the byte order.
 func (m *MoParser) defineOrder(reader *bytes.Reader) (order bin.ByteOrder) {
-	var magic u32
+	orders := []bin.ByteOrder{bin.LittleEndian, bin.BigEndian}
+	if m.Config.Endianness != NativeEndian {
+		orders = []bin.ByteOrder{m.Config.Endianness.Order()}
+	}
 
-	if m.Config.Endianness == NativeEndian {
-		err := bin.Read(reader, NativeEndian.Order(), &magic)
-		if err != nil {
-			m.error("error reading magic number: %w", err)
-			return
-		}
-		switch magic {
-		case util.LittleEndianMagicNumber:
-			order = bin.LittleEndian
-		case util.BigEndianMagicNumber:
-			order = bin.BigEndian
-		default:
-			m.error("invalid magic number, this isn't a MO file")
-			return
-		}
-	} else {
-		endian := m.Config.Endianness
-		order = endian.Order()
-		err := bin.Read(reader, order, &magic)
-		if err != nil {
-			m.error("error reading magic number: %w", err)
-			return
-		}
-		if magic != endian.MagicNumber() {
-			m.error("invalid magic number, this isn't a MO file")
+	var magic [4]byte
+	if _, err := io.ReadFull(reader, magic[:]); err != nil {
+		m.error("error reading magic number: %w", err)
+		return nil
+	}
+	reader.Seek(0, 0)
+
+	for _, order = range orders {
+		if order.Uint32(magic[:]) == util.MoMagicNumber {
+			return order
 		}
 	}
 
-	reader.Seek(0, 0)
+	m.error("invalid magic number, this isn't a MO file")
 
-	return
+	return nil
 }
 
 // ParseWithOptions parses the MO file with temporary configuration options.
-- 
2.43.0


From 22010d5040f063aa326dbe68c851114f373fb027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:46 +0000
Subject: [PATCH 22/67] fix: hash the bytes of MO ids, as gettext does

---
 internal/util/hash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/util/hash.go b/internal/util/hash.go
index a1bff94..91e304f 100644
--- a/internal/util/hash.go
+++ b/internal/util/hash.go
@@ -4,8 +4,8 @@ package util
 func PJWHash(str string) uint32 {
 	var h, g uint32
 
-	for _, c := range str {
-		h = (h << 4) + uint32(c)
+	for i := 0; i < len(str); i++ {
+		h = (h << 4) + uint32(str[i])
 		g = h & 0xF0000000 // Check the top 4 bits
 		if g != 0 {
 			h ^= g >> 24 // XOR with the high bits
-- 
2.43.0


From 84b82e130cf522b3d999ade7b4932a365a15bc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 23/67] fix: compile exactly the finished translations to MO,
 without altering the catalog

---
 pkg/po/compile/mo_compile.go | 24 ++++++++++++++++++++++--
 pkg/po/compile/mo_config.go  |  4 ++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/pkg/po/compile/mo_compile.go b/pkg/po/compile/mo_compile.go
index c28908c..091a880 100644
--- a/pkg/po/compile/mo_compile.go
+++ b/pkg/po/compile/mo_compile.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 
+	"github.com/Tom5521/gotext-tools/v2/internal/slices"
 	"github.com/Tom5521/gotext-tools/v2/internal/util"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
 )
@@ -57,11 +58,12 @@ func (mc *MoCompiler) writeTo(writer io.Writer) error {
 	entries := mc.File.Entries
 	if mc.Config.DepureEntries {
 		mc.info("cleaning entries...")
-		entries = mc.File.Entries.CleanDuplicates().CleanFuzzy().CleanObsoletes()
+		entries = depureEntries(entries)
 	}
 	if mc.Config.SortEntries {
 		mc.info("sorting entries...")
-		entries = entries.SortFunc(po.CompareEntryByID)
+		// The entries belong to the caller, so sort a copy.
+		entries = slices.Clone(entries).SortFunc(po.CompareEntryByID)
 	}
 	mc.info("creating header...")
 	var hashTabSize u32
@@ -150,6 +152,24 @@ func (mc *MoCompiler) writeTo(writer io.Writer) error {
 	return nil
 }
 
+// depureEntries returns the entries that belong in a MO file, without duplicates:
+// the header and the finished translations.
+//
+// Like in gettext, a plural entry counts as translated if its first form is.
+func depureEntries(entries po.Entries) po.Entries {
+	finished := make(po.Entries, 0, len(entries))
+	for _, e := range entries {
+		str := e.UnifiedStr()
+		untranslated := str == "" || str[0] == 0
+		if e.Obsolete || untranslated || (e.IsFuzzy() && !e.IsHeader()) {
+			continue
+		}
+		finished = append(finished, e)
+	}
+
+	return finished.CleanDuplicates()
+}
+
 // buildHashTable creates a hash table for the given PO entries using the specified size.
 // The implementation is translated from gettext's write-mo.c:
 // https://github.com/autotools-mirror/gettext/blob/master/gettext-tools/src/write-mo.c#L876
diff --git a/pkg/po/compile/mo_config.go b/pkg/po/compile/mo_config.go
index 11486e4..c52e1e5 100644
--- a/pkg/po/compile/mo_config.go
+++ b/pkg/po/compile/mo_config.go
@@ -32,9 +32,9 @@ type MoConfig struct {
 
 	// NOTE: This reaaaaalyyy need to be exposed?
 
-	// DepureEntries determines whether fuzzy,
+	// DepureEntries determines whether fuzzy, untranslated,
 	// obsolete, and duplicate entries will be
-	// deleted before starting the process.
+	// left out before starting the process.
 	//
 	// WARNING: Only disable this if you know what you're doing.
 	DepureEntries bool
-- 
2.43.0


From 148a31536cc8d4f8766eb8dfc503809704f0461a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:42 +0000
Subject: [PATCH 24/67] fix: do not write to a MO file that could not be opened

---
 pkg/po/compile/mo_compiler.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/po/compile/mo_compiler.go b/pkg/po/compile/mo_compiler.go
index 57f64c1..f820e1a 100644
--- a/pkg/po/compile/mo_compiler.go
+++ b/pkg/po/compile/mo_compiler.go
@@ -92,9 +92,8 @@ func (mc MoCompiler) ToFile(f string) error {
 	}
 	mc.info("opening file...")
 	file, err := os.OpenFile(f, flags, 0o600)
-	if err != nil && !mc.Config.IgnoreErrors {
-		err = mc.error("error opening file: %w", err)
-		return err
+	if err != nil {
+		return mc.error("error opening file: %w", err)
 	}
 	defer file.Close()
 
-- 
2.43.0


From 646d4802d3347d23a7f33fd332d3465062eb6bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:44 +0000
Subject: [PATCH 25/67] fix: do not alter the original messages when filtering
 or merging them

---
 pkg/po/entries.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/po/entries.go b/pkg/po/entries.go
index 0db5337..99d90b0 100644
--- a/pkg/po/entries.go
+++ b/pkg/po/entries.go
@@ -26,7 +26,7 @@ func (e Entries) ContainsUnifiedID(uid string) bool {
 
 func (e Entries) CutHeader() Entries {
 	if id := e.Index("", ""); id != -1 {
-		e = slices.Delete(e, id, id+1)
+		e = slices.Delete(slices.Clone(e), id, id+1)
 	}
 
 	return e
@@ -134,19 +134,19 @@ func (e Entries) HasDuplicates() bool {
 }
 
 func (e Entries) CleanObsoletes() Entries {
-	return slices.DeleteFunc(e, func(e Entry) bool { return e.Obsolete })
+	return slices.DeleteFunc(slices.Clone(e), func(e Entry) bool { return e.Obsolete })
 }
 
 // CleanDuplicates removes duplicate entries with the same ID and context, merging their locations.
 func (e Entries) CleanDuplicates() Entries {
 	return e.SolveFunc(func(a, b Entry) *Entry {
-		a.Locations = append(a.Locations, b.Locations...)
+		a.Locations = append(slices.Clip(a.Locations), b.Locations...)
 		return &a
 	})
 }
 
 func (e Entries) CleanEmpties() Entries {
-	return slices.DeleteFunc(e, func(e Entry) bool { return e.ID == "" })
+	return slices.DeleteFunc(slices.Clone(e), func(e Entry) bool { return e.ID == "" })
 }
 
 // MergeFunc defines a function type that takes two Entry objects and returns a merged Entry pointer.
@@ -215,7 +215,7 @@ func SolveMerge(a, b Entry) *Entry {
 	}
 
 	// Combine the Locations from both entries.
-	preferred.Locations = append(a.Locations, b.Locations...)
+	preferred.Locations = append(slices.Clip(a.Locations), b.Locations...)
 
 	// Choose the preferred Str and Plurals based on CompareEntryByStr.
 	if CompareEntryByStr(a, b) > 0 {
@@ -263,7 +263,7 @@ func (e Entries) Solve() Entries {
 }
 
 func (e Entries) CleanFuzzy() Entries {
-	return slices.DeleteFunc(e, func(e Entry) bool { return e.IsFuzzy() })
+	return slices.DeleteFunc(slices.Clone(e), func(e Entry) bool { return e.IsFuzzy() })
 }
 
 func (e Entries) FuzzyFind(id, context string) int {
-- 
2.43.0


From b4368314c84f54035e1a5fc66cefb2dacf30bfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 26/67] fix: check the bounds of the tables and strings of MO
 files

---
 pkg/po/parse/mo_parser.go | 152 +++++++++++++++-----------------------
 1 file changed, 58 insertions(+), 94 deletions(-)

diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index 82fec48..8c003ab 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"strings"
 
 	"github.com/Tom5521/gotext-tools/v2/internal/util"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
@@ -15,14 +16,13 @@ import (
 // Type aliases for cleaner code.
 type (
 	u32 = uint32
-	i64 = int64
-	i32 = int32
+	u64 = uint64
 )
 
 // Common byte sequences used in MO file parsing.
-var (
-	eot = []byte{4} // End Of Transmission marker
-	nul = []byte{0} // Null byte separator
+const (
+	eot = "\x04" // End Of Transmission marker
+	nul = "\x00" // Null byte separator
 )
 
 // Ensure MoParser implements the po.Parser interface.
@@ -156,63 +156,45 @@ func (m *MoParser) Parse() (file *po.File) {
 	// Validate version numbers
 	if v := header.MajorVersion; v != 0 && v != 1 {
 		m.error("invalid major version number (%d)", v)
+		return
 	}
 
 	if v := header.MinorVersion; v != 0 && v != 1 {
 		m.error("invalid minor version number (%d)", v)
+		return
 	}
 
+	data := string(m.data)
+
 	// Read message ID table
-	msgIDStart := make([]u32, header.Nstrings)
-	msgIDLen := make([]u32, header.Nstrings)
-	_, err = r.Seek(i64(header.OrigTabOffset), 0)
+	msgIDs, err := readStrings(data, bo, header.OrigTabOffset, header.Nstrings)
 	if err != nil {
-		m.error("bad original table offset(%d): %w", header.OrigTabOffset, err)
+		m.error("error reading msgids: %w", err)
 		return
 	}
 
-	for i := u32(0); i < header.Nstrings; i++ {
-		if err = bin.Read(r, bo, &msgIDLen[i]); err != nil {
-			m.error("error reading msgid len[%d]: %w", i, err)
-			return
-		}
-		if err = bin.Read(r, bo, &msgIDStart[i]); err != nil {
-			m.error("error reading msgid start[%d]: %w", i, err)
-			return
-		}
-	}
-
 	// Read message string table
-	msgStrStart := make([]i32, header.Nstrings)
-	msgStrLen := make([]i32, header.Nstrings)
-	_, err = r.Seek(i64(header.TransTabOffset), 0)
+	msgStrs, err := readStrings(data, bo, header.TransTabOffset, header.Nstrings)
 	if err != nil {
-		m.error("bad translation table offset(%d): %w", header.TransTabOffset, err)
+		m.error("error reading msgstrs: %w", err)
 		return
 	}
 
-	for i := u32(0); i < header.Nstrings; i++ {
-		if err = bin.Read(r, bo, &msgStrLen[i]); err != nil {
-			m.error("error reading msgstr len[%d]: %w", i, err)
-			return
-		}
-		if err = bin.Read(r, bo, &msgStrStart[i]); err != nil {
-			m.error("error reading msgstr start[%d]: %w", i, err)
+	// Create the po.File structure with all entries
+	entries := make(po.Entries, 0, len(msgIDs))
+	forms := 0
+	for i := range msgIDs {
+		forms += strings.Count(msgStrs[i], nul)
+		if forms > len(data) {
+			m.error("too many plural forms")
 			return
 		}
+		entries = append(entries, makeEntry(msgIDs[i], msgStrs[i]))
 	}
 
-	// Create the po.File structure with all entries
 	file = &po.File{
-		Name: m.filename,
-		Entries: m.makeEntries(
-			r,
-			&header,
-			msgIDStart,
-			msgIDLen,
-			msgStrStart,
-			msgStrLen,
-		),
+		Name:    m.filename,
+		Entries: entries,
 	}
 
 	// Validate sorting if required by configuration
@@ -226,68 +208,50 @@ func (m *MoParser) Parse() (file *po.File) {
 	return
 }
 
-// makeEntries creates po.Entries from the parsed MO file data.
-func (m *MoParser) makeEntries(
-	r *bytes.Reader,
-	header *util.MoHeader,
-	msgIDStart, msgIDLen []u32,
-	msgStrStart, msgStrLen []i32,
-) (entries po.Entries) {
-	for i := u32(0); i < header.Nstrings; i++ {
-		idStart := i64(msgIDStart[i])
-		idLen := msgIDLen[i]
-		strStart := i64(msgStrStart[i])
-		strLen := msgStrLen[i]
-
-		// Read message ID data
-		_, err := r.Seek(idStart, 0)
-		if err != nil {
-			m.error("bad msgid start[%d]: %w", idStart, err)
-		}
+// readStrings returns the n strings whose lengths and offsets are in the table at the
+// given offset. The strings are parts of data, and not copies: they may overlap.
+func readStrings(data string, bo bin.ByteOrder, offset, n u32) ([]string, error) {
+	size := u64(len(data))
 
-		msgIDData := make([]byte, idLen)
-		_, err = r.Read(msgIDData)
-		if err != nil {
-			m.error(
-				"error reading msgid data[start: %d len: %d]: %w",
-				idStart,
-				idLen,
-				err,
-			)
-		}
+	const entrySize = 8
+	if u64(offset)+u64(n)*entrySize > size {
+		return nil, fmt.Errorf("table[offset: %d entries: %d] is out of the file", offset, n)
+	}
+
+	strs := make([]string, 0, n)
+	for i := u32(0); i < n; i++ {
+		entry := []byte(data[offset+i*entrySize:][:entrySize])
+		length := u64(bo.Uint32(entry))
+		start := u64(bo.Uint32(entry[4:]))
 
-		// Read message string data
-		_, err = r.Seek(strStart, 0)
-		if err != nil {
-			m.error("bad msgstr start[%d]: %w", strStart, err)
+		// All strings have a null byte after them.
+		if start+length >= size {
+			return nil, fmt.Errorf(
+				"string[start: %d len: %d] is out of the file", start, length,
+			)
 		}
-		msgStrData := make([]byte, strLen)
-		_, err = r.Read(msgStrData)
-		if err != nil {
-			m.error("error reading msgstr data[start: %d len: %d]: %w",
-				strStart,
-				strLen,
-				err,
+		if data[start+length] != 0 {
+			return nil, fmt.Errorf(
+				"string[start: %d len: %d] isn't null-terminated", start, length,
 			)
 		}
-
-		entries = append(entries, makeEntry(msgIDData, msgStrData))
+		strs = append(strs, data[start:start+length])
 	}
 
-	return
+	return strs, nil
 }
 
 // Is there a way to make this code more... clean? maybe...
 
 // makeEntry creates a single po.Entry from raw message ID and string data.
-func makeEntry(msgid, msgstr []byte) (entry po.Entry) {
+func makeEntry(msgid, msgstr string) (entry po.Entry) {
 	var (
-		msgctxt  []byte
-		pluralID []byte
+		msgctxt  string
+		pluralID string
 	)
 
 	// Split context from message ID (separated by EOT)
-	d := bytes.Split(msgid, eot)
+	d := strings.Split(msgid, eot)
 	if len(d) == 1 {
 		msgid = d[0]
 	} else {
@@ -295,7 +259,7 @@ func makeEntry(msgid, msgstr []byte) (entry po.Entry) {
 	}
 
 	// Handle plural forms in message ID (separated by NUL)
-	msgidParts := bytes.Split(msgid, nul)
+	msgidParts := strings.Split(msgid, nul)
 	if len(msgidParts) > 1 {
 		msgid = msgidParts[0]
 		if len(msgidParts) >= 2 {
@@ -303,19 +267,19 @@ func makeEntry(msgid, msgstr []byte) (entry po.Entry) {
 		}
 	}
 
-	entry.ID = string(msgid)
-	entry.Plural = string(pluralID)
+	entry.ID = msgid
+	entry.Plural = pluralID
 
 	// Handle plural forms in message string
-	msgstrParts := bytes.Split(msgstr, nul)
+	msgstrParts := strings.Split(msgstr, nul)
 	if len(msgstrParts) == 1 {
-		entry.Str = string(msgstrParts[0])
+		entry.Str = msgstrParts[0]
 	} else {
 		for i, s := range msgstrParts {
 			entry.Plurals = append(entry.Plurals,
 				po.PluralEntry{
 					ID:  i,
-					Str: string(s),
+					Str: s,
 				},
 			)
 		}
@@ -323,7 +287,7 @@ func makeEntry(msgid, msgstr []byte) (entry po.Entry) {
 
 	// Set context if present
 	if len(msgctxt) > 0 {
-		entry.Context = string(msgctxt)
+		entry.Context = msgctxt
 	}
 
 	return
-- 
2.43.0


From 0ea149b312339a2bf938a4b2f9cea4ae8c09040b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 27/67] fix: read MO messages with a single plural form, and
 ids with an EOT byte

---
 pkg/po/parse/mo_parser.go | 52 ++++++++++++++-------------------------
 1 file changed, 18 insertions(+), 34 deletions(-)

diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index 8c003ab..40e05ce 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -245,50 +245,34 @@ func readStrings(data string, bo bin.ByteOrder, offset, n u32) ([]string, error)
 
 // makeEntry creates a single po.Entry from raw message ID and string data.
 func makeEntry(msgid, msgstr string) (entry po.Entry) {
-	var (
-		msgctxt  string
-		pluralID string
-	)
-
 	// Split context from message ID (separated by EOT)
-	d := strings.Split(msgid, eot)
-	if len(d) == 1 {
-		msgid = d[0]
-	} else {
-		msgid, msgctxt = d[1], d[0]
+	if context, id, ok := strings.Cut(msgid, eot); ok {
+		entry.Context, msgid = context, id
 	}
 
 	// Handle plural forms in message ID (separated by NUL)
-	msgidParts := strings.Split(msgid, nul)
+	msgidParts := strings.SplitN(msgid, nul, 3)
+	entry.ID = msgidParts[0]
 	if len(msgidParts) > 1 {
-		msgid = msgidParts[0]
-		if len(msgidParts) >= 2 {
-			pluralID = msgidParts[1]
-		}
+		entry.Plural = msgidParts[1]
 	}
 
-	entry.ID = msgid
-	entry.Plural = pluralID
-
-	// Handle plural forms in message string
+	// Handle plural forms in message string,
+	// a language may have only one of them.
 	msgstrParts := strings.Split(msgstr, nul)
-	if len(msgstrParts) == 1 {
-		entry.Str = msgstrParts[0]
-	} else {
-		for i, s := range msgstrParts {
-			entry.Plurals = append(entry.Plurals,
-				po.PluralEntry{
-					ID:  i,
-					Str: s,
-				},
-			)
-		}
+	if len(msgidParts) == 1 && len(msgstrParts) == 1 {
+		entry.Str = msgstr
+		return entry
 	}
 
-	// Set context if present
-	if len(msgctxt) > 0 {
-		entry.Context = msgctxt
+	for i, s := range msgstrParts {
+		entry.Plurals = append(entry.Plurals,
+			po.PluralEntry{
+				ID:  i,
+				Str: s,
+			},
+		)
 	}
 
-	return
+	return entry
 }
-- 
2.43.0


From 528121e88140d8279a5ef7bbf1f7d82690439ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:47 +0000
Subject: [PATCH 28/67] fix: forget the errors of an earlier run when an MO
 parser runs again

---
 pkg/po/parse/mo_parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index 40e05ce..434b435 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -140,6 +140,7 @@ func (m *MoParser) ParseWithOptions(opts ...MoOption) (file *po.File) {
 // Parse reads and parses the MO file into a po.File structure.
 func (m *MoParser) Parse() (file *po.File) {
 	var err error
+	m.errors = nil
 	r := bytes.NewReader(m.data)
 
 	bo := m.defineOrder(r)
-- 
2.43.0


From 1388ab3b51391a97d3315f5f311eaf8b639dce7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 29/67] fix: write the flags of a PO entry in one line, the
 only form gettext reads fully

---
 pkg/po/compile/po_compiler_format.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 784dfff..37920cc 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -251,13 +251,11 @@ func (eb *entryBuilder) referenceComment() string {
 }
 
 func (eb *entryBuilder) flagComment() string {
-	var comments string
-	for _, f := range eb.Flags {
-		comment := fmt.Sprintf("#, %s\n", f)
-		comments += comment
+	if len(eb.Flags) == 0 {
+		return ""
 	}
-
-	return comments
+	// In a single line, as gettext only minds the last line of flags.
+	return fmt.Sprintf("#, %s\n", strings.Join(eb.Flags, ", "))
 }
 
 func (eb *entryBuilder) previousComment() string {
-- 
2.43.0


From d152d473ce1a53efc948a628e3fe00b120da4ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 30/67] fix: read octal and hexadecimal escapes of PO strings
 as bytes

---
 internal/util/po_parse.go | 71 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 70 insertions(+), 1 deletion(-)

diff --git a/internal/util/po_parse.go b/internal/util/po_parse.go
index c67f122..80d5a3e 100644
--- a/internal/util/po_parse.go
+++ b/internal/util/po_parse.go
@@ -1,6 +1,9 @@
 package util
 
 import (
+	"strconv"
+	"strings"
+
 	"github.com/alecthomas/participle/v2"
 	"github.com/alecthomas/participle/v2/lexer"
 )
@@ -53,10 +56,76 @@ var (
 	PoLexer  = lexer.MustSimple(PoRules)
 	PoParser = participle.MustBuild[poFile](
 		participle.Lexer(PoLexer),
-		participle.Unquote("String"),
+		participle.Map(unquoteToken, "String"),
 		participle.Elide(
 			"WS",
 			"Comment",
 		),
 	)
 )
+
+func unquoteToken(t lexer.Token) (lexer.Token, error) {
+	value, err := unquotePOString(t.Value)
+	if err != nil {
+		return t, participle.Errorf(t.Pos, "invalid quoted string %q: %s", t.Value, err)
+	}
+	t.Value = value
+	return t, nil
+}
+
+// unquotePOString returns the text of a quoted string. Unlike in Go strings, octal and
+// hexadecimal escapes may have fewer digits and those above 127 stand for a byte of a
+// character, not for a character.
+func unquotePOString(s string) (string, error) {
+	const (
+		quote       = '"'
+		octalDigits = "01234567"
+		hexDigits   = "0123456789abcdefABCDEF"
+	)
+
+	var b strings.Builder
+	for s = s[1 : len(s)-1]; s != ""; {
+		var digits string
+		var base int
+
+		switch {
+		case s[0] != '\\':
+			b.WriteByte(s[0])
+			s = s[1:]
+			continue
+		case strings.IndexByte(octalDigits, s[1]) != -1:
+			base = 8
+			digits = prefixOf(s[1:], octalDigits, 3)
+			s = s[1+len(digits):]
+		case s[1] == 'x':
+			base = 16
+			digits = prefixOf(s[2:], hexDigits, 2)
+			s = s[2+len(digits):]
+		default:
+			char, _, tail, err := strconv.UnquoteChar(s, quote)
+			if err != nil {
+				return "", err
+			}
+			b.WriteRune(char)
+			s = tail
+			continue
+		}
+
+		value, err := strconv.ParseUint(digits, base, 8)
+		if err != nil {
+			return "", err
+		}
+		b.WriteByte(byte(value))
+	}
+
+	return b.String(), nil
+}
+
+// prefixOf returns the longest prefix of s, up to max bytes, with only the given bytes.
+func prefixOf(s, bytes string, max int) string {
+	n := 0
+	for n < len(s) && n < max && strings.IndexByte(bytes, s[n]) != -1 {
+		n++
+	}
+	return s[:n]
+}
-- 
2.43.0


From 0e52fc78c154bb00285efa7d43e1ba27e78f8dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:32 +0000
Subject: [PATCH 31/67] fix: report PO strings that are not closed on their
 line

---
 internal/util/po_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/po_parse.go b/internal/util/po_parse.go
index 80d5a3e..a006414 100644
--- a/internal/util/po_parse.go
+++ b/internal/util/po_parse.go
@@ -46,7 +46,7 @@ var (
 		{Name: "Integer", Pattern: `\d+`},
 		{Name: "LB", Pattern: `\[`},
 		{Name: "RB", Pattern: `\]`},
-		{Name: "String", Pattern: `"(\\.|[^"\\])*"`},
+		{Name: "String", Pattern: `"(\\.|[^"\\\n])*"`},
 		{Name: "Msgctxt", Pattern: "msgctxt"},
 		{Name: "MsgidPlural", Pattern: "msgid_plural"},
 		{Name: "Msgid", Pattern: "msgid"},
-- 
2.43.0


From d837fc2848ac817b272fc77c3c06ade81794c03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:33 +0000
Subject: [PATCH 32/67] fix: forget the imports of the former content when a Go
 file reader is reset

---
 pkg/go/parse/file.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/go/parse/file.go b/pkg/go/parse/file.go
index 11a2004..9f3fce4 100644
--- a/pkg/go/parse/file.go
+++ b/pkg/go/parse/file.go
@@ -58,6 +58,8 @@ func (f *File) error(format string, a ...any) error {
 func (f *File) Reset(d io.Reader, name string, config *Config) error {
 	f.seenNodes = nil
 	f.errors = nil
+	f.pkgName = DefaultPackageName
+	f.hasGotext = false
 
 	if r, ok := d.(*bytes.Reader); ok {
 		f.reader = r
-- 
2.43.0


From 2c91be8c5d87922a5640005cab4514a6fff06313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 33/67] fix: compare extreme line numbers and plural ids
 consistently

---
 pkg/po/cmp.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/po/cmp.go b/pkg/po/cmp.go
index 470019b..959dc10 100644
--- a/pkg/po/cmp.go
+++ b/pkg/po/cmp.go
@@ -142,7 +142,7 @@ func ComparePluralEntryByStr(a, b PluralEntry) int {
 
 // ComparePluralEntryByID compares two plural entries by their numeric IDs.
 func ComparePluralEntryByID(a, b PluralEntry) int {
-	return a.ID - b.ID
+	return compareInt(a.ID, b.ID)
 }
 
 // CompareLocationsFunc compares two slices of locations using the given comparison function.
@@ -160,7 +160,18 @@ func CompareLocation(a, b Location) int {
 
 // CompareLocationByLine compares two locations by line number.
 func CompareLocationByLine(a, b Location) int {
-	return a.Line - b.Line
+	return compareInt(a.Line, b.Line)
+}
+
+// compareInt compares two integers; their difference could overflow.
+func compareInt(a, b int) int {
+	switch {
+	case a < b:
+		return -1
+	case a > b:
+		return 1
+	}
+	return 0
 }
 
 // CompareLocationByFile compares two locations by cleaned file path string.
-- 
2.43.0


From 82a498476491ac0d565fcab7ba375a6f8e1b1d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:56 +0000
Subject: [PATCH 34/67] fix: order plural and singular translations
 consistently, the empty ones first

---
 pkg/po/cmp.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/po/cmp.go b/pkg/po/cmp.go
index 959dc10..22526fe 100644
--- a/pkg/po/cmp.go
+++ b/pkg/po/cmp.go
@@ -98,11 +98,17 @@ func CompareEntryByLocation(a, b Entry) int {
 }
 
 // CompareEntryByStr compares entries by their translation strings, including plural forms.
+//
+// The translation of an entry without plural forms counts as its only form.
 func CompareEntryByStr(a, b Entry) int {
-	if a.IsPlural() && b.IsPlural() {
-		if i := ComparePluralEntriesFunc(a.Plurals, b.Plurals, ComparePluralEntryByStr); i != 0 {
-			return i
+	forms := func(e Entry) PluralEntries {
+		if len(e.Plurals) == 0 {
+			return PluralEntries{{Str: e.Str}}
 		}
+		return e.Plurals
+	}
+	if i := ComparePluralEntriesFunc(forms(a), forms(b), ComparePluralEntryByStr); i != 0 {
+		return i
 	}
 	return strings.Compare(a.Str, b.Str)
 }
-- 
2.43.0


From ae472d782cc950a111dfe87b627db3b8dc96ac0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:50 +0000
Subject: [PATCH 35/67] fix: find a message by its exact id and context if both
 texts are empty

---
 internal/util/equal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/equal.go b/internal/util/equal.go
index 602c8b2..a4bb0a1 100644
--- a/internal/util/equal.go
+++ b/internal/util/equal.go
@@ -8,7 +8,7 @@ import (
 )
 
 func FuzzyEqual(x, y string) bool {
-	return fuzzy.Ratio(x, y) >= 80
+	return x == y || fuzzy.Ratio(x, y) >= 80
 }
 
 type visitedPairs map[[2]uintptr]struct{}
-- 
2.43.0


From bc95804459378451f7866af0b4e8441d55f4528a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:39 +0000
Subject: [PATCH 36/67] fix: apply the bounds of the number of definitions when
 concatenating

---
 pkg/po/msgcat_merge.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/po/msgcat_merge.go b/pkg/po/msgcat_merge.go
index 757ea5e..866ef8e 100644
--- a/pkg/po/msgcat_merge.go
+++ b/pkg/po/msgcat_merge.go
@@ -64,8 +64,9 @@ func MsgcatMergeFiles(files []*File, opts ...MsgcatMergeOption) Entries {
 	return slices.DeleteFunc(process.entriesSlice, func(entry Entry) bool {
 		info := process.entriesMap[entry.UnifiedID()]
 
-		return info.timesFound >= process.config.LessThan &&
-			info.timesFound <= process.config.MoreThan
+		return !entry.IsHeader() &&
+			(info.timesFound >= process.config.LessThan ||
+				info.timesFound <= process.config.MoreThan)
 	})
 }
 
-- 
2.43.0


From 6b1a7d0fbf84aae67091b10973754cb0dee1a9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 37/67] fix: merge all definitions of a message at once when
 concatenating

---
 pkg/po/msgcat_merge.go | 306 +++++++++++++++++++----------------------
 1 file changed, 141 insertions(+), 165 deletions(-)

diff --git a/pkg/po/msgcat_merge.go b/pkg/po/msgcat_merge.go
index 866ef8e..8aa706e 100644
--- a/pkg/po/msgcat_merge.go
+++ b/pkg/po/msgcat_merge.go
@@ -52,213 +52,189 @@ func MsgcatMergeWithUseFirst(uf bool) MsgcatMergeOption {
 
 // NOTE: I THINK, I should rename this to something more... thechnical... or expresive.
 
+// MsgcatMergeFiles concatenates the messages of several files.
+//
+// Different definitions of a message are merged into one: differing translations and comments
+// are all kept, each under a marker that names its file, and such a message is marked fuzzy.
 func MsgcatMergeFiles(files []*File, opts ...MsgcatMergeOption) Entries {
-	process := newMsgcatMergeProcess(opts...)
+	config := DefaultMsgcatMergeConfig(opts...)
 
+	var order []string
+	definitions := make(map[string]msgcatDefinitions)
 	for _, file := range files {
 		for _, entry := range file.Entries {
-			process.handleEntry(entry, file.Name)
+			uid := entry.UnifiedID()
+			if _, found := definitions[uid]; !found {
+				order = append(order, uid)
+			}
+			definitions[uid] = append(definitions[uid], msgcatDefinition{file.Name, entry})
 		}
 	}
 
-	return slices.DeleteFunc(process.entriesSlice, func(entry Entry) bool {
-		info := process.entriesMap[entry.UnifiedID()]
+	merged := make(Entries, 0, len(order))
+	for _, uid := range order {
+		defs := definitions[uid]
+		found := uint(len(defs))
+		if !defs[0].entry.IsHeader() &&
+			(found >= config.LessThan || found <= config.MoreThan) {
+			continue
+		}
+		if config.UseFirst {
+			merged = append(merged, defs.first())
+		} else {
+			merged = append(merged, defs.merge())
+		}
+	}
 
-		return !entry.IsHeader() &&
-			(info.timesFound >= process.config.LessThan ||
-				info.timesFound <= process.config.MoreThan)
-	})
+	return merged
 }
 
-func newMsgcatMergeProcess(opts ...MsgcatMergeOption) *msgcatMergeProcess {
-	return &msgcatMergeProcess{
-		map[string]msgcatEntryInfo{},
-		Entries{},
-		DefaultMsgcatMergeConfig(opts...),
-	}
+// msgcatDefinition is a message as one of the files defines it.
+type msgcatDefinition struct {
+	file  string
+	entry Entry
 }
 
-type msgcatMergeProcess struct {
-	entriesMap   map[string]msgcatEntryInfo
-	entriesSlice Entries
-	config       MsgcatMergeConfig
+// forms returns the translations of the message, one per plural form.
+func (d msgcatDefinition) forms() []string {
+	if !d.entry.IsPlural() {
+		return []string{d.entry.Str}
+	}
+	forms := make([]string, len(d.entry.Plurals))
+	for i, plural := range d.entry.Plurals {
+		forms[i] = plural.Str
+	}
+	return forms
 }
 
-// msgcatEntryInfo tracks metadata about merged entries.
-type msgcatEntryInfo struct {
-	index      int    // Index in the entries slice
-	file       string // First file where the entry was found
-	timesFound uint
+func (d msgcatDefinition) isTranslated() bool {
+	return slices.ContainsFunc(d.forms(), func(s string) bool { return s != "" })
 }
 
-// handleEntry handles an individual PO entry including merging logic.
-func (m *msgcatMergeProcess) handleEntry(entry Entry, filename string) {
-	uid := entry.UnifiedID()
-	original, duplicated := m.entriesMap[uid]
+// msgcatDefinitions are all the definitions of a message, in the order of the files.
+type msgcatDefinitions []msgcatDefinition
 
-	if duplicated {
-		original.timesFound++
-		m.entriesMap[uid] = original
+// first returns the first definition that has a translation.
+func (defs msgcatDefinitions) first() Entry {
+	if i := slices.IndexFunc(defs, msgcatDefinition.isTranslated); i != -1 {
+		return defs[i].entry
+	}
+	return defs[0].entry
+}
 
-		if m.config.UseFirst {
-			return
-		}
-		m.entriesSlice[original.index] = msgcatMergeEntry(
-			m.entriesSlice[original.index],
-			entry,
-			original.file,
-			filename,
-		)
-		return
+// merge merges the definitions into one.
+func (defs msgcatDefinitions) merge() Entry {
+	merged := defs[0].entry
+	if len(defs) == 1 {
+		return merged
 	}
 
-	m.entriesMap[uid] = msgcatEntryInfo{
-		index:      len(m.entriesSlice),
-		file:       filename,
-		timesFound: 1,
+	// Where any definition has plural forms, the translation of a singular one is the first form.
+	if i := slices.IndexFunc(defs, func(d msgcatDefinition) bool { return d.entry.IsPlural() }); i != -1 {
+		merged.Plural = defs[i].entry.Plural
+		merged.Str, merged.Plurals = "", defs.plurals()
+	} else {
+		merged.Str = defs.text(0)
 	}
-	m.entriesSlice = append(m.entriesSlice, entry)
-}
 
-// msgcatMergeEntry merges two conflicting PO entries.
-func msgcatMergeEntry(
-	originalEntry Entry,
-	newEntry Entry,
-	originalFilename, newFilename string,
-) Entry {
-	mergedEntry := Entry{
-		Flags: msgcatMergeComments(
-			originalEntry.Flags,
-			newEntry.Flags,
-			originalFilename,
-			newFilename,
-		),
-		Comments: msgcatMergeComments(
-			originalEntry.Comments,
-			newEntry.Comments,
-			originalFilename,
-			newFilename,
-		),
-		ExtractedComments: msgcatMergeComments(
-			originalEntry.ExtractedComments,
-			newEntry.ExtractedComments,
-			originalFilename,
-			newFilename,
-		),
-		Previous: msgcatMergeComments(
-			originalEntry.Previous,
-			newEntry.Previous,
-			originalFilename,
-			newFilename,
-		),
-
-		ID:      originalEntry.ID,
-		Context: originalEntry.Context,
-		Plural:  originalEntry.Plural,
-		Plurals: msgcatMergePlurals(
-			originalEntry,
-			newEntry,
-			originalFilename,
-			newFilename,
-		),
-		Str: msgcatMergeStrings(
-			originalEntry.Str,
-			newEntry.Str,
-			originalFilename,
-			newFilename,
-		),
-		Locations: append(
-			originalEntry.Locations,
-			newEntry.Locations...,
-		),
+	merged.Flags, merged.Locations = nil, nil
+	for _, d := range defs {
+		for _, flag := range d.entry.Flags {
+			if !slices.Contains(merged.Flags, flag) {
+				merged.Flags = append(merged.Flags, flag)
+			}
+		}
+		for _, location := range d.entry.Locations {
+			if !slices.Contains(merged.Locations, location) {
+				merged.Locations = append(merged.Locations, location)
+			}
+		}
+		if len(merged.Previous) == 0 {
+			merged.Previous = d.entry.Previous
+		}
+		merged.Obsolete = merged.Obsolete && d.entry.Obsolete
 	}
+	merged.Comments = defs.comments(func(e Entry) []string { return e.Comments })
+	merged.ExtractedComments = defs.comments(func(e Entry) []string { return e.ExtractedComments })
 
-	if !mergedEntry.IsFuzzy() &&
-		(originalEntry.FullUnifiedID() != newEntry.FullUnifiedID() ||
-			originalEntry.UnifiedStr() != newEntry.UnifiedStr()) {
-		mergedEntry.Flags = append(mergedEntry.Flags, "fuzzy")
+	if !merged.IsFuzzy() && defs.conflict() {
+		merged.Flags = append(merged.Flags, "fuzzy")
 	}
 
-	return mergedEntry
+	return merged
 }
 
-// msgcatMergePlurals handles merging of plural form strings.
-func msgcatMergePlurals(
-	originalEntry, newEntry Entry,
-	originalFilename, newFilename string,
-) PluralEntries {
-	if !originalEntry.IsPlural() {
-		return originalEntry.Plurals
-	}
-
-	mergedEntries := make(PluralEntries, 0, len(originalEntry.Plurals)+len(newEntry.Plurals))
+// conflict reports whether the files translate the message differently.
+func (defs msgcatDefinitions) conflict() bool {
+	first := slices.IndexFunc(defs, msgcatDefinition.isTranslated)
+	return first != -1 && slices.ContainsFunc(defs, func(d msgcatDefinition) bool {
+		return d.isTranslated() && (d.entry.Plural != defs[first].entry.Plural ||
+			!slices.Equal(d.forms(), defs[first].forms()))
+	})
+}
 
-	for i, original := range originalEntry.Plurals {
-		if i >= len(newEntry.Plurals) {
-			mergedEntries = append(mergedEntries, original)
-			continue
+func (defs msgcatDefinitions) plurals() PluralEntries {
+	var plurals PluralEntries
+	for _, d := range defs {
+		for i := range d.forms() {
+			if i < len(plurals) {
+				continue
+			}
+			id := i
+			if i < len(d.entry.Plurals) {
+				id = d.entry.Plurals[i].ID
+			}
+			plurals = append(plurals, PluralEntry{ID: id, Str: defs.text(i)})
 		}
-
-		newPlural := newEntry.Plurals[i]
-		mergedEntries = append(mergedEntries, PluralEntry{
-			ID: original.ID,
-			Str: msgcatMergeStrings(
-				original.Str, newPlural.Str,
-				originalFilename, newFilename,
-			),
-		})
 	}
-
-	return mergedEntries
+	return plurals
 }
 
-func msgcatMergeStrings(originalStr, newStr string, originalFilename, newFilename string) string {
-	if originalStr == newStr {
-		return originalStr
+// text merges the translations of the given plural form.
+func (defs msgcatDefinitions) text(form int) string {
+	var files, texts []string
+	conflict := false
+	for _, d := range defs {
+		forms := d.forms()
+		if form >= len(forms) || forms[form] == "" {
+			continue
+		}
+		files, texts = append(files, d.file), append(texts, forms[form])
+		conflict = conflict || forms[form] != texts[0]
 	}
-	if originalStr == "" {
-		return newStr
+	if len(texts) == 0 {
+		return ""
 	}
-	if newStr == "" {
-		return originalStr
+	if !conflict {
+		return texts[0]
 	}
 
 	var builder strings.Builder
-	fmt.Fprintf(&builder, msgcatFileTemplate+"\n", originalFilename)
-	fmt.Fprintln(&builder, originalStr)
-	fmt.Fprintf(&builder, msgcatFileTemplate+"\n", newFilename)
-	fmt.Fprint(&builder, newStr)
+	for i, text := range texts {
+		fmt.Fprintf(&builder, msgcatFileTemplate+"\n", files[i])
+		builder.WriteString(text)
+		if i != len(texts)-1 && !strings.HasSuffix(text, "\n") {
+			builder.WriteByte('\n')
+		}
+	}
 	return builder.String()
 }
 
-func msgcatMergeComments(
-	originalComments, newComments []string,
-	originalFilename, newFilename string,
-) []string {
-	if slices.Equal(originalComments, newComments) {
-		return originalComments
+// comments merges the comments of one kind.
+func (defs msgcatDefinitions) comments(of func(Entry) []string) []string {
+	first := of(defs[0].entry)
+	if !slices.ContainsFunc(defs, func(d msgcatDefinition) bool {
+		return !slices.Equal(of(d.entry), first)
+	}) {
+		return first
 	}
 
-	if len(originalComments) == 0 {
-		return append(
-			[]string{fmt.Sprintf(msgcatFileTemplate, newFilename)}, newComments...,
-		)
-	}
-	if len(newComments) == 0 {
-		return append(
-			[]string{fmt.Sprintf(msgcatFileTemplate, originalFilename)},
-			originalComments...,
-		)
+	var comments []string
+	for _, d := range defs {
+		if own := of(d.entry); len(own) > 0 {
+			comments = append(comments, fmt.Sprintf(msgcatFileTemplate, d.file))
+			comments = append(comments, own...)
+		}
 	}
-
-	return append(
-		append(
-			[]string{fmt.Sprintf(msgcatFileTemplate, originalFilename)},
-			originalComments...,
-		),
-		append(
-			[]string{fmt.Sprintf(msgcatFileTemplate, newFilename)},
-			newComments...,
-		)...,
-	)
+	return comments
 }
-- 
2.43.0


From 844f1bec20f4654f2bdc0689d39d0bd5c702e6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:51 +0000
Subject: [PATCH 38/67] fix: see every difference when comparing messages and
 lists

---
 internal/util/equal.go | 12 +++++++++---
 pkg/po/entry.go        |  2 +-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/util/equal.go b/internal/util/equal.go
index a4bb0a1..4591042 100644
--- a/internal/util/equal.go
+++ b/internal/util/equal.go
@@ -11,7 +11,14 @@ func FuzzyEqual(x, y string) bool {
 	return x == y || fuzzy.Ratio(x, y) >= 80
 }
 
-type visitedPairs map[[2]uintptr]struct{}
+// visitedPair names two values being compared; their type is part of it,
+// as a struct and its first field share an address.
+type visitedPair struct {
+	addr1, addr2 uintptr
+	typ          reflect.Type
+}
+
+type visitedPairs map[visitedPair]struct{}
 
 func Equal[X, Y any](x X, y Y) bool {
 	return equal(reflect.ValueOf(x), reflect.ValueOf(y), make(visitedPairs))
@@ -37,8 +44,7 @@ func equal(v1, v2 reflect.Value, visited visitedPairs) bool {
 		return false
 	}
 	if v1.CanAddr() && v2.CanAddr() {
-		addr1, addr2 := v1.UnsafeAddr(), v2.UnsafeAddr()
-		pair := [2]uintptr{addr1, addr2}
+		pair := visitedPair{v1.UnsafeAddr(), v2.UnsafeAddr(), v1.Type()}
 		if _, found := visited[pair]; found {
 			return true
 		}
diff --git a/pkg/po/entry.go b/pkg/po/entry.go
index 2600b32..8d3b1f7 100644
--- a/pkg/po/entry.go
+++ b/pkg/po/entry.go
@@ -141,7 +141,7 @@ func (e Entry) Hash() uint32 {
 func (e Entry) Equal(x Entry) bool {
 	ok1 := e.FullUnifiedID() == x.FullUnifiedID() && e.UnifiedStr() == x.UnifiedStr()
 	ok2 := slices.CompareFunc(e.Flags, x.Flags, strings.Compare) == 0
-	ok3 := e.Obsolete && x.Obsolete
+	ok3 := e.Obsolete == x.Obsolete
 	return ok1 && ok2 && ok3
 }
 
-- 
2.43.0


From 86aa41105b48b049dcf8ff6e1f29f4f9e785f999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 39/67] fix: rate the similarity of every pair of messages

---
 pkg/po/cmp.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/pkg/po/cmp.go b/pkg/po/cmp.go
index 22526fe..39635f1 100644
--- a/pkg/po/cmp.go
+++ b/pkg/po/cmp.go
@@ -10,20 +10,23 @@ import (
 	fuzzy "github.com/paul-mannino/go-fuzzywuzzy"
 )
 
+// matchRatio returns the fuzzy match ratio of two strings, 100 if they are equal.
+func matchRatio(a, b string) int {
+	if a == b {
+		return 100
+	}
+	return fuzzy.Ratio(a, b)
+}
+
 // EntryIDMatchRatio returns the average fuzzy match ratio between the identifiers of two entries.
 // It compares the ID, context (if present), and plural ID (if both are plural entries).
 func EntryIDMatchRatio(e1, e2 Entry) int {
-	ratio := fuzzy.Ratio
-
-	var ratios []int
-	if e1.ID != "" || e2.ID != "" {
-		ratios = append(ratios, ratio(e1.ID, e2.ID))
-	}
+	ratios := []int{matchRatio(e1.ID, e2.ID)}
 	if e1.HasContext() || e2.HasContext() {
-		ratios = append(ratios, ratio(e1.Context, e2.Context))
+		ratios = append(ratios, matchRatio(e1.Context, e2.Context))
 	}
 	if e1.IsPlural() && e2.IsPlural() {
-		ratios = append(ratios, ratio(e1.Plural, e2.Plural))
+		ratios = append(ratios, matchRatio(e1.Plural, e2.Plural))
 	}
 
 	return util.Average(ratios...)
@@ -32,19 +35,23 @@ func EntryIDMatchRatio(e1, e2 Entry) int {
 // EntryStrMatchRatio returns the average fuzzy match ratio between the translation strings
 // of two entries, including plural forms if applicable.
 func EntryStrMatchRatio(e1, e2 Entry) int {
-	ratio := fuzzy.Ratio
-
 	var ratios []int
 	if e1.Str != "" || e2.Str != "" {
-		ratios = append(ratios, ratio(e1.ID, e2.ID))
+		ratios = append(ratios, matchRatio(e1.Str, e2.Str))
 	}
 	if e1.IsPlural() || e2.IsPlural() {
 		for i, pe := range e1.Plurals {
 			if i >= 0 && i < len(e2.Plurals) {
-				ratios = append(ratios, ratio(pe.Str, e2.Plurals[i].Str))
+				ratios = append(ratios, matchRatio(pe.Str, e2.Plurals[i].Str))
 			}
 		}
 	}
+	if len(ratios) == 0 { // Nothing to compare.
+		if len(e1.Plurals) == len(e2.Plurals) {
+			return 100
+		}
+		return 0
+	}
 
 	return util.Average(ratios...)
 }
-- 
2.43.0


From c35400803bdf114e8bf728e74d01b1534afe27ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:29 +0000
Subject: [PATCH 40/67] fix: merge every message of catalog and template
 exactly once

---
 pkg/po/entry.go |   8 +++-
 pkg/po/merge.go | 125 +++++++++++++++++++++++++++++++-----------------
 2 files changed, 88 insertions(+), 45 deletions(-)

diff --git a/pkg/po/entry.go b/pkg/po/entry.go
index 8d3b1f7..7fd6519 100644
--- a/pkg/po/entry.go
+++ b/pkg/po/entry.go
@@ -36,10 +36,16 @@ func (e *Entry) markAsObsolete() { e.Obsolete = true }
 // markAsFuzzy adds the "fuzzy" flag to the entry if not already present.
 func (e *Entry) markAsFuzzy() {
 	if !e.IsFuzzy() {
-		e.Flags = append(e.Flags, "fuzzy")
+		e.Flags = append(slices.Clip(e.Flags), "fuzzy")
 	}
 }
 
+// hasTranslation reports whether any form of the entry is translated.
+func (e Entry) hasTranslation() bool {
+	return e.Str != "" ||
+		slices.ContainsFunc(e.Plurals, func(p PluralEntry) bool { return p.Str != "" })
+}
+
 // IsHeader reports whether the entry is a header (i.e., both ID and context are empty).
 func (e Entry) IsHeader() bool {
 	return e.ID == "" && e.Context == ""
diff --git a/pkg/po/merge.go b/pkg/po/merge.go
index 844b299..db53b67 100644
--- a/pkg/po/merge.go
+++ b/pkg/po/merge.go
@@ -1,5 +1,7 @@
 package po
 
+import "github.com/Tom5521/gotext-tools/v2/internal/slices"
+
 // SortMode defines the mode used to sort PO entries.
 type SortMode int
 
@@ -84,77 +86,105 @@ func MergeWithKeepPreviousIDs(k bool) MergeOption {
 	return func(mc *MergeConfig) { mc.KeepPreviousIDs = k }
 }
 
-// NOTE: This thing is slightly broken.
+// maxNplurals is the highest number of plural forms that is believed of a header.
+const maxNplurals = 1000
 
 // MergeWithConfig merges entries from def and ref using the provided MergeConfig.
 //
+// Entries that are in both keep their translation, and take their references
+// and extracted comments from ref.
 // If FuzzyMatch is enabled, unmatched entries may be matched based on string similarity.
 // If KeepPreviousIDs is set, original IDs are preserved in unmatched entries.
 // If Sort is enabled, the resulting set is sorted using the given SortMode.
 func MergeWithConfig(config MergeConfig, def, ref Entries) Entries {
-	// NOTE: The implicit memory aliasing in loops
-	// are intentional, don't try to change it.
-
-	nplurals := int(ref.Header().Nplurals())
 	def = def.Solve()
+	ref = ref.CleanObsoletes()
 
-	for i, entry := range def {
-		if mergeDef(config, &entry, ref) {
-			continue
-		}
-		def[i] = entry
+	header := ref.Header()
+	if def.HasHeader() {
+		header = def.Header()
+	}
+	nplurals := 2
+	if n := header.Nplurals(); n <= maxNplurals {
+		nplurals = int(n)
 	}
 
-	for _, entry := range ref {
+	translated := slices.DeleteFunc(slices.Clone(def), func(e Entry) bool {
+		return e.IsHeader() || !e.hasTranslation()
+	})
 
-		if mergeRef(config, &entry, def, nplurals) {
+	var added Entries
+	used := make(map[string]bool) // The messages whose translation was taken over by another.
+	for _, entry := range ref {
+		if def.ContainsUnifiedID(entry.UnifiedID()) || added.ContainsUnifiedID(entry.UnifiedID()) {
 			continue
 		}
-		def = append(def, entry)
+		if uid, ok := mergeRef(config, &entry, translated, nplurals); ok {
+			used[uid] = true
+		}
+		added = append(added, entry)
+	}
+
+	merged := make(Entries, 0, len(def)+len(added))
+	for _, entry := range def {
+		if mergeDef(config, &entry, ref, nplurals) || !used[entry.UnifiedID()] {
+			merged = append(merged, entry)
+		}
 	}
+	merged = append(merged, added...)
 
 	if config.Sort {
-		def = config.SortMode.SortMethod(def)()
+		merged = config.SortMode.SortMethod(merged)()
 	}
 
-	return def
+	return merged
 }
 
-func mergeRef(config MergeConfig, entry *Entry, def Entries, nplurals int) bool {
-	if def.ContainsUnifiedID(entry.UnifiedID()) || entry.IsHeader() {
-		return true
+// mergeRef completes an entry that is not in def. If the entry takes over
+// the translation of a similar one, it returns the id of that.
+func mergeRef(config MergeConfig, entry *Entry, translated Entries, nplurals int) (string, bool) {
+	if entry.IsHeader() {
+		return "", false
 	}
 	if config.FuzzyMatch {
-		if bestID, ratio := def.BestIDRatio(*entry); ratio >= 50 {
+		if bestID, ratio := translated.BestIDRatio(*entry); ratio >= 50 {
+			best := translated[bestID]
 			entry.markAsFuzzy()
-			best := def[bestID]
-			mergeEntryStrings(entry, best)
-		}
-	} else if entry.IsPlural() && len(entry.Plurals) == 0 {
-		for i := 0; i < nplurals; i++ {
-			entry.Plurals = append(entry.Plurals, PluralEntry{ID: i})
+			entry.Comments = best.Comments
+			mergeEntryStrings(entry, best, nplurals)
+			return best.UnifiedID(), true
 		}
 	}
-	return false
+	if entry.IsPlural() && len(entry.Plurals) == 0 {
+		entry.Plurals = pluralsOf("", nplurals)
+	}
+	return "", false
 }
 
-func mergeDef(config MergeConfig, e *Entry, ref Entries) bool {
-	if ref.ContainsUnifiedID(e.UnifiedID()) || e.IsHeader() {
+// mergeDef updates an entry of def, and reports whether it is to be kept in any case.
+func mergeDef(config MergeConfig, e *Entry, ref Entries, nplurals int) bool {
+	if e.IsHeader() {
 		return true
 	}
-	switch {
-	case config.FuzzyMatch:
-		if bestID, ratio := ref.BestIDRatio(*e); ratio >= 50 {
-			e.markAsFuzzy()
-			e.ID = ref[bestID].ID
-		} else {
-			e.markAsObsolete()
+	if i := ref.IndexByUnifiedID(e.UnifiedID()); i != -1 {
+		e.Obsolete = false
+		e.Locations = ref[i].Locations
+		e.ExtractedComments = ref[i].ExtractedComments
+		if e.Plural != ref[i].Plural {
+			if e.hasTranslation() {
+				e.markAsFuzzy()
+			}
+			target := ref[i]
+			mergeEntryStrings(&target, *e, nplurals)
+			e.Plural, e.Plurals, e.Str = target.Plural, target.Plurals, target.Str
 		}
-	case config.KeepPreviousIDs:
+		return true
+	}
+	if config.KeepPreviousIDs && !config.FuzzyMatch {
 		e.markAsFuzzy()
-	default:
-		e.markAsObsolete()
+		return true
 	}
+	e.markAsObsolete()
 	return false
 }
 
@@ -162,16 +192,14 @@ func mergeDef(config MergeConfig, e *Entry, ref Entries) bool {
 //
 // If both entries are plural, plural forms are copied.
 // If only one is plural, values are adapted accordingly.
-func mergeEntryStrings(target *Entry, source Entry) {
+func mergeEntryStrings(target *Entry, source Entry, nplurals int) {
 	switch {
 	case target.IsPlural() && source.IsPlural():
-		target.Plurals = source.Plurals
+		target.Plurals = slices.Clone(source.Plurals)
 	case target.IsPlural() && !source.IsPlural():
-		if len(target.Plurals) == 0 {
-			target.Plurals = make(PluralEntries, 1)
-		}
-		target.Plurals[0].Str = source.Str
+		target.Plurals = pluralsOf(source.Str, nplurals)
 	case !target.IsPlural() && source.IsPlural():
+		target.Str = ""
 		if len(source.Plurals) > 0 {
 			target.Str = source.Plurals[0].Str
 		}
@@ -180,6 +208,15 @@ func mergeEntryStrings(target *Entry, source Entry) {
 	}
 }
 
+// pluralsOf returns n plural forms with the given translation.
+func pluralsOf(str string, n int) PluralEntries {
+	plurals := make(PluralEntries, n)
+	for i := range plurals {
+		plurals[i] = PluralEntry{ID: i, Str: str}
+	}
+	return plurals
+}
+
 // Merge merges def and ref using the default merge configuration,
 // optionally modified by MergeOptions.
 func Merge(def, ref Entries, options ...MergeOption) Entries {
-- 
2.43.0


From e05eb8cda4e860a72b478e3cfbef8fab937d929e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:20 +0000
Subject: [PATCH 41/67] fix: find the line of Go strings that start with a
 newline

---
 internal/util/util.go   | 25 -------------------------
 pkg/go/parse/file.go    |  9 ++++++++-
 pkg/go/parse/process.go |  5 ++---
 3 files changed, 10 insertions(+), 29 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index b40bf2e..775e3ef 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -2,7 +2,6 @@ package util
 
 import (
 	"bytes"
-	"io"
 	"strings"
 )
 
@@ -74,27 +73,3 @@ func FindLine[T ~int, B []rune | []byte | string](content B, index T) int {
 		return bytes.Count(c.([]byte)[:index], []byte{'\n'}) + 1
 	}
 }
-
-func FindLineFromReader[T ~int](r *bytes.Reader, index T) int {
-	r.Seek(0, 0)
-
-	var (
-		pos   T
-		count int
-	)
-
-	b, err := r.ReadByte()
-	for err != io.EOF {
-		if b == '\n' {
-			count++
-		}
-		if pos == index {
-			break
-		}
-
-		b, err = r.ReadByte()
-		pos++
-	}
-
-	return count + 1
-}
diff --git a/pkg/go/parse/file.go b/pkg/go/parse/file.go
index 9f3fce4..853c7c6 100644
--- a/pkg/go/parse/file.go
+++ b/pkg/go/parse/file.go
@@ -28,6 +28,7 @@ const (
 type File struct {
 	config    *Config
 	seenNodes map[ast.Node]struct{}
+	fset      *token.FileSet
 	file      *ast.File // The parsed abstract syntax tree (AST) of the file.
 	reader    *bytes.Reader
 	name      string // The path to the file.
@@ -127,13 +128,19 @@ func NewFile(b io.Reader, name string, config *Config) (*File, error) {
 // parse parses the file content into an AST.
 func (f *File) parse() error {
 	var err error
-	f.file, err = parser.ParseFile(token.NewFileSet(), f.name, f.reader, 0)
+	f.fset = token.NewFileSet()
+	f.file, err = parser.ParseFile(f.fset, f.name, f.reader, 0)
 	if err != nil {
 		return fmt.Errorf("failed to parse the file: %w", err)
 	}
 	return nil
 }
 
+// line returns the line of the file, whatever line directives say.
+func (f *File) line(pos token.Pos) int {
+	return f.fset.PositionFor(pos, false).Line
+}
+
 // determinePackageInfo analyzes the file's AST to extract package-related information.
 // It determines the package name and checks if the desired "gotext" package is imported.
 func (f *File) determinePackageInfo() {
diff --git a/pkg/go/parse/process.go b/pkg/go/parse/process.go
index e03b80a..1b310f8 100644
--- a/pkg/go/parse/process.go
+++ b/pkg/go/parse/process.go
@@ -5,7 +5,6 @@ import (
 	"go/token"
 	"strconv"
 
-	"github.com/Tom5521/gotext-tools/v2/internal/util"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
 )
 
@@ -64,7 +63,7 @@ func (f *File) basicLitToEntry(n *ast.BasicLit) (po.Entry, error) {
 	return po.Entry{
 		ID: str,
 		Locations: []po.Location{{
-			Line: util.FindLineFromReader(f.reader, n.Pos()),
+			Line: f.line(n.Pos()),
 			File: f.name,
 		}},
 	}, nil
@@ -137,7 +136,7 @@ func (f *File) processPoCall(
 			entry.Locations = append(entry.Locations,
 				po.Location{
 					File: f.name,
-					Line: util.FindLineFromReader(f.reader, arg.pos),
+					Line: f.line(arg.pos),
 				},
 			)
 			fallthrough
-- 
2.43.0


From f5c7506f435bcaf6589cf6f6e5ef5fa3f182c1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:22 +0000
Subject: [PATCH 42/67] fix: find gotext calls under every name the package is
 imported

---
 pkg/go/parse/file.go    | 38 +++++++++++++++++++--------------
 pkg/go/parse/process.go | 47 ++++++++++++++++++++++++++++++++---------
 2 files changed, 59 insertions(+), 26 deletions(-)

diff --git a/pkg/go/parse/file.go b/pkg/go/parse/file.go
index 853c7c6..587fc34 100644
--- a/pkg/go/parse/file.go
+++ b/pkg/go/parse/file.go
@@ -9,6 +9,7 @@ import (
 	"go/token"
 	"io"
 	"os"
+	"strconv"
 
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
 )
@@ -31,9 +32,9 @@ type File struct {
 	fset      *token.FileSet
 	file      *ast.File // The parsed abstract syntax tree (AST) of the file.
 	reader    *bytes.Reader
-	name      string // The path to the file.
-	pkgName   string // The name of the package declared in the file.
-	hasGotext bool   // Indicates if the file imports the desired "gotext" package.
+	name      string              // The path to the file.
+	pkgNames  map[string]struct{} // The names the "gotext" package is imported under.
+	hasGotext bool                // Indicates if the file imports the desired "gotext" package.
 
 	errors []error
 }
@@ -59,8 +60,6 @@ func (f *File) error(format string, a ...any) error {
 func (f *File) Reset(d io.Reader, name string, config *Config) error {
 	f.seenNodes = nil
 	f.errors = nil
-	f.pkgName = DefaultPackageName
-	f.hasGotext = false
 
 	if r, ok := d.(*bytes.Reader); ok {
 		f.reader = r
@@ -90,10 +89,9 @@ func (f *File) Reset(d io.Reader, name string, config *Config) error {
 
 func NewFileFromBytes(b []byte, name string, config *Config) (*File, error) {
 	file := &File{
-		reader:  bytes.NewReader(b),
-		name:    name,
-		pkgName: DefaultPackageName,
-		config:  config,
+		reader: bytes.NewReader(b),
+		name:   name,
+		config: config,
 	}
 
 	if err := file.parse(); err != nil {
@@ -142,16 +140,24 @@ func (f *File) line(pos token.Pos) int {
 }
 
 // determinePackageInfo analyzes the file's AST to extract package-related information.
-// It determines the package name and checks if the desired "gotext" package is imported.
+// It checks if the desired "gotext" package is imported, and under which names.
 func (f *File) determinePackageInfo() {
+	f.hasGotext = false
+	f.pkgNames = make(map[string]struct{})
+
 	for _, imp := range f.file.Imports {
-		if imp.Path.Value == WantedImport {
-			f.hasGotext = true
-			if imp.Name != nil {
-				f.pkgName = imp.Name.String()
-			}
-			break
+		// The path may be an interpreted or a raw string.
+		path, err := strconv.Unquote(imp.Path.Value)
+		if err != nil || strconv.Quote(path) != WantedImport {
+			continue
+		}
+
+		f.hasGotext = true
+		name := DefaultPackageName
+		if imp.Name != nil {
+			name = imp.Name.String()
 		}
+		f.pkgNames[name] = struct{}{}
 	}
 }
 
diff --git a/pkg/go/parse/process.go b/pkg/go/parse/process.go
index 1b310f8..29d79d8 100644
--- a/pkg/go/parse/process.go
+++ b/pkg/go/parse/process.go
@@ -32,6 +32,38 @@ var translationMethods = map[string]translationMethod{
 	}, // (dom string, str string, plural string, n int, ctx string, vars ...interface{})
 }
 
+// unparen returns the expression without the parentheses around it.
+func unparen(e ast.Expr) ast.Expr {
+	for {
+		paren, ok := e.(*ast.ParenExpr)
+		if !ok {
+			return e
+		}
+		e = paren.X
+	}
+}
+
+// gotextFunc returns the name of the gotext function that an expression denotes, if any.
+//
+// A name that is declared in the file does not denote the package or its functions.
+func (f *File) gotextFunc(fun ast.Expr) (name string, ok bool) {
+	switch t := unparen(fun).(type) {
+	case *ast.SelectorExpr:
+		ident, isIdent := unparen(t.X).(*ast.Ident)
+		if !isIdent || ident.Obj != nil {
+			return "", false
+		}
+		_, ok = f.pkgNames[ident.Name]
+		name = t.Sel.Name
+	case *ast.Ident:
+		_, ok = f.pkgNames["."]
+		ok = ok && t.Obj == nil
+		name = t.Name
+	}
+
+	return name, ok
+}
+
 // isGotextCall checks if an AST node represents a gotext GET function call.
 func (f *File) isGotextCall(n ast.Node) bool {
 	callExpr, ok := n.(*ast.CallExpr)
@@ -39,17 +71,12 @@ func (f *File) isGotextCall(n ast.Node) bool {
 		return false
 	}
 
-	selectorExpr, ok := callExpr.Fun.(*ast.SelectorExpr)
+	name, ok := f.gotextFunc(callExpr.Fun)
 	if !ok {
 		return false
 	}
 
-	ident, ok := selectorExpr.X.(*ast.Ident)
-	if !ok || ident.Name != f.pkgName {
-		return false
-	}
-
-	_, ok = translationMethods[selectorExpr.Sel.Name]
+	_, ok = translationMethods[name]
 	return ok
 }
 
@@ -86,7 +113,7 @@ func (f *File) extractArg(index int, call *ast.CallExpr) (a argumentData) {
 		a.err = f.error("index (%d) out of range", index)
 		return
 	}
-	lit, ok := call.Args[index].(*ast.BasicLit)
+	lit, ok := unparen(call.Args[index]).(*ast.BasicLit)
 	if !ok {
 		return
 	}
@@ -115,8 +142,8 @@ func (f *File) extractArg(index int, call *ast.CallExpr) (a argumentData) {
 func (f *File) processPoCall(
 	call *ast.CallExpr,
 ) (entry po.Entry, valid bool, err error) {
-	selector, _ := call.Fun.(*ast.SelectorExpr)
-	method := translationMethods[selector.Sel.Name]
+	name, _ := f.gotextFunc(call.Fun)
+	method := translationMethods[name]
 
 	args := []argumentData{
 		f.extractArg(method.ID, call),
-- 
2.43.0


From 9ef783f44d9d2f7283fbfa54b3b78ef0e6041f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:46 +0000
Subject: [PATCH 43/67] fix: ignore empty Go strings, and do not lose the
 strings of unusable calls

---
 pkg/go/parse/file.go    |  3 ++
 pkg/go/parse/process.go | 64 +++++++++++++++++++----------------------
 2 files changed, 33 insertions(+), 34 deletions(-)

diff --git a/pkg/go/parse/file.go b/pkg/go/parse/file.go
index 587fc34..694011e 100644
--- a/pkg/go/parse/file.go
+++ b/pkg/go/parse/file.go
@@ -93,6 +93,9 @@ func NewFileFromBytes(b []byte, name string, config *Config) (*File, error) {
 		name:   name,
 		config: config,
 	}
+	if file.config == nil {
+		file.config = &[]Config{DefaultConfig()}[0]
+	}
 
 	if err := file.parse(); err != nil {
 		return nil, err
diff --git a/pkg/go/parse/process.go b/pkg/go/parse/process.go
index 29d79d8..45d8c66 100644
--- a/pkg/go/parse/process.go
+++ b/pkg/go/parse/process.go
@@ -101,7 +101,7 @@ type argumentData struct {
 	str   string
 	valid bool
 	err   error
-	pos   token.Pos
+	lit   *ast.BasicLit
 }
 
 // extractArg extracts a string argument from a function call at the specified index.
@@ -123,19 +123,16 @@ func (f *File) extractArg(index int, call *ast.CallExpr) (a argumentData) {
 		return
 	}
 
-	if lit.Value == `""` {
-		return
-	}
-
-	f.seenNodes[lit] = struct{}{}
-
 	str, err := strconv.Unquote(lit.Value)
 	if err != nil {
 		a.err = f.error("error unquoting basic literal: %w", err)
 		return
 	}
+	if str == "" {
+		return
+	}
 
-	return argumentData{str, true, err, lit.Pos()}
+	return argumentData{str, true, err, lit}
 }
 
 // processPoCall processes a gotext function call and extracts translation entries.
@@ -145,37 +142,33 @@ func (f *File) processPoCall(
 	name, _ := f.gotextFunc(call.Fun)
 	method := translationMethods[name]
 
-	args := []argumentData{
-		f.extractArg(method.ID, call),
-		f.extractArg(method.Context, call),
-		f.extractArg(method.Plural, call),
-	}
+	id := f.extractArg(method.ID, call)
+	context := f.extractArg(method.Context, call)
+	plural := f.extractArg(method.Plural, call)
 
-	for i, arg := range args {
+	for _, arg := range []argumentData{id, context, plural} {
 		if arg.err != nil {
-			err = arg.err
-			return
+			return entry, false, arg.err
 		}
-		switch i {
-		case 0:
-			valid = arg.valid
-			entry.ID = arg.str
-			entry.Locations = append(entry.Locations,
-				po.Location{
-					File: f.name,
-					Line: f.line(arg.pos),
-				},
-			)
-			fallthrough
-		case 1:
-			entry.Context = arg.str
-			fallthrough
-		case 2:
-			entry.Plural = arg.str
+	}
+	if !id.valid {
+		return entry, false, nil
+	}
+
+	for _, arg := range []argumentData{id, context, plural} {
+		if arg.valid {
+			f.seenNodes[arg.lit] = struct{}{}
 		}
 	}
 
-	return
+	return po.Entry{
+		ID:      id.str,
+		Context: context.str,
+		Plural:  plural.str,
+		Locations: po.Locations{
+			{File: f.name, Line: f.line(id.lit.Pos())},
+		},
+	}, true, nil
 }
 
 // processNode processes an AST node and extracts translation entries.
@@ -213,7 +206,7 @@ func (f *File) processNode(n ast.Node) (po.Entries, []error) {
 		}
 	case *ast.BasicLit:
 		_, ok := f.seenNodes[t]
-		if t.Kind != token.STRING || ok || t.Value == `""` {
+		if t.Kind != token.STRING || ok {
 			break
 		}
 		f.seenNodes[t] = struct{}{}
@@ -222,6 +215,9 @@ func (f *File) processNode(n ast.Node) (po.Entries, []error) {
 			errors = append(errors, err)
 			break
 		}
+		if entry.ID == "" {
+			break
+		}
 		entries = append(entries, entry)
 	}
 
-- 
2.43.0


From 97ef0a46e1e747b1387cbfb434547004f2209f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:13 +0000
Subject: [PATCH 44/67] fix: keep the other messages of a Go file with an
 unusable call

---
 pkg/go/parse/parser.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pkg/go/parse/parser.go b/pkg/go/parse/parser.go
index 8499b4d..a88242c 100644
--- a/pkg/go/parse/parser.go
+++ b/pkg/go/parse/parser.go
@@ -202,11 +202,8 @@ func (p *Parser) Parse() (file *po.File) {
 
 	for _, f := range p.files {
 		p.info("parsing %s...", f.name)
-		entries := f.Entries()
-		if err := f.Error(); err != nil {
-			continue
-		}
-		file.Entries = append(file.Entries, entries...)
+		// The errors of a file are about single calls, its other messages are fine.
+		file.Entries = append(file.Entries, f.Entries()...)
 	}
 
 	if p.Config.CleanDuplicates {
-- 
2.43.0


From aec4b342cb36873c53d8d8379a1b5aa9b0b8f366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:14 +0000
Subject: [PATCH 45/67] fix: keep the plural id of Go messages that first occur
 without it

---
 pkg/go/parse/parser.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/go/parse/parser.go b/pkg/go/parse/parser.go
index a88242c..7a5ee0a 100644
--- a/pkg/go/parse/parser.go
+++ b/pkg/go/parse/parser.go
@@ -10,6 +10,7 @@ import (
 
 	krfs "github.com/kr/fs"
 
+	"github.com/Tom5521/gotext-tools/v2/internal/slices"
 	"github.com/Tom5521/gotext-tools/v2/internal/util"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
 )
@@ -207,12 +208,21 @@ func (p *Parser) Parse() (file *po.File) {
 	}
 
 	if p.Config.CleanDuplicates {
-		file.Entries = file.CleanDuplicates()
+		file.Entries = file.SolveFunc(mergeOccurrences)
 	}
 
 	return
 }
 
+// mergeOccurrences merges two occurrences of a message, which is plural if one of them is.
+func mergeOccurrences(a, b po.Entry) *po.Entry {
+	a.Locations = append(slices.Clip(a.Locations), b.Locations...)
+	if a.Plural == "" {
+		a.Plural = b.Plural
+	}
+	return &a
+}
+
 func (p Parser) Error() error {
 	if len(p.errors) == 0 {
 		return nil
-- 
2.43.0


From 544a19157bd9b599566108ac15209fac151d2a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:57 +0000
Subject: [PATCH 46/67] fix: report sources that do not exist, and leave out
 excluded directories

---
 cli/xgotext/cmd/input.go |  3 +++
 internal/util/skip.go    | 29 +++++++++++++++++++++++++----
 pkg/go/parse/parser.go   |  4 ++++
 3 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/cli/xgotext/cmd/input.go b/cli/xgotext/cmd/input.go
index 17ac4a4..e8762db 100644
--- a/cli/xgotext/cmd/input.go
+++ b/cli/xgotext/cmd/input.go
@@ -76,6 +76,9 @@ func readFiles(paths []string) ([]*os.File, error) {
 			if util.ShouldSkipFile(walker, exclude, &seenFiles, logger) {
 				continue
 			}
+			if err := walker.Err(); err != nil {
+				return nil, err
+			}
 			file, err := os.Open(walker.Path())
 			if err != nil {
 				return nil, err
diff --git a/internal/util/skip.go b/internal/util/skip.go
index c27a3b9..b048598 100644
--- a/internal/util/skip.go
+++ b/internal/util/skip.go
@@ -3,19 +3,31 @@ package util
 import (
 	"log"
 	"path/filepath"
+	"strings"
 
 	"github.com/Tom5521/gotext-tools/v2/internal/slices"
 	krfs "github.com/kr/fs"
 )
 
 // ShouldSkipFile determines if a file should be skipped during processing.
+//
+// A file that the walker could not visit is not skipped, the caller should check [krfs.Walker.Err].
 func ShouldSkipFile(
 	w *krfs.Walker,
 	excludedPaths []string,
 	seenMap *map[string]struct{},
 	logger *log.Logger,
 ) bool {
-	if w.Err() != nil || w.Stat().IsDir() {
+	if isExcludedPath(w.Path(), excludedPaths) {
+		w.SkipDir()
+		return true
+	}
+
+	if w.Err() != nil {
+		return false
+	}
+
+	if w.Stat().IsDir() {
 		return true
 	}
 
@@ -37,14 +49,23 @@ func ShouldSkipFile(
 	}
 	(*seenMap)[abs] = struct{}{}
 
-	return isExcludedPath(w.Path(), excludedPaths)
+	return false
 }
 
-// isExcludedPath checks if a path is in the exclude list defined in the configuration.
+// isExcludedPath checks if a path is in the exclude list defined in the configuration,
+// or below a directory that is.
 func isExcludedPath(path string, exclude []string) bool {
 	return slices.ContainsFunc(exclude, func(s string) bool {
+		if s == "" {
+			return false
+		}
 		abs1, err1 := filepath.Abs(s)
 		abs2, err2 := filepath.Abs(path)
-		return (abs1 == abs2) && (err1 == nil && err2 == nil)
+		if err1 != nil || err2 != nil {
+			return false
+		}
+		rel, err := filepath.Rel(abs1, abs2)
+		return err == nil && rel != ".." &&
+			!strings.HasPrefix(rel, ".."+string(filepath.Separator))
 	})
 }
diff --git a/pkg/go/parse/parser.go b/pkg/go/parse/parser.go
index 7a5ee0a..cf49928 100644
--- a/pkg/go/parse/parser.go
+++ b/pkg/go/parse/parser.go
@@ -62,6 +62,10 @@ func (p *Parser) appendFiles(files ...string) error {
 			if util.ShouldSkipFile(walker, p.Config.Exclude, &p.seen, p.Config.Logger) {
 				continue
 			}
+			if err := walker.Err(); err != nil {
+				p.error("error reading file %s: %w", walker.Path(), err)
+				return p.lastErr()
+			}
 
 			p.info("Reading %s...", walker.Path())
 			f, err := NewFileFromPath(walker.Path(), &p.Config)
-- 
2.43.0


From 0009e3db3ca3e23d414059dfbf34066e4c29d472 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:29:34 +0000
Subject: [PATCH 47/67] fix: do not crash on msgomerge arguments that are
 missing besides a compendium

---
 cli/msgomerge/cmd/root.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/cli/msgomerge/cmd/root.go b/cli/msgomerge/cmd/root.go
index 7b813c9..cd1fbb7 100644
--- a/cli/msgomerge/cmd/root.go
+++ b/cli/msgomerge/cmd/root.go
@@ -34,13 +34,7 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 %s es.po en.pot -U`,
 		use, use, use,
 	),
-	Args: func(cmd *cobra.Command, args []string) error {
-		if len(args) != 2 && len(compendium) < 1 {
-			return cobra.ExactArgs(2)(cmd, args)
-		}
-
-		return nil
-	},
+	Args:   cobra.ExactArgs(2),
 	PreRun: initConfig,
 	RunE: func(cmd *cobra.Command, args []string) (err error) {
 		defPath, refPath := args[0], args[1]
-- 
2.43.0


From 919c0e958872b80152b80a2fe7d1c8d5fa70eeb0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:29:35 +0000
Subject: [PATCH 48/67] fix: read all inputs of msgomerge before writing its
 output

---
 cli/msgomerge/cmd/root.go | 59 +++++++++++++--------------------------
 1 file changed, 20 insertions(+), 39 deletions(-)

diff --git a/cli/msgomerge/cmd/root.go b/cli/msgomerge/cmd/root.go
index cd1fbb7..d57fbda 100644
--- a/cli/msgomerge/cmd/root.go
+++ b/cli/msgomerge/cmd/root.go
@@ -1,8 +1,8 @@
 package cmd
 
 import (
+	"bytes"
 	"fmt"
-	"io"
 	"os"
 	"path/filepath"
 
@@ -47,34 +47,13 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 			refPath = filepath.Join(directory, refPath)
 		}
 
-		var defFile, refFile *os.File
-		if defFile, err = os.OpenFile(defPath, os.O_RDWR, os.ModePerm); err != nil {
-			return err
-		}
-		if refFile, err = os.OpenFile(refPath, os.O_RDWR, os.ModePerm); err != nil {
-			return err
-		}
-		defer defFile.Close()
-		defer refFile.Close()
-
-		var outWriter io.Writer
-		if outputPath == "-" {
-			outWriter = os.Stdout
-		} else {
-			var file *os.File
-			file, err = os.OpenFile(outputPath, os.O_TRUNC|os.O_CREATE|os.O_WRONLY, os.ModePerm)
-			if err != nil {
-				return err
-			}
-			defer file.Close()
-			outWriter = file
-		}
-
+		// Everything is read before anything is written, since an output
+		// may be one of the inputs.
 		var def, ref *po.File
-		if def, err = parse.PoFromFile(defFile); err != nil {
+		if def, err = parse.Po(defPath); err != nil {
 			return err
 		}
-		if ref, err = parse.PoFromFile(refFile); err != nil {
+		if ref, err = parse.Po(refPath); err != nil {
 			return err
 		}
 
@@ -91,24 +70,26 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 			ref.Entries = ref.Solve()
 		}
 
-		if update {
-			// Reset and truncate defFile
-			if _, err := defFile.Seek(0, 0); err != nil {
-				return err
-			}
-			if err := defFile.Truncate(0); err != nil {
-				return err
-			}
-
-			outWriter = io.MultiWriter(defFile, outWriter)
-		}
-
 		out := &po.File{
 			Name:    outputPath,
 			Entries: po.MergeWithConfig(mergeCfg, def.Entries, ref.Entries),
 		}
 
-		return compile.PoToWriter(out, outWriter, compile.PoWithConfig(compilerCfg))
+		var merged bytes.Buffer
+		if err = compile.PoToWriter(out, &merged, compile.PoWithConfig(compilerCfg)); err != nil {
+			return err
+		}
+
+		if update {
+			if err = os.WriteFile(defPath, merged.Bytes(), os.ModePerm); err != nil {
+				return err
+			}
+		}
+		if outputPath == "-" {
+			_, err = os.Stdout.Write(merged.Bytes())
+			return err
+		}
+		return os.WriteFile(outputPath, merged.Bytes(), os.ModePerm)
 	},
 }
 
-- 
2.43.0


From 8c31d1c682dc9eb24805546d31c2979c4267864d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:29:35 +0000
Subject: [PATCH 49/67] fix: keep the header of the catalog that msgomerge
 updates

---
 cli/msgomerge/cmd/config.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cli/msgomerge/cmd/config.go b/cli/msgomerge/cmd/config.go
index 04b9c55..2a83ff3 100644
--- a/cli/msgomerge/cmd/config.go
+++ b/cli/msgomerge/cmd/config.go
@@ -22,7 +22,6 @@ func initConfig(cmd *cobra.Command, args []string) {
 		AddLocation: compile.PoLocationMode(addLocation),
 		WordWrap:    !noWrap,
 		ForcePo:     forcePo,
-		OmitHeader:  true,
 		Verbose:     verbose,
 		Logger:      log.Default(),
 	}
-- 
2.43.0


From 2eaa23014e544f50269e7ee78e2d63058cae3c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:33 +0000
Subject: [PATCH 50/67] fix: set the language given to msgomerge

---
 cli/msgomerge/cmd/root.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cli/msgomerge/cmd/root.go b/cli/msgomerge/cmd/root.go
index d57fbda..1ac4c08 100644
--- a/cli/msgomerge/cmd/root.go
+++ b/cli/msgomerge/cmd/root.go
@@ -75,6 +75,10 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 			Entries: po.MergeWithConfig(mergeCfg, def.Entries, ref.Entries),
 		}
 
+		if cmd.Flags().Changed("lang") {
+			setLanguage(out.Entries)
+		}
+
 		var merged bytes.Buffer
 		if err = compile.PoToWriter(out, &merged, compile.PoWithConfig(compilerCfg)); err != nil {
 			return err
@@ -93,6 +97,17 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 	},
 }
 
+// setLanguage sets the language of the header, and leaves the rest of it as it is.
+func setLanguage(entries po.Entries) {
+	i := entries.Index("", "")
+	if i == -1 {
+		return
+	}
+	header := entries.HeaderFromIndex(i)
+	header.Set("Language", lang)
+	entries[i].Str = header.ToEntry().Str
+}
+
 func Execute() {
 	err := root.Execute()
 	if err != nil {
-- 
2.43.0


From ecaf3f0a5bf4af3c5f057a477b2153831d70ac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:35 +0000
Subject: [PATCH 51/67] fix: take only translations from the compendia of
 msgomerge

---
 cli/msgomerge/cmd/root.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/cli/msgomerge/cmd/root.go b/cli/msgomerge/cmd/root.go
index 1ac4c08..99ce9cd 100644
--- a/cli/msgomerge/cmd/root.go
+++ b/cli/msgomerge/cmd/root.go
@@ -64,10 +64,7 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 			if err != nil {
 				return err
 			}
-			ref.Entries = append(ref.Entries, c.Entries...)
-		}
-		if len(compendium) > 0 {
-			ref.Entries = ref.Solve()
+			def.Entries = addCompendium(def.Entries, c.Entries, ref.Entries)
 		}
 
 		out := &po.File{
@@ -97,6 +94,34 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 	},
 }
 
+// addCompendium adds to def the translations in comp of messages of ref
+// that def has no translation for.
+func addCompendium(def, comp, ref po.Entries) po.Entries {
+	for _, entry := range comp {
+		uid := entry.UnifiedID()
+		if entry.IsHeader() || !isTranslated(entry) || !ref.ContainsUnifiedID(uid) {
+			continue
+		}
+		switch i := def.IndexByUnifiedID(uid); {
+		case i == -1:
+			def = append(def, entry)
+		case !isTranslated(def[i]):
+			def[i] = entry
+		}
+	}
+	return def
+}
+
+// isTranslated reports whether the entry has any translation.
+func isTranslated(entry po.Entry) bool {
+	for _, plural := range entry.Plurals {
+		if plural.Str != "" {
+			return true
+		}
+	}
+	return entry.Str != ""
+}
+
 // setLanguage sets the language of the header, and leaves the rest of it as it is.
 func setLanguage(entries po.Entries) {
 	i := entries.Index("", "")
-- 
2.43.0


From 3a40483bfb31dfcc4d673ebfaf37330a58170ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:08 +0000
Subject: [PATCH 52/67] fix: let msgofmt write to standard output

---
 cli/msgofmt/cmd/root.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/msgofmt/cmd/root.go b/cli/msgofmt/cmd/root.go
index 64dc529..a499ffc 100644
--- a/cli/msgofmt/cmd/root.go
+++ b/cli/msgofmt/cmd/root.go
@@ -38,7 +38,9 @@ If input file is -, standard input is read.`,
 	},
 	RunE: func(cmd *cobra.Command, args []string) (err error) {
 		if directory != "" {
-			output = filepath.Join(directory, output)
+			if output != "-" {
+				output = filepath.Join(directory, output)
+			}
 			for i, v := range args {
 				if v == "-" {
 					continue
@@ -105,6 +107,9 @@ If input file is -, standard input is read.`,
 			return
 		}
 
+		if output == "-" {
+			return compile.MoToWriter(allEntries, os.Stdout, compile.MoWithConfig(compilerCfg))
+		}
 		return compile.MoToFile(allEntries, output, compile.MoWithConfig(compilerCfg))
 	},
 }
-- 
2.43.0


From cb0807f83ddf4315275133606b886b1579e5f27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:09 +0000
Subject: [PATCH 53/67] fix: let msgofmt compile the PO files of a directory,
 and only the given ones

---
 cli/msgofmt/cmd/root.go | 74 +++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 36 deletions(-)

diff --git a/cli/msgofmt/cmd/root.go b/cli/msgofmt/cmd/root.go
index a499ffc..67b8435 100644
--- a/cli/msgofmt/cmd/root.go
+++ b/cli/msgofmt/cmd/root.go
@@ -47,42 +47,8 @@ If input file is -, standard input is read.`,
 				}
 				args[i] = filepath.Join(directory, v)
 			}
-			if len(args) >= 0 {
-				var entries []os.DirEntry
-				entries, err = os.ReadDir(directory)
-				if err != nil {
-					return
-				}
-				if len(args) > 0 {
-					for _, de := range entries {
-						if !de.IsDir() && filepath.Ext(de.Name()) == ".po" {
-							args = append(args, filepath.Join(directory, de.Name()))
-						}
-					}
-				} else {
-					for _, de := range entries {
-						if de.IsDir() {
-							continue
-						}
-						basename := strings.TrimSuffix(de.Name(), filepath.Ext(de.Name()))
-						newMo := filepath.Join(directory, basename+".mo")
-
-						var poFile *po.File
-						poFile, err = parse.Po(filepath.Join(directory, de.Name()))
-						if err != nil {
-							return
-						}
-						if errs := poFile.Validate(); len(errs) > 0 {
-							err = errs[0]
-							return
-						}
-						err = compile.MoToFile(poFile, newMo)
-						if err != nil {
-							return
-						}
-					}
-					return
-				}
+			if len(args) == 0 {
+				return compileDirectory()
 			}
 		}
 
@@ -114,6 +80,42 @@ If input file is -, standard input is read.`,
 	},
 }
 
+// compileDirectory compiles each PO file of the directory to an MO file beside it.
+func compileDirectory() error {
+	entries, err := os.ReadDir(directory)
+	if err != nil {
+		return err
+	}
+
+	var files []*po.File
+	for _, de := range entries {
+		if de.IsDir() || filepath.Ext(de.Name()) != ".po" {
+			continue
+		}
+		var poFile *po.File
+		poFile, err = parse.Po(
+			filepath.Join(directory, de.Name()),
+			parse.PoWithCleanDuplicates(false),
+		)
+		if err != nil {
+			return err
+		}
+		if errs := poFile.Validate(); len(errs) > 0 {
+			return errs[0]
+		}
+		files = append(files, poFile)
+	}
+
+	for _, poFile := range files {
+		newMo := strings.TrimSuffix(poFile.Name, ".po") + ".mo"
+		err = compile.MoToFile(poFile, newMo, compile.MoWithConfig(compilerCfg))
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func Execute() {
 	err := root.Execute()
 	if err != nil {
-- 
2.43.0


From 523595c2ae12d554b5504a647d97eed2fb3deb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:55 +0000
Subject: [PATCH 54/67] fix: let msgounfmt read standard input if no file is
 given

---
 cli/msgounfmt/cmd/root.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/msgounfmt/cmd/root.go b/cli/msgounfmt/cmd/root.go
index f725082..fedab43 100644
--- a/cli/msgounfmt/cmd/root.go
+++ b/cli/msgounfmt/cmd/root.go
@@ -25,11 +25,13 @@ Input file location:
   FILE ...                    input .mo files
 If no input file is given or if it is -, standard input is read.`,
 	PreRunE: initCfg,
-	Args:    cobra.MinimumNArgs(1),
 	RunE: func(cmd *cobra.Command, args []string) error {
 		file := &po.File{
 			Name: "input.mo",
 		}
+		if len(args) == 0 {
+			args = []string{"-"}
+		}
 		for _, arg := range args {
 			var f *po.File
 			var err error
-- 
2.43.0


From f44d10e6abdcec55e2ed276aad581b105e69bc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:57 +0000
Subject: [PATCH 55/67] fix: let msgocat read the files of a file list

---
 cli/msgocat/cmd/parse.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cli/msgocat/cmd/parse.go b/cli/msgocat/cmd/parse.go
index 9c107de..0477948 100644
--- a/cli/msgocat/cmd/parse.go
+++ b/cli/msgocat/cmd/parse.go
@@ -22,8 +22,10 @@ func expandArgsWithFiles(args []string) ([]string, error) {
 		return nil, err
 	}
 
-	if len(filesFromContent) > 0 {
-		filesFromContent = strings.Split(string(filesFromBinContent), "\n")
+	for _, line := range strings.Split(string(filesFromBinContent), "\n") {
+		if line = strings.TrimSuffix(line, "\r"); line != "" {
+			filesFromContent = append(filesFromContent, line)
+		}
 	}
 
 	var directoryContent []string
-- 
2.43.0


From c82eb0c3912627997becce7cadca7a972f498b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:26 +0000
Subject: [PATCH 56/67] fix: keep log messages out of the template that xgotext
 writes to standard output

---
 cli/xgotext/cmd/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/xgotext/cmd/root.go b/cli/xgotext/cmd/root.go
index 83f33b6..42ca0e0 100644
--- a/cli/xgotext/cmd/root.go
+++ b/cli/xgotext/cmd/root.go
@@ -10,7 +10,7 @@ import (
 	"github.com/spf13/cobra"
 )
 
-var logger = log.New(os.Stdout, "", log.Ltime)
+var logger = log.New(os.Stderr, "", log.Ltime)
 
 var use = "xgotext"
 
-- 
2.43.0


From 398a5991f2b9188a45af6c80109e2e2a247a6661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:27 +0000
Subject: [PATCH 57/67] fix: read all files that xgotext is given

---
 cli/xgotext/cmd/input.go | 10 +++++++---
 cli/xgotext/cmd/root.go  |  4 +++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/cli/xgotext/cmd/input.go b/cli/xgotext/cmd/input.go
index e8762db..35a37b8 100644
--- a/cli/xgotext/cmd/input.go
+++ b/cli/xgotext/cmd/input.go
@@ -17,7 +17,7 @@ func processInput(inputFiles []string) (*parse.Parser, error) {
 		if err != nil {
 			return nil, fmt.Errorf("error reading file %s: %w", filesFrom, err)
 		}
-		inputFiles = files
+		inputFiles = append(inputFiles, files...)
 	}
 
 	if excludeFile != "" {
@@ -31,10 +31,14 @@ func processInput(inputFiles []string) (*parse.Parser, error) {
 	}
 	if directory != "" {
 		for i, file := range inputFiles {
-			inputFiles[i] = filepath.Join(directory, file)
+			if file != "-" && !filepath.IsAbs(file) {
+				inputFiles[i] = filepath.Join(directory, file)
+			}
 		}
 		for i, file := range exclude {
-			exclude[i] = filepath.Join(directory, file)
+			if !filepath.IsAbs(file) {
+				exclude[i] = filepath.Join(directory, file)
+			}
 		}
 	}
 	var err error
diff --git a/cli/xgotext/cmd/root.go b/cli/xgotext/cmd/root.go
index 42ca0e0..5ef2b15 100644
--- a/cli/xgotext/cmd/root.go
+++ b/cli/xgotext/cmd/root.go
@@ -74,7 +74,9 @@ func readFilesFrom(path string) ([]string, error) {
 	}
 	var files []string
 	for _, line := range bytes.Split(file, []byte{'\n'}) {
-		files = append(files, string(line))
+		if line = bytes.TrimSuffix(line, []byte{'\r'}); len(line) > 0 {
+			files = append(files, string(line))
+		}
 	}
 
 	return files, nil
-- 
2.43.0


From e311a40cda244dfe7d9579feac57125737a00d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:29 +0000
Subject: [PATCH 58/67] fix: let xgotext leave out the entries of an exclude
 file

---
 cli/xgotext/cmd/input.go | 25 ++++++++++++++++---------
 cli/xgotext/cmd/root.go  |  5 +++++
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/cli/xgotext/cmd/input.go b/cli/xgotext/cmd/input.go
index 35a37b8..8163ad4 100644
--- a/cli/xgotext/cmd/input.go
+++ b/cli/xgotext/cmd/input.go
@@ -8,6 +8,8 @@ import (
 	"github.com/Tom5521/gotext-tools/v2/internal/slices"
 	"github.com/Tom5521/gotext-tools/v2/internal/util"
 	"github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
+	"github.com/Tom5521/gotext-tools/v2/pkg/po"
+	poparse "github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
 	krfs "github.com/kr/fs"
 )
 
@@ -20,15 +22,6 @@ func processInput(inputFiles []string) (*parse.Parser, error) {
 		inputFiles = append(inputFiles, files...)
 	}
 
-	if excludeFile != "" {
-		var files []string
-		files, err := readFilesFrom(excludeFile)
-		if err != nil {
-			return nil, fmt.Errorf("error reading file %s: %w", excludeFile, err)
-		}
-
-		exclude = append(exclude, files...)
-	}
 	if directory != "" {
 		for i, file := range inputFiles {
 			if file != "-" && !filepath.IsAbs(file) {
@@ -70,6 +63,20 @@ func processInput(inputFiles []string) (*parse.Parser, error) {
 	return parser, nil
 }
 
+// excludeEntries leaves out the entries that are in the exclude file.
+func excludeEntries(entries po.Entries) (po.Entries, error) {
+	if excludeFile == "" {
+		return entries, nil
+	}
+	excluded, err := poparse.Po(excludeFile, poparse.PoWithConfig(PoParserCfg))
+	if err != nil {
+		return nil, fmt.Errorf("error reading file %s: %w", excludeFile, err)
+	}
+	return slices.DeleteFunc(entries, func(e po.Entry) bool {
+		return !e.IsHeader() && excluded.ContainsUnifiedID(e.UnifiedID())
+	}), nil
+}
+
 func readFiles(paths []string) ([]*os.File, error) {
 	seenFiles := make(map[string]struct{})
 
diff --git a/cli/xgotext/cmd/root.go b/cli/xgotext/cmd/root.go
index 5ef2b15..e455e36 100644
--- a/cli/xgotext/cmd/root.go
+++ b/cli/xgotext/cmd/root.go
@@ -44,6 +44,11 @@ Similarly for optional arguments.`,
 			)
 		}
 
+		parsedFile.Entries, err = excludeEntries(parsedFile.Entries)
+		if err != nil {
+			return err
+		}
+
 		out, err := processOutput()
 		if err != nil {
 			return err
-- 
2.43.0


From 0a864ef912396eba59de3ccdd2198eedde0e9929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 59/67] fix: write to the output directory and domain that
 xgotext is given

---
 cli/xgotext/cmd/root.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cli/xgotext/cmd/root.go b/cli/xgotext/cmd/root.go
index e455e36..130aa46 100644
--- a/cli/xgotext/cmd/root.go
+++ b/cli/xgotext/cmd/root.go
@@ -27,6 +27,11 @@ Similarly for optional arguments.`,
 		use, use, use,
 	),
 	PreRun: func(cmd *cobra.Command, args []string) {
+		flags := cmd.Flags()
+		if !flags.Changed("output") &&
+			(flags.Changed("default-domain") || flags.Changed("output-dir")) {
+			output = ""
+		}
 		initConfig()
 	},
 	RunE: func(cmd *cobra.Command, inputfiles []string) (err error) {
-- 
2.43.0


From 7492279f2b0f2877b81b5897e1928882ac357036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:15 +0000
Subject: [PATCH 60/67] fix: keep everything of the template that xgotext joins
 with

---
 cli/xgotext/cmd/config.go |  4 +--
 cli/xgotext/cmd/join.go   | 73 ++++++++++++++++++++++++---------------
 cli/xgotext/cmd/output.go | 19 ++++++----
 cli/xgotext/cmd/root.go   | 11 +++---
 4 files changed, 65 insertions(+), 42 deletions(-)

diff --git a/cli/xgotext/cmd/config.go b/cli/xgotext/cmd/config.go
index f92b5a7..ef2d73b 100644
--- a/cli/xgotext/cmd/config.go
+++ b/cli/xgotext/cmd/config.go
@@ -59,7 +59,5 @@ func initConfig() {
 		CompilerCfg.Highlight = compile.DefaultHighlight
 	}
 
-	PoParserCfg = poparse.PoConfig{
-		Logger: logger,
-	}
+	PoParserCfg = poparse.DefaultPoConfig(poparse.PoWithLogger(logger))
 }
diff --git a/cli/xgotext/cmd/join.go b/cli/xgotext/cmd/join.go
index 31c8152..c22050a 100644
--- a/cli/xgotext/cmd/join.go
+++ b/cli/xgotext/cmd/join.go
@@ -1,48 +1,65 @@
 package cmd
 
 import (
+	"errors"
 	"os"
 
-	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
+	"github.com/Tom5521/gotext-tools/v2/internal/slices"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
 	poparse "github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
 )
 
-func join(newParse *goparse.Parser, rawfile *os.File) error {
-	baseParse, err := poparse.NewPoFromReader(
-		rawfile,
-		rawfile.Name(),
-		poparse.PoWithConfig(PoParserCfg),
-	)
-	if err != nil {
-		return err
+// join adds the extracted entries to those of the existing output file.
+func join(extracted po.Entries) (*po.File, error) {
+	if output == "-" {
+		return nil, errors.New("there is no file to join with on standard output")
 	}
 
-	poParsed := baseParse.Parse()
-	if len(baseParse.Errors()) > 0 {
-		return baseParse.Errors()[0]
+	existing, err := poparse.Po(outputFilePath(), poparse.PoWithConfig(PoParserCfg))
+	if errors.Is(err, os.ErrNotExist) {
+		existing, err = &po.File{}, nil
 	}
-
-	goParsed := newParse.Parse()
-	if len(newParse.Errors()) > 0 {
-		return newParse.Errors()[0]
+	if err != nil {
+		return nil, err
 	}
 
-	poParsed.Entries = po.Merge(poParsed.Entries, goParsed.Entries)
+	for _, entry := range extracted {
+		i := existing.IndexByUnifiedID(entry.UnifiedID())
+		switch {
+		case i != -1 && !entry.IsHeader():
+			joinEntry(&existing.Entries[i], entry)
+		case i == -1 && entry.IsHeader():
+			existing.Entries = append(po.Entries{entry}, existing.Entries...)
+		case i == -1:
+			if !entry.IsPlural() {
+				entry.Str = CompilerCfg.MsgstrPrefix + entry.Str + CompilerCfg.MsgstrSuffix
+			}
+			existing.Entries = append(existing.Entries, entry)
+		}
+	}
+	// These are only for new entries.
+	CompilerCfg.MsgstrPrefix, CompilerCfg.MsgstrSuffix = "", ""
 
-	compiler := compile.NewPo(poParsed, compile.PoWithConfig(CompilerCfg))
+	return existing, nil
+}
 
-	// Truncate file.
-	rawfile, err = os.Create(rawfile.Name())
-	if err != nil {
-		return err
+// joinEntry adds the references of an extracted entry to an existing one,
+// that becomes plural if the extracted one is.
+func joinEntry(existing *po.Entry, entry po.Entry) {
+	existing.Obsolete = false
+	if !existing.IsPlural() && entry.IsPlural() {
+		existing.Plural = entry.Plural
+		existing.Plurals = po.PluralEntries{{ID: 0, Str: existing.Str}, {ID: 1}}
+		existing.Str = ""
 	}
-
-	err = compiler.ToWriter(rawfile)
-	if err != nil {
-		return err
+	for _, location := range entry.Locations {
+		known := slices.ContainsFunc(existing.Locations, func(l po.Location) bool {
+			return l.File == location.File &&
+				(l.Line == location.Line || CompilerCfg.AddLocation == compile.PoLocationModeFile)
+		})
+		if !known {
+			existing.Locations = append(existing.Locations, location)
+		}
 	}
-
-	return nil
 }
diff --git a/cli/xgotext/cmd/output.go b/cli/xgotext/cmd/output.go
index a0d2aef..3d4c626 100644
--- a/cli/xgotext/cmd/output.go
+++ b/cli/xgotext/cmd/output.go
@@ -12,16 +12,21 @@ func processOutput() (*os.File, error) {
 	}
 
 	customOutput := output != ""
-	outputFilePath := filepath.Join(outputDir, defaultDomain+".pot")
-	if customOutput {
-		outputFilePath = filepath.Join(outputDir, output)
-	}
+	path := outputFilePath()
 
-	_, err := os.OpenFile(outputFilePath, os.O_RDWR, os.ModePerm)
+	_, err := os.OpenFile(path, os.O_RDWR, os.ModePerm)
 	if os.IsExist(err) && !forcePo && customOutput {
-		return nil, fmt.Errorf("file %s already exists", outputFilePath)
+		return nil, fmt.Errorf("file %s already exists", path)
 	}
 
 	// Truncate file.
-	return os.Create(outputFilePath)
+	return os.Create(path)
+}
+
+// outputFilePath returns the path of the output file, if output isn't standard output.
+func outputFilePath() string {
+	if output != "" {
+		return filepath.Join(outputDir, output)
+	}
+	return filepath.Join(outputDir, defaultDomain+".pot")
 }
diff --git a/cli/xgotext/cmd/root.go b/cli/xgotext/cmd/root.go
index 130aa46..220f674 100644
--- a/cli/xgotext/cmd/root.go
+++ b/cli/xgotext/cmd/root.go
@@ -54,6 +54,13 @@ Similarly for optional arguments.`,
 			return err
 		}
 
+		if joinExisting {
+			parsedFile, err = join(parsedFile.Entries)
+			if err != nil {
+				return err
+			}
+		}
+
 		out, err := processOutput()
 		if err != nil {
 			return err
@@ -64,10 +71,6 @@ Similarly for optional arguments.`,
 			}
 		}()
 
-		if joinExisting {
-			return join(parser, out)
-		}
-
 		err = compile.PoToWriter(parsedFile, out, compile.PoWithConfig(CompilerCfg))
 		if err != nil {
 			return fmt.Errorf("error compiling translations: %w", err)
-- 
2.43.0


From 97a816470cdd390467b3c68d80a73067bcae37c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:39 +0000
Subject: [PATCH 61/67] fix: keep the comments of messages that msgomerge
 translates from a compendium

---
 cli/msgomerge/cmd/root.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cli/msgomerge/cmd/root.go b/cli/msgomerge/cmd/root.go
index 99ce9cd..d432496 100644
--- a/cli/msgomerge/cmd/root.go
+++ b/cli/msgomerge/cmd/root.go
@@ -106,7 +106,10 @@ func addCompendium(def, comp, ref po.Entries) po.Entries {
 		case i == -1:
 			def = append(def, entry)
 		case !isTranslated(def[i]):
-			def[i] = entry
+			def[i].Plural, def[i].Plurals, def[i].Str = entry.Plural, entry.Plurals, entry.Str
+			if entry.IsFuzzy() && !def[i].IsFuzzy() {
+				def[i].Flags = append(def[i].Flags, "fuzzy")
+			}
 		}
 	}
 	return def
-- 
2.43.0


From 46d2eda2f2d7254933128388041836b5066c1459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:18 +0000
Subject: [PATCH 62/67] fix: keep the references of the header when msgocat
 sets the language

---
 cli/msgocat/cmd/run.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/cli/msgocat/cmd/run.go b/cli/msgocat/cmd/run.go
index 2dadb84..2903252 100644
--- a/cli/msgocat/cmd/run.go
+++ b/cli/msgocat/cmd/run.go
@@ -50,17 +50,9 @@ func run(cmd *cobra.Command, args []string) error {
 	if lang != "" {
 		hindex := mergedFiles.Index("", "")
 		if hindex != -1 {
-			oldHeader := mergedFiles[hindex]
 			header := mergedFiles.HeaderFromIndex(hindex)
 			header.Set("Language", lang)
-
-			newHeader := header.ToEntry()
-			newHeader.Flags = oldHeader.Flags
-			newHeader.Comments = oldHeader.Comments
-			newHeader.ExtractedComments = oldHeader.ExtractedComments
-			newHeader.Previous = oldHeader.Previous
-
-			mergedFiles[hindex] = newHeader
+			mergedFiles[hindex].Str = header.ToEntry().Str
 		}
 	}
 
-- 
2.43.0


From 20e70d8706c7bde0c74f72e031c4c93413dbe0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:29 +0000
Subject: [PATCH 63/67] fix: take no messages from a compendium that msgomerge
 drops from the template

---
 cli/msgomerge/cmd/root.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/msgomerge/cmd/root.go b/cli/msgomerge/cmd/root.go
index d432496..7221183 100644
--- a/cli/msgomerge/cmd/root.go
+++ b/cli/msgomerge/cmd/root.go
@@ -97,6 +97,7 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 // addCompendium adds to def the translations in comp of messages of ref
 // that def has no translation for.
 func addCompendium(def, comp, ref po.Entries) po.Entries {
+	ref = ref.CleanObsoletes() // They are not merged either.
 	for _, entry := range comp {
 		uid := entry.UnifiedID()
 		if entry.IsHeader() || !isTranslated(entry) || !ref.ContainsUnifiedID(uid) {
-- 
2.43.0


From 60236e2b6d2ec185f8749cfa994821bebc25211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:18 +0000
Subject: [PATCH 64/67] fix: report the real line of damage in obsolete
 messages

---
 pkg/po/parse/po_parser.go | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index c9fcd03..7178122 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -152,7 +152,7 @@ func (p *PoParser) obsoletePattern() *regexp.Regexp {
 func splitObsoletes(
 	tokens []lexer.Token,
 	pattern *regexp.Regexp,
-) (obsoletes []string, own []lexer.Token) {
+) (obsoletes, own []lexer.Token) {
 	isObsolete := func(t lexer.Token) bool {
 		return t.Type == util.PoSymbols["Comment"] && pattern.MatchString(t.String())
 	}
@@ -170,15 +170,15 @@ func splitObsoletes(
 	for i, t := range tokens {
 		switch {
 		case isObsolete(t):
-			line := pattern.FindStringSubmatch(t.String())[1]
-			if strings.HasPrefix(line, "|") {
-				line = "#" + line // Previous msgid of an obsolete entry.
+			t.Value = pattern.FindStringSubmatch(t.String())[1]
+			if strings.HasPrefix(t.Value, "|") {
+				t.Value = "#" + t.Value // Previous msgid of an obsolete entry.
 			}
-			obsoletes = append(obsoletes, line)
+			obsoletes = append(obsoletes, t)
 		case i >= end:
 			own = append(own, t)
 		case t.Type == util.PoSymbols["Comment"]:
-			obsoletes = append(obsoletes, t.String())
+			obsoletes = append(obsoletes, t)
 		}
 	}
 
@@ -186,9 +186,20 @@ func splitObsoletes(
 }
 
 // parseObsoleteEntries parses the lines of the obsolete entries of the PO file.
-func (p *PoParser) parseObsoleteEntries(lines []string) po.Entries {
+//
+// They keep their line numbers, so that errors point at the right place.
+func (p *PoParser) parseObsoleteEntries(lines []lexer.Token) po.Entries {
+	var text strings.Builder
+	current := 1
+	for _, t := range lines {
+		for ; current < t.Pos.Line; current++ {
+			text.WriteByte('\n')
+		}
+		text.WriteString(t.Value)
+	}
+
 	parser := NewPoFromString(
-		strings.Join(lines, "\n"),
+		text.String(),
 		p.filename,
 		PoWithConfig(p.Config),
 		PoWithLogger(nil),
@@ -314,7 +325,7 @@ func (p *PoParser) Parse() *po.File {
 	}
 
 	// Optionally filter out all comments, otherwise take out the obsolete entries
-	var obsoletes []string
+	var obsoletes []lexer.Token
 	obsoletePattern := p.obsoletePattern()
 	for i := range pFile.Entries {
 		e := &pFile.Entries[i]
@@ -325,7 +336,7 @@ func (p *PoParser) Parse() *po.File {
 			continue
 		}
 
-		var lines []string
+		var lines []lexer.Token
 		lines, e.Tokens = splitObsoletes(e.Tokens, obsoletePattern)
 		obsoletes = append(obsoletes, lines...)
 	}
-- 
2.43.0


From a62d42bea83987615e77ffdf28bfe3aa9836246c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:47 +0000
Subject: [PATCH 65/67] fix: accept vertical tabs as white space in PO files,
 as GNU gettext does

---
 internal/util/po_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/po_parse.go b/internal/util/po_parse.go
index a006414..8a883f2 100644
--- a/internal/util/po_parse.go
+++ b/internal/util/po_parse.go
@@ -42,7 +42,7 @@ func SearchSymbol(t lexer.TokenType) string {
 var (
 	PoSymbols = PoLexer.Symbols()
 	PoRules   = []lexer.SimpleRule{
-		{Name: "WS", Pattern: `\s+`},
+		{Name: "WS", Pattern: `[\s\v]+`},
 		{Name: "Integer", Pattern: `\d+`},
 		{Name: "LB", Pattern: `\[`},
 		{Name: "RB", Pattern: `\]`},
-- 
2.43.0


From 9306c2a4634cad77f54d1d4c6d63e36364ae22bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:53 +0000
Subject: [PATCH 66/67] fix: accept the names of character sets in any case

---
 pkg/po/header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/po/header.go b/pkg/po/header.go
index 1dfb7b0..3512468 100644
--- a/pkg/po/header.go
+++ b/pkg/po/header.go
@@ -95,7 +95,7 @@ func (h Header) ToConfig() HeaderConfig {
 	if err == nil {
 		mediatype = mtype
 		chset := params["charset"]
-		if util.SupportedCharsets[chset] {
+		if util.SupportedCharsets[strings.ToUpper(chset)] {
 			charset = chset
 		}
 	}
@@ -219,7 +219,7 @@ func (cfg HeaderConfig) Validate() []error {
 			fmt.Errorf("content-transfer-encoding(%s) must be 8bit", cfg.ContentTransferEncoding),
 		)
 	}
-	if !util.SupportedCharsets[cfg.Charset] && cfg.Charset != "" {
+	if !util.SupportedCharsets[strings.ToUpper(cfg.Charset)] && cfg.Charset != "" {
 		errs = append(errs, fmt.Errorf("%q isn't a supported charset", cfg.Charset))
 	}
 
-- 
2.43.0


From d69dbbe91f80ca8de0d9f6170e2ad9c07c61a30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:12 +0000
Subject: [PATCH 67/67] fix: read the system dependent strings of MO files

---
 pkg/po/parse/mo_parser.go |  10 +++
 pkg/po/parse/mo_sysdep.go | 137 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 147 insertions(+)
 create mode 100644 pkg/po/parse/mo_sysdep.go

diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index 434b435..be02be8 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -206,6 +206,16 @@ func (m *MoParser) Parse() (file *po.File) {
 		}
 	}
 
+	// The messages with system dependent strings come after the sorted ones.
+	if revision := bo.Uint32(m.data[4:]); revision&0xffff >= 1 {
+		sysdep, err := readSysdepEntries(data, bo)
+		if err != nil {
+			m.error("error reading system dependent strings: %w", err)
+			return nil
+		}
+		file.Entries = append(file.Entries, sysdep...)
+	}
+
 	return
 }
 
diff --git a/pkg/po/parse/mo_sysdep.go b/pkg/po/parse/mo_sysdep.go
new file mode 100644
index 0000000..734e163
--- /dev/null
+++ b/pkg/po/parse/mo_sysdep.go
@@ -0,0 +1,137 @@
+package parse
+
+import (
+	bin "encoding/binary"
+	"errors"
+	"fmt"
+	"strings"
+
+	"github.com/Tom5521/gotext-tools/v2/internal/util"
+	"github.com/Tom5521/gotext-tools/v2/pkg/po"
+)
+
+// sysdepEnd marks the last segment of a system dependent string.
+const sysdepEnd = 0xFFFFFFFF
+
+var errSysdepOutside = errors.New("a table or string is out of the file")
+
+// sysdepReader reads the system dependent strings of the minor revision 1 of MO files.
+// They consist of static segments with names, such as PRIu64, between them.
+type sysdepReader struct {
+	data   string
+	order  bin.ByteOrder
+	names  []string
+	budget int // What the strings may still need, as they may overlap.
+}
+
+func (r *sysdepReader) u32(offset u64) (u64, error) {
+	if offset+4 > u64(len(r.data)) {
+		return 0, errSysdepOutside
+	}
+	return u64(r.order.Uint32([]byte(r.data[offset : offset+4]))), nil
+}
+
+// u32s reads consecutive numbers.
+func (r *sysdepReader) u32s(offset u64, dst ...*u64) (err error) {
+	for i := 0; i < len(dst) && err == nil; i++ {
+		*dst[i], err = r.u32(offset + 4*u64(i))
+	}
+	return err
+}
+
+// readSysdepEntries reads the messages that have system dependent strings.
+func readSysdepEntries(data string, order bin.ByteOrder) (po.Entries, error) {
+	r := &sysdepReader{data: data, order: order, budget: 4 * len(data)}
+
+	// These fields follow those of [util.MoHeader].
+	var nnames, names, n, ids, strs u64
+	err := r.u32s(u64(bin.Size(util.MoHeader{})), &nnames, &names, &n, &ids, &strs)
+	if err != nil || n == 0 {
+		return nil, err
+	}
+	if err = r.readNames(names, nnames); err != nil {
+		return nil, err
+	}
+
+	var entries po.Entries
+	for i := u64(0); i < n; i++ {
+		var id, str string
+		if id, err = r.str(ids + 4*i); err != nil {
+			return nil, err
+		}
+		if str, err = r.str(strs + 4*i); err != nil {
+			return nil, err
+		}
+		entries = append(entries, makeEntry(id, str))
+	}
+
+	return entries, nil
+}
+
+// readNames reads the names of the n segments of the table at the given offset.
+func (r *sysdepReader) readNames(offset, n u64) error {
+	for i := u64(0); i < n; i++ {
+		var length, start u64
+		if err := r.u32s(offset+8*i, &length, &start); err != nil {
+			return err
+		}
+		if start+length > u64(len(r.data)) {
+			return errSysdepOutside
+		}
+		name := r.data[start : start+length]
+		end := strings.IndexByte(name, 0)
+		if end == -1 {
+			return fmt.Errorf("name[start: %d len: %d] isn't null-terminated", start, length)
+		}
+		// PO files have the names in angle brackets, other than single flags.
+		if name = name[:end]; len(name) > 1 {
+			name = "<" + name + ">"
+		}
+		if r.budget -= len(name) + 1; r.budget < 0 {
+			return errors.New("too many names")
+		}
+		r.names = append(r.names, name)
+	}
+	return nil
+}
+
+// str reads the string that the number at the given offset points to.
+func (r *sysdepReader) str(offset u64) (string, error) {
+	var segments, static u64
+	err := r.u32s(offset, &segments)
+	if err == nil {
+		err = r.u32s(segments, &static)
+	}
+
+	var b strings.Builder
+	for segments += 4; err == nil; segments += 8 {
+		var length, ref u64
+		if err = r.u32s(segments, &length, &ref); err != nil {
+			break
+		}
+		if static+length > u64(len(r.data)) {
+			return "", errSysdepOutside
+		}
+		b.WriteString(r.data[static : static+length])
+		static += length
+
+		if r.budget -= int(length) + 8; ref < u64(len(r.names)) {
+			b.WriteString(r.names[ref])
+			r.budget -= len(r.names[ref])
+		}
+		switch {
+		case r.budget < 0:
+			return "", errors.New("the strings are too long")
+		case ref == sysdepEnd:
+			s := b.String()
+			if !strings.HasSuffix(s, nul) {
+				return "", errors.New("a string isn't null-terminated")
+			}
+			return strings.TrimSuffix(s, nul), nil
+		case ref >= u64(len(r.names)):
+			return "", fmt.Errorf("segment %d is unknown", ref)
+		}
+	}
+
+	return "", err
+}
-- 
2.43.0

