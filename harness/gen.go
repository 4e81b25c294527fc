package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"pgregory.net/rapid"
)

// --- small draw helpers -------------------------------------------------

func oneOf[T any](t *rapid.T, label string, xs ...T) T {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, label)]
}

// chance is true in about pct percent of the draws; it shrinks to false.
func chance(t *rapid.T, label string, pct int) bool {
	return rapid.IntRange(0, 99).Draw(t, label) >= 100-pct
}

func intn(t *rapid.T, label string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, label) }

// --- text ---------------------------------------------------------------

var words = []string{
	"a", "b", "Open", "File", "file not found", "Hello World", "Save as", "%d files", "%s: %v", "menu", "x", "User",
	"msgid", "msgstr", "msgctxt", "apple", "apples", "fuzzy", "Delete all entries", "the quick brown fox",
}

// pieces are the building blocks of adversarial text.
var pieces = []string{
	`"`, `\`, `\\`, `\"`, `\n`, `'`, "`", "\n", "\n\n", "\t", "\r", "\r\n", "\v", "\f", "\a", "\b",
	"\x01", "\x02", "\x1b", "\x1b[31m", "\x1b[0m", "\x7f", "\u0080", "\u0085", "\u009f", "\u00a0", "\u00ad", "é", "ñ", "ß", "日本語", "😀",
	"e\u0301", "\u200b", "\u200e", "\u2028", "\u2029", "\ufeff", "\ufffd", "\ue000", "\U0010ffff", "\U000e0001",
	"#", "#~", "#~ ", "#: a.go:1", "# ", "#, fuzzy", "#|", "[0]", "[", "]", "msgid \"x\"", "msgstr \"\"", "msgid_plural",
	"%", "%d", "%%", "\\x41", "\\101", "\\u00e9", " ", "  ", "0", "7", "f", "A", "a", "z", "foo", "bar", ":", ";", ",", "|", "~", "=",
	"/*", "//", "<b>", "&amp;", "${x}", "#-#-#-#-#", "C:\\dir\\", "\\0",
}

// text draws arbitrary valid UTF-8 text without NUL. Short plain words are common.
func text(t *rapid.T, label string) string { return textWith(t, label, false) }

func textWith(t *rapid.T, label string, eot bool) string {
	var s string
	switch k := intn(t, label+".kind", 0, 9); {
	case k <= 2:
		s = oneOf(t, label+".word", words...)
	case k <= 4:
		s = oneOf(t, label+".w1", words...) + " " + oneOf(t, label+".w2", words...)
	case k <= 8:
		n := intn(t, label+".n", 0, 6)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(oneOf(t, label+".piece", pieces...))
		}
		s = b.String()
	default:
		s = rapid.StringN(0, 12, -1).Draw(t, label+".any")
	}
	return clean(s, eot)
}

// clean removes what the formats cannot carry: NUL, EOT, invalid UTF-8.
func clean(s string, eot bool) string {
	return strings.Map(func(r rune) rune {
		if r == 0 || (r == 4 && !eot) {
			return -1
		}
		return r
	}, strings.ToValidUTF8(s, ""))
}

func nonEmpty(t *rapid.T, label string) string {
	s := text(t, label)
	if s == "" {
		s = oneOf(t, label+".alt", words...)
	}
	return s
}

// line draws single-line text (for comments), optionally empty.
func line(t *rapid.T, label string) string {
	return oneLine(text(t, label))
}

func oneLine(s string) string {
	s = strings.NewReplacer("\n", "", "\r", "").Replace(s)
	return s
}

// flag draws a flag: non-empty, no comma, no surrounding white space, single line.
func flagText(t *rapid.T, label string) string {
	if chance(t, label+".std", 70) {
		return oneOf(t, label+".s", "fuzzy", "c-format", "no-c-format", "go-format", "no-wrap", "my-flag lol", "range: 0..5", "python-format")
	}
	s := strings.ReplaceAll(oneLine(text(t, label+".f")), ",", "")
	s = strings.TrimSpace(s)
	if s == "" {
		s = "flag"
	}
	return s
}

var fileNames = []string{
	"main.go", "a.go", "b.go", "pkg/x.go", "src/main.c", "./a.go", "../up.c", "/abs/y.py", "dir/z-1.ts", "Makefile", "x", "ünï.go", "a_b.go", "a=b.c", "f#1.go", "C:\\dir\\x.go", "a:b.go",
}

func location(t *rapid.T, label string, unknownLine bool) po.Location {
	l := po.Location{File: oneOf(t, label+".file", fileNames...), Line: intn(t, label+".line", 1, 3000)}
	if chance(t, label+".small", 40) {
		l.Line = intn(t, label+".line2", 0, 5)
	}
	if unknownLine && chance(t, label+".noline", 10) {
		l.Line = -1
	}
	if unknownLine && intn(t, label+".far", 0, 999)%61 == 30 {
		l.Line = oneOf(t, label+".farline", 65535, 65536, 1<<31-1, 1<<31, 1<<32+1, maxInt)
	}
	return l
}

// entryOpts steers the message generator.
type entryOpts struct {
	gnu        bool // restrict to what GNU gettext represents faithfully
	meta       bool // comments, flags, references
	obsolete   bool // obsolete messages possible
	fuzzy      bool // fuzzy flag possible
	untrans    bool // untranslated messages possible
	plural     bool
	context    bool
	nplurals   int // fixed number of plural forms; 0: 1..4
	plainIDs   bool
	bareplural bool // plural id without plural translations possible
}

func texts(t *rapid.T, label string, max int, f func(*rapid.T, string) string) []string {
	n := 0
	if chance(t, label+".has", 35) {
		n = intn(t, label+".n", 1, max)
	}
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, f(t, label))
	}
	return out
}

// sameHash are ids with the same 32-bit hash.
var sameHash = []string{"aq", "ba", "cQ", "dA", "e1"}

func genID(t *rapid.T, o entryOpts) string {
	if chance(t, "samehash", 6) {
		return oneOf(t, "hashid", sameHash...)
	}
	if o.plainIDs {
		return oneOf(t, "id", words...)
	}
	if o.gnu {
		return gnuText(t, "id", true)
	}
	return nonEmpty(t, "id")
}

func genEntry(t *rapid.T, o entryOpts) po.Entry {
	txt := text
	ne := nonEmpty
	if o.gnu {
		txt = func(t *rapid.T, l string) string { return gnuText(t, l, false) }
		ne = func(t *rapid.T, l string) string { return gnuText(t, l, true) }
	}
	e := po.Entry{ID: genID(t, o)}
	if o.context && chance(t, "hasctx", 30) {
		if chance(t, "ctxplain", 50) {
			e.Context = oneOf(t, "ctx", "menu", "button", "ctx")
		} else {
			e.Context = ne(t, "ctx")
		}
		if chance(t, "ctxonly", 8) {
			e.ID = ""
		}
	}
	tr := txt
	if !o.untrans {
		tr = ne
	}
	if o.plural && chance(t, "isplural", 25) {
		e.Plural = ne(t, "plural")
		n := o.nplurals
		if n == 0 {
			n = intn(t, "nforms", 1, 4)
		}
		blank := o.untrans && chance(t, "blankplural", 25)
		if !(o.bareplural && blank && chance(t, "bare", 50)) {
			for i := 0; i < n; i++ {
				p := po.PluralEntry{ID: i}
				if !blank {
					p.Str = tr(t, "form")
				}
				e.Plurals = append(e.Plurals, p)
			}
		}
	} else if o.untrans && chance(t, "untranslated", 25) {
		e.Str = ""
	} else {
		e.Str = tr(t, "str")
	}
	if o.meta {
		cm := line
		if o.gnu {
			cm = gnuComment
		}
		e.Comments = texts(t, "comment", 3, cm)
		e.ExtractedComments = texts(t, "extracted", 2, cm)
		if !o.gnu {
			e.Previous = texts(t, "previous", 2, func(t *rapid.T, l string) string {
				if chance(t, l+".std", 60) {
					return fmt.Sprintf("msgid %q", oneOf(t, l+".w", words...))
				}
				return line(t, l)
			})
		}
		fl := flagText
		if o.gnu {
			fl = func(t *rapid.T, l string) string {
				return oneOf(t, l, "c-format", "no-c-format", "python-format", "no-wrap", "sh-format")
			}
		}
		for _, f := range texts(t, "flag", 3, fl) {
			if f == "fuzzy" || contains(e.Flags, f) || (o.gnu && len(e.Flags) > 0) {
				continue
			}
			e.Flags = append(e.Flags, f)
		}
		if chance(t, "haslocs", 40) {
			for i := intn(t, "nlocs", 1, 3); i > 0; i-- {
				e.Locations = append(e.Locations, location(t, "loc", !o.gnu))
			}
		}
	}
	if o.fuzzy && chance(t, "fuzzy", 20) {
		i := intn(t, "fuzzyat", 0, len(e.Flags))
		e.Flags = append(e.Flags[:i:i], append([]string{"fuzzy"}, e.Flags[i:]...)...)
	}
	if o.obsolete && chance(t, "obsolete", 25) {
		e.Obsolete = true
	}
	return e
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// bigSizes are around the sizes buffers, counters and fields of files often have.
var bigSizes = []int{255, 256, 300, 1000, 4095, 4096, 4097, 10000, 65535, 65536, 66000, 140000}

// enlarge gives now and then one message of a list an unusual size: a long text, many plural forms, a high line number.
func enlarge(t *rapid.T, es po.Entries, gnu bool) po.Entries {
	k := intn(t, "enlarge", 0, 999)
	if len(es) == 0 || k%37 != 18 {
		return es
	}
	e := &es[intn(t, "enlarged", 0, len(es)-1)]
	long := func(label, s string) string {
		unit := oneOf(t, label+".unit", "word ", "x", "é", "日本", "two lines\n ", "q\"\\")
		if strings.HasPrefix(label, "line") {
			unit = oneLine(unit)
		}
		s = strings.Repeat(unit, oneOf(t, label+".size", bigSizes...)/len(unit)) + "." + s
		if gnu {
			s = strings.TrimRight(s, "\n")
		}
		return s
	}
	switch intn(t, "which", 0, 8) {
	case 0:
		e.ID = long("id", e.ID)
	case 1:
		if e.Plural == "" {
			e.Str = long("str", e.Str)
		} else {
			e.Plural = long("plural", e.Plural)
		}
	case 2, 3:
		if e.Plural == "" {
			e.Str, e.Plural = "", e.ID+"s"
		}
		n := oneOf(t, "forms", 5, 6, 10, 11, 12, 100, 255, 256, 300)
		e.Plurals = nil
		blanks := oneOf(t, "blanks", 0, 0, 2, 3, n-1) // the first form is never blank
		for i := 0; i < n; i++ {
			p := po.PluralEntry{ID: i, Str: fmt.Sprint("form ", i)}
			if blanks > 0 && i > 0 && i%blanks == 0 {
				p.Str = ""
			}
			e.Plurals = append(e.Plurals, p)
		}
	case 4:
		if e.Context != "" {
			e.Context = long("context", e.Context)
		} else if len(e.Plurals) > 0 {
			e.Plurals[len(e.Plurals)-1].Str = long("form", e.Plurals[len(e.Plurals)-1].Str)
		}
	case 5:
		if len(e.Comments) > 0 {
			e.Comments[0] = long("line1", e.Comments[0])
		}
		if len(e.ExtractedComments) > 0 && !gnu {
			e.ExtractedComments[0] = long("line2", e.ExtractedComments[0])
		}
	case 6:
		if len(e.Locations) > 0 {
			e.Locations[0].Line = oneOf(t, "high", 9999, 32767, 32768, 65535, 65536, 1000000, 16777216, 2147483647)
		}
	case 7, 8: // a long list
		n := oneOf(t, "items", 4, 7, 9, 17, 65, 130, 300)
		switch what := intn(t, "list", 0, 3); {
		case what == 0 && (len(e.Comments) > 0 || !gnu):
			for i := 0; i < n; i++ {
				e.Comments = append(e.Comments, fmt.Sprint("note ", i))
			}
		case what == 1 && len(e.Locations) > 0:
			for i := 0; i < n; i++ {
				e.Locations = append(e.Locations, po.Location{File: fmt.Sprintf("f%d.go", i%7), Line: i + 1})
			}
		case what == 2 && (len(e.ExtractedComments) > 0 || !gnu):
			for i := 0; i < n; i++ {
				e.ExtractedComments = append(e.ExtractedComments, fmt.Sprint("hint ", i))
			}
		case what == 3 && !gnu && len(e.Flags) > 0:
			for i := 0; i < n; i++ {
				e.Flags = append(e.Flags, fmt.Sprintf("x-flag-%d", i))
			}
		}
	}
	return es
}

// crowdSize draws the number of plain messages to add to a list: nearly always none.
func crowdSize(t *rapid.T) int {
	if k := intn(t, "crowd", 0, 9999); k%997 != 498 {
		return 0
	}
	return oneOf(t, "crowdsize", 100, 255, 256, 257, 300, 1000, 1024, 4000, 10007, 66000)
}

// crowd appends n plain messages.
func crowd(es po.Entries, n int) po.Entries {
	if n == 0 {
		return es
	}
	seen := map[string]bool{}
	for _, e := range es {
		seen[lookupKey(e)] = true
	}
	for i := 0; i < n; i++ {
		if e := (po.Entry{ID: fmt.Sprint("crowd ", i), Str: fmt.Sprint("foule ", i)}); !seen[lookupKey(e)] {
			es = append(es, e)
		}
	}
	return es
}

// unusual reports whether a message has one of the sizes of enlarge.
func unusual(e po.Entry) bool {
	n := 0
	for _, s := range append([]string{e.ID, e.Str, e.Context, e.Plural}, append(e.Comments, forms(e)...)...) {
		n += len(s)
	}
	return n > 250 || len(e.Plurals) > 4 || (len(e.Locations) > 0 && e.Locations[0].Line > 3000)
}

func forms(e po.Entry) []string {
	var r []string
	for _, p := range e.Plurals {
		r = append(r, p.Str)
	}
	return r
}

// gnuText draws text GNU gettext carries through unchanged (printable or \n, \t; msgfmt demands that
// id and translation agree on leading/trailing newlines, so those are avoided).
func gnuText(t *rapid.T, label string, need bool) string {
	s := text(t, label)
	s = strings.Map(func(r rune) rune {
		switch {
		case r == '\n' || r == '\t':
			return r
		case r < 32 || (r >= 0x7f && r < 0xa0) || r == 0xfeff || r == 0x2028 || r == 0x2029 || r >= 0xe0000 || (r >= 0xe000 && r < 0xf900) || r == 0xfffd || r == 0xad:
			return -1
		}
		return r
	}, s)
	s = strings.Trim(s, "\n")
	if need && s == "" {
		s = oneOf(t, label+".alt", words...)
	}
	return s
}

func gnuComment(t *rapid.T, label string) string {
	s := oneLine(gnuText(t, label, false))
	s = strings.TrimSpace(strings.NewReplacer("\t", " ").Replace(s))
	if s == "" || strings.HasSuffix(s, "\\") { // gettext joins lines at a backslash
		s += "note"
	}
	return s
}

// entries draws a list of messages with distinct (context, id).
func entries(t *rapid.T, o entryOpts, min, max int) po.Entries {
	n := intn(t, "nentries", min, max)
	var out po.Entries
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		e := genEntry(t, o)
		for k := 0; seen[uid(e)]; k++ {
			e.ID += fmt.Sprint(k)
		}
		seen[uid(e)] = true
		out = append(out, e)
	}
	return out
}

// uid is the harness's own identity of a message: context and id.
func uid(e po.Entry) string {
	return fmt.Sprintf("%d:%s|%s", len(e.Context), e.Context, e.ID)
}

const headerText = "Project-Id-Version: demo 1.0\nLanguage: es\nMIME-Version: 1.0\nContent-Type: text/plain; charset=UTF-8\nContent-Transfer-Encoding: 8bit\nPlural-Forms: nplurals=2; plural=(n != 1);\n"

func header() po.Entry { return po.Entry{Str: headerText} }

func isASCIIPlain(s string) bool {
	for _, r := range s {
		if r < 32 || r > 126 || r == '"' || r == '\\' {
			return false
		}
	}
	return utf8.ValidString(s)
}
